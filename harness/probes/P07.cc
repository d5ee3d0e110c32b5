// The query for the side of a wedge must exist (fixed: aba9442)
#include "Mesh_simple.hh"
int ask(Jali::Mesh const &m) { return m.wedge_get_side(0); }
int main(int argc, char **argv) { return argc > 1 && ask(*reinterpret_cast<Jali::Mesh *>(argv)); }
