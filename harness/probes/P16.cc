// Copies of vectors on tiles and of multi-material vectors can be added (fixed: 66b004b)
#include "JaliState.h"
#include "MeshTile.hh"
using namespace Jali;
void tile(State &s, UniStateVector<double, MeshTile> const &v) { s.add(v); }
void multi(State &s, MultiStateVector<double, Mesh> const &v) { s.add(v); }
int main() {}
