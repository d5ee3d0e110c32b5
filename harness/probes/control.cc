// Compiles and links whenever the library's interface does at all
#include "Mesh_simple.hh"
#include "JaliState.h"
#include "JaliStateVector.h"
#include "MeshTile.hh"
using namespace Jali;
int main() {
  auto m = std::make_shared<Mesh_simple>(0., 0., 0., 1., 1., 1., 2, 2, 2, MPI_COMM_WORLD);
  auto s = State::create(m);
  UniStateVector<double, Mesh> v("v", m, s, Entity_kind::CELL, Entity_type::ALL, 1.0);
  return v.size() != 8 || m->num_cells() != 8;
}
