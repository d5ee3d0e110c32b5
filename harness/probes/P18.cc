// Vectors give their data, and on tiles and sets their mesh (fixed: bf64eaa, ebd3119)
#include "JaliState.h"
#include "JaliStateVector.h"
#include "MeshTile.hh"
#include "MeshSet.hh"
using namespace Jali;
std::shared_ptr<std::vector<double>> data(UniStateVector<double, Mesh> &v) { return v.get_data(); }
Mesh const &mesh(UniStateVector<double, MeshTile> &v) { return v.mesh(); }
Mesh const &meshm(MultiStateVector<double, MeshTile> &v) { return v.mesh(); }
Mesh const &meshs(UniStateVector<double, MeshSet> &v) { return v.mesh(); }
int main() {}
