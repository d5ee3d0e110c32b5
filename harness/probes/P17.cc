// Multi-material vectors of arrays can be read through const access (fixed: 5871618)
#include <array>
#include "JaliStateVector.h"
#include "JaliState.h"
using namespace Jali;
typedef std::array<double, 3> A;
double read(MultiStateVector<A, Mesh> const &v) { return v(0, 0)[0]; }
int main() {}
