import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/numerics/BandMatrix.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/SystemJacobian.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include <cmath>
#include <cstdio>
using namespace Cantera;
'''
F = "src/numerics/BandMatrix.cpp"
mkseed("C17a", "C17", [(F, """    m_ipiv->data = y.m_ipiv->data;
    data = y.data;""", """    m_ipiv->data.resize(y.m_ipiv->data.size());
    data = y.data;""")],
       "a factored banded matrix that needed row exchanges is assigned to another one, which is then used to solve",
       "the solution uses the row exchanges of the other matrix",
       cpp=INC + '''int main() { BandMatrix a(3, 1, 1), c(3, 1, 1); a(0,0)=1; a(1,0)=3; a(0,1)=2; a(1,1)=1; a(2,1)=5; a(1,2)=1; a(2,2)=1;
  for (int i = 0; i < 3; i++) c(i,i) = 1; double t[3] = {1,1,1}; c.solve(t); double b[3] = {3, 5, 6}; a.solve(b); c = a; double d[3] = {3, 5, 6}; c.solve(d);
  for (int i = 0; i < 3; i++) if (std::abs(b[i]-1) > 1e-9 || std::abs(d[i]-1) > 1e-9) return 1; return 0; }
''')
mkseed("C17c", "C17", [("src/numerics/EigenSparseJacobian.cpp", """    // reset arrays in case of re-initialization
    m_jac_trips.clear();
    // set""", """    // reset arrays in case of re-initialization
    if (networkSize != m_matrix.rows()) {
        m_jac_trips.clear();
    }
    // set""")],
       "a sparse Jacobian initialised again for the same number of variables", "the entries from before are added to the new ones",
       cpp=INC + '''int main() { auto j = newSystemJacobian("eigen-sparse-direct"); j->initialize(2); j->setValue(0,0,2); j->setValue(1,1,4); int mask[2] = {0,0}; j->updateTransient(0, mask);
  j->initialize(2); j->setValue(0,0,1); j->setValue(1,1,1); j->updateTransient(0, mask); double b[2] = {1,1}, x[2]; j->solve(2, b, x);
  return std::abs(x[0]-1) + std::abs(x[1]-1) < 1e-9 ? 0 : 1; }
''')
mkseed("C17d", "C17", [(F, """    std::fill(data.begin(), data.end(), v);
    m_factored = false;""", """    std::fill(data.begin(), data.end(), v);
    m_factored = m_factored && v != 0.0;""")],
       "a factored banded matrix is filled with a value other than zero and used to solve without touching single entries",
       "the solution is that of the earlier matrix",
       cpp=INC + '''int main() { BandMatrix a(3, 0, 0, 2.); double b[3] = {2, 2, 2}; a.solve(b); a.bfill(4.); double c[3] = {2, 2, 2}; a.solve(c); return std::abs(c[0]-0.5) < 1e-12 ? 0 : 1; }
''')
