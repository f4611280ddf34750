import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
PH = "src/thermo/Phase.cpp"
PRE = '''import cantera as ct, sys
def sp(n, c, q=0):
    s = ct.Species(n, c, charge=q)
    s.thermo = ct.ConstantCp(200, 5000, 1e5, [298.15, 0, 0, 30000])
    return s
'''
mkseed("C05a", "C05", [(PH, "    if (m_speciesLower.find(nLower) == m_speciesLower.end()) {\n        m_speciesLower[nLower] = m_kk;",
                        "    if (getValue(m_speciesLower, nLower, npos) == npos) {\n        m_speciesLower[nLower] = m_kk;")],
       "three species whose names differ only in case and a look-up by a further spelling",
       "an ambiguous case-insensitive name resolves to the third species",
       py=PRE + '''g = ct.Solution(thermo="ideal-gas", species=[sp("AbC", {"H": 1}), sp("ABc", {"H": 2}), sp("aBC", {"H": 3})])
try:
    g.species_index("abc")
    sys.exit(1)
except ct.CanteraError:
    sys.exit(0)
''')
mkseed("C05b", "C05", [(PH, "    // Update species compositions\n    if (m_kk) {", "    // Update species compositions\n    if (m_kk > 1) {")],
       "an element that is declared after exactly one species",
       "element compositions of later species are shifted",
       py=PRE + '''g = ct.Solution(thermo="ideal-gas", species=[sp("A", {"H": 1}), sp("B+", {"H": 2}, 1), sp("C", {"H": 3})])
sys.exit(0 if g.n_atoms("A", "H") == 1 and g.n_atoms("B+", "H") == 2 and g.n_atoms("C", "H") == 3 and g.n_atoms("B+", "E") == -1
         and abs(g.n_atoms("C", "E")) == 0 else 1)
''')
mkseed("C05c", "C05", [("src/zeroD/ReactorBase.cpp", "    if (m_solution) {\n        m_solution->thermo()->removeSpeciesLock();\n    }\n    m_solution = sol;", "    if (m_solution && m_solution != sol) {\n        m_solution->thermo()->removeSpeciesLock();\n    }\n    m_solution = sol;")],
       "the contents of a reactor set again to the object it already holds, then the reactor deleted",
       "a species lock is kept forever",
       cpp="""#include "cantera/core.h"
#include "cantera/zerodim.h"
using namespace Cantera;
int main() { auto s = newSolution("h2o2.yaml", "", "none");
  suppress_deprecation_warnings();
  { Reservoir r(s); r.setSolution(s); }
  try { s->thermo()->removeSpeciesLock(); } catch (CanteraError&) { return 0; }
  return 1; }
""")
