import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/core.h"
#include "cantera/thermo/PureFluidPhase.h"
#include <cmath>
#include <cstdio>
using namespace Cantera;
'''
mkseed("C01b", "C01", [("src/thermo/Phase.cpp", """    scale(m_ym.begin(), m_ym.end(), m_ym.begin(), 1/(m_mmw * totalMoles));
    // composition has changed
    compositionChanged();""", """    scale(m_ym.begin(), m_ym.end(), m_ym.begin(), 1/(m_mmw * totalMoles));
    // composition has changed
    m_stateNum++;""")],
       "setMolesNoTruncate on a phase whose density or mixture coefficients depend on composition",
       "the density of the phase is that of the earlier composition",
       cpp=INC + '''int main() { auto s = newSolution("/repo/test/data/thermo-models.yaml", "molten-salt-Margules", "none"); auto g = s->thermo();
  g->setState_TPX(1000, 1e5, "KCl(l):1"); double n[2] = {1, 3}; g->setMolesNoTruncate(n); double d = g->density();
  g->setState_TPX(1000, 1e5, "KCl(l):1, LiCl(l):3"); printf("%g %g\\n", d, g->density());
  return std::abs(d - g->density()) < 1e-8 * d ? 0 : 1; }
''')
mkseed("C01c", "C01", [("src/thermo/PureFluidPhase.cpp", """    Set(tpx::PropertyPair::TV, T, m_sub->v());
    ThermoPhase::setTemperature(T);""", """    double p = m_sub->P();
    if (p > m_sub->Pcrit()) {
        Set(tpx::PropertyPair::TP, T, p);
    } else {
        Set(tpx::PropertyPair::TV, T, m_sub->v());
    }
    ThermoPhase::setTemperature(T);""")],
       "changing only the temperature of a pure fluid whose pressure is above the critical pressure",
       "the pressure stays at its old value, inconsistent with temperature and density",
       cpp=INC + '''int main() { auto s = newSolution("liquidvapor.yaml", "carbon-dioxide", "none"); auto g = s->thermo();
  g->setState_TP(350, 3e7); double d = g->density(); g->setTemperature(400); double p = g->pressure();
  auto s2 = newSolution("liquidvapor.yaml", "carbon-dioxide", "none"); s2->thermo()->setState_TD(400, d);
  printf("%g %g\\n", p, s2->thermo()->pressure()); return std::abs(p / s2->thermo()->pressure() - 1) < 1e-6 ? 0 : 1; }
''')
mkseed("C01d", "C01", [("src/thermo/ThermoPhase.cpp", """        setState_UV(state.convert("U", "J/kg"), state.convert("V", "m^3/kg"));""",
 """        setState_UV(state.convert("U", "J/kg"), state["V"].asDouble() * state.units().convertTo(1.0, "m^3/kg"));""")],
       "setState with internal energy and a specific volume written with its own units",
       "the setter refuses, or misreads, a specific volume with units",
       cpp=INC + '''int main() { auto s = newSolution("h2o2.yaml", "", "none"); auto g = s->thermo();
  g->setState_TP(500, 1e5); double u = g->intEnergy_mass(), v = 1 / g->density(); AnyMap m; m["U"] = u; m["V"] = fmt::format("{:.17g} cm^3/g", v * 1e3);
  try { g->setState(m); } catch (CanteraError& e) { printf("%s", e.what()); return 1; }
  return std::abs(g->temperature() - 500) < 1e-6 ? 0 : 1; }
''')
