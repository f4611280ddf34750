import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
F = "src/base/Units.cpp"
mkseed("C07a", "C07", [(F, "* pow(m_time_factor, -src.m_time_dim - 2*src.m_pressure_dim - 2*src.m_energy_dim)",
                        "* pow(m_time_factor, -src.m_time_dim - 2*src.m_pressure_dim)")],
       "convertFrom of a unit with explicit energy units in a system whose default time unit is not the second",
       "energies are scaled by the default time unit although energy units are explicit",
       cpp='''#include "cantera/base/Units.h"
#include <cmath>
using namespace Cantera;
int main() { UnitSystem u; u.setDefaults({"min", "kcal"});
  double v = u.convertFrom(1.0, "kJ");
  return std::abs(v - 1/4.184) < 1e-9 ? 0 : 1; }
''')
