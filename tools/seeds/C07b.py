import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
F = "src/base/Units.cpp"
INC = '''#include "cantera/base/AnyMap.h"
#include "cantera/base/Units.h"
#include <cmath>
#include <cstdio>
using namespace Cantera;
'''
mkseed("C07b", "C07", [(F, "        return value * m_activation_energy_factor / (Avogadro * dest.factor());", "        return value * m_activation_energy_factor * ElectronCharge / (Faraday * Units(\"eV\").factor());")],
       "an activation energy without units requested in a multiple of eV, such as meV",
       "prefixes of eV destinations are ignored",
       cpp=INC + '''int main() { UnitSystem u; double a = u.convertActivationEnergyTo(1e8, "eV"), b = u.convertActivationEnergyTo(1e8, "meV");
  return std::abs(b / a - 1000) < 1e-6 ? 0 : 1; }
''')
