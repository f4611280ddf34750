import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
HEAD = '''#include "cantera/kinetics/PlogRate.h"
#include "cantera/kinetics/Falloff.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/base/AnyMap.h"
#include <cmath>
#include <iostream>
using namespace Cantera;
static int near(double a, double b) { return std::abs(a - b) < 1e-8 * (1 + std::abs(b)); }
'''
mkseed("C19a", "C19", [("src/kinetics/PlogRate.cpp", "pressures_.rbegin()->first != logp)", "logp - pressures_.rbegin()->first > 0.5)")],
       "a pressure table with two neighbouring pressures that differ by less than a factor of 1.6", "the rates of the two pressures are added",
       cpp=HEAD + '''int main() {
    std::multimap<double, ArrheniusRate> m{{1e5, ArrheniusRate(2.0, 0, 0)}, {1.5e5, ArrheniusRate(8.0, 0, 0)}, {1e7, ArrheniusRate(16.0, 0, 0)}};
    PlogRate r(m);
    auto ev = r.newMultiRate();
    ev->update(1000., 1e5);
    double a = ev->evalSingle(r);
    ev->update(1000., 1.5e5);
    double b = ev->evalSingle(r);
    std::cout << a << " " << b << std::endl;
    return near(a, 2) && near(b, 8) ? 0 : 1;
}
''')
mkseed("C19b", "C19", [("src/thermo/Nasa9PolyMultiTempRegion.cpp", '''        double* cp_R, double* h_RT, double* s_R) const
{
    m_currRegion = 0;
    for (size_t i = 1; i < m_regionPts.size(); i++) {
        if (tt[0] < m_lowerTempBounds[i]) {''', '''        double* cp_R, double* h_RT, double* s_R) const
{
    // start from the region of the previous call
    if (m_currRegion > 0 && tt[0] < m_lowerTempBounds[m_currRegion]) {
        m_currRegion--;
    }
    for (size_t i = m_currRegion + 1; i < m_regionPts.size(); i++) {
        if (tt[0] < m_lowerTempBounds[i]) {''')],
       "three or more temperature regions, and an evaluation two regions below the previous one", "the polynomial of the wrong region is used",
       cpp=HEAD + '''int main() {
    auto m = AnyMap::fromYamlString("name: A\\ncomposition: {H: 1}\\nthermo:\\n  model: NASA9\\n  temperature-ranges: [200, 1000, 2000, 6000]\\n"
        "  data:\\n  - [0, 0, 3, 0, 0, 0, 0, 0, 0]\\n  - [0, 0, 4, 0, 0, 0, 0, 0, 0]\\n  - [0, 0, 5, 0, 0, 0, 0, 0, 0]\\n");
    m.applyUnits();
    auto sp = newSpecies(m);
    double T[] = {300, 1500, 3000, 400, 2500, 1200, 500, 6500, 100}, e[] = {3, 4, 5, 3, 5, 4, 3, 5, 3};
    for (int i = 0; i < 9; i++) {
        double tt[10], cp, h, s;
        sp->thermo->updateTemperaturePoly(T[i], tt);
        sp->thermo->updateProperties(tt, &cp, &h, &s);
        std::cout << T[i] << " " << cp << std::endl;
        if (!near(cp, e[i])) {
            return 1;
        }
    }
}
''')
mkseed("C19c", "C19", [("src/kinetics/Falloff.cpp", "    if (m_t2) {\n        Fcent", "    if (m_t2 > 0.) {\n        Fcent")],
       "a Troe function with a negative T2", "the last term of the centre value is left out",
       cpp=HEAD + '''int main() {
    double c = std::log(2.0);
    TroeRate r(ArrheniusRate(1.0, 0, 0), ArrheniusRate(1.0, 0, 0), {1.0, 100.0, 500.0 / c, -1000.0 * c});
    double w[4];
    r.updateTemp(1000., w);
    double F = std::pow(10., w[0]);
    std::cout << F << std::endl;
    return near(F, 0.25 + 2.0) ? 0 : 1;
}
''')
mkseed("C19d", "C19", [("src/thermo/Mu0Poly.cpp", "(deltaMu - T1 * s2 + T2 * s2) / (deltaT - T1 * log(T2/T1))", "(deltaMu - T1 * s2 + T2 * s2) / (deltaT - T2 * log(T2/T1))")],
       "a table of Gibbs energies with points below 298.15 K", "the tabulated values below 298.15 K are not met",
       cpp=HEAD + '''int main() {
    auto m = AnyMap::fromYamlString("name: A\\ncomposition: {H: 1}\\nthermo:\\n  model: piecewise-Gibbs\\n  h0: 1000 J/kmol\\n  T-min: 200\\n  T-max: 600\\n  dimensionless: true\\n"
        "  data: {200: -3.0, 250: -2.0, 298.15: 1.0, 400: 2.0, 600: 5.0}\\n");
    m.applyUnits();
    auto sp = newSpecies(m);
    double T[] = {200, 250, 298.15, 400, 600}, e[] = {-3, -2, 1, 2, 5};
    int bad = 0;
    for (int i = 0; i < 5; i++) {
        double cp, h, s;
        sp->thermo->updatePropertiesTemp(T[i], &cp, &h, &s);
        std::cout << T[i] << " " << h - s << std::endl;
        bad += !near(h - s, e[i]);
    }
    return bad;
}
''')
