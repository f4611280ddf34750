import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
HEAD = '''#include "cantera/thermo.h"
#include "cantera/equil/MultiPhase.h"
#include <cmath>
#include <iostream>
using namespace Cantera;
static int near(double a, double b) { return std::abs(a - b) < 1e-6 * (1 + std::abs(b)); }
// phase of isomers or a solid with constant heat capacities; g: standard Gibbs energies at 1000 K in units of RT ln 2
static std::shared_ptr<ThermoPhase> make(const std::string& name, bool gas, const std::vector<std::pair<std::string, std::vector<double>>>& sp)
{
    std::string y = "phases:\\n- name: " + name + "\\n  thermo: " + (gas ? "ideal-gas" : "fixed-stoichiometry") + "\\n  elements: [H, O]\\n  species: [";
    for (auto& s : sp) {
        y += s.first + ", ";
    }
    y += "]\\nspecies:\\n";
    for (auto& s : sp) {
        auto& v = s.second;
        y += fmt::format("- name: {}\\n  composition: {{", s.first) + (v[0] ? fmt::format("H: {},", v[0]) : "") + (v[1] ? fmt::format("O: {}", v[1]) : "") + "}\\n";
        y += fmt::format("  thermo: {{model: constant-cp, T0: 1000, h0: {:.16g} J/kmol, s0: {:.16g} J/kmol/K, cp0: {:.16g} J/kmol/K, reference-pressure: 1e5 Pa}}\\n",
                         v[3] * GasConstant, (v[3] / 1000 - v[2] * std::log(2.0)) * GasConstant, 4 * GasConstant);
        if (!gas) {
            y += "  equation-of-state: {model: constant-volume, density: 1e6 kg/m^3}\\n";
        }
    }
    AnyMap r = AnyMap::fromYamlString(y);
    return newThermo(r["phases"].asVector<AnyMap>()[0], r);
}
'''
mkseed("C18a", "C18", [("src/equil/MultiPhase.cpp", '''            debuglog("MultiPhaseEquil solver failed.\\n", log_level);
            debuglog(err.what(), log_level);
            m_moleFractions = initial_moleFractions;
            m_moles = initial_moles;''', '''            debuglog("MultiPhaseEquil solver failed.\\n", log_level);
            debuglog(err.what(), log_level);
            m_moleFractions = initial_moleFractions;''')],
       "an equilibration by the Gibbs solver that fails", "the moles of the phases are not restored",
       cpp=HEAD + '''int main() {
    auto g = make("g", true, {{"A", {1, 0, 0, 0}}, {"B", {1, 0, 1, 500}}, {"C", {2, 1, -3, -4000}}, {"D", {0, 1, 2, 1000}}});
    auto s = make("s", false, {{"S", {1, 1, -1, 0}}});
    MultiPhase m;
    m.addPhase(g, 1.0);
    m.addPhase(s, 2.0);
    m.setState_TP(1000, 1e5);
    double n[] = {1, 2, 3, 0.5, 2}, x[5];
    m.setMoles(n);
    try {
        m.equilibrate("TP", "gibbs", 1e-9, 2);
        return 3;
    } catch (CanteraError&) {
    }
    m.getMoles(x);
    int bad = 0;
    for (int k = 0; k < 5; k++) {
        std::cout << x[k] << " ";
        bad += !near(x[k], n[k]);
    }
    return bad;
}
''')
mkseed("C18d", "C18", [("src/equil/ChemEquil.cpp", '''        tempFixed = false;
        m_p1 = [](ThermoPhase& s) { return s.entropy_mass(); };
        m_p2 = [](ThermoPhase& s) { return s.density(); };''', '''        tempFixed = false;
        m_p1 = [](ThermoPhase& s) { return s.entropy_mole(); };
        m_p2 = [](ThermoPhase& s) { return s.density(); };''')],
       "fixed entropy and volume, and reactions that change the number of moles", "the entropy per mole is held instead of the entropy",
       cpp=HEAD + '''int main() {
    auto g = make("g", true, {{"A", {1, 0, 0, 0}}, {"B", {2, 0, -1, -6000}}});
    g->setState_TPX(1500, 1e5, "A:0.9, B:0.1");
    double s = g->entropy_mass(), v = g->density();
    g->equilibrate("SV", "element_potential");
    std::cout << s << " " << g->entropy_mass() << std::endl;
    return std::abs(s / g->entropy_mass() - 1) < 1e-5 && std::abs(v / g->density() - 1) < 1e-5 ? 0 : 1;
}
''')
mkseed("C18f", "C18", [("src/equil/MultiPhase.cpp", '''        double phasesum = 0.0;
        size_t nsp = m_phase[i]->nSpecies();
        for (size_t ik = 0; ik < nsp; ik++) {
            size_t k = speciesIndex(ik, i);
            phasesum += m_atoms(m,k)*m_moleFractions[k];''', '''        double phasesum = 0.0;
        size_t nsp = m_phase[i]->nSpecies();
        for (size_t ik = 0; ik < nsp; ik++) {
            size_t k = speciesIndex(ik, i);
            phasesum += std::max(m_atoms(m,k), 0.0)*m_moleFractions[k];''')],
       "positive ions (negative amounts of the element E)", "the amount of electrons counts only the negative ions",
       cpp=HEAD + '''int main() {
    auto r = AnyMap::fromYamlString("phases:\\n- name: p\\n  thermo: ideal-gas\\n  elements: [H, E]\\n  species: [Hp, Hm]\\nspecies:\\n- name: Hp\\n  composition: {H: 1, E: -1}\\n"
        "  thermo: {model: constant-cp}\\n- name: Hm\\n  composition: {H: 1, E: 1}\\n  thermo: {model: constant-cp}\\n");
    auto g = newThermo(r["phases"].asVector<AnyMap>()[0], r);
    g->setState_TPX(1000, 1e5, "Hp:0.25, Hm:0.75");
    MultiPhase m;
    m.addPhase(g, 4.0);
    m.init();
    size_t e = m.elementIndex("E");
    std::cout << m.elementMoles(e) << std::endl;
    return near(m.elementMoles(e), 2.0) ? 0 : 1;
}
''')
