import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
INC = '''#include "cantera/core.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/Wall.h"
#include "cantera/numerics/Func1.h"
#include <cmath>
#include <cstdio>
using namespace Cantera;
static shared_ptr<Solution> gas(double T, double P, const std::string& X, const std::string& id = "ohmech") {
  suppress_warnings(); suppress_deprecation_warnings();
  auto s = newSolution("h2o2.yaml", id, "none"); s->thermo()->setState_TPX(T, P, X); return s; }
static bool near(double a, double b) { return std::abs(a - b) <= 1e-6 * (std::abs(a) + std::abs(b)) + 1e-12; }
'''
N = "src/zeroD/ReactorNet.cpp"
mkseed("C10a", "C10", [(N, """bool ReactorNet::getAdvanceLimits(double *limits) const
{
    bool has_limit = false;
    for (size_t n = 0; n < m_reactors.size(); n++) {
        has_limit |= m_reactors[n]->getAdvanceLimits(limits + m_start[n]);""", """bool ReactorNet::getAdvanceLimits(double *limits) const
{
    bool has_limit = false;
    for (size_t n = 0; n < m_reactors.size(); n++) {
        has_limit = has_limit || m_reactors[n]->getAdvanceLimits(limits + m_start[n]);""")],
       "two reactors of a network have limits for advancing", "the limits of the second one are neither reported nor kept",
       cpp=INC + '''int main() { auto a = gas(300, 1e5, "O2:1"), b = gas(300, 1e5, "O2:1");
  auto r1 = std::dynamic_pointer_cast<Reactor>(newReactor("IdealGasReactor", a)), r2 = std::dynamic_pointer_cast<Reactor>(newReactor("IdealGasReactor", b));
  ReactorNet net; net.addReactor(*r1); net.addReactor(*r2); net.initialize(); r1->setAdvanceLimit("mass", 2.0); r2->setAdvanceLimit("mass", 3.0);
  std::vector<double> lim(net.neq(), -5); net.getAdvanceLimits(lim.data());
  return lim[0] == 2.0 && lim[r1->neq()] == 3.0 ? 0 : 1; }
''')
mkseed("C10b", "C10", [(N, """            delta = abs(m_yest[j] - y[j]);
            if ( (m_advancelimits[j] > 0.) && ( delta > m_advancelimits[j]) ) {""", """            delta = m_yest[j] - y[j];
            if ( (m_advancelimits[j] > 0.) && ( delta > m_advancelimits[j]) ) {""")],
       "advancing with a limit on a component that decreases", "the limit is ignored",
       cpp=INC + '''int main() { auto a = gas(300, 1e5, "O2:1"); auto r = newReactor("IdealGasReactor", a); r->setInitialVolume(1000); auto e = newReactor("Reservoir", a);
  auto d = std::dynamic_pointer_cast<MassFlowController>(newConnectorNode("MassFlowController", r, e)); d->setMassFlowRate(3.0);
  auto rr = std::dynamic_pointer_cast<Reactor>(r); ReactorNet net; net.addReactor(*rr); net.setMaxTimeStep(1); rr->setAdvanceLimit("mass", 1.0);
  net.step(); double m = r->mass(), t = net.time(); double t2 = net.advance(t + 8, true); return m - r->mass() <= 1.0001 && t2 < t + 1 ? 0 : 1; }
''')
mkseed("C10c", "C10", [("src/zeroD/ReactorBase.cpp", """    m_thermo->saveState(m_state);
    m_enthalpy = m_thermo->enthalpy_mass();
    m_intEnergy = m_thermo->intEnergy_mass();
    m_pressure = m_thermo->pressure();
    if (m_net) {""", """    bool changed = m_state.empty() || m_thermo->density() != density();
    m_thermo->saveState(m_state);
    m_enthalpy = m_thermo->enthalpy_mass();
    m_intEnergy = m_thermo->intEnergy_mass();
    m_pressure = m_thermo->pressure();
    if (m_net && changed) {""")],
       "the contents of a reactor are replaced at unchanged density while its network is being integrated",
       "the integrator goes on from the old contents",
       cpp=INC + '''int main() { auto a = gas(300, 1e5, "O2:1"); auto r = newReactor("IdealGasReactor", a); auto rr = std::dynamic_pointer_cast<Reactor>(r);
  ReactorNet net; net.addReactor(*rr); net.advance(1.0); a->thermo()->setState_TD(900, a->thermo()->density()); r->syncState(); net.advance(2.0);
  return near(r->temperature(), 900) ? 0 : 1; }
''')
mkseed("C10d", "C10", [(N, """    // reduce time step if limits are exceeded
    while (true) {""", """    // reduce time step if limits are exceeded
    for (int tries = 0; tries < 2; tries++) {""")],
       "a limit that asks for the time to be halved more than twice", "the advance goes past the limit",
       cpp=INC + '''int main() { auto a = gas(300, 1e5, "O2:1"); auto r = newReactor("IdealGasReactor", a); r->setInitialVolume(1000); auto e = newReactor("Reservoir", a);
  auto d = std::dynamic_pointer_cast<MassFlowController>(newConnectorNode("MassFlowController", e, r)); d->setMassFlowRate(3.0);
  auto rr = std::dynamic_pointer_cast<Reactor>(r); ReactorNet net; net.addReactor(*rr); net.setMaxTimeStep(1); rr->setAdvanceLimit("mass", 1.0);
  net.step(); double m = r->mass(), t = net.time(); net.advance(t + 8, true); return r->mass() - m <= 1.0001 ? 0 : 1; }
''')
F = "src/zeroD/flowControllers.cpp"
mkseed("C11a", "C11", [(F, """    m_primary->updateMassFlowRate(time);
    mdot += m_primary->massFlowRate();
    m_mdot = std::max(mdot, 0.0);""", """    mdot += m_primary->massFlowRate();
    m_mdot = std::max(mdot, 0.0);""")],
       "a pressure controller whose primary flow varies in time and feeds a reactor that is updated later",
       "the controller follows the primary flow of an earlier time",
       cpp=INC + '''struct L : Func1 { double eval(double t) const override { return 1 + t; } };
int main() { auto g = gas(300, 1e5, "O2:1"); auto e = newReactor("Reservoir", g); auto r1 = newReactor("IdealGasReactor", gas(300, 1e5, "O2:1")), r2 = newReactor("IdealGasReactor", gas(300, 1e5, "O2:1"));
  auto m = std::dynamic_pointer_cast<MassFlowController>(newConnectorNode("MassFlowController", e, r2)); L f; m->setMassFlowRate(1.0); m->setTimeFunction(&f);
  auto p = std::dynamic_pointer_cast<PressureController>(newConnectorNode("PressureController", r1, e)); p->setPrimary(m.get()); p->setPressureCoeff(0.0);
  ReactorNet net; net.addReactor(*std::dynamic_pointer_cast<Reactor>(r1)); net.addReactor(*std::dynamic_pointer_cast<Reactor>(r2)); net.initialize();
  std::vector<double> y(net.neq()), d(net.neq()); net.getState(y.data()); net.eval(0, y.data(), d.data(), nullptr); net.eval(4, y.data(), d.data(), nullptr);
  return near(p->massFlowRate(), 5.0) ? 0 : 1; }
''')
mkseed("C11b", "C11", [(F, """    if (m_pfunc) {
        mdot *= m_pfunc->eval(delta_P);
    } else {
        mdot *= delta_P;
    }
    m_mdot = std::max(mdot, 0.0);
}""", """    if (m_pfunc) {
        mdot = m_coeff * m_pfunc->eval(delta_P);
    } else {
        mdot *= delta_P;
    }
    m_mdot = std::max(mdot, 0.0);
}""")],
       "a valve with both a time function and a pressure function", "the time function is ignored",
       cpp=INC + '''struct L : Func1 { double c; L(double c_) : c(c_) {} double eval(double t) const override { return c; } };
int main() { auto g = gas(300, 1e5, "O2:1"); auto e = newReactor("Reservoir", g); auto r = newReactor("IdealGasReactor", gas(300, 1e5, "O2:1"));
  auto v = std::dynamic_pointer_cast<Valve>(newConnectorNode("Valve", e, r)); L f(3), q(2); v->setValveCoeff(5.0); v->setTimeFunction(&f); v->setPressureFunction(&q);
  v->updateMassFlowRate(0); return near(v->massFlowRate(), 30.0) ? 0 : 1; }
''')
mkseed("C11c", "C11", [("src/zeroD/Reactor.cpp", """        for (size_t k = 1; k < nk; k++) {
            RHS[loc + k] = m_work[k] * rs0 * surf->size(k);
            sum -= RHS[loc + k];
        }
        RHS[loc] = sum;
        loc += nk;

        size_t bulkloc = kin->kineticsSpeciesIndex(m_thermo->speciesName(0));
        double wallarea = S->area();
        for (size_t k = 0; k < m_nsp; k++) {
            sdot[k] += m_work[bulkloc + k] * wallarea;
        }
    }
}

Eigen""", """        for (size_t k = 1; k < nk; k++) {
            RHS[loc + k] = m_work[k] * rs0 * surf->size(k);
            sum -= RHS[loc + k];
        }
        RHS[loc] = sum;
        loc += nk;

        size_t bulkloc = kin->kineticsSpeciesIndex(m_thermo->speciesName(0));
        double wallarea = m_surfaces[0]->area();
        for (size_t k = 0; k < m_nsp; k++) {
            sdot[k] += m_work[bulkloc + k] * wallarea;
        }
    }
}

Eigen""")],
       "a reactor with two reacting surfaces of different area", "the second surface exchanges mass as if it had the area of the first",
       cpp=INC + '''#include "cantera/zeroD/ReactorSurface.h"
#include "cantera/base/Interface.h"
int main() { suppress_warnings(); suppress_deprecation_warnings(); auto i1 = newInterface("ptcombust.yaml", "Pt_surf"); auto g = i1->adjacent(0); g->thermo()->setState_TPX(900, 1e5, "CH4:1,O2:2,AR:3");
  auto i2 = newInterface("ptcombust.yaml", "Pt_surf", {g});
  double dm[2]; for (int q = 0; q < 2; q++) { auto r = std::dynamic_pointer_cast<Reactor>(newReactor("Reactor", g)); r->setChemistry(false);
    ReactorSurface a, b; a.setKinetics(i1->kinetics().get()); b.setKinetics(i2->kinetics().get()); a.setArea(q ? 3.0 : 1.0); b.setArea(q ? 1.0 : 3.0); r->addSurface(&a); r->addSurface(&b);
    a.setCoverages("PT(S):1.0"); b.setCoverages("PT(S):1.0"); ReactorNet net; net.addReactor(*r); net.initialize(); std::vector<double> y(net.neq()), d(net.neq()); net.getState(y.data()); net.eval(0, y.data(), d.data(), nullptr); dm[q] = d[0]; }
  return near(dm[0], dm[1]) ? 0 : 1; }
''')
mkseed("C11d", "C11", [("src/zeroD/Wall.cpp", """    if (m_emiss > 0.0) {
        double tl""", """    if (m_emiss > 0.0 && m_rrth > 0.0) {
        double tl""")],
       "a wall that radiates but does not conduct", "no heat is exchanged",
       cpp=INC + '''int main() { auto a = newReactor("Reservoir", gas(300, 1e5, "O2:1")), b = newReactor("IdealGasReactor", gas(600, 1e5, "O2:1"));
  auto w = std::dynamic_pointer_cast<Wall>(newConnectorNode("Wall", a, b)); w->setArea(2); w->setEmissivity(0.5); return near(w->heatRate(), StefanBoltz * (pow(300., 4) - pow(600., 4))) ? 0 : 1; }
''')
