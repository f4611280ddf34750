// The C interface: any function of it is called with any handle, index, length or name; the observation holds the return value,
// whether an error message was recorded, what was written to the caller's buffers, whether anything was written beyond them,
// and what every handle of every kind reports afterwards.
#include "common.h"
#include "cantera/clib/ct.h"
#include "cantera/clib/ctfunc.h"
#include "cantera/clib/ctmultiphase.h"
#include "cantera/clib/ctonedim.h"
#include "cantera/clib/ctreactor.h"
#include "cantera/clib/ctrpath.h"
#include "cantera/clib/ctsurf.h"
#include "clib/Cabinet.h"
#include "base/application.h"
#include "cantera/base/Solution.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/transport/Transport.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/zerodim.h"
#include "cantera/oneD/Sim1D.h"
#include "cantera/numerics/Func1.h"
#include "cantera/kinetics/ReactionPath.h"
#include <functional>
#include <map>
#include <unistd.h>
using namespace Cantera;
using std::string;

static const char* MODEL =
    "units: {length: m, quantity: kmol, activation-energy: K}\n"
    "elements:\n- {symbol: Xe1, atomic-weight: 1}\n- {symbol: Ze1, atomic-weight: 7}\n"
    "phases:\n"
    "- {name: gas, thermo: ideal-gas, elements: [Xe1], species: [A, B, C], kinetics: gas, transport: none, reactions: [gas-r], state: {T: 300, density: 2, X: {A: 1}}}\n"
    "- {name: mix, thermo: ideal-gas, elements: [Xe1, Ze1], species: [B, A], kinetics: gas, transport: mixture-averaged, reactions: [mix-r], state: {T: 400, density: 3, X: {B: 1}}}\n"
    "- {name: bad, thermo: ideal-gas, elements: [Xe1], species: [A, Q], state: {T: 300, density: 2}}\n"
    "- {name: surf, thermo: ideal-surface, elements: [Xe1], species: [S, AS], kinetics: surface, reactions: [surf-r], adjacent-phases: [gas, mix], site-density: 2, state: {T: 500}}\n"
    "gas-r:\n"
    "- {equation: A => B, rate-constant: {A: 3, b: 0, Ea: 0}, duplicate: true}\n"
    "- {equation: A <=> B, rate-constant: {A: 5, b: 0, Ea: 0}, duplicate: true}\n"
    "- {equation: A <=> B, rate-constant: {A: 2, b: 0, Ea: 0}, duplicate: true}\n"
    "- {equation: 2 A => C, rate-constant: {A: 7, b: 0, Ea: 0}}\n"
    "mix-r:\n"
    "- {equation: B => A, rate-constant: {A: 4, b: 0, Ea: 0}}\n"
    "surf-r:\n"
    "- {equation: A + S => AS, rate-constant: {A: 6, b: 0, Ea: 0}}\n"
    "species:\n"
    "- {name: A, composition: {Xe1: 1}, thermo: {model: constant-cp, T0: 300, T-max: 3000, T-min: 200, h0: 0, s0: 0, cp0: 0}, transport: {model: gas, geometry: atom, diameter: 3, well-depth: 100}}\n"
    "- {name: B, composition: {Xe1: 1}, thermo: {model: constant-cp, T0: 300, T-max: 2000, T-min: 100, h0: 0, s0: 0, cp0: 0}, transport: {model: gas, geometry: atom, diameter: 3, well-depth: 100}}\n"
    "- {name: C, composition: {Xe1: 2}, thermo: {model: constant-cp, T0: 300, h0: 4000 J/kmol, s0: 2 J/kmol/K, cp0: 0}, transport: {model: gas, geometry: linear, diameter: 3, well-depth: 100}}\n"
    "- {name: S, composition: {}, thermo: {model: constant-cp, T0: 300, h0: 0, s0: 0, cp0: 0}}\n"
    "- {name: AS, composition: {Xe1: 1}, thermo: {model: constant-cp, T0: 300, h0: 0, s0: 0, cp0: 0}}\n";

static string modelFile;
static const char* COUNTED[] = {"sol", "thermo", "kin", "tr", "func", "mix", "rx", "net", "con", "surf", "dom", "sim", "diag", "bld"};

// a return value: codes and indices as they are, real numbers times 1000
static int code(long long x) { return x < -900000000LL || x > 900000000LL ? -7 : static_cast<int>(x); }
static int milli(double x)
{
    if (!std::isfinite(x)) {
        return NOTFIN;
    }
    return toInt(1000 * x, 1e-6);
}
static int idx(size_t x) { return x == npos ? -1 : code(static_cast<long long>(x)); }

struct Args
{
    std::vector<int> I;
    std::vector<double> D;
    std::vector<string> S;
    std::vector<char> buf;          // guarded string buffer
    std::vector<double> arr;        // guarded array
    int h() const { return I.at(0); }
    int i(size_t n) const { return I.at(n); }
    double d(size_t n) const { return D.at(n); }
    const char* s(size_t n) const { return S.at(n).c_str(); }
    char* b(int len) { buf.assign(std::max(len, 0) + 16, 'Z'); blen = std::max(len, 0); return buf.data() + 8; }
    double* a(int len) { arr.assign(std::max(len, 0) + 64, 5e77); alen = std::max(len, 0); return arr.data(); }
    int blen = -1, alen = -1;
};
using Fn = std::function<int(Args&)>;
static std::vector<std::shared_ptr<void>> keep;

template<class M>
static void lend(int n) { try { keep.push_back(Cabinet<M>::at(n)); } catch (...) {} }

#define INT(name, call) {name, [](Args& a) { (void) a; return code(call); }}
#define IDX(name, call) {name, [](Args& a) { (void) a; return idx(call); }}
#define RND(name, call) {name, [](Args& a) { double x = call; return std::isfinite(x) && std::abs(x) < 1e6 ? static_cast<int>(std::lround(1000 * x)) : NOTFIN; }}
#define DBL(name, call) {name, [](Args& a) { (void) a; return milli(call); }}
static const std::map<string, Fn> FNS = {
    {"soln_new", [](Args& a) { return soln_newSolution(modelFile.c_str(), a.s(0), a.s(1)); }},
    {"soln_newInterface", [](Args& a) { return soln_newInterface(modelFile.c_str(), a.s(0), int(a.I.size()), a.I.data()); }},
    INT("soln_del", soln_del(a.h())),
    INT("soln_name", soln_name(a.h(), a.i(1), a.b(a.i(1)))),
    INT("soln_thermo", soln_thermo(a.h())), INT("soln_kinetics", soln_kinetics(a.h())), INT("soln_transport", soln_transport(a.h())),
    INT("soln_setTransportModel", soln_setTransportModel(a.h(), a.s(0))),
    INT("soln_adjacent", soln_adjacent(a.h(), a.i(1))),
    INT("soln_adjacentName", soln_adjacentName(a.h(), a.i(1), a.i(2), a.b(a.i(2)))),
    IDX("soln_nAdjacent", soln_nAdjacent(a.h())),
    IDX("thermo_nElements", thermo_nElements(a.h())), IDX("thermo_nSpecies", thermo_nSpecies(a.h())),
    INT("thermo_setTemperature", thermo_setTemperature(a.h(), a.d(0))), INT("thermo_setDensity", thermo_setDensity(a.h(), a.d(0))),
    {"thermo_set_TD", [](Args& a) { double v[2] = {a.d(0), a.d(1)}; return code(thermo_set_TD(a.h(), v)); }},
    DBL("thermo_moleFraction", thermo_moleFraction(a.h(), a.i(1))), DBL("thermo_massFraction", thermo_massFraction(a.h(), a.i(1))),
    INT("thermo_getMoleFractions", thermo_getMoleFractions(a.h(), a.i(1), a.a(a.i(1)))),
    INT("thermo_getMassFractions", thermo_getMassFractions(a.h(), a.i(1), a.a(a.i(1)))),
    INT("thermo_getMolecularWeights", thermo_getMolecularWeights(a.h(), a.i(1), a.a(a.i(1)))),
    INT("thermo_getAtomicWeights", thermo_getAtomicWeights(a.h(), a.i(1), a.a(a.i(1)))),
    INT("thermo_getCharges", thermo_getCharges(a.h(), a.i(1), a.a(a.i(1)))),
    {"thermo_setMoleFractions", [](Args& a) { auto x = a.D; x.resize(x.size() + 32, 0.); return code(thermo_setMoleFractions(a.h(), a.D.size(), x.data(), 1)); }},
    {"thermo_setMassFractions", [](Args& a) { auto x = a.D; x.resize(x.size() + 32, 0.); return code(thermo_setMassFractions(a.h(), a.D.size(), x.data(), 1)); }},
    INT("thermo_setMoleFractionsByName", thermo_setMoleFractionsByName(a.h(), a.s(0))),
    INT("thermo_setMassFractionsByName", thermo_setMassFractionsByName(a.h(), a.s(0))),
    INT("thermo_getSpeciesName", thermo_getSpeciesName(a.h(), a.i(1), a.i(2), a.b(a.i(2)))),
    INT("thermo_getElementName", thermo_getElementName(a.h(), a.i(1), a.i(2), a.b(a.i(2)))),
    INT("thermo_getName", thermo_getName(a.h(), a.i(1), a.b(a.i(1)))), INT("thermo_setName", thermo_setName(a.h(), a.s(0))),
    INT("thermo_getEosType", thermo_getEosType(a.h(), a.i(1), a.b(a.i(1)))),
    IDX("thermo_speciesIndex", thermo_speciesIndex(a.h(), a.s(0))), IDX("thermo_elementIndex", thermo_elementIndex(a.h(), a.s(0))),
    DBL("thermo_nAtoms", thermo_nAtoms(a.h(), a.i(1), a.i(2))),
    DBL("thermo_minTemp", thermo_minTemp(a.h(), a.i(1))), DBL("thermo_maxTemp", thermo_maxTemp(a.h(), a.i(1))),
    DBL("thermo_critTemperature", thermo_critTemperature(a.h())), DBL("thermo_vaporFraction", thermo_vaporFraction(a.h())),
    INT("thermo_setState_Tsat", thermo_setState_Tsat(a.h(), 300, 0.5)),
    INT("thermo_addElement", thermo_addElement(-5, a.s(0), 3.0)),
    INT("thermo_equilibrate", thermo_equilibrate(a.h(), a.s(0), "auto", 1e-9, 100, 100, 0)),
    INT("thermo_del", thermo_del(a.h())), INT("kin_del", kin_del(a.h())), INT("trans_del", trans_del(a.h())),
    INT("thermo_parent", thermo_parent(a.h())), INT("kin_parent", kin_parent(a.h())), INT("trans_parent", trans_parent(a.h())),
    INT("thermo_size", thermo_size()),
    DBL("kin_reactantStoichCoeff", kin_reactantStoichCoeff(a.h(), a.i(1), a.i(2))),
    DBL("kin_productStoichCoeff", kin_productStoichCoeff(a.h(), a.i(1), a.i(2))),
    INT("kin_getReactionType", kin_getReactionType(a.h(), a.i(1), a.i(2), a.b(a.i(2)))),
    INT("kin_getReactionString", kin_getReactionString(a.h(), a.i(1), a.i(2), a.b(a.i(2)))),
    INT("kin_getType", kin_getType(a.h(), a.i(1), a.b(a.i(1)))),
    DBL("kin_multiplier", kin_multiplier(a.h(), a.i(1))), INT("kin_setMultiplier", kin_setMultiplier(a.h(), a.i(1), a.d(0))),
    INT("kin_isReversible", kin_isReversible(a.h(), a.i(1))),
    IDX("kin_start", kin_start(a.h(), a.i(1))), IDX("kin_speciesIndex", kin_speciesIndex(a.h(), a.s(0))),
    IDX("kin_phaseIndex", kin_phaseIndex(a.h(), a.s(0))), IDX("kin_phase", kin_phase(a.h(), a.i(1))),
    INT("kin_getFwdRateConstants", kin_getFwdRateConstants(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getRevRateConstants", kin_getRevRateConstants(a.h(), 0, a.i(1), a.a(a.i(1)))),
    INT("kin_getFwdRatesOfProgress", kin_getFwdRatesOfProgress(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getRevRatesOfProgress", kin_getRevRatesOfProgress(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getNetRatesOfProgress", kin_getNetRatesOfProgress(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getEquilibriumConstants", kin_getEquilibriumConstants(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getCreationRates", kin_getCreationRates(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getDestructionRates", kin_getDestructionRates(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getNetProductionRates", kin_getNetProductionRates(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getSourceTerms", kin_getSourceTerms(a.h(), a.i(1), a.a(a.i(1)))),
    INT("kin_getDelta", kin_getDelta(a.h(), a.i(1), a.i(2), a.a(a.i(2)))),
    INT("kin_advanceCoverages", kin_advanceCoverages(a.h(), 0.)),
    INT("surf_setCoverages", surf_setCoverages(a.h(), a.D.data(), 1)), INT("surf_getCoverages", surf_getCoverages(a.h(), a.a(a.i(1)))),
    DBL("surf_siteDensity", surf_siteDensity(a.h())), INT("surf_setSiteDensity", surf_setSiteDensity(a.h(), a.d(0))),
    INT("surf_setCoveragesByName", surf_setCoveragesByName(a.h(), a.s(0))),
    INT("trans_transportModel", trans_transportModel(a.h(), a.i(1), a.b(a.i(1)))),
    INT("trans_getMixDiffCoeffs", trans_getMixDiffCoeffs(a.h(), a.i(1), a.a(a.i(1)))),
    INT("trans_getBinDiffCoeffs", trans_getBinDiffCoeffs(a.h(), a.i(1), a.a(std::max(a.i(1), 0) * 8))),
    INT("trans_getThermalDiffCoeffs", trans_getThermalDiffCoeffs(a.h(), a.i(1), a.a(a.i(1)))),
    {"trans_viscosity", [](Args& a) { double v = trans_viscosity(a.h()); return v > 0 ? 1 : -1; }},
    {"trans_thermalConductivity", [](Args& a) { double v = trans_thermalConductivity(a.h()); return v >= 0 ? 1 : -1; }},
    {"func_new_basic", [](Args& a) { return func_new_basic(a.s(0), a.d(0)); }},
    {"func_new_advanced", [](Args& a) { return func_new_advanced(a.s(0), a.D.size(), a.D.data()); }},
    {"func_new_compound", [](Args& a) { return func_new_compound(a.s(0), a.i(0), a.i(1)); }},
    {"func_new_modified", [](Args& a) { return func_new_modified(a.s(0), a.i(0), a.d(0)); }},
    INT("func_new_sum", func_new_sum(a.i(0), a.i(1))), INT("func_new_diff", func_new_diff(a.i(0), a.i(1))),
    INT("func_new_prod", func_new_prod(a.i(0), a.i(1))), INT("func_new_ratio", func_new_ratio(a.i(0), a.i(1))),
    INT("func_del", func_del(a.h())), INT("func_derivative", func_derivative(a.h())), INT("func_duplicate", func_duplicate(a.h())),
    INT("func_type", func_type(a.h(), a.i(1), a.b(a.i(1)))), DBL("func_value", func_value(a.h(), a.d(0))),
    INT("func_check", func_check(a.s(0), a.i(0), a.b(a.i(0)))),
    INT("mix_new", mix_new()), INT("mix_del", mix_del(a.h())),
    {"mix_addPhase", [](Args& a) { lend<ThermoPhase>(a.i(1)); return code(mix_addPhase(a.h(), a.i(1), a.d(0))); }},
    INT("mix_init", mix_init(a.h())), INT("mix_updatePhases", mix_updatePhases(a.h())),
    IDX("mix_nElements", mix_nElements(a.h())), IDX("mix_elementIndex", mix_elementIndex(a.h(), a.s(0))),
    IDX("mix_nSpecies", mix_nSpecies(a.h())), IDX("mix_speciesIndex", mix_speciesIndex(a.h(), a.i(1), a.i(2))),
    DBL("mix_nAtoms", mix_nAtoms(a.h(), a.i(1), a.i(2))), IDX("mix_nPhases", mix_nPhases(a.h())),
    DBL("mix_phaseMoles", mix_phaseMoles(a.h(), a.i(1))), INT("mix_setPhaseMoles", mix_setPhaseMoles(a.h(), a.i(1), a.d(0))),
    {"mix_setMoles", [](Args& a) { auto x = a.D; x.resize(x.size() + 32, 0.); return code(mix_setMoles(a.h(), a.D.size(), x.data())); }},
    INT("mix_setTemperature", mix_setTemperature(a.h(), a.d(0))), INT("mix_setPressure", mix_setPressure(a.h(), a.d(0))),
    DBL("mix_temperature", mix_temperature(a.h())), DBL("mix_charge", mix_charge(a.h())), DBL("mix_phaseCharge", mix_phaseCharge(a.h(), a.i(1))),
    RND("mix_speciesMoles", mix_speciesMoles(a.h(), a.i(1))), RND("mix_elementMoles", mix_elementMoles(a.h(), a.i(1))),
    RND("mix_moleFraction", mix_moleFraction(a.h(), a.i(1))), IDX("mix_speciesPhaseIndex", mix_speciesPhaseIndex(a.h(), a.i(1))),
    INT("mix_getChemPotentials", mix_getChemPotentials(a.h(), a.i(1), a.a(a.i(1)))),
    INT("reactor_new", reactor_new(a.s(0), a.i(0), a.s(1))),
    {"reactor_del", [](Args& a) { lend<ReactorBase>(a.h()); return code(reactor_del(a.h())); }},
    INT("reactor_type", reactor_type(a.h(), a.i(1), a.b(a.i(1)))), INT("reactor_name", reactor_name(a.h(), a.i(1), a.b(a.i(1)))),
    INT("reactor_setName", reactor_setName(a.h(), a.s(0))), INT("reactor_setInitialVolume", reactor_setInitialVolume(a.h(), a.d(0))),
    DBL("reactor_massFraction", reactor_massFraction(a.h(), a.i(1))), DBL("reactor_mass", reactor_mass(a.h())),
    INT("reactor_setChemistry", reactor_setChemistry(a.h(), a.i(1))), INT("reactor_setEnergy", reactor_setEnergy(a.h(), a.i(1))),
    INT("reactor_setMassFlowRate", reactor_setMassFlowRate(a.h(), a.d(0))),
    IDX("reactor_nSensParams", reactor_nSensParams(a.h())), INT("reactor_addSensitivityReaction", reactor_addSensitivityReaction(a.h(), a.i(1))),
    INT("reactornet_new", reactornet_new()),
    {"reactornet_del", [](Args& a) { lend<ReactorNet>(a.h()); return code(reactornet_del(a.h())); }},
    INT("reactornet_setInitialTime", reactornet_setInitialTime(a.h(), a.d(0))), INT("reactornet_setMaxTimeStep", reactornet_setMaxTimeStep(a.h(), a.d(0))),
    INT("reactornet_setTolerances", reactornet_setTolerances(a.h(), a.d(0), a.d(1))),
    {"reactornet_addreactor", [](Args& a) { lend<ReactorBase>(a.i(1)); return code(reactornet_addreactor(a.h(), a.i(1))); }},
    INT("reactornet_advance", reactornet_advance(a.h(), a.d(0))), DBL("reactornet_step", reactornet_step(a.h())),
    DBL("reactornet_sensitivity", reactornet_sensitivity(a.h(), a.s(0), a.i(1), a.i(2))),
    {"connector_new", [](Args& a) { lend<ReactorBase>(a.i(0)); lend<ReactorBase>(a.i(1)); return code(connector_new(a.s(0), a.i(0), a.i(1), a.s(1))); }},
    {"connector_del", [](Args& a) { lend<ConnectorNode>(a.h()); return code(connector_del(a.h())); }},
    INT("connector_type", connector_type(a.h(), a.i(1), a.b(a.i(1)))), INT("connector_name", connector_name(a.h(), a.i(1), a.b(a.i(1)))),
    INT("connector_setName", connector_setName(a.h(), a.s(0))),
    {"flowdev_setPrimary", [](Args& a) { lend<ConnectorNode>(a.i(1)); return code(flowdev_setPrimary(a.h(), a.i(1))); }},
    INT("flowdev_setMassFlowCoeff", flowdev_setMassFlowCoeff(a.h(), a.d(0))), INT("flowdev_setValveCoeff", flowdev_setValveCoeff(a.h(), a.d(0))),
    INT("flowdev_setPressureCoeff", flowdev_setPressureCoeff(a.h(), a.d(0))),
    {"flowdev_setTimeFunction", [](Args& a) { lend<Func1>(a.i(1)); return code(flowdev_setTimeFunction(a.h(), a.i(1))); }},
    {"flowdev_setPressureFunction", [](Args& a) { lend<Func1>(a.i(1)); return code(flowdev_setPressureFunction(a.h(), a.i(1))); }},
    {"wall_setVelocity", [](Args& a) { lend<Func1>(a.i(1)); return code(wall_setVelocity(a.h(), a.i(1))); }},
    {"wall_setHeatFlux", [](Args& a) { lend<Func1>(a.i(1)); return code(wall_setHeatFlux(a.h(), a.i(1))); }},
    INT("wall_setArea", wall_setArea(a.h(), a.d(0))), DBL("wall_area", wall_area(a.h())),
    INT("wall_setEmissivity", wall_setEmissivity(a.h(), a.d(0))), INT("wall_setThermalResistance", wall_setThermalResistance(a.h(), a.d(0))),
    INT("wall_setHeatTransferCoeff", wall_setHeatTransferCoeff(a.h(), a.d(0))), INT("wall_setExpansionRateCoeff", wall_setExpansionRateCoeff(a.h(), a.d(0))),
    INT("reactorsurface_new", reactorsurface_new(a.s(0))),
    {"reactorsurface_del", [](Args& a) { lend<ReactorSurface>(a.h()); return code(reactorsurface_del(a.h())); }},
    INT("reactorsurface_name", reactorsurface_name(a.h(), a.i(1), a.b(a.i(1)))), INT("reactorsurface_setName", reactorsurface_setName(a.h(), a.s(0))),
    {"reactorsurface_install", [](Args& a) { lend<ReactorSurface>(a.h()); return code(reactorsurface_install(a.h(), a.i(1))); }},
    {"reactorsurface_setkinetics", [](Args& a) { lend<Kinetics>(a.i(1)); try { auto k = Cabinet<Kinetics>::at(a.i(1)); for (size_t i = 0; i < k->nPhases(); i++) { keep.push_back(k->phase(i)); } } catch (...) {} return code(reactorsurface_setkinetics(a.h(), a.i(1))); }},
    INT("reactorsurface_setArea", reactorsurface_setArea(a.h(), a.d(0))), DBL("reactorsurface_area", reactorsurface_area(a.h())),
    INT("reactorsurface_addSensitivityReaction", reactorsurface_addSensitivityReaction(a.h(), a.i(1))),
    INT("domain_new", domain_new(a.s(0), a.i(0), a.s(1))),
    {"domain_del", [](Args& a) { lend<Domain1D>(a.h()); return code(domain_del(a.h())); }},
    INT("domain_type", domain_type(a.h(), a.i(1), a.b(a.i(1)))),
    INT("domain_componentName", domain_componentName(a.h(), a.i(1), a.i(2), a.b(a.i(2)))), IDX("domain_componentIndex", domain_componentIndex(a.h(), a.s(0))),
    DBL("domain_grid", domain_grid(a.h(), a.i(1))),
    INT("domain_setBounds", domain_setBounds(a.h(), a.i(1), a.d(0), a.d(1))),
    DBL("domain_lowerBound", domain_lowerBound(a.h(), a.i(1))), DBL("domain_upperBound", domain_upperBound(a.h(), a.i(1))),
    INT("domain_setSteadyTolerances", domain_setSteadyTolerances(a.h(), a.i(1), a.d(0), a.d(1))),
    INT("domain_setTransientTolerances", domain_setTransientTolerances(a.h(), a.i(1), a.d(0), a.d(1))),
    INT("domain_setupGrid", domain_setupGrid(a.h(), a.D.size(), a.D.data())), INT("domain_setID", domain_setID(a.h(), a.s(0))),
    INT("bdry_setMdot", bdry_setMdot(a.h(), a.d(0))), DBL("bdry_mdot", bdry_mdot(a.h())),
    INT("bdry_setTemperature", bdry_setTemperature(a.h(), a.d(0))), DBL("bdry_temperature", bdry_temperature(a.h())),
    INT("bdry_setMoleFractions", bdry_setMoleFractions(a.h(), a.s(0))), DBL("bdry_massFraction", bdry_massFraction(a.h(), a.i(1))),
    INT("reactingsurf_enableCoverageEqs", reactingsurf_enableCoverageEqs(a.h(), a.i(1))),
    INT("flow1D_setPressure", flow1D_setPressure(a.h(), a.d(0))), DBL("flow1D_pressure", flow1D_pressure(a.h())),
    {"sim1D_new", [](Args& a) { for (int i : a.I) { lend<Domain1D>(i); } return code(sim1D_new(a.I.size(), a.I.data())); }},
    INT("sim1D_del", sim1D_del(a.h())),
    INT("sim1D_setValue", sim1D_setValue(a.h(), a.i(1), a.i(2), a.i(3), a.d(0))), DBL("sim1D_value", sim1D_value(a.h(), a.i(1), a.i(2), a.i(3))),
    DBL("sim1D_workValue", sim1D_workValue(a.h(), a.i(1), a.i(2), a.i(3))),
    INT("sim1D_setFlatProfile", sim1D_setFlatProfile(a.h(), a.i(1), a.i(2), a.d(0))),
    {"sim1D_setProfile", [](Args& a) { double p[2] = {0., 1.}; return code(sim1D_setProfile(a.h(), a.i(1), a.i(2), 2, p, 2, a.D.data())); }},
    INT("sim1D_setRefineCriteria", sim1D_setRefineCriteria(a.h(), a.i(1), a.d(0), a.d(1), a.d(2), a.d(3))),
    INT("sim1D_setGridMin", sim1D_setGridMin(a.h(), a.i(1), a.d(0))), INT("sim1D_domainIndex", sim1D_domainIndex(a.h(), a.s(0))),
    INT("rdiag_new", rdiag_new()), INT("rdiag_del", rdiag_del(a.h())), INT("rdiag_setThreshold", rdiag_setThreshold(a.h(), a.d(0))),
    INT("rdiag_detailed", rdiag_detailed(a.h())), INT("rdiag_add", rdiag_add(a.h(), a.i(1))),
    INT("rbuild_new", rbuild_new()), INT("rbuild_del", rbuild_del(a.h())),
    {"rbuild_build", [](Args& a) { return code(rbuild_build(a.i(0), a.i(1), a.s(0), "/dev/null", a.i(2), 1)); }},
    INT("rbuild_init", rbuild_init(a.h(), "/dev/null", a.i(1))),
    INT("ct_clearStorage", ct_clearStorage()), INT("ct_resetStorage", ct_resetStorage()), INT("ct_clearFunc", ct_clearFunc()),
    INT("ct_clearMix", ct_clearMix()), INT("ct_clearOneDim", ct_clearOneDim()), INT("ct_clearReactionPath", ct_clearReactionPath()),
    {"ct_clearReactors", [](Args& a) {
        for (int i = 0; i < 50; i++) { lend<ReactorBase>(i); lend<ConnectorNode>(i); lend<ReactorSurface>(i); lend<ReactorNet>(i); }
        return code(ct_clearReactors()); }},
};

template<class F> static string str(F f)
{
    char b[80];
    memset(b, 0, sizeof b);
    int r = f(79, b);
    return r < 0 && r != -999 ? "!" : r == -999 ? "!!" : string(b);
}

struct Sys
{
    std::map<string, int> n;            // handles seen so far, per kind
    std::vector<std::weak_ptr<Solution>> sols;

    explicit Sys(const json& cfg)
    {
        if (modelFile.empty()) {
            modelFile = "clib_model_" + std::to_string(getpid()) + ".yaml";
            std::ofstream(modelFile) << MODEL;
            static struct Rm { ~Rm() { ::unlink(modelFile.c_str()); } } rm;
        }
        suppress_deprecation_warnings();
        ct_clearOneDim(); ct_clearReactors(); ct_clearMix(); ct_clearFunc(); ct_clearReactionPath();
        Cabinet<Sim1D>::reset(); Cabinet<Domain1D>::reset(); Cabinet<ReactorNet>::reset(); Cabinet<ReactorBase>::reset();
        Cabinet<ConnectorNode>::reset(); Cabinet<ReactorSurface>::reset(); Cabinet<MultiPhase>::reset(); Cabinet<Func1>::reset();
        Cabinet<ReactionPathDiagram>::reset(); Cabinet<ReactionPathBuilder>::reset();
        ct_resetStorage();
        keep.clear();
        for (auto k : COUNTED) {
            n[k] = 0;
        }
    }

    json snap()
    {
        json o;
        auto each = [&](const char* kind, auto f) {
            json l = json::array();
            for (int i = 0; i < n[kind]; i++) {
                l.push_back(f(i));
            }
            o[kind] = l;
        };
        each("sol", [&](int i) { return json{{"nm", str([&](int k, char* b) { return soln_name(i, k, b); })}, {"th", soln_thermo(i)},
            {"kn", soln_kinetics(i)}, {"tr", soln_transport(i)}, {"na", idx(soln_nAdjacent(i))}}; });
        each("thermo", [&](int i) { return json{{"nm", str([&](int k, char* b) { return thermo_getName(i, k, b); })}, {"p", thermo_parent(i)},
            {"t", milli(thermo_temperature(i))}, {"d", milli(thermo_density(i))}, {"k", idx(thermo_nSpecies(i))}, {"x", milli(thermo_moleFraction(i, 0))}}; });
        each("kin", [&](int i) { json m = json::array();
            for (int r = 0; r < 5; r++) { m.push_back(milli(kin_multiplier(i, r))); }
            return json{{"p", kin_parent(i)}, {"k", idx(kin_nSpecies(i))}, {"r", idx(kin_nReactions(i))}, {"ph", idx(kin_nPhases(i))}, {"m", m}}; });
        each("tr", [&](int i) { return json{{"p", trans_parent(i)}, {"nm", str([&](int k, char* b) { return trans_transportModel(i, k, b); })}}; });
        each("func", [&](int i) { return json{{"a", milli(func_value(i, 1.))}, {"b", milli(func_value(i, -1.))}}; });
        each("mix", [&](int i) { json m = json::array();
            for (int p = 0; p < 4; p++) { m.push_back(milli(mix_phaseMoles(i, p))); }
            return json{{"ph", idx(mix_nPhases(i))}, {"k", idx(mix_nSpecies(i))}, {"m", m}}; });
        each("rx", [&](int i) { return json{{"nm", str([&](int k, char* b) { return reactor_name(i, k, b); })}, {"ty", str([&](int k, char* b) { return reactor_type(i, k, b); })},
            {"v", milli(reactor_volume(i))}, {"t", milli(reactor_temperature(i))}, {"d", milli(reactor_density(i))}}; });
        each("net", [&](int i) { double r = reactornet_rtol(i), a = reactornet_atol(i); return json{{"r", r < 0 ? -1 : toInt(r * 1e9)}, {"a", a < 0 ? -1 : toInt(a * 1e15)}}; });
        each("con", [&](int i) { return json{{"nm", str([&](int k, char* b) { return connector_name(i, k, b); })}, {"ty", str([&](int k, char* b) { return connector_type(i, k, b); })},
            {"a", milli(wall_area(i))}}; });
        each("surf", [&](int i) { return json{{"nm", str([&](int k, char* b) { return reactorsurface_name(i, k, b); })}, {"a", milli(reactorsurface_area(i))}}; });
        each("dom", [&](int i) { return json{{"ty", str([&](int k, char* b) { return domain_type(i, k, b); })}, {"n", idx(domain_nPoints(i))},
            {"k", idx(domain_nComponents(i))}, {"i", idx(domain_index(i))}}; });
        int live = 0;
        for (auto& w : sols) {
            live += !w.expired();
        }
        o["live"] = live;
        return o;
    }

    json step(const json& op)
    {
        Args a;
        a.I = op["i"].get<std::vector<int>>();
        for (auto& x : op["ds"].get<std::vector<string>>()) { a.D.push_back(std::stod(x)); }
        a.S = op["s"].get<std::vector<string>>();
        const string f = op["f"];
        Application::Instance()->addError("SENTINEL");
        int r = FNS.at(f)(a);
        char eb[2000];
        memset(eb, 0, sizeof eb);
        ct_getCanteraError(1999, eb);
        string e = eb;
        if (getenv("DRV_VERBOSE") && e.find("SENTINEL") == string::npos) { std::cerr << f << ": " << e << std::endl; }
        json o{{"r", r}, {"e", int(e.find("SENTINEL") == string::npos && !e.empty())}, {"c", 1}, {"s", ""}, {"v", json::array()}};
        if (a.blen >= 0) {
            for (int i = 0; i < 8; i++) {
                if (a.buf[i] != 'Z' || a.buf[8 + a.blen + i] != 'Z') {
                    o["c"] = 0;
                }
            }
            auto b = a.buf.begin() + 8, en = b + a.blen, z = std::find(b, en, '\0');
            o["s"] = a.blen && z == en ? string("~") : string(b, z);
        }
        if (a.alen >= 0) {
            for (int i = 0; i < 64; i++) {
                if (a.arr[a.alen + i] != 5e77) {
                    o["c"] = 0;
                }
            }
            for (int i = 0; i < a.alen; i++) {
                o["v"].push_back(a.arr[i] == 5e77 ? -5 : milli(a.arr[i]));
            }
        }
        const string made = op["mk"];
        if (!made.empty() && r >= 0) {
            n[made] = std::max(n[made], r + 1);
            if (made == "sol") {
                for (int i = 0; i < n["sol"]; i++) {
                    try {
                        std::weak_ptr<Solution> w = Cabinet<Solution>::at(i);
                        bool known = false;
                        for (auto& u : sols) { known |= u.lock() == w.lock(); }
                        if (!known) { sols.push_back(w); }
                    } catch (...) {}
                }
                n["thermo"] = Cabinet<ThermoPhase>::size();
                n["kin"] = Cabinet<Kinetics>::size();
                n["tr"] = Cabinet<Transport>::size();
            } else if (made == "tr") {
                n["tr"] = Cabinet<Transport>::size();
            }
        }
        if (f == "ct_resetStorage") {
            n["sol"] = n["thermo"] = n["kin"] = n["tr"] = 0;
        }
        o["snap"] = snap();
        return o;
    }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
