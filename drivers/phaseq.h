// Queries on phases, kinetics and transport managers by name, and interning of real-valued results as classes.
#pragma once
#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/Interface.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/transport/Transport.h"
#include "cantera/numerics/eigen_sparse.h"
#include <functional>
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

struct Query {
    std::function<vec(ThermoPhase&)> t;
    std::function<vec(Kinetics&)> k;
    std::function<vec(Transport&, size_t)> r;
};

inline std::map<string, Query>& queries()
{
    static std::map<string, Query> q;
    if (!q.empty()) {
        return q;
    }
#define TV(name) q["t:" #name].t = [](ThermoPhase& p) { vec v(p.nSpecies()); p.name(v.data()); return v; };
#define TS(name) q["t:" #name].t = [](ThermoPhase& p) { return vec{double(p.name())}; };
    TV(getActivityConcentrations) TV(getActivities) TV(getActivityCoefficients) TV(getLnActivityCoefficients)
    TV(getChemPotentials) TV(getElectrochemPotentials) TV(getPartialMolarEnthalpies) TV(getPartialMolarEntropies)
    TV(getPartialMolarIntEnergies) TV(getPartialMolarCp) TV(getPartialMolarVolumes) TV(getStandardChemPotentials)
    TV(getEnthalpy_RT) TV(getEntropy_R) TV(getGibbs_RT) TV(getPureGibbs) TV(getIntEnergy_RT) TV(getCp_R) TV(getStandardVolumes)
    TV(getEnthalpy_RT_ref) TV(getGibbs_RT_ref) TV(getGibbs_ref) TV(getEntropy_R_ref) TV(getIntEnergy_RT_ref) TV(getCp_R_ref)
    TV(getStandardVolumes_ref) TV(getMoleFractions) TV(getMassFractions) TV(getConcentrations)
    TV(getdlnActCoeffdlnX_diag) TV(getdlnActCoeffdlnN_diag)
    TS(temperature) TS(pressure) TS(density) TS(molarDensity) TS(meanMolecularWeight)
#undef TV
#undef TS
#define TS2(name) q["t:" #name].t = [](ThermoPhase& p) { return vec{double(p.name())}; };
    TS2(enthalpy_mole) TS2(intEnergy_mole) TS2(entropy_mole) TS2(gibbs_mole) TS2(cp_mole) TS2(cv_mole)
    TS2(enthalpy_mass) TS2(intEnergy_mass) TS2(entropy_mass) TS2(gibbs_mass) TS2(cp_mass) TS2(cv_mass)
    TS2(isothermalCompressibility) TS2(thermalExpansionCoeff) TS2(soundSpeed) TS2(critTemperature) TS2(critPressure)
    TS2(critDensity) TS2(refPressure) TS2(minTemp) TS2(maxTemp) TS2(vaporFraction) TS2(chargeDensity)
    TS2(standardConcentration) TS2(logStandardConc) TS2(electricPotential)
    q["t:satPressure"].t = [](ThermoPhase& p) { return vec{p.satPressure(p.temperature())}; };
    q["t:satTemperature"].t = [](ThermoPhase& p) { return vec{p.satTemperature(p.pressure())}; };
    q["t:conck"].t = [](ThermoPhase& p) { vec v; for (size_t k = 0; k < p.nSpecies(); k++) {
        v.push_back(p.standardConcentration(k)); v.push_back(p.concentration(k)); v.push_back(p.moleFraction(k)); } return v; };
    q["t:dlnN"].t = [](ThermoPhase& p) { size_t n = p.nSpecies(); vec v(n * n); p.getdlnActCoeffdlnN(n, v.data()); return v; };
    q["t:elements"].t = [](ThermoPhase& p) { vec v; for (size_t m = 0; m < p.nElements(); m++) {
        v.push_back(p.elementalMassFraction(m)); v.push_back(p.elementalMoleFraction(m)); } return v; };
    q["t:report"].t = [](ThermoPhase& p) { vec v; for (unsigned char c : p.report(true)) { v.push_back(c); } return v; };
    q["t:coverages"].t = [](ThermoPhase& p) { vec v(p.nSpecies()); dynamic_cast<SurfPhase&>(p).getCoverages(v.data()); return v; };
#undef TS2
#define KR(name) q["k:" #name].k = [](Kinetics& k) { vec v(k.nReactions()); k.name(v.data()); return v; };
#define KS(name) q["k:" #name].k = [](Kinetics& k) { vec v(k.nTotalSpecies()); k.name(v.data()); return v; };
#define KM(name) q["k:" #name].k = [](Kinetics& k) { Eigen::MatrixXd m(k.name()); vec v(m.data(), m.data() + m.size()); return v; };
    KR(getFwdRatesOfProgress) KR(getRevRatesOfProgress) KR(getNetRatesOfProgress) KR(getEquilibriumConstants)
    KR(getFwdRateConstants) KR(getRevRateConstants) KR(getDeltaGibbs) KR(getDeltaElectrochemPotentials) KR(getDeltaEnthalpy)
    KR(getDeltaEntropy) KR(getDeltaSSGibbs) KR(getDeltaSSEnthalpy) KR(getDeltaSSEntropy) KR(getThirdBodyConcentrations)
    KS(getCreationRates) KS(getDestructionRates) KS(getNetProductionRates) KS(getActivityConcentrations)
    KR(getFwdRateConstants_ddT) KR(getFwdRateConstants_ddP) KR(getFwdRateConstants_ddC) KR(getFwdRatesOfProgress_ddT)
    KR(getFwdRatesOfProgress_ddP) KR(getFwdRatesOfProgress_ddC) KR(getRevRatesOfProgress_ddT) KR(getRevRatesOfProgress_ddP)
    KR(getRevRatesOfProgress_ddC) KR(getNetRatesOfProgress_ddT) KR(getNetRatesOfProgress_ddP) KR(getNetRatesOfProgress_ddC)
    KM(fwdRatesOfProgress_ddX) KM(revRatesOfProgress_ddX) KM(netRatesOfProgress_ddX) KM(fwdRatesOfProgress_ddCi)
    KM(revRatesOfProgress_ddCi) KM(netRatesOfProgress_ddCi) KM(creationRates_ddX) KM(destructionRates_ddX)
    KM(netProductionRates_ddX) KM(netProductionRates_ddCi)
    KS(getNetProductionRates_ddT) KS(getCreationRates_ddP) KS(getDestructionRates_ddC)
    q["k:heat"].k = [](Kinetics& k) { vec v(k.nReactions()), h(k.nReactions()); k.getFwdRatesOfProgress(v.data()); k.getDeltaEnthalpy(h.data());
        double s = 0; for (size_t i = 0; i < v.size(); i++) { s += v[i] * h[i]; } return vec{s}; };
    q["k:irrev"].k = [](Kinetics& k) { vec v(k.nReactions()); k.getRevRateConstants(v.data(), true); return v; };
#undef KR
#undef KS
#undef KM
#define RS(name) q["r:" #name].r = [](Transport& t, size_t K) { return vec{t.name()}; };
#define RV(name) q["r:" #name].r = [](Transport& t, size_t K) { vec v(K); t.name(v.data()); return v; };
    RS(viscosity) RS(thermalConductivity) RS(electricalConductivity) RS(bulkViscosity)
    RV(getSpeciesViscosities) RV(getMobilities) RV(getThermalDiffCoeffs) RV(getMixDiffCoeffs) RV(getMixDiffCoeffsMole)
    RV(getMixDiffCoeffsMass)
    q["r:getBinaryDiffCoeffs"].r = [](Transport& t, size_t K) { vec v(K * K); t.getBinaryDiffCoeffs(K, v.data()); return v; };
    q["r:getMultiDiffCoeffs"].r = [](Transport& t, size_t K) { vec v(K * K); t.getMultiDiffCoeffs(K, v.data()); return v; };
    q["r:getSpeciesFluxes"].r = [](Transport& t, size_t K) { vec v(K), gT{10.0}, gX(K, 0.0);
        if (K > 1) { gX[0] = 1; gX[1] = -1; } t.getSpeciesFluxes(1, gT.data(), K, gX.data(), K, v.data()); return v; };
#undef RS
#undef RV
    return q;
}

// Classes of numerically equal vectors
struct Interner {
    std::map<string, std::vector<vec>> tab;
    int operator()(const string& name, const vec& v, double rel = 1e-9, double absMax = 1e-11) {
        auto& t = tab[name];
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i].size() != v.size()) {
                continue;
            }
            double m = 0;
            for (double x : v) {
                if (std::isfinite(x)) { m = std::max(m, std::abs(x)); }
            }
            bool same = true;
            for (size_t j = 0; j < v.size() && same; j++) {
                double a = t[i][j], b = v[j];
                if (std::isnan(a) || std::isnan(b)) {
                    same = std::isnan(a) && std::isnan(b);
                } else if (a != b) {
                    same = std::abs(a - b) <= rel * 0.5 * (std::abs(a) + std::abs(b)) + absMax * m;
                }
            }
            if (same) {
                return int(i) + 1;
            }
        }
        t.push_back(v);
        return int(t.size());
    }
};
