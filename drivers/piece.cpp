// Piecewise and composite rate and species models, tables (C19)
#include "ratio.h"
#include "cantera/thermo.h"
#include "cantera/kinetics.h"
#include "cantera/base/Solution.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/SpeciesThermoInterpType.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/kinetics/PlogRate.h"
#include "cantera/kinetics/ChebyshevRate.h"
#include "cantera/kinetics/Falloff.h"
#include "cantera/kinetics/BlowersMaselRate.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/numerics/funcs.h"
using namespace Cantera;
static const double PUNIT = 1024 * GasConstant, L2 = std::log(2.0);

static AnyMap arr(double A, double b, double E)
{
    AnyMap m;
    m["A"] = A;
    m["b"] = b;
    m["Ea"] = E;
    return m;
}
// the rate-specific part of a reaction's definition
static void fill(AnyMap& m, const json& r, bool inner)
{
    std::string ty = r["ty"];
    if (ty == "plog") {
        std::vector<AnyMap> v;
        for (auto& e : r["es"]) {
            AnyMap a = arr(e["m"].get<double>() * std::exp2(e["a"].get<double>()), e["b"].get<double>(), e["e"].get<double>() * 1024 * L2 * GasConstant);
            a["P"] = PUNIT * std::exp2(e["p"].get<double>() / 4);
            v.push_back(a);
        }
        m["type"] = "pressure-dependent-Arrhenius";
        m["rate-constants"] = v;
    } else if (ty == "cheb") {
        m["type"] = "Chebyshev";
        m["temperature-range"] = std::vector<double>{std::exp2(r["t0"].get<double>()), std::exp2(r["t1"].get<double>())};
        m["pressure-range"] = std::vector<double>{PUNIT * std::exp2(r["p0"].get<double>()), PUNIT * std::exp2(r["p1"].get<double>())};
        m["data"] = r["c"].get<std::vector<std::vector<double>>>();
    } else if (ty == "troe1") {
        m["type"] = "falloff";
        m["low-P-rate-constant"] = arr(std::exp2(r["a0"].get<double>()), 0, 0);
        m["high-P-rate-constant"] = arr(std::exp2(r["ai"].get<double>()), 0, 0);
        AnyMap t;
        t["A"] = 0.0;
        t["T3"] = 1e30;
        t["T1"] = 1e30;
        m["Troe"] = t;
    } else {
        m["type"] = "linear-Burke";
        std::vector<AnyMap> v(1);
        v[0]["name"] = "M";
        fill(v[0], r["M"], true);
        bool eig = r["eig"].get<int>();
        double base = eig ? 8.0 : 1.0;
        if (eig) {
            v[0]["eig0"] = arr(base, 0, 0);
        }
        for (auto& c : r["col"]) {
            AnyMap a;
            a["name"] = "S" + std::to_string(c["sp"].get<int>());
            a[eig ? "eig0" : "efficiency"] = arr(base * std::exp2(c["ea"].get<double>()), c["eb"].get<double>(), 0);
            if (c["own"].get<bool>()) {
                fill(a, c["r"], true);
            }
            v.push_back(a);
        }
        m["colliders"] = v;
    }
    if (!inner) {
        m["equation"] = ty == "troe1" ? "S1 (+M) => S2 (+M)" : "S1 => S2";
    }
}
// species model of the harness' parameters (see PieceSpec: temperatures in units of 1000 K)
static AnyMap model(const json& r)
{
    AnyMap m;
    std::string ty = r["ty"];
    m["model"] = ty;
    std::vector<double> b;
    for (auto& x : r["b"]) {
        b.push_back(x.get<double>() / 20);
    }
    double K = std::log(1000.0), Rj = GasConstant / 1000;
    if (ty == "NASA7" || ty == "Shomate" || ty == "NASA9") {
        m["temperature-ranges"] = b;
        std::vector<std::vector<double>> d;
        for (auto& p : r["c"]) {
            auto c = p.get<std::vector<double>>();
            if (ty == "NASA7") {
                double f = 1;
                for (int i = 0; i < 5; i++, f /= 1000) {
                    c[i] *= f;
                }
                c[5] *= 1000;
                c[6] -= c[0] * K;
            } else if (ty == "NASA9") {
                c[7] = 1000 * (c[7] - c[1] * K);
                c[8] -= c[2] * K;
                double f = 1e6;
                for (int i = 0; i < 7; i++, f /= 1000) {
                    c[i] *= f;
                }
            } else {
                for (auto& x : c) {
                    x *= Rj;
                }
            }
            d.push_back(c);
        }
        m["data"] = d;
    } else if (ty == "constant-cp") {
        auto c = r["c"][0].get<std::vector<double>>();
        m["T0"] = c[0] / 20;
        m["h0"] = c[1] * 1000 * GasConstant;
        m["s0"] = c[2] * GasConstant;
        m["cp0"] = c[3] * GasConstant;
        m["T-min"] = b[0];
        m["T-max"] = b.back();
    } else {
        m["h0"] = r["h0"].get<double>() * 298.15 * GasConstant;
        AnyMap d;
        bool dim = r["dim"].get<int>();
        if (dim) {
            m["dimensionless"] = true;
        }
        for (size_t i = 0; i < b.size(); i++) {
            double g = r["n"][i].get<double>();
            d[fmt::format("{}", b[i])] = dim ? g : g * GasConstant * b[i];
        }
        m["data"] = d;
        m["T-min"] = b[0];
        m["T-max"] = b.back();
    }
    return m;
}
static std::shared_ptr<Species> species(const std::string& name, const AnyMap& th)
{
    AnyMap m;
    m["name"] = name;
    AnyMap comp;
    comp["H"] = 1.0;
    m["composition"] = comp;
    m["thermo"] = th;
    m.applyUnits();
    return newSpecies(m);
}
static double z(double x)
{
    return std::abs(x) < 1e-11 ? 0 : x;
}
static json val(double k)
{
    return json{{"k", ratio(k)}, {"l2", ratio(z(std::log2(k)))}, {"l10", ratio(z(std::log10(k)))}};
}
static json prop(double cp, double h, double s)
{
    return json{{"cp", ratio(cp)}, {"h", ratio(h)}, {"s", ratio(s)}, {"g", ratio(h - s)}};
}

static void limits(ReactionRate& R, const json& r)
{
    dynamic_cast<ChebyshevRate&>(R).setLimits(std::exp2(r["t0"].get<double>()), std::exp2(r["t1"].get<double>()),
        PUNIT * std::exp2(r["p0"].get<double>()), PUNIT * std::exp2(r["p1"].get<double>()));
}

struct Sys {
    std::shared_ptr<ThermoPhase> gas, phase;
    std::shared_ptr<Kinetics> kin;
    std::vector<std::shared_ptr<Reaction>> rx;
    std::vector<std::shared_ptr<ReactionRate>> lone;     // separate objects, evaluated on their own
    std::vector<json> sp;

    std::shared_ptr<Reaction> make(const json& r) {
        AnyMap m;
        fill(m, r, false);
        m.applyUnits();
        return std::shared_ptr<Reaction>(newReaction(m, *kin));
    }
    explicit Sys(const json& cfg) {
        suppress_warnings();
        suppress_thermo_warnings();
        if (cfg["rates"].size()) {
            gas = std::make_shared<IdealGasPhase>();
            gas->addElement("H");
            json th{{"ty", "constant-cp"}, {"b", {2000, 200000}}, {"c", {{20000, 0, 0, 3}}}};
            for (int i = 1; i <= 4; i++) {
                gas->addSpecies(species("S" + std::to_string(i), model(th)));
            }
            gas->initThermo();
            kin = newKinetics("bulk");
            kin->addThermo(gas);
            kin->init();
            for (auto& r : cfg["rates"]) {
                rx.push_back(make(r));
                kin->addReaction(rx.back());
                lone.push_back(r["ty"] == "burke" ? nullptr : make(r)->rate());
            }
        }
        sp = cfg["sp"].get<std::vector<json>>();
        if (sp.size()) {
            phase = std::make_shared<IdealGasPhase>();
            phase->addElement("H");
            for (size_t i = 0; i < sp.size(); i++) {
                phase->addSpecies(species("Q" + std::to_string(i), model(sp[i])));
            }
            phase->initThermo();
        }
    }
    json step(const json& op) {
        std::string o = op["op"];
        if (o == "all") {
            double T = std::exp2(op["t"].get<double>()), P = PUNIT * std::exp2(op["p"].get<double>() / 4);
            std::vector<double> X = op["X"].get<std::vector<double>>();
            if (op["how"] == "TPX") {
                gas->setMoleFractions(X.data());
                gas->setState_TP(T, P);
            } else {                                  // pressure last, temperature unchanged where possible
                gas->setMoleFractions(X.data());
                gas->setTemperature(T);
                gas->setPressure(P);
            }
            std::vector<double> k(kin->nReactions());
            kin->getFwdRateConstants(k.data());
            json r = json::array();
            for (double x : k) {
                r.push_back(val(x));
            }
            return json{{"r", r}};
        }
        if (o == "eval") {
            auto& R = lone[op["i"].get<int>()];
            auto ev = R->newMultiRate();
            double T = std::exp2(op["t"].get<double>()), P = PUNIT * std::exp2(op["p"].get<double>() / 4);
            if (R->type() == "falloff") {
                R->setRateIndex(0);
                ev->resize(1, 1, 1);
                ev->update(T, P / GasConstant / T);
            } else {
                ev->update(T, P);
            }
            return json{{"r", val(ev->evalSingle(*R))}};
        }
        if (o == "mod") {
            int i = op["i"].get<int>();
            bool ok = true;
            try {
                if (op["how"] == "modify") {
                    kin->modifyReaction(i, make(op["rate"]));
                } else {
                    AnyMap m;                         // replace the table of the object in use
                    fill(m, op["rate"], true);
                    m.applyUnits();
                    if (op["rate"]["ty"] == "plog") {
                        auto src = std::dynamic_pointer_cast<PlogRate>(make(op["rate"])->rate());
                        std::dynamic_pointer_cast<PlogRate>(kin->reaction(i)->rate())->setRates(src->getRates());
                    } else if (op["rate"]["ty"] == "cheb") {      // the same coefficients over another range
                        limits(*kin->reaction(i)->rate(), op["rate"]);
                    }
                    if (op["rate"]["ty"] == "plog" || op["rate"]["ty"] == "cheb") {
                        kin->modifyReaction(i, kin->reaction(i));      // the mechanism holds copies of the rates
                    } else {
                        kin->modifyReaction(i, make(op["rate"]));
                    }
                }
            } catch (CanteraError&) {
                ok = false;
            }
            if (lone[i]) {
                auto n = std::dynamic_pointer_cast<PlogRate>(make(op["rate"])->rate());
                if (n && op["how"] != "modify") {
                    std::dynamic_pointer_cast<PlogRate>(lone[i])->setRates(n->getRates());
                } else if (op["how"] != "modify" && op["rate"]["ty"] == "cheb") {
                    limits(*lone[i], op["rate"]);
                } else {
                    lone[i] = make(op["rate"])->rate();
                }
            }
            return json{{"ok", ok}};
        }
        if (o == "F") {
            std::string ty = op["ty"];
            double T = std::exp2(op["t"].get<double>()), A = num(op["A"]), B = num(op["B"]);
            std::vector<double> c;
            double lc = op["lc"].get<double>() * std::log10(2.0), f = op["sg"].get<int>() * std::sqrt(op["f2"].get<double>()), lpr = f;
            auto lo = ArrheniusRate(4.0, 0, 0), hi = ArrheniusRate(2.0, 0, 0);
            std::shared_ptr<FalloffRate> R;
            if (ty == "Troe") {
                c = {A, op["t3"].get<double>() / L2, op["t1"].get<double>() / L2};
                if (op["t2"].get<int>()) {
                    c.push_back(op["t2"].get<double>() * L2);
                }
                R = std::make_shared<TroeRate>(lo, hi, c);
            } else if (ty == "Tsang") {
                c = {A, B};
                R = std::make_shared<TsangRate>(lo, hi, c);
            } else {
                c = {A, op["t2"].get<double>() * L2, op["t3"].get<double>() / L2};
                if (op["d"].get<int>() || op["e"].get<int>()) {
                    c.push_back(std::exp2(op["d"].get<double>()));
                    c.push_back(op["e"].get<double>());
                }
                R = std::make_shared<SriRate>(lo, hi, c);
            }
            if (ty != "SRI") {            // the reduced pressure that gives the requested abscissa
                double n = 0.75 - 1.27 * lc;
                lpr = n * f / (1 + 0.14 * f) + 0.4 + 0.67 * lc;
            }
            double pr = std::pow(10, lpr);
            std::vector<double> w(4);
            R->updateTemp(T, w.data());
            double F = R->F(pr, w.data());
            LindemannRate L(lo, hi, {});
            double conc = pr / 2, k[2];
            ReactionRate* rr[2] = {R.get(), &L};
            bool chem = op["chem"].get<int>();
            R->setChemicallyActivated(chem);
            L.setChemicallyActivated(chem);
            for (int i = 0; i < 2; i++) {
                auto ev = rr[i]->newMultiRate();
                rr[i]->setRateIndex(0);
                ev->resize(1, 1, 1);
                ev->update(T, conc);
                k[i] = ev->evalSingle(*rr[i]);
            }
            return json{{"f", ratio(z(std::log2(F)))}, {"ratio", ratio(z(std::log2(k[0] / k[1])))}};
        }
        if (o == "bm") {
            double E = op["E"].get<double>(), w = op["w"].get<double>(), T = 1000;
            BlowersMaselRate R(1, 0, E * GasConstant, w * GasConstant);
            R.setDeltaH(op["dH"].get<double>() * GasConstant);
            return json{{"ea", ratio(R.activationEnergy() / GasConstant)}, {"ek", ratio(-T * std::log(R.evalRate(std::log(T), 1 / T)))}};
        }
        if (o == "th") {
            double T = op["T"].get<double>() / 20, cp, h, s;
            auto th = phase->species(op["i"].get<int>())->thermo;
            th->updatePropertiesTemp(T, &cp, &h, &s);
            json one = prop(cp, h, s);
            std::vector<double> tt(20);
            th->updateTemperaturePoly(T, tt.data());
            cp = h = s = 0;
            th->updateProperties(tt.data(), &cp, &h, &s);
            json poly = prop(cp, h, s);
            phase->setTemperature(T);
            size_t n = phase->nSpecies();
            std::vector<double> a(n), b(n), c(n);
            phase->getCp_R_ref(a.data());
            phase->getEnthalpy_RT_ref(b.data());
            phase->getEntropy_R_ref(c.data());
            json all = json::array(), lo = json::array(), hi = json::array();
            for (size_t i = 0; i < n; i++) {
                all.push_back(prop(a[i], b[i], c[i]));
                lo.push_back(ratio(phase->minTemp(i) * 20));
                hi.push_back(ratio(phase->maxTemp(i) * 20));
            }
            return json{{"one", one}, {"poly", poly}, {"all", all}, {"lo", lo}, {"hi", hi}, {"min", ratio(phase->minTemp() * 20)}, {"max", ratio(phase->maxTemp() * 20)}};
        }
        if (o == "modsp") {
            bool ok = true;
            int i = op["i"].get<int>();
            try {
                phase->modifySpecies(i, species("Q" + std::to_string(i), model(op["sp"])));
            } catch (CanteraError&) {
                ok = false;
            }
            return json{{"ok", ok}};
        }
        auto xs = op["xs"].get<std::vector<double>>(), fs = op["fs"].get<std::vector<double>>();
        if (o == "interp") {
            return json{{"v", ratio(linearInterp(op["x"].get<double>() / 2, xs, fs))}};
        }
        Eigen::ArrayXd x = Eigen::Map<Eigen::ArrayXd>(xs.data(), xs.size()), f = Eigen::Map<Eigen::ArrayXd>(fs.data(), fs.size());
        try {
            double v = numericalQuadrature(op["how"], f, x);
            return json{{"v", ratio(v)}, {"err", false}};
        } catch (CanteraError&) {
            return json{{"v", {0, 0}}, {"err", true}};
        }
    }
};
int main(int argc, char** argv)
{
    return driverMain<Sys>(argc, argv);
}
