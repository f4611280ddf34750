// Multiphase mixtures and chemical equilibrium (C18)
#include "ratio.h"
#include "cantera/thermo.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/StoichSubstance.h"
#include "cantera/thermo/Species.h"
#include "cantera/equil/MultiPhase.h"
using namespace Cantera;
static const double R = GasConstant;

static std::shared_ptr<ThermoPhase> build(const json& d)
{
    bool gas = d["gas"].get<bool>();
    AnyMap m;
    m["name"] = d["name"].get<std::string>();
    std::vector<std::string> els = d["els"].get<std::vector<std::string>>();
    m["elements"] = els;
    bool soln = d.contains("kind") && d["kind"] == "soln";
    m["thermo"] = gas ? "ideal-gas" : soln ? "ideal-condensed" : "fixed-stoichiometry";
    if (soln) {
        m["standard-concentration-basis"] = "unity";
    }
    std::vector<std::string> names;
    std::vector<AnyMap> sps;
    for (auto& s : d["sp"]) {
        AnyMap q;
        q["name"] = s["name"].get<std::string>();
        AnyMap c;
        double W = 0;
        for (size_t i = 0; i < els.size(); i++) {
            if (s["a"][i].get<int>()) {
                c[els[i]] = s["a"][i].get<double>();
                W += s["a"][i].get<double>() * getElementWeight(els[i]);
            }
        }
        q["composition"] = c;
        AnyMap t;
        double T0 = d.contains("T0") ? d["T0"].get<double>() : 1000.0;
        t["model"] = "constant-cp";
        t["T0"] = T0;
        t["h0"] = s["h0"].get<double>() * R;
        // g: standard Gibbs energy at T0 in units of R T0 ln 2
        t["s0"] = s.contains("g") ? (s["h0"].get<double>() / T0 - s["g"].get<double>() * std::log(2.0)) * R : 0.0;
        t["cp0"] = s["cp"].get<double>() * R;
        t["T-min"] = d["lo"].get<double>();
        t["T-max"] = d["hi"].get<double>();
        t["reference-pressure"] = 100 * R;
        q["thermo"] = t;
        if (!gas) {
            AnyMap e;
            e["model"] = "constant-volume";
            e["density"] = W / num(d["v"]);
            q["equation-of-state"] = e;
        }
        sps.push_back(q);
        names.push_back(q["name"].asString());
    }
    m["species"] = names;
    AnyMap root;
    root["species"] = sps;
    root["phases"] = std::vector<AnyMap>{m};
    root.applyUnits();
    return newThermo(root["phases"].asVector<AnyMap>()[0], root);
}

struct Sys {
    json cfg;
    std::vector<std::shared_ptr<ThermoPhase>> ph;
    std::shared_ptr<MultiPhase> mix;
    std::vector<int> in;
    explicit Sys(const json& c) : cfg(c) {
        suppress_warnings();
        suppress_thermo_warnings();
        for (auto& d : cfg["ph"]) {
            auto p = build(d);
            if (d.contains("X")) {
                auto X = d["X"].get<std::vector<double>>();
                p->setState_TPX(d["T"].get<double>(), d["p"].get<double>() * R, X.data());
            }
            ph.push_back(p);
        }
        mix = std::make_shared<MultiPhase>();
    }
    json ratios(const std::vector<double>& v) {
        json a = json::array();
        for (double x : v) {
            a.push_back(ratio(x));
        }
        return a;
    }
    json dump() {
        auto& M = *mix;
        M.init();
        json d;
        d["v"] = ratio(M.volume());
        d["T"] = ratio(M.temperature());
        d["p"] = ratio(M.pressure() / R);
        size_t ns = M.nSpecies(), ne = M.nElements(), np = M.nPhases();
        std::vector<double> n(ns), x(ns), ab(ne), mu(ns);
        M.getMoles(n.data());
        M.getMoleFractions(x.data());
        M.getElemAbundances(ab.data());
        bool back = true;
        for (auto k : {"el", "sp", "ph", "spph", "sol", "np", "n", "x", "el_n", "atoms", "ch", "ok", "valid", "px"}) {
            d[k] = json::array();
        }
        for (size_t m = 0; m < ne; m++) {
            d["el"].push_back(M.elementName(m));
            back = back && M.elementIndex(M.elementName(m)) == m;
            d["el_n"].push_back(ratio(M.elementMoles(m)));
        }
        d["el_a"] = ratios(ab);
        std::vector<double> valid(ns, 0.0);
        M.getValidChemPotentials(-1e99, valid.data());
        for (size_t k = 0; k < ns; k++) {
            d["sp"].push_back(M.speciesName(k));
            d["spph"].push_back(int(M.speciesPhaseIndex(k)));
            d["sol"].push_back(M.solutionSpecies(k));
            d["n"].push_back(ratio(n[k]));
            back = back && std::abs(n[k] - M.speciesMoles(k)) <= 1e-12 * std::abs(n[k]) && x[k] == M.moleFraction(k);
            d["x"].push_back(ratio(x[k]));
            json a = json::array();
            for (size_t m = 0; m < ne; m++) {
                a.push_back(toInt(M.nAtoms(k, m)));
            }
            d["atoms"].push_back(a);
            d["valid"].push_back(valid[k] > -1e98);
        }
        size_t loc = 0;
        bool pT = true, pp = true;
        for (size_t i = 0; i < np; i++) {
            d["ph"].push_back(M.phaseName(i));
            back = back && M.phaseIndex(M.phaseName(i)) == int(i);
            d["np"].push_back(ratio(M.phaseMoles(i)));
            d["ch"].push_back(ratio(M.phaseCharge(i) / Faraday));
            auto& p = *ph[in[i]];
            std::vector<double> y(p.nSpecies());
            p.getMoleFractions(y.data());
            for (size_t k = 0; k < y.size(); k++) {
                d["px"].push_back(ratio(y[k]));
                back = back && M.speciesIndex(k, i) == loc + k;
            }
            loc += y.size();
            pT = pT && std::abs(p.temperature() - M.temperature()) < 1e-9;
            pp = pp && std::abs(p.pressure() / M.pressure() - 1) < 1e-9;
            d["ok"].push_back(M.tempOK(i));
        }
        d["pT"] = pT;
        d["pp"] = pp;
        d["ctot"] = ratio(M.charge() / Faraday);
        auto clean = [](double x) { return std::abs(x) < 1e-6 ? 0.0 : x; };
        d["h"] = ratio(clean(M.enthalpy() / R));
        d["u"] = ratio(clean(M.IntEnergy() / R));
        d["cp"] = ratio(M.cp() / R);
        d["rng"] = {ratio(M.minTemp()), ratio(M.maxTemp())};
        double G = M.gibbs(), S = M.entropy(), H = M.enthalpy(), sum = 0, ab1 = std::abs(H) + std::abs(S * M.temperature()) + 1 + R * M.temperature();
        M.getChemPotentials(mu.data());
        for (size_t k = 0; k < ns; k++) {
            if (n[k] != 0) {
                sum += mu[k] * n[k];
                ab1 += std::abs(mu[k] * n[k]);
            }
        }
        d["g"] = std::abs(G - (H - M.temperature() * S)) < 1e-9 * ab1 && std::abs(G - sum) < 1e-9 * ab1;
        d["back"] = back;
        d["err"] = false;
        return d;
    }
    std::vector<double> nums(const json& a) {
        std::vector<double> v;
        for (auto& x : a) {
            v.push_back(num(x));
        }
        return v;
    }
    json step(const json& op) {
        std::string o = op["op"];
        auto& M = *mix;
        if (o == "add" || o == "late") {
            int i = op["i"].get<int>();
            try {
                if (op["how"] == "raw") {
                    M.addPhase(ph[i].get(), num(op["n"]));
                } else if (op["how"] == "mix") {
                    MultiPhase other;
                    other.addPhase(ph[i], num(op["n"]));
                    M.addPhases(other);
                } else {
                    M.addPhase(ph[i], num(op["n"]));
                }
                if (o == "add") {
                    in.push_back(i);
                }
            } catch (CanteraError&) {
                return json{{"err", true}};
            }
            return json{{"err", false}};
        }
        if (o == "end") {
            return json{{"err", false}};
        }
        if (o == "equil") {
            Sys sub(op);
            for (auto& p : sub.ph) {
                sub.mix->addPhase(p, 1.0);
            }
            return sub.equil(op);
        }
        if (o == "find") {
            try {
                return json{{"k", int(M.speciesIndex(op["sp"].get<std::string>(), op["ph"].get<std::string>()))}, {"p", M.phaseIndex(op["ph"].get<std::string>())}, {"err", false}};
            } catch (CanteraError&) {
                return json{{"k", 0}, {"p", 0}, {"err", true}};
            }
        }
        bool err = false;
        double T = op.contains("T") ? op["T"].get<double>() : 0, P = op.contains("p") ? op["p"].get<double>() * R : 0;
        try {
            if (o == "T") {
                M.setTemperature(T);
            } else if (o == "P") {
                M.setPressure(P);
            } else if (o == "TP") {
                M.setState_TP(T, P);
            } else if (o == "n") {
                M.setMoles(nums(op["n"]).data());
            } else if (o == "TPn") {
                M.setState_TPMoles(T, P, nums(op["n"]).data());
            } else if (o == "names") {
                M.init();
                if (op["how"] == "map") {
                    Composition c;
                    for (auto& f : op["f"]) {
                        c[f[0]] = f[1].get<double>() / f[2].get<double>();
                    }
                    M.setMolesByName(c);
                } else {
                    std::string s;
                    for (auto& f : op["f"]) {
                        s += fmt::format("{}:{} ", f[0].get<std::string>(), f[1].get<double>() / f[2].get<double>());
                    }
                    M.setMolesByName(s);
                }
            } else if (o == "addn") {
                M.init();
                M.addSpeciesMoles(op["k"].get<int>(), num(op["d"]));
            } else if (o == "pn") {
                M.init();
                M.setPhaseMoles(op["i"].get<int>(), num(op["n"]));
            } else if (o == "px") {
                M.setPhaseMoleFractions(op["i"].get<int>(), nums(op["x"]).data());
            } else if (o == "ext" || o == "upload") {
                M.init();
                auto x = nums(op["x"]);
                ph[in[op["i"].get<int>()]]->setState_TPX(T, P, x.data());
                if (o == "upload") {
                    M.uploadMoleFractionsFromPhases();
                }
            } else if (o == "bad") {
                err = true;
                if (op["how"] == "solver") {
                    M.equilibrate("TP", "newton");
                } else if (op["how"] == "option") {
                    M.equilibrate("UV", "gibbs");
                } else if (op["how"] == "pair") {
                    M.equilibrate("XX");
                } else if (op["how"] == "phase") {
                    M.checkPhaseIndex(M.nPhases());
                } else {
                    M.checkSpeciesIndex(M.nSpecies());
                }
                err = false;
            }
        } catch (CanteraError&) {
            err = true;
        }
        json d = dump();
        d["err"] = err;
        return d;
    }
    static bool sameAll(const std::vector<double>& a, const std::vector<double>& b, double T0, double T1, double p0, double p1) {
        bool ok = std::abs(T1 - T0) <= 1e-10 * T0 && std::abs(p1 / p0 - 1) <= 1e-9;
        for (size_t k = 0; k < a.size(); k++) {
            ok = ok && std::abs(a[k] - b[k]) <= 1e-10 * (1 + a[k]);
        }
        return ok;
    }
    // equilibrium: brings the system to the requested pair of properties at another composition, equilibrates, reports the outcome
    json equil(const json& op) {
        std::string XY = op["XY"], solver = op["solver"];
        double T = op["T"].get<double>(), P = op["p"].get<double>() * R;
        auto nt = nums(op["target"]), n0 = nums(op["n0"]);
        json skip{{"skip", true}, {"err", false}, {"n", json::array()}, {"T", 0}, {"p", 0}, {"held", true}, {"kept", true}};
        json out{{"skip", false}, {"err", false}, {"kept", true}};
        std::vector<double> n(nt.size());
        double T1 = 0, P1 = 0;
        bool held = true;
        auto same = [](double a, double b, double scale) { return std::abs(a - b) <= 1e-6 * (std::abs(a) + std::abs(b) + scale); };
        if (op["single"].get<bool>()) {
            auto& p = *ph[0];
            double tot = 0;
            p.setState_TPX(T, P, nt.data());
            for (double x : nt) {
                tot += x;
            }
            double mass = tot * p.meanMolecularWeight();
            double h = p.enthalpy_mass(), s = p.entropy_mass(), u = p.intEnergy_mass(), v = 1 / p.density();
            try {
                p.setState_TPX(T, P, n0.data());
                if (XY == "HP") {
                    p.setState_HP(h, P);
                } else if (XY == "SP") {
                    p.setState_SP(s, P);
                } else if (XY == "UV") {
                    p.setState_UV(u, v);
                } else if (XY == "SV") {
                    p.setState_SV(s, v);
                } else if (XY == "TV") {
                    p.setState_TD(T, 1 / v);
                }
                if (!(p.temperature() > p.minTemp() && p.temperature() < p.maxTemp())) {
                    return skip;
                }
            } catch (CanteraError&) {
                return skip;
            }
            std::vector<double> x0(n.size()), x1(n.size());
            double Ts = p.temperature(), ps = p.pressure();
            p.getMoleFractions(x0.data());
            try {
                p.equilibrate(XY, solver, 1e-9, 2000, 100);
            } catch (CanteraError& e) {
                p.getMoleFractions(x1.data());
                out["kept"] = sameAll(x0, x1, Ts, p.temperature(), ps, p.pressure());
                if (getenv("DRV_VERBOSE")) {
                    std::cerr << e.what() << std::endl;
                }
                out["err"] = true;
            }
            T1 = p.temperature();
            P1 = p.pressure();
            for (char c : XY) {
                held = held && (c != 'H' || same(h, p.enthalpy_mass(), R * T / p.meanMolecularWeight()));
                held = held && (c != 'U' || same(u, p.intEnergy_mass(), R * T / p.meanMolecularWeight()));
                held = held && (c != 'S' || same(s, p.entropy_mass(), R / p.meanMolecularWeight()));
                held = held && (c != 'V' || same(v, 1 / p.density(), 0));
            }
            p.getMoleFractions(n.data());
            double N = mass / p.meanMolecularWeight();
            for (auto& x : n) {
                x *= N;
            }
        } else {
            auto& M = *mix;
            M.init();
            auto get = [&](char c) {
                return c == 'T' ? M.temperature() : c == 'P' ? M.pressure() : c == 'H' ? M.enthalpy() : c == 'S' ? M.entropy() : c == 'U' ? M.IntEnergy() : M.volume();
            };
            M.setState_TPMoles(T, P, nt.data());
            M.setState_TP(T, P);
            double X = get(XY[0]), Y = get(XY[1]), ntot = std::accumulate(nt.begin(), nt.end(), 0.0);
            M.setState_TPMoles(T, P, n0.data());
            if (XY[1] == 'P' && XY[0] != 'T') {      // temperature at which the start has the target's property
                double lo = 250, hi = 4000;
                auto f = [&](double t) { M.setState_TP(t, P); return get(XY[0]) - X; };
                if (f(lo) > 0 || f(hi) < 0) {
                    return skip;
                }
                for (int i = 0; i < 200; i++) {
                    double m = 0.5 * (lo + hi);
                    (f(m) > 0 ? hi : lo) = m;
                }
            } else if (XY == "TV") {
                double lo = 1e-3 * P, hi = 1e3 * P;
                auto f = [&](double q) { M.setState_TP(T, q); return get('V') - Y; };
                if (f(lo) < 0 || f(hi) > 0) {
                    return skip;
                }
                for (int i = 0; i < 200; i++) {
                    double m = std::sqrt(lo * hi);
                    (f(m) > 0 ? lo : hi) = m;
                }
            }
            std::vector<double> x0(n.size()), x1(n.size());
            double Ts = M.temperature(), ps = M.pressure();
            M.getMoles(x0.data());
            try {
                M.equilibrate(XY, solver, 1e-9, 2000, 100);
            } catch (CanteraError& e) {
                M.getMoles(x1.data());
                bool k = sameAll(x0, x1, Ts, M.temperature(), ps, M.pressure());
                for (auto& q : ph) {
                    k = k && std::abs(q->temperature() - Ts) < 1e-9 * Ts && std::abs(q->pressure() / ps - 1) < 1e-9;
                }
                out["kept"] = k;
                if (getenv("DRV_VERBOSE")) {
                    std::cerr << e.what() << std::endl;
                }
                out["err"] = true;
            }
            T1 = M.temperature();
            P1 = M.pressure();
            held = same(X, get(XY[0]), ntot * (XY[0] == 'H' ? R * T : XY[0] == 'S' ? 10 * R : 0)) && same(Y, get(XY[1]), 0);
            for (auto& q : ph) {
                held = held && std::abs(q->temperature() - T1) < 1e-9 * T1 && std::abs(q->pressure() / P1 - 1) < 1e-9;
            }
            M.getMoles(n.data());
        }
        double D = op["D"].get<double>();
        if (getenv("DRV_VERBOSE")) {
            for (double x : n) {
                std::cerr << x * D << " ";
            }
            std::cerr << "T " << T1 << " p " << P1 / R << std::endl;
        }
        out["n"] = json::array();
        for (double x : n) {
            out["n"].push_back(near(x * D, op["tol"].get<double>()));
        }
        out["held"] = held;
        out["T"] = near(T1, 10);
        out["p"] = near(P1 / R, 10);
        return out;
    }
    // integer within tol*1e-6 relative (absolute below one)
    int near(double x, double tol) {
        double r = std::nearbyint(x);
        return std::abs(x - r) <= 1e-6 * tol * std::max(1.0, std::abs(x)) ? int(r) : NOTINT;
    }
};
int main(int argc, char** argv)
{
    return driverMain<Sys>(argc, argv);
}
