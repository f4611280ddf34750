// C01: thermodynamic states set through every public setter, read back as classes of values.
#include "phaseq.h"
#include "cantera/thermo/ThermoFactory.h"

// Classes of real numbers within an absolute distance
struct Classes {
    std::vector<double> v;
    double scale = 0, rel = 2e-7;
    int operator()(double x) {
        if (!std::isfinite(x)) {
            return -1;
        }
        for (size_t i = 0; i < v.size(); i++) {
            if (std::abs(v[i] - x) <= rel * std::max(scale, std::abs(x))) {
                return int(i) + 1;
            }
        }
        v.push_back(x);
        return int(v.size());
    }
};
static const char* NAMES = "TPDHSUV";

struct Sys {
    json cfg;
    std::vector<shared_ptr<Solution>> sol;
    std::vector<ThermoPhase*> ph;
    shared_ptr<Solution> freshSol;
    std::map<char, Classes> cls;
    std::vector<std::map<char, double>> tab;
    std::map<int, vec> saved;
    size_t K = 0;
    bool comp = true;

    static shared_ptr<Solution> load(const json& c) { return newSolution(c["file"], c["phase"], "none"); }
    explicit Sys(const json& c) : cfg(c) {
        for (int i = 0; i < 2; i++) {
            sol.push_back(load(c));
            ph.push_back(sol.back()->thermo().get());
        }
        freshSol = load(c);
        K = ph[0]->nSpecies();
        comp = ph[0]->isCompressible();
        if (comp && ph[0]->type().find("ideal-gas") == string::npos) {
            cls['P'].rel = 1e-3;        // the pressure of a dense state is an ill-conditioned function of temperature and density
            cls['P'].scale = 1e5;
            cls['T'].rel = 1e-6;
        }
        auto s2 = load(c);
        ThermoPhase& r = *s2->thermo();
        for (auto& t : c["tab"]) {
            double T = t["T"], P = t["P"];
            if (t["q"].get<int>() >= 0) {
                r.setState_Tsat(T, t["q"].get<int>() / 100.0);
            } else {
                vec x(K, 0.0);
                for (size_t k = 0; k < t["n"].size(); k++) { x[k] = t["n"][k].get<int>(); }
                setComp(r, x, t["b"]);
                r.setState_TP(T, P);
            }
            std::map<char, double> m;
            for (int i = 0; i < 7; i++) { m[NAMES[i]] = get(r, NAMES[i]); }
            tab.push_back(m);
            double cp = 1000;
            try { cp = r.cp_mass(); } catch (std::exception&) {}
            if (!std::isfinite(cp)) { cp = 1000; }
            cls['H'].scale = cls['U'].scale = std::max(cls['H'].scale, std::abs(cp) * T);
            cls['S'].scale = std::max(cls['S'].scale, std::abs(cp));
        }
        for (auto& m : tab) {
            for (int i = 0; i < 7; i++) { cls[NAMES[i]](m[NAMES[i]]); }
        }
    }
    static void setComp(ThermoPhase& p, const vec& x, const string& b) {
        if (b == "X") { p.setMoleFractions(x.data()); } else { p.setMassFractions(x.data()); }
    }
    static double get(ThermoPhase& p, char c) {
        switch (c) {
        case 'T': return p.temperature();
        case 'P': return p.pressure();
        case 'D': return p.density();
        case 'H': return p.enthalpy_mass();
        case 'S': return p.entropy_mass();
        case 'U': return p.intEnergy_mass();
        }
        return 1 / p.density();
    }
    static bool near(double a, double b, double s = 0) {
        return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-8 * std::max(s, std::max(std::abs(a), std::abs(b)));
    }
    // relations between the properties of one state, and agreement with a state set directly
    json flags(ThermoPhase& p) {
        json bad = json::array();
        auto need = [&](bool c, const char* n) { if (!c) { bad.push_back(n); } };
        vec X(K), Y(K), C(K);
        p.getMoleFractions(X.data());
        p.getMassFractions(Y.data());
        p.getConcentrations(C.data());
        double sx = 0, sy = 0, w = 0;
        for (size_t k = 0; k < K; k++) { sx += X[k]; sy += Y[k]; w += X[k] * p.molecularWeight(k); }
        need(near(sx, 1), "sum X");
        need(near(sy, 1), "sum Y");
        need(near(w, p.meanMolecularWeight()), "mean molecular weight");
        double T = p.temperature(), P = p.pressure(), D = p.density();
        for (size_t k = 0; k < K; k++) {
            need(near(Y[k] * w, X[k] * p.molecularWeight(k), 1e-3), "X-Y");
            need(near(X[k], p.moleFraction(k), 1e-3) && near(Y[k], p.massFraction(k), 1e-3), "fraction");
            if (comp) { need(near(C[k], X[k] * D / w, D / w * 1e-3) && near(C[k], p.concentration(k), 1e-9), "concentration"); }
        }
        if (P <= 0 && comp) { return bad; }       // no such state
        double h = p.enthalpy_mole(), u = p.intEnergy_mole(), s = p.entropy_mole(), g = p.gibbs_mole();
        double sc = std::abs(h) + std::abs(T * s) + GasConstant * T;
        need(near(p.molarDensity() * w, D), "molar density");
        need(near(p.enthalpy_mass() * w, h, sc) && near(p.intEnergy_mass() * w, u, sc) && near(p.entropy_mass() * w * T, s * T, sc)
             && near(p.gibbs_mass() * w, g, sc), "mass-mole");
        need(near(g, h - T * s, sc), "g=h-Ts");
        need(near(u, h - P * w / D, sc) , "u=h-pv");
        ThermoPhase& f = *freshSol->thermo();
        if (comp) {
            f.setMassFractions_NoNorm(Y.data());
            f.setState_TD(T, D);
        } else {
            f.setMassFractions_NoNorm(Y.data());
            f.setState_TP(T, P);
        }
        need(near(f.pressure(), P, 1e4) && near(f.density(), D), "fresh P,D");
        need(near(f.enthalpy_mole(), h, sc) && near(f.entropy_mole() * T, s * T, sc) && near(f.gibbs_mole(), g, sc)
             && near(f.intEnergy_mole(), u, sc), "fresh H,S,G,U");
        return bad;
    }
    static bool lost(ThermoPhase& p) {
        if (!(p.temperature() > 0.25 * p.minTemp() && p.temperature() < 4 * p.maxTemp())) { return true; }
        try { return !std::isfinite(p.enthalpy_mass()); } catch (CanteraError&) { return true; }
    }
    json look(ThermoPhase& p) {
        json o;
        json id = json::array();
        if (getenv("DRV_VERBOSE")) {
            for (int i = 0; i < 7; i++) { std::cerr << NAMES[i] << "=" << fmt::format("{:.12g} ", get(p, NAMES[i])); }
            std::cerr << std::endl;
        }
        for (int i = 0; i < 7; i++) { id.push_back(cls[NAMES[i]](get(p, NAMES[i]))); }
        o["id"] = id;
        vec X(K), Y(K);
        p.getMoleFractions(X.data());
        p.getMassFractions(Y.data());
        json a = json::array(), b = json::array(), e = json::array();
        for (size_t k = 0; k < K; k++) { a.push_back(toInt(std::nearbyint(X[k] * 1e6))); b.push_back(toInt(std::nearbyint(Y[k] * 1e6))); }
        for (size_t m = 0; m < p.nElements(); m++) { e.push_back(toInt(std::nearbyint(p.elementalMoleFraction(m) * 1e6))); }
        o["X"] = a;
        o["Y"] = b;
        o["el"] = e;
        o["bad"] = flags(p);
        return o;
    }
    double meanW(ThermoPhase& p, const vec& x) {
        double a = 0, b = 0;
        for (size_t k = 0; k < K; k++) { a += x[k] * p.molecularWeight(k); b += x[k]; }
        return a / b;
    }
    vec moles(const json& n) { vec x(K, 0.0); for (size_t k = 0; k < n.size(); k++) { x[k] = n[k].get<int>(); } return x; }
    string text(ThermoPhase& p, const vec& x) {
        string s;
        for (size_t k = 0; k < K; k++) { if (x[k] != 0) { s += (s.empty() ? "" : ", ") + p.speciesName(k) + ":" + fmt::format("{}", x[k]); } }
        return s;
    }
    Composition cmap(ThermoPhase& p, const vec& x) {
        Composition s;
        for (size_t k = 0; k < K; k++) { if (x[k] != 0) { s[p.speciesName(k)] = x[k]; } }
        return s;
    }
    void pair(ThermoPhase& p, const string& how, const std::map<char, double>& t) {
        double a = t.at(how[0]), b = t.at(how[1]);
        if (how == "TP") { p.setState_TP(a, b); }
        else if (how == "TD") { p.setState_TD(a, b); }
        else if (how == "DP") { p.setState_DP(a, b); }
        else if (how == "HP") { p.setState_HP(a, b); }
        else if (how == "UV") { p.setState_UV(a, b); }
        else if (how == "SP") { p.setState_SP(a, b); }
        else if (how == "SV") { p.setState_SV(a, b); }
        else if (how == "ST") { p.setState_ST(a, b); }
        else if (how == "TV") { p.setState_TV(a, b); }
        else if (how == "PV") { p.setState_PV(a, b); }
        else if (how == "UP") { p.setState_UP(a, b); }
        else if (how == "VH") { p.setState_VH(a, b); }
        else if (how == "TH") { p.setState_TH(a, b); }
        else if (how == "SH") { p.setState_SH(a, b); }
        else { throw std::runtime_error("how " + how); }
    }
    AnyMap asMap(const json& op, ThermoPhase& p) {
        static const std::map<char, std::vector<string>> alias{{'T', {"T", "temperature"}}, {'P', {"P", "pressure"}},
            {'D', {"D", "density"}}, {'H', {"H", "enthalpy"}}, {'S', {"S", "entropy"}}, {'U', {"U", "internal-energy", "int-energy"}},
            {'V', {"V", "specific-volume"}}};
        AnyMap m;
        string how = op["how"];
        for (size_t i = 0; i < how.size(); i++) {
            double v = op["j"].get<int>() >= 0 ? tab[op["j"].get<int>()].at(how[i]) : 0;
            auto& al = alias.at(how[i]);
            string key = al[op["al"].get<int>() % al.size()];
            if (op["unit"].get<int>() && how[i] == 'P') { m[key] = fmt::format("{:.17g} kPa", v / 1e3); }
            else if (op["unit"].get<int>() && how[i] == 'D') { m[key] = fmt::format("{:.17g} g/cm^3", v / 1e3); }
            else if (op["unit"].get<int>() && how[i] == 'H') { m[key] = fmt::format("{:.17g} kJ/kg", v / 1e3); }
            else if (op["unit"].get<int>() && how[i] == 'S') { m[key] = fmt::format("{:.17g} J/g/K", v / 1e3); }
            else if (op["unit"].get<int>() && how[i] == 'V') { m[key] = fmt::format("{:.17g} cm^3/g", v * 1e3); }
            else if (op["unit"].get<int>() && how[i] == 'U') { m[key] = fmt::format("{:.17g} J/g", v / 1e3); }
            else { m[key] = v; }
        }
        if (op["n"].size()) {
            vec x = moles(op["n"]);
            string key = op["b"] == "X" ? (op["al"].get<int>() % 2 ? "mole-fractions" : "X") : (op["al"].get<int>() % 2 ? "mass-fractions" : "Y");
            if (op["str"].get<int>()) { m[key] = text(p, x); } else { AnyMap c; for (auto& y : cmap(p, x)) { c[y.first] = y.second; } m[key] = std::move(c); }
        }
        return m;
    }
    json step(const json& op) {
        string w = op["op"];
        int o = op.value("o", 0);
        ThermoPhase& p = *ph[o];
        json out;
        int r = 1;
        json extra = 0;
        try {
            if (w == "tab") {
                json a = json::array();
                for (auto& m : tab) {
                    json b = json::array();
                    for (int i = 0; i < 7; i++) { b.push_back(cls[NAMES[i]](m[NAMES[i]])); }
                    a.push_back(b);
                }
                a.push_back(json{cls['T'](298.15), cls['P'](OneAtm)});
                out["tab"] = a;
                return out;
            }
            if (w == "pair") {
                string how = op["how"], via = op["via"];
                if (via == "map") {
                    p.setState(asMap(op, p));
                } else {
                    auto& t = tab[op["j"].get<int>()];
                    if (op["n"].size()) {
                        vec x = moles(op["n"]);
                        if (how == "TP") {
                            double T = t.at('T'), P = t.at('P');
                            if (op["b"] == "X") {
                                if (via == "arr") { p.setState_TPX(T, P, x.data()); } else if (via == "str") { p.setState_TPX(T, P, text(p, x)); } else { p.setState_TPX(T, P, cmap(p, x)); }
                            } else {
                                if (via == "arr") { p.setState_TPY(T, P, x.data()); } else if (via == "str") { p.setState_TPY(T, P, text(p, x)); } else { p.setState_TPY(T, P, cmap(p, x)); }
                            }
                        } else {
                            setComp(p, x, op["b"]);
                            pair(p, how, t);
                        }
                    } else {
                        pair(p, how, t);
                    }
                }
            } else if (w == "one") {
                double v = tab[op["j"].get<int>()].at(op["how"].get<string>()[0]);
                if (op["how"] == "T") { p.setTemperature(v); } else if (op["how"] == "P") { p.setPressure(v); } else { p.setDensity(v); }
            } else if (w == "comp") {
                vec x = moles(op["n"]);
                string via = op["via"];
                if (op["b"] == "X") {
                    if (via == "arr") { p.setMoleFractions(x.data()); } else if (via == "str") { p.setMoleFractionsByName(text(p, x)); }
                    else if (via == "map") { p.setMoleFractionsByName(cmap(p, x)); } else if (via == "moles") { p.setMolesNoTruncate(x.data()); }
                    else { double s = 0; for (double y : x) { s += y; } for (double& y : x) { y /= s; } p.setMoleFractions_NoNorm(x.data()); }
                } else {
                    if (via == "arr") { p.setMassFractions(x.data()); } else if (via == "str") { p.setMassFractionsByName(text(p, x)); }
                    else if (via == "map") { p.setMassFractionsByName(cmap(p, x)); }
                    else { double s = 0; for (double y : x) { s += y; } for (double& y : x) { y /= s; } p.setMassFractions_NoNorm(x.data()); }
                }
            } else if (w == "conc") {
                vec x = moles(op["n"]), c(K);
                for (double& y : x) { y *= 1e-3; }
                if (op["via"] == "arr") { p.setConcentrations(x.data()); } else { p.setConcentrationsNoNorm(x.data()); }
                p.getConcentrations(c.data());
                extra = json::array();
                for (double y : c) { extra.push_back(toInt(std::nearbyint(y * 1e6))); }
            } else if (w == "phi") {
                vec f = moles(op["fuel"]), x = moles(op["ox"]);
                auto basis = op["b"] == "X" ? ThermoBasis::molar : ThermoBasis::mass;
                double phi = op["num"].get<int>() / double(op["den"].get<int>());
                if (op["via"] == "arr") { p.setEquivalenceRatio(phi, f.data(), x.data(), basis); }
                else if (op["via"] == "str") { p.setEquivalenceRatio(phi, text(p, f), text(p, x), basis); }
                else { p.setEquivalenceRatio(phi, cmap(p, f), cmap(p, x), basis); }
                extra = json{toInt(p.equivalenceRatio(f.data(), x.data(), basis) * op["den"].get<int>(), 1e-6),
                             toInt(std::nearbyint(p.stoichAirFuelRatio(f.data(), x.data(), basis) * (basis == ThermoBasis::molar ? meanW(p, f) / meanW(p, x) : 1) * 1e4))};
            } else if (w == "mix") {
                vec f = moles(op["fuel"]), x = moles(op["ox"]);
                auto basis = op["b"] == "X" ? ThermoBasis::molar : ThermoBasis::mass;
                double z = op["num"].get<int>() / double(op["den"].get<int>());
                if (op["via"] == "arr") { p.setMixtureFraction(z, f.data(), x.data(), basis); }
                else if (op["via"] == "str") { p.setMixtureFraction(z, text(p, f), text(p, x), basis); }
                else { p.setMixtureFraction(z, cmap(p, f), cmap(p, x), basis); }
                extra = json{toInt(p.mixtureFraction(f.data(), x.data(), basis) * op["den"].get<int>(), 1e-6)};
            } else if (w == "sat") {
                auto& t = cfg["tab"][op["j"].get<int>()];
                auto& m = tab[op["j"].get<int>()];
                double q = t["q"].get<int>() / 100.0;
                string how = op["how"];
                if (how == "TQ") { p.setState_Tsat(m.at('T'), q); }
                else if (how == "PQ") { p.setState_Psat(m.at('P'), q); }
                else if (how == "TPQ") { p.setState_TPQ(m.at('T'), m.at('P'), q); }
                else { AnyMap a; a[how == "mT" ? "T" : "P"] = m.at(how == "mT" ? 'T' : 'P'); a[op["al"].get<int>() ? "Q" : "vapor-fraction"] = q; p.setState(a); }
                extra = json{toInt(p.vaporFraction() * 100, 1e-5)};
            } else if (w == "save") {
                vec v;
                p.saveState(v);
                saved[op["slot"].get<int>()] = v;
            } else if (w == "restore") {
                if (saved.count(op["slot"].get<int>())) { p.restoreState(saved[op["slot"].get<int>()]); } else { r = 0; }
            } else if (w == "bad") {
                string k = op["kind"];
                double T = p.temperature(), P = p.pressure();
                if (k == "T-") { p.setTemperature(-300); }
                else if (k == "T0") { p.setTemperature(0); }
                else if (k == "Tnan") { p.setTemperature(NAN); }
                else if (k == "D0") { p.setDensity(0); }
                else if (k == "D-") { p.setDensity(-1); }
                else if (k == "Dnan") { p.setDensity(NAN); }
                else if (k == "Dinc") { p.setDensity(p.density() * 1.5); }
                else if (k == "TP-") { p.setState_TP(T * 1.2, -P); }
                else if (k == "TPT-") { p.setState_TP(-T, P * 2); }
                else if (k == "TPnan") { p.setState_TP(T * 1.1, NAN); }
                else if (k == "X?") { p.setMoleFractionsByName("NoSuchSpecies:1, " + p.speciesName(0) + ":1"); }
                else if (k == "Y?") { p.setMassFractionsByName(Composition{{"NoSuchSpecies", 1.0}, {p.speciesName(0), 1.0}}); }
                else if (k == "Xdup") { p.setMoleFractionsByName(p.speciesName(0) + ":1, " + p.speciesName(0) + ":2"); }
                else if (k == "Xsyn") { p.setMoleFractionsByName(p.speciesName(0) + ":abc"); }
                else if (k == "TPX?") { p.setState_TPX(T * 1.3, P * 2, string("NoSuchSpecies:1")); }
                else if (k == "TPY?") { p.setState_TPY(T * 1.3, P * 2, Composition{{"NoSuchSpecies", 1.0}}); }
                else if (k == "len") { vec v; p.saveState(v); v[0] *= 1.5; v.pop_back(); p.restoreState(v); }
                else if (k == "map?") { AnyMap m; m["G"] = 1.0; m["T"] = 400.0; m.erase("T"); p.setState(m); }
                else if (k == "mapX?") { AnyMap m; m["T"] = T * 1.1; m["P"] = P; m["X"] = "NoSuchSpecies:1"; p.setState(m); }
                else if (k == "mapunit") { AnyMap m; m["T"] = T * 1.1; m["P"] = "3 kg"; p.setState(m); }
                else if (k == "HP-") { p.setState_HP(p.enthalpy_mass(), -1); }
                else if (k == "SP0") { p.setState_SP(p.entropy_mass(), 0); }
                else if (k == "UV-") { p.setState_UV(p.intEnergy_mass(), -1); }
                else if (k == "SV0") { p.setState_SV(p.entropy_mass(), 0); }
                else if (k == "TD-") { p.setState_TD(T, -1); }
                else if (k == "Xno") { p.moleFraction("NoSuchSpecies"); p.massFraction("NoSuchSpecies"); throw CanteraError("", "zero as documented"); }
                else if (k == "Q") { p.setState_Tsat(T, 1.5); }
                else { throw std::runtime_error("kind"); }
            }
        } catch (CanteraError& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << w << ": " << e.what() << std::endl; }
            r = -1;
        } catch (std::exception& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << w << ": " << e.what() << std::endl; }
            r = -2;
        }
        if (w == "pair" && lost(p)) {
            r = -1;         // far outside of the range of the phase: no such state
            p.setState_TP(std::max(p.minTemp(), 300.0), OneAtm);
        }
        out["r"] = r;
        out["extra"] = extra;
        json both = json::array();
        for (int i = 0; i < 2; i++) {
            try { both.push_back(look(*ph[i])); } catch (std::exception& e) {
                if (getenv("DRV_VERBOSE")) { std::cerr << "look: " << e.what() << std::endl; }
                both.push_back(json{{"id", json::array()}, {"X", json::array()}, {"Y", json::array()}, {"el", json::array()}, {"bad", json::array({"no state"})}}); }
        }
        out["s"] = both;
        return out;
    }
};
int main(int argc, char** argv) { return driverMain<Sys>(argc, argv, 60); }
