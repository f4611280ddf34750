// Two objects made from one phase definition, driven through state changes, setting changes and queries; every answer is
// also computed by an object created for that answer alone.
#include "phaseq.h"
#include <cstring>

struct Obj {
    shared_ptr<Solution> sol;
    std::vector<shared_ptr<ThermoPhase>> ph;
    Kinetics* kin = nullptr;
    Transport* tr = nullptr;
    std::vector<std::function<void(Obj&)>> log;
    string trModel;
    std::map<int, vec> saved;

    void load(const json& cfg) {
        string f = cfg["file"], n = cfg["phase"];
        AnyMap root = AnyMap::fromYamlFile(f);
        (void) root;
        if (cfg["iface"].get<bool>()) {
            sol = newInterface(f, n);
        } else {
            sol = newSolution(f, n);
        }
        bind();
    }
    void bind() {
        ph.clear();
        ph.push_back(sol->thermo());
        kin = sol->kinetics() && sol->kinetics()->nReactions() ? sol->kinetics().get() : nullptr;
        tr = sol->transport().get();
        if (kin) {
            for (size_t i = 0; i < kin->nPhases(); i++) {
                if (&kin->thermo(i) != ph[0].get()) {
                    for (size_t a = 0; a < 1; a++) {
                        ph.push_back(kin->phase(i));
                    }
                }
            }
        }
    }
    vec raw() const {
        vec v;
        for (auto& p : ph) {
            vec s(p->stateSize());
            p->saveState(s.size(), s.data());
            v.insert(v.end(), s.begin(), s.end());
            v.push_back(p->electricPotential());
        }
        return v;
    }
    void setRaw(const vec& v) {
        size_t i = 0;
        for (auto& p : ph) {
            size_t n = p->stateSize();
            p->restoreState(n, v.data() + i);
            i += n;
            if (p->electricPotential() != v[i]) {
                p->setElectricPotential(v[i]);
            }
            i++;
        }
    }
    vec query(const string& name) {
        auto& q = queries().at(name);
        size_t p = 0;
        if (q.t) {
            return q.t(*ph[p]);
        } else if (q.k) {
            if (!kin) { throw CanteraError("q", "no kinetics"); }
            return q.k(*kin);
        }
        if (!tr) { throw CanteraError("q", "no transport"); }
        return q.r(*tr, ph[0]->nSpecies());
    }
};

struct Sys {
    json cfg;
    std::vector<Obj> obj;
    Interner in;
    std::vector<vec> keys;
    std::map<string, int> known;

    explicit Sys(const json& c) : cfg(c) {
        obj.resize(2);
        for (auto& o : obj) {
            o.load(cfg);
        }
    }
    int keyOf(const vec& v) {
        for (size_t i = 0; i < keys.size(); i++) {
            // (a few units of rounding, from a query that moves the composition and puts it back)
            bool same = keys[i].size() == v.size();
            for (size_t j = 0; same && j < v.size(); j++) {
                same = std::abs(keys[i][j] - v[j]) <= 1e-14 * std::abs(v[j]) || (std::isnan(v[j]) && std::isnan(keys[i][j]));
            }
            if (same) {
                return int(i) + 1;
            }
        }
        keys.push_back(v);
        return int(keys.size());
    }
    json ks() {
        json a = json::array();
        for (auto& o : obj) {
            a.push_back(keyOf(o.raw()));
        }
        return a;
    }
    int ask(Obj& o, const string& q) {
        vec v;
        try {
            v = o.query(q);
        } catch (std::exception& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << q << ": " << e.what() << std::endl; }
            return 0;
        }
        if (getenv("DRV_VERBOSE")) { std::cerr << q << ":"; std::cerr.precision(17); for (double x : v) { std::cerr << " " << x; } std::cerr << std::endl; }
        // derivatives that are computed by differences amplify rounding
        bool diff = q.find("_dd") != string::npos || q == "t:dlnN" || q.find("dlnActCoeff") != string::npos;
        // differences of large numbers are compared relative to those
        if (!diff && o.kin && q.find("Net") != string::npos) {
            vec w(o.kin->nReactions());
            o.kin->getFwdRatesOfProgress(w.data());
            v.insert(v.end(), w.begin(), w.end());
        }
        if (q.find("k:getDelta") == 0) {
            v.push_back(GasConstant * 50 * (q.find("Entropy") != string::npos ? 1 : 1000));
        }
        return diff ? in(q, v, 1e-3, 1e-4) : in(q, v);
    }
    int fresh(const Obj& o, const string& q) {
        vec raw = o.raw();
        string id = q + "|" + std::to_string(&o - &obj[0]) + "|" + std::to_string(o.log.size()) + "|" + std::to_string(keyOf(raw));
        auto it = known.find(id);
        if (it != known.end()) {
            return it->second;
        }
        Obj f;
        f.load(cfg);
        for (auto& g : o.log) {
            g(f);
        }
        f.setRaw(raw);
        int r = ask(f, q);
        known[id] = r;
        return r;
    }
    // settings that outlive the state: applied to this object and to every object compared with it
    int setting(Obj& o, std::function<void(Obj&)> g) {
        try {
            g(o);
        } catch (std::exception& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << e.what() << std::endl; }
            return -1;
        }
        o.log.push_back(g);
        return 1;
    }
    json step(const json& op) {
        string w = op["op"];
        Obj& o = obj[op["o"].get<int>()];
        json out;
        int r = 1;
        if (w == "q") {
            int v = ask(o, op["q"]);
            out["v"] = v;
            out["f"] = fresh(o, op["q"]);
            out["ks"] = ks();
            return out;
        }
        if (w == "state") {
            size_t n = op["n"].get<int>() % o.ph.size();
            ThermoPhase& p = *o.ph[n];
            string how = op["how"];
            double T = op["T"], P = op["P"];
            string x = op["x"].get<json>()[n < op["x"].size() ? n : 0];
            try {
                if (how == "TPX") { p.setState_TPX(T, P, x); }
                else if (how == "TPY") { p.setState_TPY(T, P, x); }
                else if (how == "TP2") { for (size_t m = 0; m < o.ph.size(); m++) { string y = op["x"][m % op["x"].size()]; if (y.size()) { o.ph[m]->setState_TPX(T, P, y); } else { o.ph[m]->setState_TP(T, P); } } }
                else if (how == "TP") { p.setState_TP(T, P); }
                else if (how == "Teps") { p.setTemperature(p.temperature() * (1 + 3e-7)); }
                else if (how == "Peps") { p.setPressure(p.pressure() * (1 + 1e-6)); }
                else if (how == "Xeps") { vec y(p.nSpecies()); p.getMoleFractions(y.data()); y[0] += 1e-6; p.setMoleFractions(y.data()); }
                else if (how == "T") { p.setTemperature(T); }
                else if (how == "P") { p.setPressure(P); }
                else if (how == "TD") { p.setState_TD(T, p.density() * (P > 2e5 ? 1.1 : 0.9)); }
                else if (how == "D") { p.setDensity(p.density() * (P > 2e5 ? 1.2 : 0.8)); }
                else if (how == "X") { p.setMoleFractionsByName(x); }
                else if (how == "Y") { p.setMassFractionsByName(x); }
                else if (how == "cov") { dynamic_cast<SurfPhase&>(p).setCoveragesByName(x); }
                else if (how == "conc") { vec c(p.nSpecies()); p.getConcentrations(c.data()); for (auto& y : c) { y *= 1.25; } p.setConcentrations(c.data()); }
                else if (how == "HP") { p.setState_HP(p.enthalpy_mass() + (T > 600 ? 1 : -1) * 2e4, p.pressure()); }
                else if (how == "SP") { p.setState_SP(p.entropy_mass(), P); }
                else if (how == "UV") { p.setState_UV(p.intEnergy_mass() + (T > 600 ? 1 : -1) * 2e4, 1 / p.density()); }
                else if (how == "SV") { p.setState_SV(p.entropy_mass() * (T > 600 ? 1.01 : 0.99), 1 / p.density()); }
                else if (how == "equil") { vec before = o.raw(); try { p.equilibrate("TP"); p.setTemperature(p.temperature() * 1.013); for (double z : o.raw()) { if (!std::isfinite(z)) { throw CanteraError("equil", "not finite"); } } } catch (std::exception&) { o.setRaw(before); throw; } }
                else if (how == "pot") { p.setElectricPotential(T / 1000 - 0.5); }
                else if (how == "save") { o.saved[0] = o.raw(); }
                else if (how == "restore") { if (o.saved.count(0)) { o.setRaw(o.saved[0]); } }
                else if (how == "copy") { o.setRaw(obj[1 - op["o"].get<int>()].raw()); }
                else if (how == "advcov") { dynamic_cast<InterfaceKinetics&>(*o.kin).advanceCoverages(1e-9); }
                else { r = -2; }
                // the phases of one kinetics manager share a temperature
                for (auto& z : o.ph) {
                    if (z->temperature() != p.temperature()) { z->setState_TP(p.temperature(), z->pressure()); }
                }
            } catch (std::exception& e) {
                if (getenv("DRV_VERBOSE")) { std::cerr << e.what() << std::endl; }
                r = -1;
            }
        } else if (w == "mult") {
            size_t i = op["i"].get<int>();
            double f = op["v"].get<int>() / 2.0;
            r = setting(o, [i, f](Obj& x) { if (!x.kin) { throw CanteraError("", ""); } x.kin->setMultiplier(i % x.kin->nReactions(), f); });
        } else if (w == "rate") {
            size_t i = op["i"].get<int>();
            r = setting(o, [i](Obj& x) {
                if (!x.kin) { throw CanteraError("", ""); }
                size_t j = i % x.kin->nReactions();
                shared_ptr<Reaction> R = newReaction(x.kin->reaction(j)->parameters(true), *x.kin);
                auto a = std::dynamic_pointer_cast<ArrheniusRate>(R->rate());
                if (!a) { throw CanteraError("", "other rate type"); }
                R->setRate(std::make_shared<ArrheniusRate>(a->preExponentialFactor() * 1.5, a->temperatureExponent() + 0.25,
                                                          a->activationEnergy()));
                x.kin->modifyReaction(j, R);
            });
        } else if (w == "modsp") {
            size_t i = op["i"].get<int>();
            r = setting(o, [i](Obj& x) {
                ThermoPhase& p = *x.ph[0];
                auto s = p.species(i % p.nSpecies());
                size_t n = s->thermo->nCoeffs();
                int type;
                double lo, hi, pr;
                vec c(n);
                s->thermo->reportParameters(n, type, lo, hi, pr, c.data());
                if (type != 4 && type != 1) { throw CanteraError("", "other model"); }   // NASA2, constant cp
                if (type == 4) { c[6] += 50; c[13] += 50; } else { c[1] += 1e5; }
                auto t = std::make_shared<Species>(s->name, s->composition, s->charge, s->size);
                t->thermo.reset(newSpeciesThermoInterpType(type, lo, hi, pr, c.data()));
                t->transport = s->transport;
                t->input = s->input;
                p.modifySpecies(i % p.nSpecies(), t);
                if (x.kin) { x.kin->invalidateCache(); }
            });
        } else if (w == "addrx") {
            size_t i = op["i"].get<int>();
            r = setting(o, [i](Obj& x) {
                if (!x.kin) { throw CanteraError("", ""); }
                size_t j = i % x.kin->nReactions();
                shared_ptr<Reaction> R = newReaction(x.kin->reaction(j)->parameters(true), *x.kin);
                R->duplicate = true;
                x.kin->addReaction(R);
            });
        } else if (w == "deriv") {
            AnyMap m;
            m["skip-third-bodies"] = op["a"].get<int>() == 1;
            m["skip-falloff"] = op["b"].get<int>() == 1;
            r = setting(o, [m](Obj& x) { if (!x.kin) { throw CanteraError("", ""); } x.kin->setDerivativeSettings(m); });
        } else if (w == "tr") {
            string n = op["m"];
            r = setting(o, [n](Obj& x) { x.sol->setTransportModel(n); x.bind(); });
        } else if (w == "exist") {
            int n = op["i"], v = op["v"];
            r = setting(o, [n, v](Obj& x) { dynamic_cast<InterfaceKinetics&>(*x.kin).setPhaseExistence(n % x.kin->nPhases(), v); });
        } else if (w == "stable") {
            int n = op["i"], v = op["v"];
            r = setting(o, [n, v](Obj& x) { dynamic_cast<InterfaceKinetics&>(*x.kin).setPhaseStability(n % x.kin->nPhases(), v); });
        } else if (w == "h298") {
            size_t i = op["i"].get<int>();
            r = setting(o, [i](Obj& x) { ThermoPhase& p = *x.ph[0]; size_t k = i % p.nSpecies();
                p.modifyOneHf298SS(k, p.Hf298SS(k) + 1e6); if (x.kin) { x.kin->invalidateCache(); } });
        }
        out["r"] = r;
        out["ks"] = ks();
        return out;
    }
};
int main(int argc, char** argv) { return driverMain<Sys>(argc, argv, 60); }
