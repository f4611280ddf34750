#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/SolutionArray.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/thermo/ThermoFactory.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/Species.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/ConstCpPoly.h"
#include "cantera/thermo/NasaPoly2.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/zerodim.h"
#include "cantera/kinetics/KineticsFactory.h"
using namespace Cantera;
using std::string;

struct Sys {
    shared_ptr<Solution> sol;
    shared_ptr<ThermoPhase> th;
    bool surf;
    bool mass = false;
    double sum = 1;
    std::set<size_t> modified;
    std::map<int, std::shared_ptr<void>> held;

    explicit Sys(const json& cfg) {
        sol = Solution::create();
        surf = cfg["thermo"] == "ideal-surface";
        th = newThermoModel(cfg["thermo"]);
        sol->setThermo(th);
        if (!surf) {
            sol->setKinetics(newKinetics("none"));
        }
        policy(cfg["policy"]);
    }
    void policy(const string& p) {
        if (p == "add") { th->addUndefinedElements(); }
        else if (p == "ignore") { th->ignoreUndefinedElements(); }
        else { th->throwUndefinedElements(); }
    }
    static shared_ptr<Species> make(const json& x) {
        Composition c;
        for (auto& p : x["c"]) {
            c[p[0].get<string>()] = p[1].get<double>();
        }
        auto s = std::make_shared<Species>(x["n"].get<string>(), c, x["q"].get<double>(), x["sz"].get<double>());
        if (x["th"].get<bool>()) {
            double p0 = x["p0"].get<double>();
            if (x["poly"].get<bool>()) {
                vector<double> co(15, 1.0);
                co[0] = 1000;
                s->thermo = std::make_shared<NasaPoly2>(200, 3000, p0, co.data());
            } else {
                double co[4] = {300, x["h"].get<double>() * 1000, 0, 0};
                s->thermo = std::make_shared<ConstCpPoly>(200, 3000, p0, co);
            }
        }
        return s;
    }
    json dump() {
        json d;
        json el = json::array(), w = json::array(), eidx = json::array(), sp = json::array(), idx = json::array(), c = json::array(),
            q = json::array(), sz = json::array(), h = json::array(), x = json::array(), mw = json::array(), imw = json::array();
        size_t K = th->nSpecies(), M = th->nElements();
        for (size_t m = 0; m < M; m++) {
            el.push_back(th->elementName(m));
            w.push_back(int(std::nearbyint(1e6 * th->atomicWeight(m))));
            size_t e = th->elementIndex(th->elementName(m));
            eidx.push_back(e == npos ? -1 : int(e));
        }
        bool sizes = th->elementNames().size() == M && th->atomicWeights().size() == M && th->speciesNames().size() == K
            && th->molecularWeights().size() == K && th->inverseMolecularWeights().size() == K;
        vector<double> ch(K + 1, 7.0), hh(K + 1, 7.0);
        th->getCharges(ch.data());
        if (K) {
            if (surf) {
                for (size_t k = 0; k < K; k++) {
                    double cp, s;
                    th->speciesThermo().update_single(k, 300, &cp, &hh[k], &s);
                    hh[k] *= GasConstant * 300 / 1000;
                }
            } else {
                double T = th->temperature();
                th->setState_TP(300, OneAtm);
                th->getEnthalpy_RT_ref(hh.data());
                for (size_t k = 0; k < K; k++) {
                    hh[k] *= GasConstant * 300 / 1000;
                }
                (void) T;
            }
        }
        vector<double> xf(K + 1, 7.0);
        mass ? th->getMassFractions(xf.data()) : th->getMoleFractions(xf.data());
        for (size_t k = 0; k < K; k++) {
            sp.push_back(th->speciesName(k));
            size_t i = npos;
            try { i = th->speciesIndex(th->speciesName(k)); } catch (CanteraError&) {}
            idx.push_back(i == npos ? -1 : int(i));
            json row = json::array();
            for (size_t m = 0; m < M; m++) {
                row.push_back(toInt(th->nAtoms(k, m)));
            }
            c.push_back(row);
            bool same = th->charge(k) == ch[k] && th->species(k)->charge == ch[k] && th->species(k)->name == th->speciesName(k);
            q.push_back(same ? toInt(ch[k]) : NOTINT);
            sz.push_back(surf ? toInt(static_cast<SurfPhase&>(*th).size(k)) : toInt(th->species(k)->size));
            h.push_back(toInt(hh[k], 1e-6));
            mw.push_back(int(std::nearbyint(1e6 * th->molecularWeight(k))));
            imw.push_back(sizes && std::abs(th->inverseMolecularWeights()[k] * th->molecularWeights()[k] - 1) < 1e-9
                          && th->molecularWeights()[k] == th->molecularWeight(k)
                          && (modified.count(k) || std::abs(th->species(k)->molecularWeight() - th->molecularWeight(k)) < 1e-6) ? 1 : 0);
            x.push_back(toInt(xf[k] * sum, 1e-6));
        }
        int oob = throws([&] { th->speciesName(K); }) && throws([&] { th->elementName(M); }) && throws([&] { th->species(K); })
            && throws([&] { th->nAtoms(K, 0); }) && throws([&] { th->nAtoms(0, M); }) && throws([&] { th->molecularWeight(K); })
            && throws([&] { th->moleFraction(K); }) && throws([&] { th->massFraction(K); });
        return json{{"el", el}, {"w", w}, {"eidx", eidx}, {"sp", sp}, {"idx", idx}, {"c", c}, {"q", q}, {"sz", sz}, {"h", h},
                    {"x", x}, {"mw", mw}, {"imw", imw}, {"oob", oob}};
    }
    void hold(const json& op) {
        string k = op["kind"];
        int id = op["id"];
        if (k == "lock") {
            th->addSpeciesLock();
            auto t = th;
            held[id] = std::shared_ptr<void>(new int(1), [t](void* p) { t->removeSpeciesLock(); delete (int*) p; });
        } else if (k == "array") {
            held[id] = SolutionArray::create(sol, 2);
        } else if (k == "slice" || k == "badslice") {
            auto a = SolutionArray::create(sol, 3);
            vector<int> sel = k == "slice" ? vector<int>{0, 2} : vector<int>{1, 1};
            auto b = a->share(sel);
            held[id] = b;                 // the parent array is gone, the view keeps the phase in use
        } else if (k == "mix") {
            auto m = std::make_shared<MultiPhase>();
            m->addPhase(th, 1.0);
            held[id] = m;
        } else if (k == "mix2") {        // used twice by one mixture
            auto m = std::make_shared<MultiPhase>();
            m->addPhase(th, 1.0);
            m->addPhase(th, 2.0);
            held[id] = m;
        } else if (k == "latemix") {     // refused: the mixture has been initialised
            auto m = std::make_shared<MultiPhase>();
            m->addPhase(th, 1.0);
            m->init();
            m->addPhase(th, 1.0);
            held[id] = m;
        } else if (k == "reservoir") {
            held[id] = newReactor("Reservoir", sol);
        } else if (k == "reactor") {
            held[id] = newReactor("IdealGasReactor", sol);
        } else if (k == "moved") {       // a reactor that has been given this phase, and given it again
            auto r = newReactor("Reactor", sol);
            r->setSolution(sol);
            held[id] = r;
        } else if (k == "away") {        // a reactor that has been given another phase since
            auto other = newSolution("h2o2.yaml", "ohmech", "none");
            auto r = newReactor("Reactor", sol);
            r->setSolution(other);
            held[id] = r;
        }
    }
    json step(const json& op) {
        string o = op["op"];
        json r;
        json out;
        if (o == "el") {
            try {
                double w = op["w"].get<int>();
                size_t i = th->addElement(op["n"], w == -1 ? -12345.0 : w / 1e6);
                r = int(i);
            } catch (CanteraError&) { r = -1; }
        } else if (o == "sp") {
            try { r = th->addSpecies(make(op["x"])) ? 1 : 0; } catch (CanteraError&) { r = -1; }
            if (r == 1 && th->nSpecies() == 1) {
                mass = false; sum = 1;
            }
        } else if (o == "alias") {
            r = throws([&] { th->addSpeciesAlias(op["n"], op["a"]); }) ? -1 : 1;
        } else if (o == "policy") {
            policy(op["p"]);
            r = 1;
        } else if (o == "case") {
            th->setCaseSensitiveSpecies(op["v"]);
            r = 1;
        } else if (o == "modify") {
            r = throws([&] { th->modifySpecies(op["k"].get<size_t>(), make(op["x"])); }) ? -1 : 1;
            if (r == 1) { modified.insert(op["k"].get<size_t>()); }
        } else if (o == "look") {
            r = json::array();
            json by = json::array(), es = json::array(), iso = json::array();
            for (auto& n : op["ns"]) {
                string s = n[0];
                try {
                    size_t k = th->speciesIndex(s);
                    r.push_back(k == npos ? -1 : int(k));
                } catch (CanteraError&) { r.push_back(-2); }
                try { by.push_back(th->species(s)->name); } catch (CanteraError&) { by.push_back(""); }
            }
            for (auto& e : op["es"]) {
                size_t m = th->elementIndex(e);
                es.push_back(m == npos ? -1 : int(m));
            }
            Composition c;
            for (auto& p : op["iso"]) { c[p[0].get<string>()] = p[1].get<double>(); }
            for (auto& n : th->findIsomers(c)) { iso.push_back(n); }
            out["e"] = es; out["by"] = by; out["iso"] = iso;
        } else if (o == "set") {
            double tot = 0;
            bool m = op["mass"];
            Composition c;
            for (auto& p : op["m"]) {
                c[p[0].get<string>()] = p[2].get<double>();
                tot += p[2].get<double>();
            }
            bool bad = throws([&] { m ? th->setMassFractionsByName(c) : th->setMoleFractionsByName(c); });
            r = bad ? -1 : 1;
            if (!bad) { mass = m; sum = tot; }
        } else if (o == "hold") {
            r = throws([&] { hold(op); }) ? -1 : 1;
        } else if (o == "release") {
            r = throws([&] { held.erase(op["id"].get<int>()); }) ? -1 : 1;
        } else if (o == "unlock") {
            r = throws([&] { th->removeSpeciesLock(); }) ? -1 : 1;
        }
        out["r"] = r;
        out["d"] = dump();
        return out;
    }
    ~Sys() { try { held.clear(); } catch (...) {} }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
