// The life cycle of a reactor network: initial time, initialisation, advance, step, limits, external changes of contents.
// Mass and volume of every reactor change linearly in time, so that its state is known exactly at every time.
#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/numerics/Integrator.h"
#include "cantera/numerics/Func1.h"
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

static const char* MODEL =
    "units: {length: m, quantity: kmol}\n"
    "elements:\n- {symbol: Xe1, atomic-weight: 10}\n- {symbol: Ze1, atomic-weight: 20}\n"
    "phases:\n"
    "- {name: gas2, thermo: ideal-gas, elements: [Xe1, Ze1], species: [P1, P2], state: {T: 300, P: 1e5}}\n"
    "- {name: gas3, thermo: ideal-gas, elements: [Xe1, Ze1], species: [P2, P3, P1], state: {T: 300, P: 1e5}}\n"
    "species:\n"
    "- {name: P1, composition: {Xe1: 2}, thermo: {model: constant-cp, T0: 300, h0: 0, s0: 0, cp0: 30000 J/kmol/K}}\n"
    "- {name: P2, composition: {Xe1: 1, Ze1: 1}, thermo: {model: constant-cp, T0: 300, h0: 0, s0: 0, cp0: 30000 J/kmol/K}}\n"
    "- {name: P3, composition: {Ze1: 2}, thermo: {model: constant-cp, T0: 300, h0: 0, s0: 0, cp0: 30000 J/kmol/K}}\n";

static shared_ptr<Solution> make(const string& name)
{
    static AnyMap root = AnyMap::fromYamlString(MODEL);
    auto& phase = root["phases"].getMapWhere("name", name);
    return newSolution(phase, root);
}

struct Const : public Func1
{
    double a;
    Const(double a_) : a(a_) {}
    double eval(double) const override { return a; }
};

static int micro(double x)
{
    return std::isfinite(x) && std::abs(x) < 2100 ? static_cast<int>(std::lround(1e6 * x)) : NOTFIN;
}

struct Net : public ReactorNet
{
    using ReactorNet::getEstimate;
};

struct Sys
{
    struct Node {
        shared_ptr<Solution> sol;
        shared_ptr<ReactorBase> r;
        Reactor* re = nullptr;
        string kind;
    };
    std::vector<Node> nodes;
    std::vector<size_t> order;     // reactors in the order of addition to the network
    std::vector<shared_ptr<ReactorBase>> outer;
    std::vector<shared_ptr<FlowDevice>> devs;
    std::vector<shared_ptr<Wall>> walls;
    std::vector<shared_ptr<Const>> funcs;
    std::unique_ptr<Net> net = std::make_unique<Net>();
    shared_ptr<ReactorBase> flow;

    Sys(const json& cfg) {}
    ~Sys() { net.reset(); }

    // the composition is fixed by the phase: equal mass fractions
    void setGas(Solution& s, double T, double rho)
    {
        auto t = s.thermo();
        vec y(t->nSpecies(), 1.0);
        t->setMassFractions(y.data());
        t->setState_TD(T, rho);
    }

    json look(Node& n)
    {
        auto t = n.sol->thermo();
        json o;
        auto& r = *n.re;
        o["m"] = micro(r.mass());
        o["V"] = micro(r.volume());
        o["rho"] = micro(r.density());
        o["T"] = micro(r.temperature());
        o["mv"] = std::abs(r.mass() - r.volume() * r.density()) < 1e-9 * r.mass() ? 1 : 0;
        double dy = 0;
        for (size_t k = 0; k < t->nSpecies(); k++) {
            dy = std::max(dy, std::abs(r.massFraction(k) - 1. / t->nSpecies()));
        }
        o["y"] = dy < 1e-8 ? 1 : 0;
        return o;
    }

    json all()
    {
        json a = json::array();
        for (auto& n : nodes) {
            json l = look(n);
            a.push_back(l);
        }
        return a;
    }

    // the contents of the phases themselves
    json contents()
    {
        json a = json::array();
        for (auto& n : nodes) {
            auto t = n.sol->thermo();
            a.push_back(json{{"T", micro(t->temperature())}, {"rho", micro(t->density())}});
        }
        return a;
    }

    json step(const json& op)
    {
        string o = op["op"];
        json r = guarded([&]() { return act(o, op); });
        r["r"] = all();
        r["c"] = contents();
        r["t"] = micro(net->time());
        r["inet"] = static_cast<int>(order.size());
        return r;
    }

    json act(const string& o, const json& op)
    {
        json ok{{"err", 0}};
        if (o == "new") {
            Node n;
            n.sol = make(op["phase"]);
            n.kind = op["kind"];
            double V = op["V"], m = op["m"];
            setGas(*n.sol, op["T"], m / V);
            n.r = newReactor(n.kind, n.sol, op["name"]);
            n.re = dynamic_cast<Reactor*>(n.r.get());
            n.re->setInitialVolume(V);
            n.re->setEnergy(0);
            // a source, a sink and a wall, whose rates are zero until set
            auto res = newReactor("Reservoir", n.sol, "");
            outer.push_back(res);
            auto in = std::dynamic_pointer_cast<FlowDevice>(newConnectorNode("MassFlowController", res, n.r));
            auto out = std::dynamic_pointer_cast<FlowDevice>(newConnectorNode("MassFlowController", n.r, res));
            dynamic_cast<MassFlowController&>(*in).setMassFlowRate(0);
            dynamic_cast<MassFlowController&>(*out).setMassFlowRate(0);
            devs.push_back(in);
            devs.push_back(out);
            auto w = std::dynamic_pointer_cast<Wall>(newConnectorNode("Wall", n.r, res));
            walls.push_back(w);
            nodes.push_back(n);
            return ok;
        } else if (o == "add") {
            size_t i = op["r"].get<int>();
            net->addReactor(*nodes.at(i).re);
            order.push_back(i);
            return ok;
        } else if (o == "addflow") {
            // a plug-flow reactor cannot join reactors that evolve in time
            flow = newReactor("FlowReactor", nodes.at(0).sol, "pfr");
            net->addReactor(dynamic_cast<Reactor&>(*flow));
            return ok;
        } else if (o == "rate") {
            size_t i = op["r"].get<int>();
            int q = op["m"];
            dynamic_cast<MassFlowController&>(*devs[2 * i]).setMassFlowRate(std::max(q, 0) + op["thru"].get<int>());
            dynamic_cast<MassFlowController&>(*devs[2 * i + 1]).setMassFlowRate(std::max(-q, 0) + op["thru"].get<int>());
            funcs.push_back(std::make_shared<Const>(op["v"].get<double>()));
            walls[i]->setVelocity(funcs.back().get());
            walls[i]->setArea(1.0);
            net->setNeedsReinit();
            return ok;
        } else if (o == "tinit") {
            net->setInitialTime(op["t"].get<double>());
            return ok;
        } else if (o == "maxstep") {
            net->setMaxTimeStep(op["h"].get<double>());
            return ok;
        } else if (o == "tol") {
            net->setTolerances(op["a"].get<int>() ? 1e-9 : 1e-10, 1e-13);
            return json{{"err", 0}, {"ok", net->rtol() == (op["a"].get<int>() ? 1e-9 : 1e-10) && net->atol() == 1e-13 ? 1 : 0}};
        } else if (o == "init") {
            net->initialize();
            return ok;
        } else if (o == "reinit") {
            net->reinitialize();
            return ok;
        } else if (o == "advance") {
            net->advance(net->time() + op["dt"].get<double>());
            return ok;
        } else if (o == "back") {
            net->advance(net->time() - op["dt"].get<double>());
            return ok;
        } else if (o == "step") {
            double t = net->step();
            return json{{"err", 0}, {"ret", micro(t)}};
        } else if (o == "advlim") {
            bool pre = op["pre"].get<int>();
            if (pre) {
                net->step();
            }
            vec y0(nodes.size());
            int t0 = micro(net->time());
            json before = all();
            double t = net->advance(net->time() + op["dt"].get<double>(), true);
            return json{{"err", 0}, {"ret", micro(t)}, {"t0", t0}, {"r0", before}};
        } else if (o == "setlim") {
            auto& n = nodes.at(op["r"].get<int>());
            n.re->setAdvanceLimit(op["c"], op["v"].get<double>());
            return ok;
        } else if (o == "getlim") {
            net->initialize();
            vec lim(net->neq(), -7);
            bool has = net->getAdvanceLimits(lim.data());
            json a = json::array();
            size_t start = 0;
            for (size_t i : order) {
                auto& n = nodes[i];
                json l = json::object();
                for (size_t k = 0; k < n.re->neq(); k++) {
                    double v = lim.at(start + k);
                    if (v != -1.0) {
                        l[n.re->componentName(k)] = toInt(v);
                    }
                }
                json e{{"mass", l.value("mass", -1)}, {"volume", l.value("volume", -1)}, {"n", static_cast<int>(l.size())}};
                a.push_back(e);
                start += n.re->neq();
            }
            return json{{"err", 0}, {"has", has ? 1 : 0}, {"has2", net->hasAdvanceLimits() ? 1 : 0}, {"lim", a}};
        } else if (o == "setlims") {
            net->initialize();
            vec lim(net->neq(), op["v"].get<double>());
            net->setAdvanceLimits(lim.data());
            return ok;
        } else if (o == "state") {
            auto& n = nodes.at(op["r"].get<int>());
            setGas(*n.sol, op["T"], op["m"].get<double>() / n.re->volume());
            if (op["sync"].get<int>()) {
                n.r->syncState();
            }
            return ok;
        } else if (o == "restore") {
            nodes.at(op["r"].get<int>()).r->restoreState();
            return ok;
        } else if (o == "names") {
            // names and indices of all components
            json bad = 0;
            std::vector<string> want;
            size_t pos = 0;
            net->initialize();
            for (size_t q = 0; q < order.size(); q++) {
                auto& n = nodes[order[q]];
                for (size_t k = 0; k < n.re->neq(); k++) {
                    string nm = n.re->componentName(k);
                    if (n.re->componentIndex(nm) != k) {
                        bad = 1;
                    } else if (net->globalComponentIndex(nm, q) != pos) {
                        bad = 2;
                    } else if (net->componentName(pos) != n.re->name() + ": " + nm) {
                        bad = 3;
                    }
                    pos++;
                }
            }
            json sizes = json::array(), nm = json::array();
            for (size_t i : order) {
                sizes.push_back(static_cast<int>(nodes[i].re->neq()));
                nm.push_back(nodes[i].re->name());
            }
            bool past = throws([&]() { net->componentName(pos); });
            return json{{"err", 0}, {"bad", bad}, {"neq", static_cast<int>(net->neq())}, {"sizes", sizes}, {"past", past ? 1 : 0}, {"names", nm}};
        } else if (o == "vector") {
            // the state vector of the network agrees with the reactors
            if (op["via"] == "init") {
                net->initialize();
            }
            vec y(net->neq());
            net->getState(y.data());
            json a = json::array();
            size_t start = 0;
            for (size_t i : order) {
                auto& n = nodes[i];
                size_t N = n.re->neq();
                json e;
                size_t K = n.sol->thermo()->nSpecies();
                bool mole = n.kind.find("Mole") != string::npos;
                double m = 0, V = -1;
                if (mole) {
                    for (size_t k = 0; k < K; k++) {
                        m += y.at(start + N - K + k) * n.sol->thermo()->molecularWeight(k);
                    }
                } else {
                    m = y.at(start);
                }
                if (n.kind.find("ConstPressure") == string::npos) {
                    V = y.at(start + 1);
                }
                start += N;
                a.push_back(json{{"m", micro(m)}, {"V", micro(V)}});
            }
            return json{{"err", 0}, {"v", a}};
        } else if (o == "est") {
            // first-order extrapolation and the derivative of the solution
            vec y(net->neq()), e(net->neq()), d(net->neq());
            net->getState(y.data());
            net->getEstimate(net->time() + op["dt"].get<double>(), 1, e.data());
            net->getDerivative(1, d.data());
            json a = json::array();
            size_t start = 0;
            for (size_t i : order) {
                auto& n = nodes[i];
                size_t N = n.re->neq(), K = n.sol->thermo()->nSpecies();
                bool mole = n.kind.find("Mole") != string::npos;
                double dm = 0, de = 0;
                if (mole) {
                    for (size_t k = 0; k < K; k++) {
                        double w = n.sol->thermo()->molecularWeight(k);
                        dm += d.at(start + N - K + k) * w;
                        de += (e.at(start + N - K + k) - y.at(start + N - K + k)) * w;
                    }
                } else {
                    dm = d.at(start);
                    de = e.at(start) - y.at(start);
                }
                start += N;
                a.push_back(json{{"d", toInt(dm, 1e-4)}, {"e", toInt(de, 1e-4)}});
            }
            return json{{"err", 0}, {"v", a}};
        }
        return json{{"bad", 1}};
    }
};

int main(int argc, char** argv)
{
    return driverMain<Sys>(argc, argv, 60);
}
