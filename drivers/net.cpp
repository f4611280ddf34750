// Reactor networks: every type of reactor, flow device, wall and reacting surface, driven through the public interface.
// The phases have integer molar masses, enthalpies that are integer multiples of the gas constant and rate constants that
// do not depend on temperature, so that every right-hand side of the governing equations is an exact integer in the units
// below.
#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/Interface.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/IdealGasPhase.h"
#include "cantera/thermo/SurfPhase.h"
#include "cantera/thermo/Species.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/ReactorSurface.h"
#include "cantera/numerics/Integrator.h"
#include "cantera/numerics/Func1.h"
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

static const double R = GasConstant;
static const double AREA0 = R / (StefanBoltz * pow(120., 4) * 0.1);   // wall area unit

static string model()
{
    static string text;
    if (text.size()) {
        return text;
    }
    auto sp = [&](const string& n, const string& comp, double a, double b, const string& extra = "") {
        text += fmt::format("- name: {}\n  composition: {{{}}}\n  thermo: {{model: constant-cp, T0: 300, h0: {:.17g} J/kmol,"
                            " s0: 0, cp0: {:.17g} J/kmol/K}}\n{}", n, comp, 10 * a * R, 10 * b * R, extra);
    };
    text = "units: {length: m, quantity: kmol, activation-energy: J/kmol}\n"
        "elements:\n- {symbol: Xe1, atomic-weight: 10}\n- {symbol: Ze1, atomic-weight: 20}\n"
        "phases:\n"
        "- {name: toy, thermo: ideal-gas, elements: [{elements: [Xe1, Ze1]}], species: [P1, P2, P3, D], kinetics: bulk,"
        " reactions: [gas-reactions], state: {T: 300, P: 1e5}}\n"
        "- {name: toy2, thermo: ideal-gas, elements: [{elements: [Xe1, Ze1]}], species: [E, D, P3, P2, P1], kinetics: bulk,"
        " reactions: [gas2-reactions], state: {T: 300, P: 1e5}}\n"
        "- {name: inert, thermo: ideal-gas, elements: [{elements: [Xe1, Ze1]}], species: [P3, P1], kinetics: bulk,"
        " reactions: none, state: {T: 300, P: 1e5}}\n"
        "- {name: surf, thermo: ideal-surface, adjacent-phases: [toy], elements: [{elements: [Xe1, Ze1]}],"
        " species: [S, AS, DS], kinetics: surface, reactions: [surf-reactions], site-density: 12 kmol/m^2,"
        " state: {T: 300, coverages: {S: 1.0}}}\n"
        "species:\n";
    // replace the element declarations of the phases by plain local ones
    size_t p;
    while ((p = text.find("[{elements: [Xe1, Ze1]}]")) != string::npos) {
        text.replace(p, 24, "[Xe1, Ze1]");
    }
    sp("P1", "Xe1: 2", 10, 3);
    sp("P2", "Xe1: 1, Ze1: 1", -20, 4);
    sp("P3", "Ze1: 2", 30, 5);
    sp("D", "Xe1: 2, Ze1: 2", -40, 7);
    sp("E", "Xe1: 4", 5, 6);
    sp("S", "", 0, 1, "  sites: 1\n");
    sp("AS", "Xe1: 2", -50, 2, "  sites: 1\n");
    sp("DS", "Xe1: 2, Ze1: 2", -90, 3, "  sites: 2\n");
    auto rx = [&](const string& eq, int k) {
        text += fmt::format("- equation: {}\n  rate-constant: {{A: {}, b: 0, Ea: 0}}\n", eq, k);
    };
    text += "gas-reactions:\n";
    rx("P1 + P3 => 2 P2", 2);
    rx("2 P2 => P1 + P3", 1);
    rx("D => 2 P2", 3);
    rx("2 P2 => D", 1);
    text += "gas2-reactions:\n";
    rx("D => P1 + P3", 2);
    rx("2 P1 => E", 1);
    rx("E => 2 P1", 3);
    text += "surf-reactions:\n";
    rx("P1 + S => AS", 2);
    rx("AS => P1 + S", 1);
    rx("D + 2 S => DS", 1);
    rx("DS => D + 2 S", 2);
    rx("AS + P3 => D + S", 1);
    return text;
}

static shared_ptr<Solution> make(const string& name)
{
    static AnyMap root = AnyMap::fromYamlString(model());
    auto& phase = root["phases"].getMapWhere("name", name);
    return newSolution(phase, root);
}

// the integer a result stands for: absolute noise below a thousandth, relative noise below 1e-9
static int toI(double x)
{
    double r = std::nearbyint(x);
    if (!std::isfinite(x)) {
        return NOTFIN;
    }
    if (std::abs(x - r) > std::max(1e-3, 1e-9 * std::abs(x))) {
        return NOTINT;
    }
    return std::abs(r) > 9e8 ? TOOBIG : static_cast<int>(r);
}

struct Line : public Func1
{
    double a, b, s;   // a + b * (x * s)
    Line(double a_, double b_, double s_) : a(a_), b(b_), s(s_) {}
    double eval(double x) const override { return a + b * (x * s); }
};

struct Sys
{
    struct Node {
        shared_ptr<ReactorBase> r;
        shared_ptr<Solution> sol;
        shared_ptr<Solution> probe;    // an independent phase used for evaluating properties
        Reactor* re = nullptr;
        bool inNet = false;
        string kind;
    };
    vec dummy;
    std::vector<shared_ptr<Solution>> sols;
    std::vector<string> solName;
    std::vector<Node> nodes;
    std::vector<shared_ptr<Line>> funcs;
    std::vector<shared_ptr<FlowDevice>> devs;
    std::vector<shared_ptr<Wall>> walls;
    struct Sf { shared_ptr<Interface> i; shared_ptr<ReactorSurface> s; size_t node; };
    std::vector<Sf> surfs;
    std::unique_ptr<ReactorNet> net;
    bool fresh = false;      // the network has been initialised since the topology last changed

    Sys(const json& cfg) { net = std::make_unique<ReactorNet>(); }
    ~Sys() { net.reset(); }

    void setGas(Solution& s, const json& op)
    {
        auto t = s.thermo();
        vec c(t->nSpecies(), 0.0);
        double rho = 0;
        for (size_t k = 0; k < c.size(); k++) {
            c[k] = op["c"].value(t->speciesName(k), 0);
            rho += c[k] * t->molecularWeight(k);
        }
        t->setConcentrations(c.data());
        t->setState_TD(op["T"].get<double>(), rho);
    }

    json state(Node& n)
    {
        json o;
        auto t = n.probe->thermo();
        n.r->restoreState();
        t->setMassFractions(n.r->massFractions());
        t->setState_TD(n.r->temperature(), n.r->density());
        o["T"] = toI(n.r->temperature());
        o["p"] = toI(n.r->pressure() / (120 * R));
        o["rho"] = toI(n.r->density());
        o["hOk"] = std::abs(n.r->enthalpy_mass() - t->enthalpy_mass()) <= 1e-7 * (std::abs(t->enthalpy_mass()) + R) ? 1 : 0;
        o["uOk"] = std::abs(n.r->intEnergy_mass() - t->intEnergy_mass()) <= 1e-7 * (std::abs(t->intEnergy_mass()) + R) ? 1 : 0;
        json c = json::object();
        for (size_t k = 0; k < t->nSpecies(); k++) {
            c[t->speciesName(k)] = toI(t->concentration(k));
        }
        for (string s : {"P1", "P2", "P3", "D", "E"}) {
            if (!c.contains(s)) {
                c[s] = 0;
            }
        }
        o["c"] = c;
        return o;
    }

    // conserved quantities and their rates of change from the state vector of a reactor
    json balance(Node& n, const double* y, const double* dy, double& V)
    {
        auto t = n.probe->thermo();
        size_t K = t->nSpecies();
        n.r->restoreState();
        double T = n.r->temperature();
        t->setMassFractions(n.r->massFractions());
        t->setState_TD(T, n.r->density());
        vec h(K), u(K), W = t->molecularWeights(), Y(K), dm(K), cp(K);
        t->getPartialMolarEnthalpies(h.data());
        t->getPartialMolarIntEnergies(u.data());
        t->getPartialMolarCp(cp.data());
        t->getMassFractions(Y.data());
        string k = n.kind;
        bool mole = k.find("Mole") != string::npos, cstP = k.find("ConstPressure") != string::npos,
             ideal = k.find("IdealGas") != string::npos;
        size_t s0;
        double m, dmt = 0, dV = 0, dE;
        if (mole) {
            s0 = cstP ? 1 : 2;
            m = 0;
            for (size_t j = 0; j < K; j++) {
                m += y[s0 + j] * W[j];
                dm[j] = dy[s0 + j] * W[j];
                dmt += dm[j];
            }
            if (!cstP) {
                dV = dy[1];
            }
            dE = dy[0];
        } else {
            s0 = ideal ? (cstP ? 2 : 3) : (cstP ? 2 : 3);
            m = y[0];
            dmt = dy[0];
            for (size_t j = 0; j < K; j++) {
                dm[j] = Y[j] * dmt + m * dy[s0 + j];
            }
            if (!cstP) {
                dV = dy[1];
            }
            dE = cstP ? dy[1] : dy[2];
        }
        if (ideal) {
            // from the temperature to the energy
            double c = 0, e = 0;
            for (size_t j = 0; j < K; j++) {
                c += m * Y[j] / W[j] * (cstP ? cp[j] : cp[j] - R);
                e += (cstP ? h[j] : u[j]) * dm[j] / W[j];
            }
            if (n.re->energyEnabled()) {
                dE = c * dE + e;
            }
        }
        json o{{"dm", toI(24 * dmt)}, {"dV", toI(dV)}, {"dE", toI(24 * dE / R)}};
        json d = json::object();
        for (string s : {"P1", "P2", "P3", "D", "E"}) {
            size_t j = t->speciesIndex(s);
            d[s] = j == npos ? 0 : toI(24 * dm[j]);
        }
        o["dk"] = d;
        json ss = json::array();
        size_t loc = s0 + K;
        for (auto& s : surfs) {
            if (&nodes[s.node] != &n) {
                continue;
            }
            auto sp = std::dynamic_pointer_cast<SurfPhase>(s.i->thermo());
            json a = json::array();
            for (size_t j = 0; j < sp->nSpecies(); j++) {
                double rate = dy[loc + j];
                if (!mole) {
                    rate *= s.s->area() * sp->siteDensity() / sp->size(j);
                }
                if (getenv("DRV_VERBOSE")) std::cerr << "surf " << 24 * rate << std::endl;
                a.push_back(toI(24 * rate));
            }
            loc += sp->nSpecies();
            ss.push_back(a);
        }
        o["surf"] = ss;
        V = n.re->volume();
        o["V"] = toI(V);
        return o;
    }

    void init()
    {
        net->setTolerances(1e-10, 1e-14);
        net->setMaxSteps(20000);
        net->initialize();
        fresh = true;
    }

    double now = 0;

    json step(const json& op)
    {
        string o = op["op"];
        if (o == "reactor") {
            return guarded([&]() {
                string phase = op["phase"];
                shared_ptr<Solution> s;
                if (op["share"].get<int>() >= 0) {
                    s = nodes.at(op["share"].get<int>()).sol;
                } else {
                    s = make(phase);
                }
                setGas(*s, op);
                Node n;
                n.sol = s;
                n.probe = make(s->name());
                n.kind = op["kind"];
                n.r = newReactor(n.kind, s);
                n.re = dynamic_cast<Reactor*>(n.r.get());
                n.r->setInitialVolume(op["V"].get<double>());
                if (n.re) {
                    n.re->setEnergy(op["energy"].get<int>());
                    n.re->setChemistry(op["chem"].get<int>());
                    net->addReactor(*n.re);
                    n.inNet = true;
                    fresh = false;
                }
                nodes.push_back(n);
                return json{{"err", 0}};
            });
        } else if (o == "flag") {
            return guarded([&]() {
                auto& n = nodes.at(op["r"].get<int>());
                if (op["what"] == "energy") {
                    n.re->setEnergy(op["v"].get<int>());
                } else if (op["what"] == "chem") {
                    n.re->setChemistry(op["v"].get<int>());
                } else {
                    n.r->setInitialVolume(op["v"].get<double>());
                }
                return json{{"err", 0}};
            });
        } else if (o == "state") {
            return guarded([&]() {
                auto& n = nodes.at(op["r"].get<int>());
                setGas(*n.sol, op);
                if (op["sync"].get<int>()) {
                    n.r->syncState();
                }
                return json{{"err", 0}};
            });
        } else if (o == "look") {
            return guarded([&]() {
                auto& n = nodes.at(op["r"].get<int>());
                json r = state(n);
                r["err"] = 0;
                return r;
            });
        } else if (o == "dev") {
            return guarded([&]() {
                auto d = std::dynamic_pointer_cast<FlowDevice>(newConnectorNode(op["kind"], nodes.at(op["a"].get<int>()).r,
                                                                             nodes.at(op["b"].get<int>()).r));
                devs.push_back(d);
                return json{{"err", 0}};
            });
        } else if (o == "devset") {
            return guarded([&]() {
                auto d = devs.at(op["d"].get<int>());
                string w = op["what"];
                double a = op["a"], b = op["b"];
                bool pscale = op["pscale"].get<int>();   // without a function of the pressure the coefficient is per pascal
                if (w == "K") {
                    double K = pscale ? a / (120 * R) : a;
                    string via = op["via"];
                    if (via == "mdot") {
                        dynamic_cast<MassFlowController&>(*d).setMassFlowRate(K);
                    } else if (via == "own" && d->type() == "Valve") {
                        dynamic_cast<Valve&>(*d).setValveCoeff(K);
                    } else if (via == "own" && d->type() == "PressureController") {
                        dynamic_cast<PressureController&>(*d).setPressureCoeff(K);
                    } else {
                        dynamic_cast<MassFlowController&>(*d).setMassFlowRate(K);
                    }
                } else if (w == "pf") {
                    funcs.push_back(std::make_shared<Line>(a, b, 1 / (120 * R)));
                    d->setPressureFunction(funcs.back().get());
                } else if (w == "tf") {
                    funcs.push_back(std::make_shared<Line>(a, b, 1.));
                    d->setTimeFunction(funcs.back().get());
                } else {
                    dynamic_cast<PressureController&>(*d).setPrimary(devs.at(op["a"].get<int>()).get());
                }
                return json{{"err", 0}};
            });
        } else if (o == "wall") {
            return guarded([&]() {
                auto w = std::dynamic_pointer_cast<Wall>(newConnectorNode("Wall", nodes.at(op["a"].get<int>()).r,
                                                                         nodes.at(op["b"].get<int>()).r));
                w->setArea(AREA0);
                walls.push_back(w);
                return json{{"err", 0}};
            });
        } else if (o == "wallset") {
            return guarded([&]() {
                auto w = walls.at(op["w"].get<int>());
                string q = op["what"];
                double a = op["a"], b = op["b"];
                if (q == "A") {
                    w->setArea(AREA0 * a);
                } else if (q == "K") {
                    w->setExpansionRateCoeff(a / (AREA0 * 120 * R));
                } else if (q == "U") {
                    if (op["b"].get<int>()) {
                        w->setThermalResistance(AREA0 / (a * R));
                    } else {
                        w->setHeatTransferCoeff(a * R / AREA0);
                    }
                } else if (q == "eps") {
                    w->setEmissivity(a * 0.1);
                } else if (q == "v") {
                    funcs.push_back(std::make_shared<Line>(a / AREA0, b / AREA0, 1.));
                    w->setVelocity(funcs.back().get());
                } else {
                    funcs.push_back(std::make_shared<Line>(a * R / AREA0, b * R / AREA0, 1.));
                    w->setHeatFlux(funcs.back().get());
                }
                return json{{"err", 0}};
            });
        } else if (o == "surf") {
            return guarded([&]() {
                size_t r = op["r"].get<int>();
                static AnyMap root = AnyMap::fromYamlString(model());
                auto& phase = root["phases"].getMapWhere("name", "surf");
                auto i = newInterface(phase, root, vector<shared_ptr<Solution>>{nodes.at(r).sol});
                auto s = std::make_shared<ReactorSurface>();
                s->setArea(op["A"].get<double>());
                s->setKinetics(i->kinetics().get());
                vec th;
                for (auto& x : op["th"]) {
                    th.push_back(x.get<double>() / 12);
                }
                s->setCoverages(th.data());
                nodes.at(r).r->addSurface(s.get());
                surfs.push_back({i, s, r});
                fresh = false;
                return json{{"err", 0}};
            });
        } else if (o == "cov") {
            return guarded([&]() {
                auto& s = surfs.at(op["s"].get<int>());
                vec th;
                for (auto& x : op["th"]) {
                    th.push_back(x.get<double>() / 12);
                }
                s.s->setCoverages(th.data());
                net->setNeedsReinit();
                return json{{"err", 0}};
            });
        } else if (o == "rates") {
            return guarded([&]() {
                double t = op["t"];
                if (!fresh || op["init"].get<int>()) {
                    init();
                }
                size_t N = net->neq();
                vec y(N), dy(N);
                net->getState(y.data());
                string via = op["via"];
                if (via == "twice") {
                    // a trial evaluation at another time and state must leave no trace
                    vec y2 = y, d2(N);
                    for (auto& x : y2) {
                        x *= 1.01;
                    }
                    net->eval(t + 3, y2.data(), d2.data(), nullptr);
                }
                net->eval(t, y.data(), dy.data(), nullptr);
                json rs = json::array(), ds = json::array(), ws = json::array();
                size_t start = 0;
                for (auto& n : nodes) {
                    if (!n.re) {
                        rs.push_back(json{{"res", 1}});
                        continue;
                    }
                    double V;
                    json b = balance(n, &y[start], &dy[start], V);
                    b["res"] = 0;
                    b["st"] = state(n);
                    rs.push_back(b);
                    start += n.re->neq();
                }
                for (auto& d : devs) {
                    json f = json::object();
                    auto th = d->out().contents().speciesNames();
                    for (string s : {"P1", "P2", "P3", "D", "E"}) {
                        size_t j = d->out().contents().speciesIndex(s);
                        f[s] = j == npos ? 0 : toI(24 * d->outletSpeciesMassFlowRate(j));
                    }
                    ds.push_back(json{{"m", toI(d->massFlowRate())}, {"f", f},
                                      {"h", toI(24 * d->massFlowRate() * d->enthalpy_mass() / R)}});
                }
                for (auto& w : walls) {
                    ws.push_back(json{{"v", toI(w->expansionRate())}, {"q", toI(w->heatRate() / R)}});
                }
                return json{{"err", 0}, {"r", rs}, {"d", ds}, {"w", ws}};
            });
        } else if (o == "advance") {
            return guarded([&]() {
                if (!fresh) {
                    init();
                }
                net->setInitialTime(op["t0"].get<double>());
                double dt = op["ms"].get<double>() / 1000;
                double t0 = op["t0"];
                if (op["via"] == "step") {
                    net->setMaxTimeStep(dt / 7);
                    while (net->time() < t0 + dt * 0.5) {
                        net->step();
                    }
                    net->setMaxTimeStep(0);
                    net->advance(std::max(net->time(), t0 + dt));
                } else {
                    net->advance(t0 + dt / 2);
                    net->advance(t0 + dt);
                }
                double m = 0, mx = 0, mz = 0, E = 0, V = 0;
                json site = json::array(), neg = json::array();
                double minY = 0;
                for (auto& n : nodes) {
                    if (!n.re) {
                        continue;
                    }
                    auto t = n.probe->thermo();
                    n.r->restoreState();
                    t->setMassFractions(n.r->massFractions());
        t->setState_TD(n.r->temperature(), n.r->density());
                    double vol = n.re->volume();
                    V += vol;
                    m += vol * t->density();
                    for (size_t k = 0; k < t->nSpecies(); k++) {
                        double c = t->concentration(k) * vol;
                        mx += c * t->nAtoms(k, t->elementIndex("Xe1")) * 10;
                        mz += c * t->nAtoms(k, t->elementIndex("Ze1")) * 20;
                        minY = std::min(minY, t->massFraction(k));
                    }
                    bool cstP = n.kind.find("ConstPressure") != string::npos;
                    E += vol * t->density() * (cstP ? t->enthalpy_mass() : t->intEnergy_mass()) / R;
                    for (auto& s : surfs) {
                        if (&nodes[s.node] == &n) {
                            auto sp = std::dynamic_pointer_cast<SurfPhase>(s.i->thermo());
                            vec th(sp->nSpecies());
                            s.s->getCoverages(th.data());
                            double sum = 0;
                            for (size_t k = 0; k < th.size(); k++) {
                                double mol = th[k] * s.s->area() * sp->siteDensity() / sp->size(k);
                                mx += mol * sp->nAtoms(k, sp->elementIndex("Xe1")) * 10;
                                mz += mol * sp->nAtoms(k, sp->elementIndex("Ze1")) * 20;
                                m += mol * sp->molecularWeight(k);
                                sum += th[k];
                            }
                            site.push_back(static_cast<int>(std::lround(1e6 * sum)));
                        }
                    }
                }
                auto I = [](double x) { return std::isfinite(x) && std::abs(x) < 2e9 ? static_cast<int>(std::lround(x)) : NOTFIN; };
                // what the controllers deliver is measured at the very end
                return json{{"err", 0}, {"m", I(1000 * m)}, {"x", I(1000 * mx)}, {"z", I(1000 * mz)}, {"V", I(1e5 * V)},
                            {"E", I(E)}, {"site", site}, {"neg", minY < -1e-6 ? 1 : 0},
                            {"t", static_cast<int>(std::lround(1000 * (net->time() - t0)))}};
            });
        }
        return json{{"bad", 1}};
    }
};

int main(int argc, char** argv)
{
    return driverMain<Sys>(argc, argv, 60);
}
