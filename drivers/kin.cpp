#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/numerics/eigen_sparse.h"
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

struct Sys {
    shared_ptr<Solution> sol;
    ThermoPhase* th = nullptr;
    Kinetics* kin = nullptr;
    size_t K = 0;

    explicit Sys(const json& cfg) {
        AnyMap root = AnyMap::fromYamlString(cfg["yaml"].get<string>());
        sol = newSolution(root["phases"].getMapWhere("name", "gas"), root);
        th = sol->thermo().get();
        kin = sol->kinetics().get();
        K = th->nSpecies();
        setState(1, vec(K, 1.0));
        AnyMap m;
        m["rtol-delta"] = 1e-7;    // step of numerical derivatives
        kin->setDerivativeSettings(m);
    }
    void setState(int theta, const vec& c) {
        th->setState_TP(1000.0 / theta, 1e5);
        th->setConcentrations(c.data());
    }
    json perRx(std::function<void(double*)> f, double scale, double tol = 1e-7, double snap = 0.0) {
        vec v(kin->nReactions() + 1, -7.0);
        f(v.data());
        json a = json::array();
        for (size_t i = 0; i < kin->nReactions(); i++) {
            double x = v[i] * scale, near = std::nearbyint(x);
            a.push_back(std::isnan(x) ? -1 : toInt(std::abs(x - near) < snap ? near : x, tol));
        }
        return a;
    }
    json perSp(std::function<void(double*)> f, double scale) {
        vec v(K + 1, -7.0);
        f(v.data());
        json a = json::array();
        for (size_t i = 0; i < K; i++) {
            a.push_back(toInt(v[i] * scale));
        }
        return a;
    }
    json mat(const Eigen::SparseMatrix<double>& m, double scale, bool transpose = false) {
        json a = json::array();
        Eigen::MatrixXd d = m;
        if (transpose) {
            d.transposeInPlace();
        }
        double mx = d.size() ? d.cwiseAbs().maxCoeff() * scale : 0.0;
        auto near = [&](double x) {
            double r = std::nearbyint(x);
            return std::abs(x - r) < std::min(0.1, 1e-6 * mx) ? r : x;
        };
        for (int i = 0; i < d.rows(); i++) {
            json r = json::array();
            for (int j = 0; j < d.cols(); j++) {
                r.push_back(toInt(near(d(i, j) * scale), 1e-6));
            }
            a.push_back(r);
        }
        return a;
    }
    json query(const string& q) {
        const double RT0 = GasConstant * 1000 * std::log(2.0);
        if (q == "fwd") return perRx([&](double* x) { kin->getFwdRatesOfProgress(x); }, 64);
        if (q == "rev") return perRx([&](double* x) { kin->getRevRatesOfProgress(x); }, 64);
        if (q == "net") return perRx([&](double* x) { kin->getNetRatesOfProgress(x); }, 64);
        if (q == "cre") return perSp([&](double* x) { kin->getCreationRates(x); }, 128);
        if (q == "des") return perSp([&](double* x) { kin->getDestructionRates(x); }, 128);
        if (q == "npr") return perSp([&](double* x) { kin->getNetProductionRates(x); }, 128);
        if (q == "kf") return perRx([&](double* x) { kin->getFwdRateConstants(x); }, 64);
        if (q == "kr") return perRx([&](double* x) { kin->getRevRateConstants(x, false); }, 64);
        if (q == "kri") return perRx([&](double* x) { kin->getRevRateConstants(x, true); }, 64);
        if (q == "kc") return perRx([&](double* x) { kin->getEquilibriumConstants(x); }, 64);
        if (q == "tbc") return perRx([&](double* x) { kin->getThirdBodyConcentrations(x); }, 1);
        if (q == "dh") return perRx([&](double* x) { kin->getDeltaEnthalpy(x); }, 2 / RT0);
        if (q == "dssh") return perRx([&](double* x) { kin->getDeltaSSEnthalpy(x); }, 2 / RT0);
        if (q == "dsum") {
            // reaction deltas against the sums over species: number of reactions where they differ, per property
            json a = json::array();
            vec p(K), d(kin->nReactions()), s0(K);
            auto cmp = [&](std::function<void(double*)> get, std::function<void(double*)> del) {
                get(p.data());
                del(d.data());
                int bad = 0;
                for (size_t i = 0; i < kin->nReactions(); i++) {
                    double sum = 0, mag = 1e-30;
                    for (size_t k = 0; k < K; k++) {
                        double nu = kin->productStoichCoeff(k, i) - kin->reactantStoichCoeff(k, i);
                        sum += nu * p[k];
                        mag += std::abs(nu * p[k]);
                    }
                    bad += std::abs(sum - d[i]) > 1e-8 * mag + 1e-6;
                }
                a.push_back(bad);
            };
            double RT = GasConstant * th->temperature();
            auto scaled = [&](void (ThermoPhase::*f)(double*) const, double c) {
                return [=](double* x) {
                    (th->*f)(x);
                    for (size_t k = 0; k < K; k++) {
                        x[k] *= c;
                    }
                };
            };
            cmp([&](double* x) { th->getPartialMolarEnthalpies(x); }, [&](double* x) { kin->getDeltaEnthalpy(x); });
            cmp([&](double* x) { th->getPartialMolarEntropies(x); }, [&](double* x) { kin->getDeltaEntropy(x); });
            cmp([&](double* x) { th->getChemPotentials(x); }, [&](double* x) { kin->getDeltaGibbs(x); });
            cmp(scaled(&ThermoPhase::getEnthalpy_RT, RT), [&](double* x) { kin->getDeltaSSEnthalpy(x); });
            cmp(scaled(&ThermoPhase::getEntropy_R, GasConstant), [&](double* x) { kin->getDeltaSSEntropy(x); });
            cmp([&](double* x) { th->getStandardChemPotentials(x); }, [&](double* x) { kin->getDeltaSSGibbs(x); });
            return a;
        }
        if (q == "delta") return perRx([&](double* x) {
            vec p(K);
            for (size_t k = 0; k < K; k++) {
                p[k] = double((k + 1) * (k + 1) + 1);
            }
            kin->getReactionDelta(p.data(), x);
        }, 2);
        if (q == "revs" || q == "mult") {
            json a = json::array();
            for (size_t i = 0; i < kin->nReactions(); i++) {
                a.push_back(q == "mult" ? toInt(kin->multiplier(i)) : int(kin->isReversible(i)));
            }
            return a;
        }
        if (q == "rs" || q == "ps") {
            // by element and by matrix must agree
            Eigen::MatrixXd m = (q == "rs") ? kin->reactantStoichCoeffs() : kin->productStoichCoeffs();
            json a = json::array();
            for (size_t i = 0; i < kin->nReactions(); i++) {
                json r = json::array();
                for (size_t k = 0; k < K; k++) {
                    double v = q == "rs" ? kin->reactantStoichCoeff(k, i) : kin->productStoichCoeff(k, i);
                    r.push_back(v == m(k, i) ? toInt(2 * v) : NOTINT);
                }
                a.push_back(r);
            }
            return a;
        }
        if (q == "rpm") return mat(kin->revProductStoichCoeffs(), 2, true);
        if (q == "dfwd") return mat(kin->fwdRatesOfProgress_ddCi(), 64);
        if (q == "drev") return mat(kin->revRatesOfProgress_ddCi(), 64);
        if (q == "dnet") return mat(kin->netRatesOfProgress_ddCi(), 64);
        if (q == "dfx") return mat(kin->fwdRatesOfProgress_ddX(), 64);
        if (q == "drx") return mat(kin->revRatesOfProgress_ddX(), 64);
        if (q == "dnx") return mat(kin->netRatesOfProgress_ddX(), 64);
        double ct = th->molarDensity();
        if (q == "dfc") return perRx([&](double* x) { kin->getFwdRatesOfProgress_ddC(x); }, 64 * ct, 1e-6, 0.1);
        if (q == "drc") return perRx([&](double* x) { kin->getRevRatesOfProgress_ddC(x); }, 64 * ct, 1e-6, 0.1);
        if (q == "dnc") return perRx([&](double* x) { kin->getNetRatesOfProgress_ddC(x); }, 64 * ct, 1e-6, 0.1);
        if (q == "dfp") return perRx([&](double* x) { kin->getFwdRatesOfProgress_ddP(x); }, 64, 1e-4);
        auto logd = [&](std::function<void(double*)> val, std::function<void(double*)> der) {
            return perRx([&](double* x) {
                vec v(kin->nReactions() + 1);
                val(v.data());
                der(x);
                for (size_t i = 0; i < kin->nReactions(); i++) {
                    x[i] = v[i] == 0 ? x[i] : x[i] * th->temperature() / v[i];
                }
            }, 1, 1e-4);
        };
        if (q == "dft") return logd([&](double* x) { kin->getFwdRatesOfProgress(x); },
                                    [&](double* x) { kin->getFwdRatesOfProgress_ddT(x); });
        if (q == "drt") return logd([&](double* x) { kin->getRevRatesOfProgress(x); },
                                    [&](double* x) { kin->getRevRatesOfProgress_ddT(x); });
        if (q == "dkt") return logd([&](double* x) { kin->getFwdRateConstants(x); },
                                    [&](double* x) { kin->getFwdRateConstants_ddT(x); });
        if (q == "dnpr") return mat(kin->netProductionRates_ddCi(), 128);
        if (q == "dcre") return mat(kin->creationRates_ddCi(), 128);
        if (q == "ddes") return mat(kin->destructionRates_ddCi(), 128);
        return "?";
    }
    shared_ptr<Reaction> rxn(const string& y) {
        AnyMap m = AnyMap::fromYamlString(y);
        return newReaction(m, *kin);
    }
    json step(const json& op) {
        string o = op["op"];
        if (o == "add") {
            bool defer = op["defer"] == 1;
            for (auto& y : op["y"]) {
                kin->addReaction(rxn(y), !defer);
            }
            if (defer) {
                kin->resizeReactions();
            }
            return {{"n", int(kin->nReactions())}};
        } else if (o == "state") {
            vec c = op["c"].get<vec>();
            if (op["how"] == 0) {
                setState(op["th"], c);
            } else {   // through T, P and composition
                double tot = 0;
                for (double x : c) {
                    tot += x;
                }
                double T = 1000.0 / op["th"].get<int>();
                th->setState_TPX(T, tot * GasConstant * T, c.data());
            }
            return {{"ok", 1}};
        } else if (o == "mult") {
            kin->setMultiplier(op["i"].get<int>() - 1, op["f"].get<double>());
            return {{"ok", 1}};
        } else if (o == "modify") {
            bool e = throws([&] {
                kin->modifyReaction(op["i"].get<int>() - 1, rxn(op["y"]));
            });
            return {{"err", int(e)}};
        } else if (o == "dset") {
            AnyMap m;
            m["skip-third-bodies"] = op["skip3"].get<bool>();
            m["skip-falloff"] = op["skipf"].get<bool>();
            kin->setDerivativeSettings(m);
            return {{"ok", 1}};
        } else if (o == "bad") {
            bool e = throws([&] { kin->addReaction(rxn(op["y"])); });
            return {{"err", int(e)}, {"n", int(kin->nReactions())}};
        } else if (o == "inval") {
            kin->invalidateCache();
            return {{"ok", 1}};
        } else if (o == "q") {
            json v = json::array();
            for (auto& q : op["qs"]) {
                v.push_back(query(q));
            }
            return {{"v", v}};
        }
        return {{"unknown", o}};
    }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
