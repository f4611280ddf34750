#include "common.h"
#include "cantera/base/Solution.h"
#include "cantera/base/AnyMap.h"
#include "cantera/thermo/ThermoPhase.h"
#include "cantera/kinetics/Kinetics.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/KineticsFactory.h"
#include "cantera/numerics/eigen_sparse.h"
using namespace Cantera;
using std::string;

struct Sys {
    json cfg;
    shared_ptr<Solution> sol;
    Kinetics* kin = nullptr;

    explicit Sys(const json& c) : cfg(c) {
        AnyMap root = AnyMap::fromYamlString(cfg["yaml"].get<string>());
        sol = newSolution(root["phases"].getMapWhere("name", "gas"), root);
        kin = sol->kinetics().get();
    }
    static json view(Kinetics& kin) {
        json v = json::array();
        size_t K = kin.nTotalSpecies();
        for (size_t i = 0; i < kin.nReactions(); i++) {
            auto R = kin.reaction(i);
            json r = json::array(), p = json::array(), e = json::array();
            auto tb = R->thirdBody();
            for (size_t k = 0; k < K; k++) {
                r.push_back(toInt(2 * kin.reactantStoichCoeff(k, i)));
                p.push_back(toInt(2 * kin.productStoichCoeff(k, i)));
                e.push_back(tb ? toInt(tb->efficiency(kin.kineticsSpeciesName(k))) : 0);
            }
            v.push_back(json{{"r", r}, {"p", p}, {"rev", kin.isReversible(i) && R->reversible}, {"dup", R->duplicate},
                             {"tb", tb ? tb->name() : ""}, {"eff", e}});
        }
        return v;
    }
    json step(const json& op) {
        string o = op["op"];
        if (o == "flags") {
            kin->skipUndeclaredSpecies(op["skipS"].get<bool>());
            kin->skipUndeclaredThirdBodies(op["skipT"].get<bool>());
            kin->setExplicitThirdBodyDuplicateHandling(op["mode"].get<string>());
            return {{"ok", 1}};
        } else if (o == "add") {
            size_t n = kin->nReactions();
            string out;
            if (throws([&] {
                AnyMap m = AnyMap::fromYamlString(op["y"].get<string>());
                out = kin->addReaction(newReaction(m, *kin)) ? "add" : "skip";
            })) {
                out = "err";
            }
            if (kin->nReactions() != n + (out == "add")) {
                out = "inconsistent";
            }
            return {{"out", out}, {"view", view(*kin)}};
        } else if (o == "check") {
            auto [i, m] = kin->checkDuplicates(false);
            json v = view(*kin);
            bool t = throws([&] { kin->checkDuplicates(true); });
            return {{"pair", {i == npos ? 0 : int(i + 1), m == npos ? 0 : int(m + 1)}}, {"thrown", t}, {"view", v}};
        } else if (o == "load") {
            string out = "ok";
            json v = json::array();
            if (throws([&] {
                AnyMap root = AnyMap::fromYamlString(op["yaml"].get<string>());
                auto s = newSolution(root["phases"].getMapWhere("name", "gas"), root);
                v = view(*s->kinetics());
            })) {
                out = "err";
            }
            return {{"out", out}, {"view", v}};
        }
        return {{"unknown", o}};
    }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
