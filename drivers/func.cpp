// C13: function objects
#include "common.h"
#include "ratio.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

struct Sys {
    json cfg;
    std::vector<shared_ptr<Func1>> f;
    explicit Sys(const json& c) : cfg(c) {}
    json values(Func1& g) {
        json o = json::array();
        for (auto& x : cfg["xs"]) { o.push_back(ratio(g.eval(num(x)))); }
        return o;
    }
    json step(const json& op) {
        string w = op["op"];
        json out;
        int r = 1;
        out["v"] = json::array();
        try {
            shared_ptr<Func1> g;
            if (w == "base") {
                vec p;
                for (auto& x : op["p"]) { p.push_back(num(x)); }
                string k = op["k"], via = op["via"];
                if (via == "class" && p.size() == 1) {
                    if (k == "sin") { g = make_shared<Sin1>(p[0]); }
                    else if (k == "cos") { g = make_shared<Cos1>(p[0]); }
                    else if (k == "exp") { g = make_shared<Exp1>(p[0]); }
                    else if (k == "log") { g = make_shared<Log1>(p[0]); }
                    else if (k == "pow") { g = make_shared<Pow1>(p[0]); }
                    else { g = newFunc1(k, p); }
                } else if (via == "class" && k.rfind("tabulated", 0) == 0 && p.size() >= 4 && p.size() % 2 == 0) {
                    size_t n = p.size() / 2;
                    g = make_shared<Tabulated1>(n, &p[0], &p[n], k.substr(10));
                } else if (via == "class" && k == "Gaussian" && p.size() == 3) {
                    g = make_shared<Gaussian1>(p[0], p[1], p[2]);
                } else if (via == "class" && k == "polynomial3" && p.size() > 0) {
                    vec q(p);
                    g = make_shared<Poly1>(p.size() - 1, q.data());
                } else {
                    g = newFunc1(k, p);
                }
            } else if (w == "bin") {
                string k = op["k"];
                auto a = f.at(op["a"].get<size_t>()), b = f.at(op["b"].get<size_t>());
                if (op["via"] == "new") { g = newFunc1(k, a, b); }
                else if (k == "sum") { g = newSumFunction(a, b); }
                else if (k == "diff") { g = newDiffFunction(a, b); }
                else if (k == "product") { g = newProdFunction(a, b); }
                else if (k == "ratio") { g = newRatioFunction(a, b); }
                else { g = newCompositeFunction(a, b); }
            } else if (w == "con") {
                string k = op["k"];
                auto a = f.at(op["a"].get<size_t>());
                double c = num(op["c"]);
                if (op["via"] == "new" || k == "periodic") { g = newFunc1(k, a, c); }
                else if (k == "times-constant") { g = newTimesConstFunction(a, c); }
                else { g = newPlusConstFunction(a, c); }
            } else if (w == "der") {
                g = f.at(op["a"].get<size_t>())->derivative();
            } else if (w == "same") {
                r = f.at(op["a"].get<size_t>())->isIdentical(f.at(op["b"].get<size_t>())) ? 1 : 0;
            } else if (w == "bad") {
                string k = op["kind"];
                if (k == "type") { newFunc1("no-such-function", vec{1.0}); }
                else if (k == "type2") { newFunc1("no-such-function", f.at(0), f.at(0)); }
                else if (k == "type3") { newFunc1("no-such-function", f.at(0), 2.0); }
                else if (k == "wrongclass") { newFunc1("sum", vec{1.0}); }
                else if (k == "wrongclass2") { newFunc1("periodic", f.at(0), f.at(0)); }
                else if (k == "wrongclass3") { newFunc1("sin", f.at(0), 1.0); }
                else if (k == "method") { vec t{0, 1}; Tabulated1 q(2, t.data(), t.data(), "spline"); }
                else if (k == "order") { vec t{0, 2, 1}; Tabulated1 q(3, t.data(), t.data(), "linear"); }
            } else if (w == "again") {
                json a = json::array();
                for (auto& h : f) { a.push_back(values(*h)); }
                out["all"] = a;
            }
            if (g) {
                f.push_back(g);
                out["v"] = values(*g);
                g->write("x");
            }
        } catch (CanteraError& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << w << ": " << e.what() << std::endl; }
            r = -1;
        }
        out["r"] = r;
        return out;
    }
};
int main(int argc, char** argv) { return driverMain<Sys>(argc, argv, 60); }
