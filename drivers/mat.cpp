// C17: matrices, system Jacobians, fits
#include "common.h"
#include "ratio.h"
#include "cantera/base/Array.h"
#include "cantera/numerics/DenseMatrix.h"
#include "cantera/numerics/BandMatrix.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/numerics/AdaptivePreconditioner.h"
#include "cantera/numerics/EigenSparseJacobian.h"
#include "cantera/numerics/polyfit.h"
using namespace Cantera;
using std::string;
using vec = std::vector<double>;

struct Obj {
    string k;
    shared_ptr<Array2D> arr;
    shared_ptr<DenseMatrix> den;
    shared_ptr<BandMatrix> band;
    shared_ptr<SystemJacobian> jac;
    size_t n = 0;
    bool fact = false;
};
static vec nums(const json& a) {
    vec v;
    for (auto& x : a) { v.push_back(num(x)); }
    return v;
}
static json ratios(const vec& v) {
    json a = json::array();
    for (double x : v) { a.push_back(ratio(x)); }
    return a;
}

struct Sys {
    std::vector<Obj> o;
    explicit Sys(const json& c) {}
    json step(const json& op) {
        string w = op["op"];
        json out;
        int r = 1;
        vec res;
        try {
            if (w == "new") {
                Obj q;
                q.k = op["k"];
                q.n = op["n"];
                if (q.k == "array") { q.arr = make_shared<Array2D>(q.n, op["m"].get<size_t>(), num(op["v"])); }
                if (q.k == "dense") { q.den = make_shared<DenseMatrix>(q.n, op["m"].get<size_t>(), num(op["v"])); }
                if (q.k == "band") { q.band = make_shared<BandMatrix>(q.n, op["kl"].get<size_t>(), op["ku"].get<size_t>(), num(op["v"])); }
                if (q.k == "jac") {
                    q.jac = newSystemJacobian(op["t"].get<string>());
                    q.jac->initialize(q.n);
                    q.jac->setBandwidth(op["bw"].get<size_t>());
                    q.jac->setGamma(1.0);
                }
                o.push_back(q);
            } else if (w == "fit") {
                vec x = nums(op["x"]), y = nums(op["y"]), ww = nums(op["w"]);
                size_t deg = op["deg"];
                res.resize(deg + 1);
                double e = polyfit(x.size(), deg, x.data(), y.data(), ww.empty() ? nullptr : ww.data(), res.data());
                out["sse"] = ratio(e * e * x.size());
            } else {
                Obj& q = o.at(op["o"].get<size_t>());
                Array2D* A = q.arr ? q.arr.get() : q.den.get();
                BandMatrix* B = q.band.get();
                vec v;
                if (op.contains("v") && w != "solve") {
                    if (op["v"].size() && op["v"][0].is_array()) { v = nums(op["v"]); }
                    else if (op["v"].size()) { v = {num(op["v"])}; }
                }
                if (w == "copy") {
                    Obj c = q;
                    if (q.arr) { c.arr = make_shared<Array2D>(*q.arr); }
                    if (q.den) { c.den = make_shared<DenseMatrix>(*q.den); }
                    if (q.band) { c.band = make_shared<BandMatrix>(*q.band); }
                    o.push_back(c);
                } else if (w == "assign") {
                    Obj& b = o.at(op["b"].get<size_t>());
                    if (q.arr) { *q.arr = *b.arr; }
                    if (q.den) { *q.den = *b.den; }
                    if (q.band) { *q.band = *b.band; }
                } else if (w == "set") {
                    size_t i = op["i"], j = op["j"];
                    if (B) { if ((i + j) % 2) { B->value(i, j) = v[0]; } else { (*B)(i, j) = v[0]; } }
                    else if (q.den) { (*q.den)(i, j) = v[0]; }
                    else { A->value(i, j) = v[0]; }
                } else if (w == "get") {
                    bool c = op["c"] == 1;
                    size_t n = B ? B->nRows() : A->nRows(), m = B ? B->nColumns() : A->nColumns();
                    out["n"] = n;
                    out["m"] = m;
                    for (size_t i = 0; i < n; i++) {
                        for (size_t j = 0; j < m; j++) {
                            double x;
                            if (B) { const BandMatrix* cb = B; x = c ? (*cb)(i, j) : (*B)(i, j); }
                            else { const Array2D* ca = A; x = c ? (*ca)(i, j) : (*A)(i, j); }
                            res.push_back(x);
                        }
                    }
                    if (q.den && n && m) {
                        for (size_t j = 0; j < m; j++) {
                            if (q.den->colPts()[j] != q.den->ptrColumn(j)) { r = -5; }
                        }
                    }
                } else if (w == "zero") { if (B) { B->zero(); } else { A->zero(); }
                } else if (w == "fill") { B->bfill(v[0]);
                } else if (w == "resize") {
                    if (B) { B->resize(op["n"].get<size_t>(), op["kl"].get<size_t>(), op["ku"].get<size_t>(), v[0]); }
                    else { A->resize(op["n"].get<size_t>(), op["m"].get<size_t>(), v[0]); }
                } else if (w == "addcol") {
                    if (op["via"] == "vec") { A->appendColumn(v); } else { A->appendColumn(v.data()); }
                } else if (w == "setrow") { A->setRow(op["i"].get<size_t>(), v.data());
                } else if (w == "setcol") { A->setColumn(op["i"].get<size_t>(), v.data());
                } else if (w == "row") { res.resize(A->nColumns()); A->getRow(op["i"].get<size_t>(), res.data());
                } else if (w == "col") { res.resize(A->nRows()); A->getColumn(op["i"].get<size_t>(), res.data());
                } else if (w == "scale") { Cantera::operator*=(*A, v[0]);
                } else if (w == "mult") {
                    res.resize(B ? B->nRows() : A->nRows(), -77);
                    if (B) { B->mult(v.data(), res.data()); }
                    else if (op["via"] == "fn") { multiply(*q.den, v.data(), res.data()); }
                    else { q.den->mult(v.data(), res.data()); }
                } else if (w == "left") {
                    res.resize(B ? B->nColumns() : A->nColumns(), -77);
                    if (B) { B->leftMult(v.data(), res.data()); } else { q.den->leftMult(v.data(), res.data()); }
                } else if (w == "incr") { res = nums(op["w"]); increment(*q.den, v.data(), res.data());
                } else if (w == "matmul") {
                    DenseMatrix p(op["n"].get<size_t>(), op["m"].get<size_t>(), 99.);
                    q.den->mult(*o.at(op["b"].get<size_t>()).den, p);
                    for (size_t i = 0; i < p.nRows(); i++) { for (size_t j = 0; j < p.nColumns(); j++) { res.push_back(p(i, j)); } }
                } else if (w == "solve") {
                    size_t n = op["v"].size() ? op["v"][0].size() : 0, nr = op["v"].size();
                    string via = op["via"];
                    size_t ldb = n + (via == "ldb" ? 2 : 0);
                    vec b(std::max<size_t>(ldb * nr, 1), 55.);
                    for (size_t c = 0; c < nr; c++) { vec t = nums(op["v"][c]); std::copy(t.begin(), t.end(), b.begin() + c * ldb); }
                    json xs = json::array();
                    try {
                        int info = 0;
                        if (B) {
                            if (via == "xb" ) { for (size_t c = 0; c < nr; c++) { vec x(n); info = B->solve(b.data() + c * n, x.data()); std::copy(x.begin(), x.end(), b.begin() + c * n); } }
                            else if (via == "ldb") { info = B->solve(b.data(), nr, ldb); }
                            else { info = B->solve(b.data(), nr); }
                        } else if (via == "mat") {
                            DenseMatrix bm(n, nr);
                            std::copy(b.begin(), b.begin() + n * nr, bm.data().begin());
                            info = Cantera::solve(*q.den, bm);
                            std::copy(bm.data().begin(), bm.data().end(), b.begin());
                        } else if (via == "ldb") { info = Cantera::solve(*q.den, b.data(), nr, ldb);
                        } else { info = Cantera::solve(*q.den, b.data(), nr); }
                        if (info != 0) { r = 2; }
                    } catch (CanteraError& e) { r = -1; }
                    for (size_t c = 0; c < nr; c++) { xs.push_back(ratios(vec(b.begin() + c * ldb, b.begin() + c * ldb + n))); }
                    out["x"] = xs;
                } else if (w == "factor") { r = B->factor() == 0 ? 1 : 2;
                } else if (w == "invert") {
                    if (invert(*q.den) != 0) { r = 2; }
                    for (size_t i = 0; i < A->nRows(); i++) { for (size_t j = 0; j < A->nColumns(); j++) { res.push_back((*A)(i, j)); } }
                } else if (w == "rcond") { double c = B->rcond(B->oneNorm()); if (!(c >= 0 && c <= 1.0000001)) { r = -6; }
                } else if (w == "norm") { res.push_back(B->oneNorm());
                } else if (w == "small") {
                    double a, b;
                    out["ri"] = int(B->checkRows(a));
                    out["ci"] = int(B->checkColumns(b));
                    res = {a, b};
                } else if (w == "jset") { q.jac->setValue(op["i"].get<size_t>(), op["j"].get<size_t>(), v[0]);
                } else if (w == "jreset") { q.jac->reset(); q.fact = false;
                } else if (w == "jinit") { q.jac->initialize(op["n"].get<size_t>()); q.jac->setBandwidth(op["bw"].get<size_t>()); q.n = op["n"]; q.fact = false;
                } else if (w == "jgamma") { q.jac->setGamma(v[0]);
                } else if (w == "jthr") { std::dynamic_pointer_cast<AdaptivePreconditioner>(q.jac)->setThreshold(v[0]);
                } else if (w == "jget") {
                    auto m = std::dynamic_pointer_cast<EigenSparseJacobian>(q.jac)->jacobian();
                    for (size_t i = 0; i < q.n; i++) { for (size_t j = 0; j < q.n; j++) { res.push_back(m.coeff(i, j)); } }
                } else if (w == "jpre") { q.fact = false; q.jac->updatePreconditioner(); q.fact = true;
                } else if (w == "jtrans") {
                    std::vector<int> mask = op["mask"].get<std::vector<int>>();
                    q.fact = false;
                    q.jac->updateTransient(num(op["rdt"]), mask.data());
                    q.fact = true;
                } else if (w == "jsolve") {
                    if (!q.fact) { throw CanteraError("driver", "not factored"); }
                    res.resize(q.n); q.jac->solve(q.n, v.data(), res.data());
                } else if (w == "jadjust") { res = v; q.jac->setAbsoluteTolerance(num(op["atol"])); q.jac->stateAdjustment(res);
                } else { throw std::runtime_error("unknown " + w); }
            }
        } catch (CanteraError& e) {
            if (getenv("DRV_VERBOSE")) { std::cerr << w << ": " << e.what() << std::endl; }
            r = -1;
        }
        out["r"] = r;
        out["v"] = ratios(res);
        return out;
    }
};
int main(int argc, char** argv) { return driverMain<Sys>(argc, argv, 60); }
