// Conformance driver for solution arrays (C08).
#include "common.h"
#include "cantera/base/SolutionArray.h"
#include "cantera/base/Solution.h"
#include "cantera/thermo/ThermoPhase.h"
#include <filesystem>
#include <sstream>

using namespace Cantera;
using std::string;

static const char* MODEL = R"(
phases:
- {name: gas, thermo: ideal-gas, elements: [H], species: [A, B, C], state: {T: 300, P: 1e5}}
- {name: surf, thermo: ideal-surface, site-density: 1.0, elements: [H], species: [SA, SB], state: {T: 300, P: 1e5}}
- {name: solid, thermo: fixed-stoichiometry, elements: [H], species: [Q], state: {T: 300, P: 1e5}}
- {name: water, thermo: pure-fluid, pure-fluid-name: water, elements: [O, H], species: [H2O], state: {T: 400, P: 1e5}}
species:
- {name: A, composition: {H: 1}, thermo: {model: constant-cp, cp0: 30000}}
- {name: B, composition: {H: 2}, thermo: {model: constant-cp, cp0: 30000}}
- {name: C, composition: {H: 4}, thermo: {model: constant-cp, cp0: 30000}}
- {name: SA, composition: {H: 1}, thermo: {model: constant-cp, cp0: 30000}, sites: 1}
- {name: SB, composition: {H: 2}, thermo: {model: constant-cp, cp0: 30000}, sites: 1}
- {name: Q, composition: {H: 1}, thermo: {model: constant-cp, cp0: 30000}, equation-of-state: {model: constant-volume, density: 1000}}
- {name: H2O, composition: {H: 2, O: 1}, thermo: {model: constant-cp, cp0: 30000}}
)";

static string num(double x)
{
    char b[40];
    snprintf(b, sizeof b, "%.12g", x);
    return b;
}

template<class T> string txt(const T& x) { return std::to_string(x); }
template<> string txt(const double& x) { return num(x); }
template<> string txt(const string& x) { return x; }

template<class T>
static json column(const std::vector<T>& v)
{
    json a = json::array();
    for (auto& x : v) {
        a.push_back(txt<T>(x));
    }
    return a;
}

template<class T>
static json columns(const std::vector<std::vector<T>>& v)
{
    json a = json::array();
    for (auto& row : v) {
        string s = std::to_string(row.size()) + ":";
        for (size_t i = 0; i < row.size(); i++) {
            s += (i ? "|" : "") + txt<T>(row[i]);
        }
        a.push_back(s);
    }
    return a;
}

// type and entries of a component
static json show(const AnyValue& v)
{
    if (v.is<void>()) {
        return {{"ty", "void"}, {"v", json::array()}};
    } else if (v.isVector<long int>()) {
        return {{"ty", "i"}, {"v", column(v.asVector<long int>())}};
    } else if (v.isVector<double>()) {
        return {{"ty", "d"}, {"v", column(v.asVector<double>())}};
    } else if (v.isVector<string>()) {
        return {{"ty", "s"}, {"v", column(v.asVector<string>())}};
    } else if (v.isVector<std::vector<long int>>()) {
        return {{"ty", "mi"}, {"v", columns(v.asVector<std::vector<long int>>())}};
    } else if (v.isVector<std::vector<double>>()) {
        return {{"ty", "md"}, {"v", columns(v.asVector<std::vector<double>>())}};
    } else if (v.isVector<std::vector<string>>()) {
        return {{"ty", "ms"}, {"v", columns(v.asVector<std::vector<string>>())}};
    }
    return {{"ty", v.type_str()}, {"v", json::array()}};
}

static json showOne(const AnyValue& v)
{
    if (v.is<void>()) {
        return {{"ty", "void"}, {"v", json::array()}};
    } else if (v.is<long int>()) {
        return {{"ty", "i"}, {"v", {txt<long int>(v.as<long int>())}}};
    } else if (v.is<double>()) {
        return {{"ty", "d"}, {"v", {num(v.as<double>())}}};
    } else if (v.is<string>()) {
        return {{"ty", "s"}, {"v", {v.as<string>()}}};
    } else if (v.is<std::vector<long int>>()) {
        return {{"ty", "mi"}, {"v", columns<long int>({v.as<std::vector<long int>>()})}};
    } else if (v.is<std::vector<double>>()) {
        return {{"ty", "md"}, {"v", columns<double>({v.as<std::vector<double>>()})}};
    } else if (v.is<std::vector<string>>()) {
        return {{"ty", "ms"}, {"v", columns<string>({v.as<std::vector<string>>()})}};
    }
    return {{"ty", v.type_str()}, {"v", json::array()}};
}

static std::vector<string> parts(const string& s)
{
    std::vector<string> out;
    size_t c = s.find(':');
    int n = std::stoi(s.substr(0, c));
    std::stringstream ss(s.substr(c + 1));
    for (int i = 0; i < n; i++) {
        string x;
        std::getline(ss, x, '|');
        out.push_back(x);
    }
    return out;
}

template<class T> T conv(const string& s);
template<> long int conv(const string& s) { return std::stol(s); }
template<> double conv(const string& s) { return std::stod(s); }
template<> string conv(const string& s) { return s; }

template<class T>
static AnyValue vec(const json& v)
{
    AnyValue a;
    std::vector<T> x;
    for (const string s : v) {
        x.push_back(conv<T>(s));
    }
    a = x;
    return a;
}

template<class T>
static std::vector<T> row(const string& s)
{
    std::vector<T> r;
    for (auto& p : parts(s)) {
        r.push_back(conv<T>(p));
    }
    return r;
}

template<class T>
static AnyValue mat(const json& v)
{
    AnyValue a;
    std::vector<std::vector<T>> x;
    for (const string s : v) {
        x.push_back(row<T>(s));
    }
    a = x;
    return a;
}

// a component's worth of data
static AnyValue make(const string& ty, const json& v)
{
    if (ty == "i") {
        return vec<long int>(v);
    } else if (ty == "d") {
        return vec<double>(v);
    } else if (ty == "s") {
        return vec<string>(v);
    } else if (ty == "mi") {
        return mat<long int>(v);
    } else if (ty == "md") {
        return mat<double>(v);
    } else if (ty == "ms") {
        return mat<string>(v);
    }
    return AnyValue();
}

// a single entry
static AnyValue makeOne(const string& ty, const string& s)
{
    AnyValue a;
    if (ty == "i") {
        a = conv<long int>(s);
    } else if (ty == "d") {
        a = conv<double>(s);
    } else if (ty == "s") {
        a = s;
    } else if (ty == "mi") {
        a = row<long int>(s);
    } else if (ty == "md") {
        a = row<double>(s);
    } else if (ty == "ms") {
        a = row<string>(s);
    }
    return a;
}

struct Sys
{
    shared_ptr<Solution> sol;
    std::vector<shared_ptr<SolutionArray>> arrs;
    std::set<int> parts;
    string dir;
    size_t nsp;

    Sys(const json& cfg)
    {
        static AnyMap root = AnyMap::fromYamlString(MODEL);
        auto& phase = root["phases"].getMapWhere("name", cfg["phase"].get<string>());
        sol = newSolution(phase, root);
        nsp = sol->thermo()->stateSize() > 2 ? sol->thermo()->nSpecies() : 0;
        char tmpl[] = "/tmp/arrXXXXXX";
        dir = mkdtemp(tmpl);
        put(cfg["start"]);
    }

    ~Sys()
    {
        arrs.clear();
        for (auto f : {"a.yaml", "b.yml", "a.csv", "b.csv"}) {
            unlink((dir + "/" + f).c_str());
        }
        rmdir(dir.c_str());
    }

    std::vector<double> real(const json& s)
    {
        std::vector<double> x;
        for (size_t i = 0; i < s.size(); i++) {
            x.push_back(i < 2 ? s[i].get<double>() : s[i].get<double>() / 1000);
        }
        return x;
    }

    void put(const json& s)
    {
        sol->thermo()->restoreState(real(s));
    }

    json ints(const std::vector<double>& s)
    {
        json a = json::array();
        for (size_t i = 0; i < s.size(); i++) {
            a.push_back(!std::isfinite(s[i]) || std::abs(s[i]) > 1e6 ? NOTFIN : i < 2 ? toInt(s[i]) : int(std::lround(1000 * s[i])));
        }
        return a;
    }

    json phaseState()
    {
        std::vector<double> s;
        sol->thermo()->saveState(s);
        return ints(s);
    }

    json dump()
    {
        json d = json::array();
        for (auto& a : arrs) {
            json e{{"n", -1}, {"shape", json::array()}, {"names", json::array()}, {"lst", json::array()}, {"rows", json::array()},
                   {"ext", json::array()}, {"meta", json::array()}, {"has", 1}};
            if (a) {
                e["n"] = a->size();
                e["shape"] = a->apiShape();
                e["names"] = a->componentNames();
                e["lst"] = a->listExtra(false);
                std::vector<std::vector<double>> rows(a->size());
                auto get = [&](const string& c) {
                    auto v = a->getComponent(c).asVector<double>();
                    for (size_t i = 0; i < rows.size(); i++) {
                        rows[i].push_back(v.at(i));
                    }
                };
                string mode = sol->thermo()->nativeMode();
                get(string(1, mode[0]));
                get(string(1, mode[1]));
                for (size_t k = 0; k < nsp; k++) {
                    get(sol->thermo()->speciesName(k));
                }
                for (auto& r : rows) {
                    e["rows"].push_back(ints(r));
                }
                for (auto& c : a->listExtra()) {
                    json x = show(a->getComponent(c));
                    x["n"] = c;
                    e["ext"].push_back(x);
                    e["has"] = e["has"] == 1 && a->hasComponent(c) && a->hasExtra(c) ? 1 : 0;
                }
                for (auto& c : a->componentNames()) {
                    e["has"] = e["has"] == 1 && a->hasComponent(c) ? 1 : 0;
                }
                e["has"] = e["has"] == 1 && !a->hasComponent("nix") && !a->hasExtra("T") && !a->hasComponent("X") ? 1 : 0;
                std::map<string, string> m;
                for (auto& [k, v] : a->meta()) {
                    m[k] = v.is<string>() ? v.asString() : v.is<long int>() ? std::to_string(v.asInt()) : v.type_str();
                }
                for (auto& [k, v] : m) {
                    e["meta"].push_back({k, v});
                }
            }
            d.push_back(e);
        }
        return d;
    }

    std::vector<string> split(const string& line)
    {
        std::vector<string> out(1);
        bool quoted = false;
        for (char c : line) {
            if (c == '"') {
                quoted = !quoted;
            } else if (c == ',' && !quoted) {
                out.emplace_back();
            } else {
                out.back() += c;
            }
        }
        return out;
    }

    json step(const json& op)
    {
        string o = op["op"];
        json r{{"ret", json::array()}, {"aux", json::array()}, {"head", json::array()}};
        auto A = [&]() {
            auto a = arrs.at(op["h"].get<int>());
            if (!a) {
                throw CanteraError("driver", "no such array");
            }
            return a;
        };
        r["err"] = throws([&]() {
            if (o == "new") {
                AnyMap meta;
                for (auto& m : op["meta"]) {
                    meta[m[0].get<string>()] = m[1].get<string>();
                }
                arrs.push_back(SolutionArray::create(sol, op["n"], meta));
            } else if (o == "share") {
                arrs.push_back(A()->share(op["sel"].get<std::vector<int>>()));
                parts.insert(int(arrs.size()) - 1);
            } else if (o == "del") {
                arrs.at(op["h"].get<int>()).reset();
            } else if (o == "phase") {
                put(op["s"]);
            } else if (o == "resize") {
                A()->resize(op["n"]);
            } else if (o == "shape") {
                A()->setApiShape(op["s"].get<std::vector<long int>>());
            } else if (o == "reset") {
                A()->reset();
            } else if (o == "loc") {
                A()->setLoc(op["l"], op["restore"] == 1);
            } else if (o == "update") {
                A()->updateState(op["l"]);
            } else if (o == "get") {
                r["ret"] = ints(A()->getState(op["l"]));
            } else if (o == "set") {
                A()->setState(op["l"], real(op["s"]));
            } else if (o == "norm") {
                A()->normalize();
            } else if (o == "addx") {
                A()->addExtra(op["n"].get<string>(), op["back"] == 1);
            } else if (o == "setx") {
                A()->setComponent(op["n"].get<string>(), op["kind"] == "void" ? AnyValue() : op["kind"] == "scalar" ? makeOne(op["ty"], op["v"][0]) : make(op["ty"], op["v"]));
            } else if (o == "setc") {
                std::vector<double> v;
                for (auto& x : op["v"]) {
                    v.push_back(op["sp"] == 1 ? x.get<double>() / 1000 : x.get<double>());
                }
                AnyValue a;
                a = v;
                A()->setComponent(op["n"].get<string>(), a);
            } else if (o == "aux") {
                for (auto& [k, v] : A()->getAuxiliary(op["l"])) {
                    json x = showOne(v);
                    x["n"] = k;
                    r["aux"].push_back(x);
                }
            } else if (o == "setaux" || o == "append") {
                AnyMap data;
                for (auto& x : op["x"]) {
                    data[x["n"].get<string>()] = makeOne(x["ty"], x["v"]);
                }
                if (o == "append") {
                    A()->append(real(op["s"]), data);
                } else {
                    A()->setAuxiliary(op["l"], data);
                }
            } else if (o == "meta") {
                AnyMap meta;
                for (auto& m : op["meta"]) {
                    meta[m[0].get<string>()] = m[1].get<string>();
                }
                A()->setMeta(meta);
            } else if (o == "info") {
                r["ret"].push_back(A()->info({}, 4, 60).size() > 0 ? 1 : 0);
            } else if (o == "save") {
                A()->save(dir + "/" + op["f"].get<string>(), op["name"].get<string>(), op["sub"].get<string>(), "d", op["over"] == 1);
            } else if (o == "restore") {
                if (parts.count(op["h"].get<int>())) {
                    throw CanteraError("driver", "not exercised");
                }
                auto head = A()->restore(dir + "/" + op["f"].get<string>(), op["name"].get<string>(), op["sub"].get<string>());
                r["ret"].push_back(head.hasKey("description") && head["description"] == "d" && head["generator"] == "Cantera SolutionArray" ? 1 : 0);
            } else if (o == "csv") {
                A()->save(dir + "/" + op["f"].get<string>(), "", "", "", op["over"] == 1, 0, op["basis"].get<string>());
            } else {
                std::cerr << "unknown op " << o << std::endl;
                exit(78);
            }
        }) ? 1 : 0;
        if (o == "csv") {
            std::ifstream in(dir + "/" + op["f"].get<string>());
            string line;
            bool first = true;
            while (std::getline(in, line)) {
                if (first) {
                    r["head"] = split(line);
                } else {
                    json x = json::array();
                    size_t i = 0;
                    for (auto& tok : split(line)) {
                        // state columns as integers, others as they are
                        string h = i < r["head"].size() ? r["head"][i].get<string>() : "";
                        bool sp = h.size() > 2 && h[1] == '_';
                        bool main = h == "T" || h == "D" || h == "P";
                        try {
                            x.push_back(sp ? std::to_string(std::lround(1000 * std::stod(tok))) : main ? std::to_string(toInt(std::stod(tok))) : tok);
                        } catch (std::exception&) {
                            x.push_back("?" + tok);
                        }
                        i++;
                    }
                    r["aux"].push_back(x);
                }
                first = false;
            }
        }
        std::sort(r["aux"].begin(), r["aux"].end(), [&](const json& a, const json& b) { return o == "aux" && a["n"] < b["n"]; });
        r["ph"] = phaseState();
        r["d"] = dump();
        return r;
    }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
