// Trees of input data (C06): AnyMap, AnyValue, their YAML form and the cache of input files
#include "ratio.h"
#include "cantera/base/AnyMap.h"
#include <filesystem>
#include <sys/stat.h>
#include <fcntl.h>
using namespace Cantera;
namespace fs = std::filesystem;
typedef std::vector<AnyValue> VA;
typedef std::vector<std::vector<double>> VVD;
typedef std::vector<std::vector<long int>> VVI;

static int quarters(double x) { return toInt(4 * x, 1e-12); }

template<class T, class F>
static json seq(const std::vector<T>& v, F f)
{
    json a = json::array();
    for (size_t i = 0; i < v.size(); i++) { a.push_back(f(v[i])); }
    return a;
}
static json dump(const AnyValue& v);
static json dump(const AnyMap& m)
{
    json items = json::array();
    for (auto& item : m.ordered()) {
        items.push_back({{"k", item.first}, {"n", dump(item.second)}});
    }
    std::set<std::string> ks;
    for (auto& k : m.keys()) { ks.insert(k); }
    bool ok = m.size() == items.size() && ks.size() == items.size() && m.empty() == items.empty();
    for (auto& it : items) {
        ok = ok && m.hasKey(it["k"]) && ks.count(it["k"]);
    }
    return {{"t", "map"}, {"v", items}, {"ok", ok}};
}
static json dump(const AnyValue& v)
{
    auto& ty = v.type();
    auto is = [&](const std::type_info& t) { return ty == t; };
    auto qd = [](double x) { return quarters(x); };
    auto id = [](auto x) { return json(x); };
    if (v.empty()) { return {{"t", "none"}, {"v", 0}}; }
    if (is(typeid(double))) { return {{"t", "dbl"}, {"v", qd(v.asDouble())}}; }
    if (is(typeid(long int))) { return {{"t", "int"}, {"v", v.asInt()}}; }
    if (is(typeid(std::string))) { return {{"t", "str"}, {"v", v.asString()}}; }
    if (is(typeid(bool))) { return {{"t", "bool"}, {"v", v.asBool()}}; }
    if (is(typeid(AnyMap))) { return dump(v.as<AnyMap>()); }
    if (is(typeid(std::vector<double>))) { return {{"t", "vd"}, {"v", seq(v.asVector<double>(), qd)}}; }
    if (is(typeid(std::vector<long int>))) { return {{"t", "vi"}, {"v", seq(v.asVector<long int>(), id)}}; }
    if (is(typeid(std::vector<std::string>))) { return {{"t", "vs"}, {"v", seq(v.asVector<std::string>(), id)}}; }
    if (is(typeid(std::vector<bool>))) {
        json a = json::array();
        for (bool b : v.asVector<bool>()) { a.push_back(b); }
        return {{"t", "vb"}, {"v", a}};
    }
    if (is(typeid(std::vector<AnyMap>))) { return {{"t", "vm"}, {"v", seq(v.asVector<AnyMap>(), [](const AnyMap& m) { return dump(m); })}}; }
    if (is(typeid(VA))) { return {{"t", "va"}, {"v", seq(v.asVector<AnyValue>(), [](const AnyValue& m) { return dump(m); })}}; }
    if (is(typeid(VVD))) { return {{"t", "vvd"}, {"v", seq(v.asVector<std::vector<double>>(), [&](auto& r) { return seq(r, qd); })}}; }
    if (is(typeid(VVI))) { return {{"t", "vvi"}, {"v", seq(v.asVector<std::vector<long int>>(), [&](auto& r) { return seq(r, id); })}}; }
    if (is(typeid(std::vector<std::vector<std::string>>))) { return {{"t", "vvs"}, {"v", v.asVector<std::vector<std::string>>()}}; }
    if (is(typeid(std::vector<std::vector<bool>>))) { return {{"t", "vvb"}, {"v", v.asVector<std::vector<bool>>()}}; }
    return {{"t", "other"}, {"v", 0}};
}
static AnyMap buildMap(const json& n);
static void put(AnyValue& v, const json& n)
{
    std::string t = n["t"];
    auto& x = n["v"];
    if (t == "int") { v = x.get<long int>(); }
    else if (t == "dbl") { v = x.get<int>() / 4.0; }
    else if (t == "str") { v = x.get<std::string>(); }
    else if (t == "bool") { v = x.get<bool>(); }
    else if (t == "map") { v = buildMap(n); }
    else if (t == "vi") { v = x.get<std::vector<long int>>(); }
    else if (t == "vs") { v = x.get<std::vector<std::string>>(); }
    else if (t == "vb") { v = x.get<std::vector<bool>>(); }
    else if (t == "vd") {
        std::vector<double> d;
        for (auto& e : x) { d.push_back(e.get<int>() / 4.0); }
        v = d;
    } else if (t == "vvi") { v = x.get<VVI>(); }
    else if (t == "vvd") {
        VVD d;
        for (auto& r : x) {
            d.emplace_back();
            for (auto& e : r) { d.back().push_back(e.get<int>() / 4.0); }
        }
        v = d;
    } else if (t == "va") {
        VA d;
        for (auto& e : x) { d.emplace_back(); put(d.back(), e); }
        v = d;
    } else if (t == "vm") {
        std::vector<AnyMap> d;
        for (auto& e : x) { d.push_back(buildMap(e)); }
        v = d;
    } else {
        throw std::logic_error("put");
    }
}
static AnyMap buildMap(const json& n)
{
    AnyMap m;
    for (auto& it : n["v"]) { put(m[it["k"].get<std::string>()], it["n"]); }
    return m;
}
// YAML text of a node, written independently of Cantera's emitter
static std::string quoted(const std::string& s, int style)
{
    if (style % 2) {
        std::string o = "'";
        for (char c : s) { o += c == '\'' ? std::string("''") : std::string(1, c); }
        return o + "'";
    }
    return json(s).dump();
}
static std::string quarter(int q)
{
    std::string s = q < 0 ? "-" : "";
    q = std::abs(q);
    const char* f[] = {".0", ".25", ".5", ".75"};
    return s + std::to_string(q / 4) + f[q % 4];
}
static std::string flow(const json& n, int& style)
{
    std::string t = n["t"];
    auto& x = n["v"];
    style++;
    auto list = [&](auto f) {
        std::string o = "[";
        for (size_t i = 0; i < x.size(); i++) { o += (i ? ", " : "") + f(x[i]); }
        return o + "]";
    };
    if (t == "int") { return std::to_string(x.get<int>()); }
    if (t == "dbl") { return quarter(x); }
    if (t == "str") { return quoted(x, style); }
    if (t == "bool") { return std::string(x.get<bool>() ? (style % 3 ? "true" : "True") : (style % 3 ? "false" : "False")); }
    if (t == "none") { return "~"; }
    if (t == "vi") { return list([&](auto& e) { return std::to_string(e.template get<int>()); }); }
    if (t == "vd") { return list([&](auto& e) { return quarter(e); }); }
    if (t == "vs") { return list([&](auto& e) { return quoted(e, ++style); }); }
    if (t == "vb") { return list([&](auto& e) { return std::string(e.template get<bool>() ? "true" : "False"); }); }
    if (t == "vvi") { return list([&](auto& e) { int s = 0; return flow({{"t", "vi"}, {"v", e}}, s); }); }
    if (t == "vvd") { return list([&](auto& e) { int s = 0; return flow({{"t", "vd"}, {"v", e}}, s); }); }
    if (t == "va" || t == "vm") { return list([&](auto& e) { return flow(e, style); }); }
    std::string o = "{";
    bool first = true;
    for (auto& it : x) {
        o += (first ? "" : ", ") + it["k"].get<std::string>() + ": " + flow(it["n"], style);
        first = false;
    }
    return o + "}";
}
static std::string block(const json& m, int indent, int& style)
{
    std::string o, pad(indent, ' ');
    for (auto& it : m["v"]) {
        auto& n = it["n"];
        std::string t = n["t"];
        o += pad + it["k"].get<std::string>() + ":";
        style++;
        if (t == "map" && n["v"].size() && style % 3) {
            o += "\n" + block(n, indent + 2, style);
        } else if ((t == "vm" || t == "va" || t == "vvi" || t == "vi") && n["v"].size() && style % 3) {
            for (auto& e : n["v"]) {
                json c = t == "vvi" ? json{{"t", "vi"}, {"v", e}} : t == "vi" ? json{{"t", "int"}, {"v", e}} : e;
                o += "\n" + pad + "- " + flow(c, style);
            }
            o += "\n";
        } else {
            o += " " + flow(n, style) + (style % 4 == 0 ? "  # note" : "") + "\n";
        }
    }
    return o;
}
static std::string text(const json& m, int style)
{
    if (m["v"].empty()) { return "{}\n"; }
    return style % 5 == 0 ? flow(m, style) + "\n" : block(m, 0, style);
}

struct Sys {
    std::vector<AnyMap> r;
    std::string dir;
    Sys(const json& cfg) : r(3)
    {
        for (auto& m : r) { m = AnyMap(); }
        char tmp[] = "/tmp/verif_any_XXXXXX";
        dir = mkdtemp(tmp);
    }
    ~Sys() {
        for (int i = 0; i < 2; i++) {
            std::remove(file(i).c_str());
        }
        ::rmdir(dir.c_str());
    }
    std::string file(int i) { return dir + "/in" + std::to_string(i) + ".yaml"; }
    static bool isIndex(const json& k) { return k.get<std::string>()[0] == '#'; }
    static size_t index(const json& k, size_t n)
    {
        size_t i = std::stoi(k.get<std::string>().substr(1));
        if (i >= n) { throw CanteraError("driver", "no such element"); }
        return i;
    }
    // the value at a path; creates intermediate maps like m[a][b] does
    AnyValue& at(int i, const json& p)
    {
        AnyValue* v = &r[i][p[0].get<std::string>()];
        for (size_t k = 1; k < p.size(); k++) {
            if (!isIndex(p[k])) {
                v = &(*v)[p[k].get<std::string>()];
            } else if (v->type() == typeid(VA)) {
                auto& e = v->as<VA>();
                v = &e[index(p[k], e.size())];
            } else {
                // element of a list of maps, then the next key
                auto& e = v->as<std::vector<AnyMap>>();
                AnyMap& m = e[index(p[k], e.size())];
                if (++k >= p.size()) { throw CanteraError("driver", "path ends at a map of a list"); }
                v = &m[p[k].get<std::string>()];
            }
        }
        return *v;
    }
    static const AnyValue& key(const AnyMap& m, const std::string& k)
    {
        if (!m.hasKey(k)) { throw CanteraError("driver", "no such key"); }
        return m.at(k);
    }
    const AnyValue& cat(int i, const json& p)
    {
        const AnyMap& root = r[i];
        const AnyValue* v = &key(root, p[0]);
        for (size_t k = 1; k < p.size(); k++) {
            if (!isIndex(p[k])) {
                v = &key(v->as<AnyMap>(), p[k]);
            } else if (v->type() == typeid(VA)) {
                auto& e = v->as<VA>();
                v = &e[index(p[k], e.size())];
            } else {
                auto& e = v->as<std::vector<AnyMap>>();
                const AnyMap& m = e[index(p[k], e.size())];
                if (++k >= p.size()) { throw CanteraError("driver", "path ends at a map of a list"); }
                v = &key(m, p[k]);
            }
        }
        return *v;
    }
    AnyMap& mapAt(int i, const json& p)
    {
        return p.empty() ? r[i] : at(i, p).as<AnyMap>();
    }
    json get(const AnyValue& v, const std::string& as, size_t n0, size_t n1)
    {
        auto qd = [](double x) { return quarters(x); };
        auto id = [](auto x) { return json(x); };
        if (as == "int") { return v.asInt(); }
        if (as == "dbl") { return quarters(v.asDouble()); }
        if (as == "str") { return v.asString(); }
        if (as == "bool") { return v.asBool(); }
        if (as == "vd") { return seq(v.asVector<double>(n0, n1), qd); }
        if (as == "vi") { return seq(v.asVector<long int>(n0, n1), id); }
        if (as == "vs") { return seq(v.asVector<std::string>(n0, n1), id); }
        if (as == "va") { return int(v.asVector<AnyValue>(n0, n1).size()); }
        if (as == "vm") { return int(v.asVector<AnyMap>(n0, n1).size()); }
        if (as == "vvd") { return int(v.asVector<std::vector<double>>(n0, n1).size()); }
        if (as == "map") { return int(v.as<AnyMap>().size()); }
        throw std::logic_error("get");
    }
    json getm(AnyValue& v, const std::string& as, size_t n0, size_t n1)
    {
        auto qd = [](double x) { return quarters(x); };
        auto id = [](auto x) { return json(x); };
        if (as == "int") { return v.asInt(); }
        if (as == "dbl") { return quarters(v.asDouble()); }
        if (as == "str") { return v.asString(); }
        if (as == "bool") { return v.asBool(); }
        if (as == "vd") { return seq(v.asVector<double>(n0, n1), qd); }
        if (as == "vi") { return seq(v.asVector<long int>(n0, n1), id); }
        if (as == "vs") { return seq(v.asVector<std::string>(n0, n1), id); }
        if (as == "va") { return int(v.asVector<AnyValue>(n0, n1).size()); }
        if (as == "vm") { return int(v.asVector<AnyMap>(n0, n1).size()); }
        if (as == "vvd") { return int(v.asVector<std::vector<double>>(n0, n1).size()); }
        throw std::logic_error("get");
    }
    json doit(const json& op)
    {
        std::string o = op["op"];
        int i = op.value("r", 0);
        if (o == "set") { put(at(i, op["p"]), op["n"]); return 0; }
        if (o == "touch") { at(i, op["p"]); return 0; }
        if (o == "get") {
            size_t n0 = op["n0"].get<int>() < 0 ? npos : op["n0"].get<int>();
            size_t n1 = op["n1"].get<int>() < 0 ? npos : op["n1"].get<int>();
            if (op["m"].get<bool>()) {
                return getm(const_cast<AnyValue&>(cat(i, op["p"])), op["as"], n0, n1);
            }
            return get(cat(i, op["p"]), op["as"], n0, n1);
        }
        if (o == "def") {
            const AnyMap& m = r[i];
            std::string k = op["k"], as = op["as"];
            if (as == "int") { return m.getInt(k, 77); }
            if (as == "dbl") { return quarters(m.getDouble(k, 19.25)); }
            if (as == "bool") { return m.getBool(k, true); }
            return m.getString(k, "dflt");
        }
        if (o == "has") { return r[i].hasKey(op["k"].get<std::string>()); }
        if (o == "erase") { mapAt(i, op["p"]).erase(op["k"].get<std::string>()); return 0; }
        if (o == "exclude") { mapAt(i, op["p"]).exclude(op["k"].get<std::string>()); return 0; }
        if (o == "clear") { mapAt(i, op["p"]).clear(); return 0; }
        if (o == "flow") { mapAt(i, op["p"]).setFlowStyle(); return 0; }
        if (o == "update") {
            const AnyMap& src = op["q"].empty() ? r[op["s"].get<int>()] : cat(op["s"], op["q"]).as<AnyMap>();
            AnyMap copy = src;
            mapAt(i, op["p"]).update(op["s"] == op["r"] ? copy : src, op["keep"].get<bool>());
            return 0;
        }
        if (o == "copyroot") { AnyMap c = r[op["s"].get<int>()]; std::swap(r[i], c); return 0; }
        if (o == "assignroot") { r[i] = r[op["s"].get<int>()]; return 0; }
        if (o == "graft") {     // value = value
            const AnyValue& src = cat(op["s"], op["q"]);
            if (op["s"] == op["r"]) {
                AnyValue c = src;
                at(i, op["p"]) = c;
            } else {
                at(i, op["p"]) = src;
            }
            return 0;
        }
        if (o == "graftmap") {  // value = map
            const AnyMap& src = op["q"].empty() ? r[op["s"].get<int>()] : cat(op["s"], op["q"]).as<AnyMap>();
            if (op["s"] == op["r"]) {
                AnyMap c = src;
                at(i, op["p"]) = c;
            } else {
                at(i, op["p"]) = src;
            }
            return 0;
        }
        if (o == "where") {
            AnyMap& m = at(i, op["p"]).getMapWhere(op["k"].get<std::string>(), op["x"].get<std::string>(), op["create"].get<bool>());
            json d = dump(m);
            m["hit"] = op["w"].get<long int>();
            return d;
        }
        if (o == "cwhere") { return dump(cat(i, op["p"]).getMapWhere(op["k"].get<std::string>(), op["x"].get<std::string>())); }
        if (o == "haswhere") { return cat(i, op["p"]).hasMapWhere(op["k"].get<std::string>(), op["x"].get<std::string>()); }
        if (o == "shape") {
            const AnyValue& v = cat(i, op["p"]);
            auto s = v.matrixShape();
            auto c = [](size_t n) { return n == npos ? -1 : int(n); };
            return json{c(v.vectorSize()), c(s.first), c(s.second), v.isScalar(), v.empty(), v.hasKey("a")};
        }
        if (o == "cmp") {
            if (op["p"].empty()) {
                const AnyMap &a = r[i], &b = r[op["s"].get<int>()];
                return json{a == b, a != b, b == a};
            }
            const AnyValue &a = cat(i, op["p"]), &b = cat(op["s"], op["q"]);
            return json{a == b, a != b, b == a};
        }
        if (o == "cmps") {      // against a plain value
            const AnyValue& a = cat(i, op["p"]);
            auto& n = op["n"];
            if (n["t"] == "int") { long int x = n["v"]; return json{a == x, a != x, x == a}; }
            if (n["t"] == "dbl") { double x = n["v"].get<int>() / 4.0; return json{a == x, a != x, x == a}; }
            std::string x = n["v"];
            return json{a == x, a != x, x == a};
        }
        if (o == "yaml") {
            AnyMap src = r[op["s"].get<int>()];
            AnyMap back = AnyMap::fromYamlString(src.toYamlString());
            if (getenv("DRV_VERBOSE")) { std::cerr << src.toYamlString(); }
            bool same = src == back;
            std::swap(r[i], back);
            return same;
        }
        if (o == "parse") {
            AnyMap m = AnyMap::fromYamlString(text(op["n"], op["style"]));
            std::swap(r[i], m);
            return 0;
        }
        if (o == "list") {
            int style = op["style"];
            AnyMap m = AnyMap::fromYamlString(flow(op["n"], style) + "\n");
            std::swap(r[i], m);
            return 0;
        }
        if (o == "bad") { AnyMap m = AnyMap::fromYamlString(op["x"].get<std::string>()); std::swap(r[i], m); return 0; }
        if (o == "write") {
            std::string f = file(op["f"]);
            {
                std::ofstream out(f);
                out << (op["bad"].get<bool>() ? std::string("a: [1, 2\nb: }") : text(op["n"], op["style"]));
            }
            struct timespec t[2] = {{1700000000 + op["mt"].get<int>(), 0}, {1700000000 + op["mt"].get<int>(), 0}};
            utimensat(AT_FDCWD, f.c_str(), t, 0);
            return 0;
        }
        if (o == "rmfile") { fs::remove(file(op["f"])); return 0; }
        if (o == "uncache") { AnyMap::clearCachedFile(file(op["f"])); return 0; }
        if (o == "read") {
            AnyMap m = op["rel"].get<bool>() ? AnyMap::fromYamlFile("in" + std::to_string(op["f"].get<int>()) + ".yaml", dir + "/parent.yaml")
                                             : AnyMap::fromYamlFile(file(op["f"]));
            std::swap(r[i], m);
            return 0;
        }
        throw std::logic_error("unknown op " + o);
    }
    json step(const json& op)
    {
        json out = {{"err", 0}, {"v", 0}};
        try {
            out["v"] = doit(op);
        } catch (std::logic_error& e) {
            if (std::string(e.what()).rfind("unknown op", 0) == 0) { throw; }
            out["err"] = dynamic_cast<CanteraError*>(&e) ? 1 : 2;
            if (getenv("DRV_VERBOSE")) { std::cerr << e.what() << "\n"; }
        } catch (CanteraError& e) {
            out["err"] = 1;
            if (getenv("DRV_VERBOSE")) { std::cerr << e.what() << "\n"; }
        } catch (std::exception& e) {
            out["err"] = 2;     // not an error of Cantera's own
            if (getenv("DRV_VERBOSE")) { std::cerr << "RAW " << e.what() << "\n"; }
        }
        json d = json::array();
        for (auto& m : r) { d.push_back(dump(m)); }
        out["d"] = d;
        return out;
    }
};

int main(int argc, char** argv)
{
    return driverMain<Sys>(argc, argv);
}
