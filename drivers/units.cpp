#include "common.h"
#include "cantera/base/Units.h"
#include "cantera/base/AnyMap.h"
using namespace Cantera;
using std::string;

static int lg(double x)
{
    if (!(x > 0) || !std::isfinite(x)) {
        return NOTFIN;
    }
    return static_cast<int>(std::lround(std::log(x) * 1e6));
}

struct Sys {
    UnitSystem us[4];
    Units reg[4];
    UnitStack stack;
    explicit Sys(const json&) {}

    static json dims(const Units& u, int mult) {
        json a = json::array();
        for (auto d : {"mass", "length", "time", "temperature", "current", "quantity"}) {
            a.push_back(toInt(mult * u.dimension(d)));
        }
        return a;
    }
    static json val(std::function<double()> f) {
        try {
            double v = f();
            return {{"err", 0}, {"v", lg(v)}};
        } catch (CanteraError&) {
            return {{"err", 1}, {"v", 0}};
        }
    }
    static std::map<string, string> items(const json& its) {
        std::map<string, string> m;
        for (auto& it : its) {
            m[it["dim"]] = it["s"];
        }
        return m;
    }
    json step(const json& op) {
        string o = op["op"];
        int i = op.value("i", 0), j = op.value("j", 0);
        double val0 = op.value("val", 1.0);
        string s = op.value("s", ""), s2 = op.value("s2", "");
        if (o == "def") {
            bool bad = throws([&] {
                if (op["how"] == "map") {
                    us[i].setDefaults(items(op["items"]));
                } else if (op["how"] == "ae") {
                    us[i].setDefaultActivationEnergy(op["items"][0]["s"]);
                } else {
                    auto& t = op["items"];
                    auto g = [&](int k) { return t[k]["s"].get<string>(); };
                    switch (t.size()) {
                    case 1: us[i].setDefaults({g(0)}); break;
                    case 2: us[i].setDefaults({g(0), g(1)}); break;
                    case 3: us[i].setDefaults({g(0), g(1), g(2)}); break;
                    default: us[i].setDefaults({g(0), g(1), g(2), g(3)}); break;
                    }
                }
            });
            return {{"err", int(bad)}};
        } else if (o == "fresh") {
            us[i] = UnitSystem();
            return {{"err", 0}};
        } else if (o == "conv") {
            return val([&] {
                if (op["via"] == 0) {
                    return us[1].convert(val0, s, s2) / val0;
                } else if (op["via"] == 1) {
                    AnyValue v;
                    v = fmt::format("{} {}", val0, s);
                    return us[1].convert(v, s2) / val0;
                } else if (op["via"] == 2) {
                    std::vector<AnyValue> vv(2);
                    vv[0] = fmt::format("{} {}", val0, s);
                    vv[1] = fmt::format("{} {}", val0, s);
                    return us[1].convert(vv, s2)[1] / val0;
                }
                AnyMap m = AnyMap::fromYamlString(fmt::format("{{a: {} {}}}", val0, s));
                return m.convert("a", s2) / val0;
            });
        } else if (o == "to") {
            return val([&] {
                if (op["via"] == 0) {
                    return us[i].convertTo(val0, s) / val0;
                }
                AnyValue v;
                v = val0;
                if (op["via"] == 1) {
                    return us[i].convert(v, s) / val0;
                }
                std::vector<AnyValue> vv(2, v);
                return us[i].convert(vv, s)[1] / val0;
            });
        } else if (o == "from") {
            return val([&] { return us[i].convertFrom(val0, s) / val0; });
        } else if (o == "ae") {
            return val([&] {
                if (op["via"] == 0) {
                    return us[1].convertActivationEnergy(val0, s, s2) / val0;
                }
                AnyValue v;
                v = fmt::format("{} {}", val0, s);
                return us[1].convertActivationEnergy(v, s2) / val0;
            });
        } else if (o == "aeto") {
            return val([&] {
                if (op["via"] == 0) {
                    return us[i].convertActivationEnergyTo(val0, s) / val0;
                }
                AnyValue v;
                v = val0;
                return us[i].convertActivationEnergy(v, s) / val0;
            });
        } else if (o == "aefrom") {
            return val([&] { return us[i].convertActivationEnergyFrom(val0, s) / val0; });
        } else if (o == "defaults") {
            auto d = us[i].defaults();
            json r = json::object();
            for (auto& [k, v] : d) {
                r[k == "activation-energy" ? "ae" : k] = v;
            }
            return r;
        } else if (o == "delta") {
            // a copy of system j with the difference applied
            return guarded([&]() -> json {
                AnyMap delta = us[i].getDelta(us[j]);
                UnitSystem t = us[j];
                std::map<string, string> m;
                for (auto& [k, v] : delta) {
                    m[k] = v.asString();
                }
                t.setDefaults(m);
                json f;
                f["mass"] = lg(t.convertTo(1, "kg"));
                f["length"] = lg(t.convertTo(1, "m"));
                f["time"] = lg(t.convertTo(1, "s"));
                f["quantity"] = lg(t.convertTo(1, "kmol"));
                f["pressure"] = lg(t.convertTo(1, "Pa"));
                f["energy"] = lg(t.convertTo(1, "J"));
                f["ae"] = lg(t.convertActivationEnergyTo(1, "J/kmol"));
                return {{"err", 0}, {"f", f}};
            });
        } else if (o == "unit") {
            return guarded([&]() -> json {
                Units u(s);
                reg[i] = u;
                // the coherent unit of the same dimensions survives being written and read back
                Units c(1.0, u.dimension("mass"), u.dimension("length"), u.dimension("time"),
                        u.dimension("temperature"), u.dimension("current"), u.dimension("quantity"));
                Units v(c.str());
                Units w(c.str(false));
                bool rt = v.convertible(u) && v.factor() == 1.0 && w.convertible(u) && w.factor() == 1.0;
                return {{"err", 0}, {"lf", lg(u.factor())}, {"d", dims(u, 2)}, {"rt", int(rt)}};
            });
        } else if (o == "mul") {
            reg[i] *= reg[j];
            return {{"lf", lg(reg[i].factor())}, {"d", dims(reg[i], 2)}};
        } else if (o == "pow") {
            reg[i] = reg[i].pow(op["e2"].get<int>() / 2.0);
            return {{"lf", lg(reg[i].factor())}, {"d", dims(reg[i], 2)}};
        } else if (o == "cmp") {
            return {{"conv", int(reg[i].convertible(reg[j]))}};
        } else if (o == "sstd") {
            stack = UnitStack(Units(s));
            return {{"ok", 1}};
        } else if (o == "sjoin") {
            stack.join(op["e2"].get<int>() / 2.0);
            return {{"e2", toInt(2 * stack.standardExponent())}};
        } else if (o == "supd") {
            stack.update(Units(s), op["e2"].get<int>() / 2.0);
            return {{"n", int(stack.size())}};
        } else if (o == "sprod") {
            Units u = stack.product();
            return {{"lf", lg(u.factor())}, {"d", dims(u, 4)}};
        } else if (o == "yaml") {
            return guarded([&]() -> json {
                // nested levels; a "list" level puts the declaration in the first list item
                string y, close;
                std::vector<string> path;
                for (auto& lv : op["levels"]) {
                    auto declare = [](const json& its) {
                        string decl;
                        for (auto& it : its) {
                            decl += fmt::format("{}{}: {}", decl.empty() ? "" : ", ", it["dim"].get<string>(),
                                                it["s"].get<string>());
                        }
                        return "units: {" + decl + "}";
                    };
                    string decl = declare(lv["items"]);
                    if (lv["k"] == "list") {
                        y += "l: [{" + decl + "}, {v: 1.0, a: 1.0, ";
                        close = "}]" + close;
                        path.push_back("list");
                    } else if (lv["k"] == "lmap") {   // list declaration, merged with the item's own
                        y += "l: [{" + declare(lv["outer"]) + "}, {" + decl + ", v: 1.0, a: 1.0, ";
                        close = "}]" + close;
                        path.push_back("list");
                    } else {
                        y += "m: {" + (lv["items"].empty() ? string() : decl + ", ") + "v: 1.0, a: 1.0, ";
                        close = "}" + close;
                        path.push_back("map");
                    }
                }
                y = "{" + y + "end: 1" + close + "}";
                AnyMap root = AnyMap::fromYamlString(y);
                if (op.value("copy", 0)) {
                    AnyMap c = root;
                    root = AnyMap();
                    root = c;
                }
                const AnyMap* m = &root;
                json v = json::array();
                for (auto& p : path) {
                    m = (p == "list") ? &m->at("l").asVector<AnyMap>()[0] : &m->at("m").as<AnyMap>();
                    v.push_back({{"v", lg(m->convert("v", s))},
                                 {"ae", lg(m->units().convertActivationEnergy(m->at("a"), "J/kmol"))}});
                }
                return {{"err", 0}, {"v", v}};
            });
        }
        return {{"unknown", o}};
    }
};

int main(int argc, char** argv) { return driverMain<Sys>(argc, argv); }
