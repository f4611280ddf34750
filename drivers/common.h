// Shared harness of the conformance drivers: reads scenarios (ndjson), steps a system under test through
// the operations of each one and records an observation per operation.
#pragma once
#include <nlohmann/json.hpp>
#include "cantera/base/global.h"
#include "cantera/base/ctexceptions.h"
#include <cmath>
#include <csignal>
#include <fstream>
#include <iostream>
#include <set>
#include <unistd.h>

using json = nlohmann::json;

static const int NOTINT = -999999999;   // a real number that is not (close to) an integer
static const int TOOBIG = -999999998;
static const int NOTFIN = -999999997;

// The integer a floating-point result stands for, up to rounding noise.
inline int toInt(double x, double tol = 1e-7)
{
    if (!std::isfinite(x)) {
        return NOTFIN;
    }
    double r = std::nearbyint(x);
    if (std::abs(x - r) > tol * std::max(1.0, std::abs(x))) {
        return NOTINT;
    }
    if (std::abs(r) > 9e8) {
        return TOOBIG;
    }
    return static_cast<int>(r);
}

inline json toInts(const std::vector<double>& v, double tol = 1e-7)
{
    json a = json::array();
    for (double x : v) {
        a.push_back(toInt(x, tol));
    }
    return a;
}

// First word(s) that identify an error, never its full (refactorable) text
template<class F>
json guarded(F f)
{
    try {
        return f();
    } catch (std::exception& e) {
        if (getenv("DRV_VERBOSE")) {
            std::cerr << e.what() << std::endl;
        }
        return json{{"err", 1}};
    }
}

template<class F>
bool throws(F f)
{
    try {
        f();
        return false;
    } catch (std::exception& e) {
        if (getenv("DRV_VERBOSE")) {
            std::cerr << e.what() << std::endl;
        }
        return true;
    }
}

template<class Sys>
int driverMain(int argc, char** argv, unsigned secs = 30)
{
    if (argc < 3) {
        std::cerr << "usage: driver in out" << std::endl;
        return 77;
    }
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    if (!in || !out) {
        std::cerr << "cannot open files" << std::endl;
        return 77;
    }
    Cantera::suppress_warnings();
    Cantera::suppress_deprecation_warnings();
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) {
            continue;
        }
        json s = json::parse(line);
        json t{{"id", s["id"]}, {"cfg", s["cfg"]}, {"ev", json::array()}};
        alarm(secs);
        {
            Sys sys(s["cfg"]);
            for (auto& op : s["ops"]) {
                json obs;
                try {
                    obs = sys.step(op);
                } catch (std::exception& e) {
                    obs = json{{"uncaught", std::string(e.what()).substr(0, 300)}};
                }
                t["ev"].push_back(json{{"op", op}, {"obs", obs}});
            }
        }
        alarm(0);
        out << t.dump(-1, ' ', false, json::error_handler_t::replace) << "\n";
        out.flush();
    }
    out.close();
    return 0;
}
