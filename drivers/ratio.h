#pragma once
#include "common.h"
// the rational with denominator up to 20000 that a number stands for, or 0/0
inline json ratio(double v) {
    if (!std::isfinite(v) || std::abs(v) > 1e6) {
        return json{0, 0};
    }
    double x = v;
    double p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int i = 0; i < 30; i++) {
        double a = std::floor(x + 1e-12 * std::max(1.0, std::abs(x)));
        double p = a * p1 + p0, q = a * q1 + q0;
        if (q > 20000 || std::abs(p) > 1e9) { break; }
        p0 = p1; q0 = q1; p1 = p; q1 = q;
        if (std::abs(v - p1 / q1) <= 1e-10 * std::max(1e-3, std::abs(v))) {
            return json{int(p1), int(q1)};
        }
        if (std::abs(x - a) < 1e-13) { break; }
        x = 1 / (x - a);
    }
    return json{0, 0};
}
inline double num(const json& r) { return r[0].get<int>() / double(r[1].get<int>()); }
