// Plain executable model of distances and kernels, written from their definitions.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>
typedef std::vector<double> dv;
struct RW { double bw = 1; bool adaptive = false; int kernel = 0; };
struct RD {
    int kind = 0;                        // 0 CRS, 1 Minkowski, 2 one-dimensional, 3 space-time
    bool geo = false; double poly = 2, theta = 0, lambda = 0, angle = 0; bool oblique = false;
    bool par = false, unknown = false; std::vector<dv> fp, dp;      // rows of coordinates (one column for kind 2)
    std::shared_ptr<RD> sp, tp;
    RD() {}
    RD(const RD& o) { *this = o; }
    RD& operator=(const RD& o) {
        kind = o.kind; geo = o.geo; poly = o.poly; theta = o.theta; lambda = o.lambda; angle = o.angle; oblique = o.oblique; par = o.par; unknown = o.unknown; fp = o.fp; dp = o.dp;
        auto s = o.sp ? std::make_shared<RD>(*o.sp) : nullptr, t = o.tp ? std::make_shared<RD>(*o.tp) : nullptr; sp = s; tp = t; return *this;
    }
};
struct RS { bool w = false, d = false; RW rw; RD rd; };

inline double greatCircle(double lo1, double la1, double lo2, double la2) {        // Meeus, Astronomical Algorithms, chapter 11
    if (lo1 == lo2 && la1 == la2) return 0;
    const double k = std::acos(-1.0) / 180, a = 6378.137, fl = 1 / 298.257223563;
    double F = (la1 + la2) * k / 2, G = (la1 - la2) * k / 2, l = (lo1 - lo2) * k / 2;
    auto sq = [](double v) { return v * v; };
    double S = sq(sin(G)) * sq(cos(l)) + sq(cos(F)) * sq(sin(l)), C = sq(cos(G)) * sq(cos(l)) + sq(sin(F)) * sq(sin(l));
    double om = atan(sqrt(S / C)), R = sqrt(S * C) / om, D = 2 * om * a, H1 = (3 * R - 1) / 2 / C, H2 = (3 * R + 1) / 2 / S;
    return D * (1 + fl * H1 * sq(sin(F)) * sq(cos(G)) - fl * H2 * sq(cos(F)) * sq(sin(G)));
}
// what distance(f) has to give; false: it has to raise
inline bool refDist(const RD& r, size_t f, dv& out, bool signedTime = false) {
    out.clear();
    if (r.kind == 3) {
        if (!r.sp || !r.tp) return false;
        dv s, t; if (!refDist(*r.sp, f, s) || !refDist(*r.tp, f, t, r.lambda != 1.0)) return false;
        for (size_t j = 0; j < s.size(); j++) out.push_back(t[j] < 0 ? 1e13 : r.lambda * s[j] + (1 - r.lambda) * t[j] + 2 * std::sqrt(r.lambda * (1 - r.lambda) * s[j] * t[j]) * (r.oblique ? cos(r.angle) : 1));
        return true;
    }
    if (!r.par || f >= r.fp.size()) return false;
    for (auto& q : r.dp) {
        if (r.kind == 2) { double t = r.fp[f][0] - q[0]; out.push_back(signedTime ? t : std::fabs(t)); continue; }
        double x1 = r.fp[f][0], y1 = r.fp[f][1], x2 = q[0], y2 = q[1];
        if (r.geo) { out.push_back(greatCircle(x2, y2, x1, y1)); continue; }
        double dx = x2 - x1, dy = y2 - y1;
        if (r.kind == 0) { out.push_back(std::sqrt(dx * dx + dy * dy)); continue; }
        if (r.poly != 2 && r.theta != 0) { double u = dx * cos(r.theta) - dy * sin(r.theta), v = dx * sin(r.theta) + dy * cos(r.theta); dx = u; dy = v; }
        dx = std::fabs(dx); dy = std::fabs(dy);
        out.push_back(r.poly == 1 ? std::max(dx, dy) : r.poly == -1 ? dx + dy : std::pow(std::pow(dx, r.poly) + std::pow(dy, r.poly), 1 / r.poly));
    }
    return true;
}
inline dv refWeight(const RW& w, const dv& d) {
    double b = w.bw; size_t n = d.size();
    if (w.adaptive) {
        if (w.bw < n) { dv s = d; std::sort(s.begin(), s.end()); size_t i = (size_t)w.bw; double fr = w.bw - i; b = s[i - 1] + fr * (s[i] - s[i - 1]); }
        else b = w.bw / n * *std::max_element(d.begin(), d.end());
    }
    dv o; for (double x : d) { double t = x / b; o.push_back(w.kernel == 0 ? std::exp(-t * t / 2) : w.kernel == 1 ? std::exp(-t) : !(x < b) ? 0 : w.kernel == 2 ? (1 - t * t) * (1 - t * t) : w.kernel == 3 ? std::pow(1 - t * t * t, 3) : 1); }
    return o;
}
