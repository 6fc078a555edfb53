// Scenario generators shared by the properties.
#pragma once
#include "harness.h"
namespace hz {
struct PickOpt {
    const char* prop;
    double h2 = 1, kc = 0, h3 = 1, pr = 0.5, ab = 0, pa = 0;   // weights of the planners
    double blocked = 0.3;
    double prBlocked = -1;   // the same for the sampling planner; < 0: as above
    bool jumps = true;
    bool randomQuats = false;   // HRM3D may draw its own orientations
    double corridor = 0;   // share of corridor scenes
    Gen2 g2{};
    Gen3 g3{};
};
// let the sampling planner add that many slices
inline void manySlices(Scn& s, Rng& r, int lo, int hi) {
    s.setNum("clock", {1e6, 1e6, 0, 0});
    s.setNum("tlim", {2e-3 * r.range(lo, hi)});
}
// A corridor that narrows in the middle: orientations are cut off from each other, and only some of them pass.
inline Scn genCorridor(const char* id, uint64_t seed) {
    Rng r(seed ^ 0xc0441d04);
    Scn s;
    s.set("prop", {id});
    s.setNum("seed", {double(seed)});
    FaultOpt fo;
    genFaults(s, r, fo);
    bool d3 = r.chance(0.4);
    s.set("planner", {d3 ? "H3" : "H2"});
    double ra = r.uni(3.5, 6), rb = r.uni(0.5, 1.2), rad = d3 ? r.uni(1.0, 3.5) : r.uni(2.0, 5.0);
    int slices = d3 ? r.range(3, 5) : r.range(4, 10), lines = d3 ? r.range(4, 6) : r.range(6, 12);
    double del = d3 ? r.uni(0.3, 1.5) : std::min(M_PI / 2, 2 * M_PI / (slices - 1) * r.range(1, 2));
    double wd = std::hypot(ra * std::sin(del), rb * std::cos(del));
    double wide = wd * r.uni(1.02, 1.4), narrow = r.uni(std::min(1.2 * rb, 0.8 * wd), 0.98 * wd);
    bool upright = !d3 && r.chance(0.6);
    double len = r.uni(18, 30), bump = wide - narrow, at = r.uni(-0.2, 0.2) * len, bt = r.uni(1, 3);
    double side = r.chance(0.5) ? 1 : -1;
    s.addNum("param", {double(slices), double(lines), double(lines), double(r.range(3, 6)), double(r.range(2, 10)), rad});
    int num = d3 ? 12 : 60;
    auto Q = [&](double x, double y) { return upright ? std::pair<double, double>(y, x) : std::make_pair(x, y); };   // along, across
    if (!d3) {
        s.addNum("robot2", {ra, rb, 50});
        auto c = Q(2 * len, wide + 20);
        s.addNum("arena2", {c.first, c.second, 0.1, 0, 0, 0, 60});
        auto b = Q(len, wide);
        s.addNum("bounds", {-b.first, b.first, -b.second, b.second});
        auto box = [&](double x, double y, double a, double h) {
            auto p = Q(x, y), e = Q(a, h);
            s.addNum("obs2", {e.first, e.second, 0.2, p.first, p.second, 0, double(num)});
        };
        box(0, wide + 6, 3 * len, 6);
        box(0, -wide - 6, 3 * len, 6);
        box(at, side * wide, bt, 2 * bump);
        auto end = [&](double x) {
            auto p = Q(x, -side * r.uni(0, 0.2) * wide);
            double t = (upright ? M_PI / 2 : 0) + (r.chance(0.5) ? r.uni(-3, 3) : r.uni(-1, 1) * del);
            return std::vector<double>{p.first, p.second, std::remainder(t, 2 * M_PI)};
        };
        s.addNum("start", end(-0.8 * len));
        s.addNum("goal", end(0.8 * len));
    } else {
        s.addNum("robot3", {ra, rb, rb * r.uni(0.8, 1.2), double(num)});
        s.addNum("arena3", {2 * len, wide + 20, 30, 0.1, 0.1, 0, 0, 0, 1, 0, 0, 0, double(num)});
        s.addNum("bounds", {-len, len, -wide, wide, -12, 12});
        auto box = [&](double x, double y, double a, double h) { s.addNum("obs3", {a, h, 40, 0.2, 0.2, x, y, 0, 1, 0, 0, 0, double(num)}); };
        box(0, wide + 6, 3 * len, 6);
        box(0, -wide - 6, 3 * len, 6);
        box(at, side * wide, bt, 2 * bump);
        int straight = r.below(slices);
        double t0 = 0;
        for (int i = 0; i < slices; ++i) {
            double t = i == straight ? r.uni(-0.05, 0.05) : (r.chance(0.5) ? 1 : -1) * del * r.uni(0.7, 1.1);
            if (i == 0) t0 = t;
            s.addNum("quat", {std::cos(t / 2), 0, 0, std::sin(t / 2)});
        }
        auto end = [&](double x) {
            double t = t0 * r.uni(0, 1.2);
            return std::vector<double>{x, r.uni(-0.3, 0.3) * wide, r.uni(-5, 5), std::cos(t / 2), 0, 0, std::sin(t / 2)};
        };
        s.addNum("start", end(-0.8 * len));
        s.addNum("goal", end(0.8 * len));
    }
    genTime(s, r, slices, r.uni(0, 2.0));
    return s;
}
inline Scn genCase(uint64_t seed, const PickOpt& p) {
    if (p.corridor > 0 && Rng(seed ^ 0x0c011d04).chance(p.corridor)) return genCorridor(p.prop, seed);
    Rng r(seed);
    Scn s;
    s.set("prop", {p.prop});
    s.setNum("seed", {double(seed)});
    FaultOpt fo;
    fo.jumps = p.jumps;
    genFaults(s, r, fo);
    double w[6] = {p.h2, p.kc, p.h3, p.pr, p.ab, p.pa}, tot = 0, u;
    static const char* nm[6] = {"H2", "KC", "H3", "PR", "AB", "PA"};
    for (double x : w) tot += x;
    u = r.uni(0, tot);
    int k = 0;
    while (k < 5 && u >= w[k]) u -= w[k++];
    s.set("planner", {nm[k]});
    bool blocked = r.chance(k == 3 && p.prBlocked >= 0 ? p.prBlocked : p.blocked);
    if (k < 2) {
        Gen2 g = p.g2;
        g.blocked = blocked;
        if (k == 1) g.maxLinks = 0;
        genScene2(s, r, g);
    } else {
        Gen3 g = p.g3;
        g.blocked = blocked;
        if (k == 3 || k == 5) { g.quats = false; g.joints = true; g.nJoints = r.range(1, 3); }
        else if (p.randomQuats && r.chance(0.4)) g.quats = false;
        genScene3(s, r, g);
    }
    return s;
}
}  // namespace hz
