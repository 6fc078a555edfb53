#include "harness.h"
#include <cstring>

namespace hz {
using namespace scene;
std::string f(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }
std::string pose(const std::vector<double>& q) {
    std::string o = "(";
    for (size_t i = 0; i < q.size(); ++i) o += (i ? ", " : "") + f(q[i]);
    return o + ")";
}
uint64_t hashVertices(const hrm::Graph& g, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n && i < g.vertex.size(); ++i)
        for (double d : g.vertex[i]) { uint64_t u; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ULL; h ^= h >> 29; }
    return h;
}
uint64_t hashEdges(const hrm::Graph& g, size_t n) {
    uint64_t h = 77;
    for (size_t i = 0; i < n && i < g.edge.size() && i < g.weight.size(); ++i) {
        uint64_t u;
        memcpy(&u, &g.weight[i], 8);
        h = (h ^ (uint64_t(g.edge[i].first) * 0x9e3779b97f4a7c15ULL + uint64_t(g.edge[i].second))) * 1099511628211ULL;
        h = (h ^ u) * 1099511628211ULL;
        h ^= h >> 31;
    }
    return h;
}
uint64_t hashResult(const hrm::PlanningResult& r, bool withTime) {
    uint64_t h = hashVertices(r.graphStructure, r.graphStructure.vertex.size());
    auto add = [&](double d) { uint64_t u; memcpy(&u, &d, 8); h = sim::mix64(h ^ u); };
    for (auto& e : r.graphStructure.edge) { add(double(e.first)); add(double(e.second)); }
    for (double w : r.graphStructure.weight) add(w);
    for (auto i : r.solutionPath.PathId) add(double(i));
    for (auto& v : r.solutionPath.solvedPath) for (double d : v) add(d);
    for (auto& v : r.solutionPath.interpolatedPath) for (double d : v) add(d);
    add(r.solutionPath.cost);
    add(r.solved);
    if (withTime) { add(r.planningTime.buildTime); add(r.planningTime.searchTime); add(r.planningTime.totalTime); }
    return h;
}

// ------------------------------------------------------------------ faults
void genFaults(Scn& s, Rng& r, const FaultOpt& o) {
    s.addNum("simseed", {double(r.u64() % 1000000007)});
    s.addNum("randseed", {double(r.u64() % 1000000007)});
    if (o.junk) s.addNum("heapjunk", {double(r.range(1, 255))});
    s.addNum("wallbase", {double(r.range(0, 2000000000))});
    if (o.jumps && r.chance(0.5)) {
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            double mag = r.logUni(0.01, 1e7) * (r.chance(0.5) ? 1 : -1);
            s.addNum("clockjump", {double(int(r.logUni(1, 200))), mag});
        }
    }
}

// ------------------------------------------------------------------ scenes
// A regime for the cost of work, and a limit worth a chosen number of refinement rounds.
void genTime(Scn& s, Rng& r, int slices, double rounds) {
    int regime = r.below(4);
    if (regime == 0) {  // every stretch of work costs about the same
        double st = r.logUni(1e3, 5e8);
        s.addNum("clock", {st, st * r.uni(1.0, 3.0), 0, 0});
        s.addNum("tlim", {st * 1e-9 * (2 * slices * rounds + 3)});
    } else if (regime == 1) {  // time is proportional to work done
        double ac = r.logUni(10, 1e5);
        s.addNum("clock", {10, 1000, ac, r.chance(0.3) ? r.logUni(1e3, 1e6) : 0});
        s.addNum("tlim", {ac * 1e-9 * r.logUni(2e4, 1.5e6)});
    } else {  // fast machine, then one slow step, which may come in any phase
        s.addNum("clock", {1e4, 1e5, regime == 2 ? 10.0 : 0.0, 0});
        double tl = r.uni(0.5, 5);
        s.addNum("tlim", {tl});
        s.addNum("stall", {double(r.range(1, 3 + int(2 * slices * rounds))), tl * r.logUni(0.3, 30)});
        s.addNum("stall", {double(4 + int(2 * slices * rounds)), tl * 100});
    }
}
static double rnd(double v, double step) { return std::round(v / step) * step; }
static double pickOf(Rng& r, std::initializer_list<double> l) { return *(l.begin() + r.below(int(l.size()))); }
void genScene2(Scn& s, Rng& r, const Gen2& g) {
    bool nice = r.chance(g.nice);
    int slices = r.range(g.minSlices, g.maxSlices), lines = r.range(g.minLine, g.maxLine);
    // now and then far more of something than usual
    int much = r.chance(g.much) ? r.range(1, 5) : 0;
    if (much == 1 && g.maxSlices > 1) { slices = r.range(8, 36); lines = r.range(3, 5); }
    if (much == 2) { lines = r.range(15, 36); slices = std::min(slices, std::max(2, g.minSlices)); }
    s.addNum("param", {double(slices), double(lines), double(lines), double(much == 3 ? r.range(8, 20) : r.range(3, 7)),
                       double(much == 4 ? r.range(11, 60) : r.chance(0.7) ? 10 : r.range(1, 6)), r.chance(0.6) ? hrm::HALF_PI : r.uni(0.4, 3.0)});
    double A = r.uni(g.arenaLo, g.arenaHi), B = r.uni(g.arenaLo, g.arenaHi) * r.uni(0.6, 1.0);
    double ra = r.uni(1.5, 5.0), rb = ra * r.uni(0.35, 1.0);
    int rnum = r.range(30, 60);
    if (nice) { A = rnd(A, 5); B = rnd(B, 5); ra = rnd(ra, 1) + 1; rb = r.chance(0.3) ? ra : std::max(1.0, rnd(rb, 1)); }
    s.addNum("robot2", {ra, rb, double(rnum)});
    int nl = g.maxLinks > 0 && g.moreLinks > 0 && r.chance(g.moreLinks) ? g.maxLinks + 1 : r.range(0, g.maxLinks);
    bool big = r.chance(g.bigLinks);   // links that outgrow the base
    for (int i = 0; i < nl; ++i) {
        double la = r.uni(0.8, 3.0);
        if (big) la = ra * r.uni(1.0, 1.7);
        if (nice) s.addNum("link2", {2, 1, r.chance(0.5) ? 0 : ra, r.chance(0.5) ? 0 : rb, pickOf(r, {0.0, M_PI / 2, M_PI / 4, -M_PI / 2}), double(rnum)});
        else s.addNum("link2", {la, la * r.uni(big ? 0.15 : 0.3, 1.0), r.uni(-1.2, 1.2) * ra, r.uni(-1.2, 1.2) * ra, r.uni(-3.1, 3.1), double(rnum)});
    }
    double cx = r.chance(0.7) ? 0 : r.uni(-10, 10), cy = r.chance(0.7) ? 0 : r.uni(-10, 10);
    if (nice) { cx = rnd(cx, 5); cy = rnd(cy, 5); }
    int num = r.range(40, 90);
    if (nice && r.chance(0.5)) num = 4 * (num / 4) + 1;
    s.addNum("arena2", {A, B, r.chance(0.5) ? 0.1 : r.uni(0.2, 1.0), cx, cy, 0, double(num)});
    if (g.arenas > 1 && r.chance(0.2)) s.addNum("arena2", {A * r.uni(0.8, 1.2), B * r.uni(0.8, 1.2), r.uni(0.1, 1.0), cx + r.uni(-3, 3), cy + r.uni(-3, 3), 0, double(num)});
    double bx = A - 1.5 * ra, by = B - 1.5 * ra;
    if (nice) { bx = rnd(bx, 1); by = rnd(by, 1); }
    if (by < 3) by = 3;
    if (bx < 3) bx = 3;
    s.addNum("bounds", {cx - bx, cx + bx, cy - by, cy + by});
    int no = g.blocked ? r.range(0, 2) : r.range(g.minObs, g.maxObs);
    if (much == 5) no = r.range(7, 16);
    for (int i = 0; i < no; ++i) {
        double oa = r.logUni(1.5, 12), ob = r.logUni(1.5, 12);
        if (much == 5) { oa = r.uni(1, 3); ob = r.uni(1, 3); }
        int on = r.chance(0.3) ? r.range(40, 90) : num;
        if (nice) {
            double y = r.chance(0.5) ? cy - by + 2 * by * r.below(lines) / std::max(1, lines - 1) : cy + rnd(r.uni(-1, 1) * B * 0.8, 1);
            s.addNum("obs2", {std::max(2.0, rnd(oa, 1)), std::max(2.0, rnd(ob, 1)), pickOf(r, {1.0, 0.5, 0.25, 1.5}), cx + rnd(r.uni(-1, 1) * A * 0.8, 2), y,
                              pickOf(r, {0.0, 0.0, M_PI / 2, M_PI / 4}), double(on)});
        } else
            s.addNum("obs2", {oa, ob, r.chance(0.4) ? 1.0 : r.uni(0.25, 1.6), cx + r.uni(-1, 1) * A * 0.8, cy + r.uni(-1, 1) * B * 0.8, r.chance(0.3) ? 0.0 : r.uni(-3.1, 3.1), double(on)});
    }
    double wall = cx + r.uni(-0.3, 0.3) * A;
    if (g.blocked) s.addNum("obs2", {r.uni(1.0, 3.0), B * 3, r.uni(0.2, 1.0), wall, cy, 0, double(num)});
    Scn tmp = s;
    tmp.addNum("start", {0, 0, 0});
    tmp.addNum("goal", {0, 0, 0});
    Scene2 sc(tmp);
    auto pick = [&](double lo, double hi) {
        std::vector<double> best;
        double bc = -1e300;
        for (int k = 0; k < 40; ++k) {
            std::vector<double> q = {r.uni(lo, hi), cy + r.uni(-1, 1) * by, r.uni(-3.1, 3.1)};
            if (nice) { q[0] = rnd(q[0], 1); q[1] = rnd(q[1], 1); q[2] = pickOf(r, {0.0, M_PI / 2, -M_PI / 2, q[2]}); }
            double c = exactClear(sc, q);
            if (c > bc) { bc = c; best = q; }
            if (c > 0.3) break;
        }
        return best;
    };
    auto st = g.blocked ? pick(cx - bx, std::max(cx - bx + 0.1, wall - 4)) : pick(cx - bx, cx + bx);
    s.addNum("start", st);
    if (!g.blocked && r.chance(0.04)) s.addNum("goal", st);
    else s.addNum("goal", g.blocked ? pick(std::min(cx + bx - 0.1, wall + 4), cx + bx) : pick(cx - bx, cx + bx));
    genTime(s, r, slices, g.blocked ? r.uni(0.2, 2.2) : r.uni(0, 2.0));
}
static std::vector<double> randQuat(Rng& r) {
    double u = r.uni(), v = r.uni() * 2 * M_PI, w = r.uni() * 2 * M_PI;
    return {std::sqrt(1 - u) * std::sin(v), std::sqrt(1 - u) * std::cos(v), std::sqrt(u) * std::sin(w), std::sqrt(u) * std::cos(w)};
}
static std::vector<double> niceQuat(Rng& r) {
    double h = std::sqrt(0.5);
    switch (r.below(6)) {
        case 0: return {1, 0, 0, 0};
        case 1: return {h, h, 0, 0};
        case 2: return {h, 0, h, 0};
        case 3: return {h, 0, 0, h};
        case 4: return {0.5, 0.5, 0.5, 0.5};
        default: return {0, 0, 0, 1};
    }
}
void genScene3(Scn& s, Rng& r, const Gen3& g) {
    bool nice = r.chance(g.nice);
    int slices = r.range(g.minSlices, g.maxSlices), lx = r.range(g.minLine, g.maxLine), ly = r.range(g.minLine, g.maxLine);
    bool fine = r.chance(g.fine);   // surfaces of many points, hardly any discretisation error
    if (fine) { slices = std::min(slices, 2); lx = std::min(lx, 4); ly = std::min(ly, 4); }
    int much = !fine && r.chance(g.much) ? r.range(1, 5) : 0;
    if (much == 1 && g.maxSlices > 1) { slices = r.range(6, 20); lx = ly = 3; }
    if (much == 2) { lx = r.range(4, 12); ly = r.range(4, 12); slices = std::min(slices, std::max(2, g.minSlices)); }
    s.addNum("param", {double(slices), double(lx), double(ly), double(much == 3 ? r.range(7, 14) : r.range(3, 6)),
                       double(much == 4 ? r.range(11, 60) : r.chance(0.7) ? 10 : r.range(1, 6)), r.chance(0.6) ? hrm::HALF_PI : r.uni(0.4, 3.0)});
    double A = r.uni(15, 35), B = r.uni(15, 35), C = r.uni(10, 25);
    double ra = r.uni(1.5, 4.0), rb = ra * r.uni(0.4, 1), rc = ra * r.uni(0.4, 1);
    if (nice) { A = rnd(A, 5); B = rnd(B, 5); C = rnd(C, 5); ra = rnd(ra, 1) + 1; rb = std::max(1.0, rnd(rb, 1)); rc = r.chance(0.5) ? rb : std::max(1.0, rnd(rc, 1)); }
    int num = fine ? r.range(22, 34) : r.range(9, 14);
    s.addNum("robot3", {ra, rb, rc, double(num)});
    int nl = g.joints ? g.nJoints : g.maxLinks > 0 && g.moreLinks > 0 && r.chance(g.moreLinks) ? g.maxLinks + 1 : r.range(0, g.maxLinks);
    bool big = r.chance(g.bigLinks);
    for (int i = 0; i < nl; ++i) {
        double la = r.uni(0.8, 2.5);
        if (big) la = ra * r.uni(1.0, 1.6);
        auto q = nice ? niceQuat(r) : randQuat(r);
        if (g.joints) q = {1, 0, 0, 0};
        std::vector<double> v = {la, la * r.uni(big ? 0.25 : 0.4, 1), la * r.uni(big ? 0.25 : 0.4, 1), r.uni(-1, 1) * ra, r.uni(-1, 1) * ra, r.uni(-1, 1) * ra};
        v.insert(v.end(), q.begin(), q.end());
        v.push_back(num);
        s.addNum("link3", v);
        if (g.joints) {
            int ax = r.below(3);
            s.addNum("joint", {r.uni(0.5, 1.2) * ra, r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), 0, r.chance(0.3) ? r.uni(-0.5, 0.5) : 0, 0,
                               double(ax == 0), double(ax == 1), double(ax == 2)});
        }
    }
    bool round = r.chance(0.3);
    s.addNum("arena3", {A, B, C, round ? r.uni(0.2, 1.0) : 0.1, round ? r.uni(0.2, 1.0) : 0.1, 0, 0, 0, 1, 0, 0, 0, double(num)});
    double f = 1.2, bx = A - f * ra, by = B - f * ra, bz = C - f * ra;
    if (nice) { bx = rnd(bx, 1); by = rnd(by, 1); bz = rnd(bz, 1); }
    s.addNum("bounds", {-bx, bx, -by, by, -bz, bz});
    int no = g.blocked ? r.range(0, 1) : r.range(g.minObs, g.maxObs);
    if (much == 5) no = r.range(4, 10);
    for (int i = 0; i < no; ++i) {
        auto q = nice ? niceQuat(r) : randQuat(r);
        if (r.chance(0.3)) q = {1, 0, 0, 0};
        bool ell = r.chance(0.4);
        int half = ell ? 3 : r.chance(0.25) ? r.range(1, 2) : 0;   // which exponents are one
        std::vector<double> v = {r.logUni(1.5, 9), r.logUni(1.5, 9), r.logUni(1.5, 9), half & 1 ? 1 : r.uni(0.3, 1.5), half & 2 ? 1 : r.uni(0.3, 1.5),
                                 r.uni(-1, 1) * A * 0.8, r.uni(-1, 1) * B * 0.8, r.uni(-1, 1) * C * 0.8};
        if (nice) for (int k : {0, 1, 2}) { v[size_t(k)] = std::max(2.0, rnd(v[size_t(k)], 1)); v[size_t(5 + k)] = rnd(v[size_t(5 + k)], 2); }
        if (much == 5) for (int k : {0, 1, 2}) v[size_t(k)] = r.uni(1.2, 3);
        v.insert(v.end(), q.begin(), q.end());
        v.push_back(!fine && r.chance(0.3) ? r.range(9, 14) : num);
        s.addNum("obs3", v);
    }
    double wall = r.uni(-0.2, 0.2) * A;
    if (g.blocked) s.addNum("obs3", {r.uni(1.0, 2.0), B * 4, C * 4, 0.3, 0.3, wall, 0, 0, 1, 0, 0, 0, double(num)});
    if (g.quats) for (int i = 0; i < slices; ++i) s.addNum("quat", nice && i < 3 && r.chance(0.5) ? niceQuat(r) : randQuat(r));
    Scn tmp = s;
    std::vector<double> z = {0, 0, 0, 1, 0, 0, 0};
    tmp.addNum("start", z);
    tmp.addNum("goal", z);
    Scene3 sc(tmp);
    auto pick = [&](double lo, double hi) {
        std::vector<double> best;
        double bc = -1e300;
        for (int k = 0; k < 30; ++k) {
            auto q = randQuat(r);
            std::vector<double> p = {r.uni(lo, hi), r.uni(-by, by), r.uni(-bz, bz), q[0], q[1], q[2], q[3]};
            if (g.joints) for (int j = 0; j < nl; ++j) p.push_back(r.uni(-1.2, 1.2));
            double c = exactClear(sc, p);
            if (c > bc) { bc = c; best = p; }
            if (c > 0.3) break;
        }
        return best;
    };
    auto st = g.blocked ? pick(-bx, std::max(-bx + 0.1, wall - 3)) : pick(-bx, bx);
    s.addNum("start", st);
    if (!g.blocked && r.chance(0.03)) s.addNum("goal", st);
    else s.addNum("goal", g.blocked ? pick(std::min(bx - 0.1, wall + 3), bx) : pick(-bx, bx));
    genTime(s, r, slices, r.uni(0.2, g.rounds));
}

// ------------------------------------------------------------------ checks
void checkWellFormed(const Rec& r, Out& o) {
    const auto& g = r.res.graphStructure;
    size_t n = g.vertex.size();
    if (g.edge.size() != g.weight.size()) o.bad("weights", fmtv("%zu edges but %zu weights", g.edge.size(), g.weight.size()));
    for (size_t i = 0; i < n; ++i)
        for (double d : g.vertex[i])
            if (!std::isfinite(d)) { o.bad("vertex-finite", fmtv("vertex %zu %s is not finite", i, pose(g.vertex[i]).c_str())); break; }
    for (size_t i = 0; i < g.edge.size() && i < g.weight.size(); ++i) {
        auto e = g.edge[i];
        if (e.first >= n || e.second >= n) { o.bad("edge-range", fmtv("edge %zu joins (%zu,%zu), %zu vertices", i, size_t(e.first), size_t(e.second), n)); continue; }
        double d = orc::euclid(g.vertex[e.first], g.vertex[e.second]);
        if (!(std::fabs(d - g.weight[i]) <= 1e-9 * (1 + d)))
            o.bad("edge-weight", fmtv("edge %zu (%zu,%zu): weight %.12g, distance %.12g", i, size_t(e.first), size_t(e.second), g.weight[i], d));
    }
}
std::vector<std::vector<double>> tolTable(const Scene2& s) {
    std::vector<std::vector<double>> t(s.bodies.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.bodies.size(); ++i)
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double m = 0;
            for (int k = 0; k < 8; ++k) {  // the relative orientation varies: take the worst
                auto b = s.bodies[i];
                b.th = M_PI * k / 8;
                m = std::max(m, orc::sagitta(s.obs[j], b));
            }
            t[i][j] = 1.25 * m + 1e-4;
        }
    return t;
}
std::vector<std::vector<double>> tolTable(const Scene3& s) {
    std::vector<std::vector<double>> t(s.bodies.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.bodies.size(); ++i)
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double m = 0;
            for (int k = 0; k < 4; ++k) {
                auto b = s.bodies[i];
                b.R = (Eigen::AngleAxisd(0.9 * k, orc::V3(1, 0.5, -0.3).normalized())).toRotationMatrix() * b.R;
                m = std::max(m, orc::sagitta(s.obs[j], b));
            }
            t[i][j] = 1.3 * m + 1e-3;
        }
    return t;
}
double worstClear(const Scene2& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol) {
    double w = 1e300;
    auto b = s.at(q);
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double d = orc::separation(b[i], s.obs[j], 0.0) + tol[i][j];
            if (d < 0) d += std::max(0.0, 1.25 * orc::sagitta(s.obs[j], b[i]) + 1e-4 - tol[i][j]);   // the error at this very orientation
            w = std::min(w, d);
        }
    return w;
}
double worstClear(const Scene3& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol) {
    double w = 1e300;
    auto b = s.at(q);
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double d = orc::separation(b[i], s.obs[j], 0.0) + tol[i][j];
            if (d < 0) d += std::max(0.0, 1.3 * orc::sagitta(s.obs[j], b[i]) + 1e-3 - tol[i][j]);
            w = std::min(w, d);
        }
    return w;
}
double exactClear(const Scene2& s, const std::vector<double>& q) {
    double w = 1e300;
    for (auto& b : s.at(q)) for (auto& ob : s.obs) w = std::min(w, orc::separation(b, ob));
    return w;
}
double exactClear(const Scene3& s, const std::vector<double>& q) {
    double w = 1e300;
    for (auto& b : s.at(q)) for (auto& ob : s.obs) w = std::min(w, orc::separation(b, ob, 1.0));
    return w;
}
}  // namespace hz
