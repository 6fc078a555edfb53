#include <array>
// R01 growth, C01 vertices, C02 edges, C03 coverage of sweep lines, C04 links inside a slice, C05 links between slices.
#include "graph.h"

#include <cmath>

using namespace hz;

static std::vector<double> cfg(const Case& c, std::vector<double> p, const std::vector<double>& ori) { p.insert(p.end(), ori.begin(), ori.end()); return p; }
// the orientations the caller is entitled to expect, in order; empty when they are the planner's choice
static std::vector<std::vector<double>> expected(const Case& c) {
    std::vector<std::vector<double>> r;
    const auto& B = c.base();
    if (!c.d3) {
        size_t n = B.par.numSlice;
        for (size_t i = 0; i < n; ++i) r.push_back({n > 1 ? -M_PI + 2 * M_PI * double(i) / double(n - 1) : -M_PI});
    } else if (c.prob()) {
        r.push_back(std::vector<double>(B.start.begin() + 3, B.start.end()));
        if (c.r.par.numSlice >= 2) r.push_back(std::vector<double>(B.goal.begin() + 3, B.goal.end()));
    } else
        for (auto& q : c.s3->quats) r.push_back({q.w(), q.x(), q.y(), q.z()});
    return r;
}
static const double kOri = 2e-7;   // headings are multiples of a 8-digit pi

// long enough for the sampling planner to refine
static void longPR(Scn& s, Rng& r) {
    s.setNum("param", {0, 3, 3, 3, 10, 1.57});
    s.setNum("clock", {1e6, 1e6, 0, 0});
    s.setNum("tlim", {2e-3 * r.range(61, 66)});
}
// ---------------------------------------------------------------- R01
static Scn genR01(uint64_t seed) {
    PickOpt p{"R01"};
    p.corridor = 0.12;
    p.kc = 0.15; p.h3 = 0.8; p.pr = 0.25;
    p.blocked = 0.75;
    p.randomQuats = true;
    p.g2.maxObs = 3; p.g2.maxLine = 9; p.g2.maxSlices = 5;
    p.g3.maxObs = 2; p.g3.maxLine = 4; p.g3.maxSlices = 3; p.g3.rounds = 2.2;
    Scn s = genCase(seed, p);
    Rng r(seed * 19 + 1);
    if (s.str("planner") == "PR" && r.chance(0.25)) longPR(s, r);
    return s;
}
static void runR01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    const Rec& r = c.r;
    if (r.threw) return;
    if (!r.changed.empty()) o.bad("rewritten", r.changed);
    checkWellFormed(r, o);
    const auto& B = c.base();
    Ann a = annotate(c);
    auto levels = [](size_t n0, size_t n) { int k = 0; while (n0 < n && k < 20) { n0 *= 2; ++k; } return n0 == n ? k : -1; };
    int ky = levels(B.par.numLineY, r.par.numLineY), kx = c.d3 ? levels(B.par.numLineX, r.par.numLineX) : ky;
    if (ky < 0 || kx != ky)
        o.bad("doubling", fmtv("sweep lines went from %zu x %zu to %zu x %zu", size_t(B.par.numLineX), size_t(B.par.numLineY), size_t(r.par.numLineX), size_t(r.par.numLineY)));
    const auto& V = c.g().vertex;
    auto ex = expected(c);
    bool closed = !ex.empty() && !c.prob();
    for (size_t i = 0; i < V.size(); ++i) {
        if (c.pl != "KC" && (a.lvl[i] < 0 || (ky >= 0 && a.lvl[i] > ky))) { o.bad("off-grid", fmtv("vertex %zu %s lies on no sweep line", i, pose(V[i]).c_str())); break; }
        if (closed) {
            double best = 1e300;
            for (auto& e : ex) best = std::min(best, oriDist(c, e, oriOf(c, V[i])));
            if (best > kOri) { o.bad("orientation", fmtv("vertex %zu %s is at none of the %zu orientations", i, pose(V[i]).c_str(), ex.size())); break; }
        }
    }
    if (a.oris.size() > r.par.numSlice) o.bad("orientation", fmtv("%zu orientations in a roadmap of %zu slices", a.oris.size(), size_t(r.par.numSlice)));
    if (a.dup || c.prob() || c.pl == "KC") return;
    // every refined slice is joined to its predecessor
    struct Blk { size_t a, b; int ori, lvl; };
    std::vector<Blk> blk;
    for (size_t i = 0; i < V.size();) {
        size_t j = i;
        while (j < V.size() && a.ori[j] == a.ori[i] && (j == i || c.d3 || V[j][1] >= V[j - 1][1] - 1e-12)) ++j;
        int l = -2;
        for (size_t k = i; k < j; ++k) if (a.sure[k]) l = l == -2 || l == a.lvl[k] ? a.lvl[k] : -3;
        blk.push_back({i, j, a.ori[i], l});
        i = j;
    }
    auto& L = B.par.boundaryLimits;
    int joins = 0, none = 0;
    for (auto& n : blk)
        for (auto& p : blk) {
            if (n.lvl < 1 || p.lvl != n.lvl - 1 || p.ori != n.ori || p.a > n.a) continue;
            bool has = false;
            for (auto& e : c.g().edge) {
                size_t x = std::max(e.first, e.second), y = std::min(e.first, e.second);
                if (x >= n.a && x < n.b && y >= p.a && y < p.b) { has = true; break; }
            }
            if (has) { ++joins; continue; }
            ++none;
            Slice sl = sliceOf(c, a.oris[size_t(n.ori)]);
            double gy = 1.9 * (L[3] - L[2]) / double(linesY(B, n.lvl)), gx = 1.9 * (L[1] - L[0]) / double(linesX(B, n.lvl));
            for (size_t i = n.a; i < n.b && !has; ++i)
                for (size_t j = p.a; j < p.b && !has; ++j) {
                    if (!a.sure[i] || !a.sure[j]) continue;
                    if (std::fabs(V[i][1] - V[j][1]) > gy || (c.d3 && std::fabs(V[i][0] - V[j][0]) > gx)) continue;
                    if (sl.segment(V[i], V[j]) > 1e-3) {
                        has = true;
                        o.bad("unjoined", fmtv("refined slice with vertices %zu-%zu has no edge to the coarser slice %zu-%zu of the same orientation, yet %s and %s are close and joined by a free segment",
                                               n.a, n.b - 1, p.a, p.b - 1, pose(V[i]).c_str(), pose(V[j]).c_str()));
                    }
                }
        }
    o.m["refined_slices_joined"] += joins;
    o.m["refined_slices_apart"] += none;
}

// How far inside an arena a body of the robot stays with the base at p: the least of h - u.p over directions u (> 0 inside).
struct Within {
    std::vector<orc::V3> u;
    std::vector<double> h;
    const orc::Shape3 *A3 = nullptr, *b3 = nullptr;
    double tol;    // discretisation error of the arena shrunk by the body
    std::vector<std::array<double, 4>> folds;   // where corners are sharper than the body the sampled inner offset folds over itself: (x, y) boxes of those parts
    template <class S, class V>
    void add(const S& A, const S& b, const V& d) {
        u.push_back(orc::V3::Zero());
        for (int i = 0; i < d.size(); ++i) u.back()[i] = d[i];
        h.push_back(orc::supp(A, d) - orc::supp(b, d) - d.dot(b0(b, d) - b0(A, d)));
    }
    static orc::V2 b0(const orc::Shape2& s, const orc::V2&) { return s.c; }
    static orc::V3 b0(const orc::Shape3& s, const orc::V3&) { return s.p; }
    Within(const orc::Shape2& A, const orc::Shape2& b) : tol(1.3 * orc::sagitta(A, b) + 0.05) {
        for (int i = 0; i < 360; ++i) add(A, b, orc::V2(std::cos(i * M_PI / 180), std::sin(i * M_PI / 180)));
        std::vector<std::vector<double>> P;
        for (int i = 0; i < A.num; ++i) {
            orc::V2 p = A.c + orc::minkPoint(A, b, 2 * M_PI * i / (A.num - 1), -1) - b.c;
            P.push_back({p.x(), p.y()});
        }
        for (size_t i = 0; i + 1 < P.size(); ++i) fold({P[i], P[i + 1]}, 2);
    }
    Within(const orc::Shape3& A, const orc::Shape3& b) : A3(&A), b3(&b), tol(1.3 * orc::sagitta(A, b, true) + 0.1) {
        for (auto& d : orc::sphereDirs()) add(A, b, d);
        for (int i = 0; i < 3; ++i) for (double sg : {1.0, -1.0}) { add(A, b, orc::V3(sg * A.R.col(i))); add(A, b, orc::V3(sg * b.R.col(i))); }
        size_t n = size_t(A.num);
        std::vector<std::vector<double>> P;
        for (size_t i = 0; i < n * n; ++i) {
            orc::V3 p = A.p + orc::minkPoint(A, b, -M_PI / 2 + M_PI * double(i / n) / double(n - 1), -M_PI + 2 * M_PI * double(i % n) / double(n - 1), -1) - b.p;
            P.push_back({p.x(), p.y(), p.z()});
        }
        for (size_t i = 0; i + 1 < n; ++i) for (size_t j = 0; j + 1 < n; ++j) fold({P[i * n + j], P[i * n + j + 1], P[(i + 1) * n + j], P[(i + 1) * n + j + 1]}, 3);
    }
    void fold(const std::vector<std::vector<double>>& part, size_t dim) {
        bool bad = false;
        for (auto& p : part) bad |= at(p, dim) < -0.3 * tol;
        if (!bad) return;
        std::array<double, 4> bx{1e300, -1e300, 1e300, -1e300};
        for (auto& p : part) for (size_t k = 0; k < 2; ++k) { bx[2 * k] = std::min(bx[2 * k], p[k] - 0.1); bx[2 * k + 1] = std::max(bx[2 * k + 1], p[k] + 0.1); }
        folds.push_back(bx);
    }
    // the sweep line through p meets a folded part
    bool folded(const std::vector<double>& p, size_t dim) const {
        for (auto& f : folds) if ((dim == 2 || (p[0] >= f[0] && p[0] <= f[1])) && p[1] >= f[2] && p[1] <= f[3]) return true;
        return false;
    }
    double at(const std::vector<double>& p, size_t dim) const {
        double m = 1e300;
        for (size_t i = 0; i < u.size(); ++i) { double w = h[i]; for (size_t k = 0; k < dim; ++k) w -= u[i][long(k)] * p[k]; m = std::min(m, w); }
        return m;
    }
    // 3D: add the half-space that p breaks most, found by local search; false when none known is worse
    bool tighten(const orc::V3& p) {
        size_t k = 0;
        double best = 1e300;
        for (size_t i = 0; i < u.size(); ++i) if (h[i] - u[i].dot(p) < best) { best = h[i] - u[i].dot(p); k = i; }
        orc::V3 d = u[k];
        const double was = best;
        auto f = [&](const orc::V3& w) { return orc::supp(*A3, w) - orc::supp(*b3, w) - w.dot(p + b3->p - A3->p); };
        for (double step = 0.1; step > 1e-4;) {
            orc::V3 t1 = d.cross(std::fabs(d.x()) < 0.7 ? orc::V3(1, 0, 0) : orc::V3(0, 1, 0)).normalized(), t2 = d.cross(t1), bd = d;
            for (int j = 0; j < 8; ++j) {
                orc::V3 w = (d + step * (std::cos(j * M_PI / 4) * t1 + std::sin(j * M_PI / 4) * t2)).normalized();
                double v = f(w);
                if (v < best) { best = v; bd = w; }
            }
            if (bd == d) step /= 2; else d = bd;
        }
        if (best > was - 1e-4) return false;
        add(*A3, *b3, d);
        return true;
    }
    // along coordinate zi from p: the part of [lo, hi] where at() >= v (lo > hi when there is none)
    orc::Span level(std::vector<double> p, size_t zi, size_t dim, double lo, double hi, double v) {
        p[zi] = 0;
        for (int round = 0;; ++round) {
            orc::Span s;
            s.lo = lo; s.hi = hi;
            for (size_t i = 0; i < u.size(); ++i) {
                double w = h[i] - v, z = u[i][long(zi)];
                for (size_t k = 0; k < dim; ++k) w -= u[i][long(k)] * p[k];
                if (z > 1e-12) s.hi = std::min(s.hi, w / z);
                else if (z < -1e-12) s.lo = std::max(s.lo, w / z);
                else if (w < 0) { s.lo = 1; s.hi = -1; return s; }
            }
            if (!A3 || round == 6 || s.lo >= s.hi) return s;
            bool more = tighten(orc::V3(p[0], p[1], s.lo));
            more |= tighten(orc::V3(p[0], p[1], s.hi));
            if (!more) return s;
        }
    }
};
static std::vector<Within> withins(const Case& c, const Slice& sl) {
    std::vector<Within> r;
    if (c.d3) { for (auto& A : c.s3->arena) for (auto& b : sl.b3) r.emplace_back(A, b); }
    else for (auto& A : c.s2->arena) for (auto& b : sl.b2) r.emplace_back(A, b);
    return r;
}
// ---------------------------------------------------------------- C01
static Scn genC01(uint64_t seed) {
    PickOpt p{"C01"};
    p.corridor = 0.12;
    p.kc = 0.15; p.pr = 0.4; p.ab = 0.15; p.pa = 0.1;
    p.blocked = 0.15;
    p.randomQuats = true;
    p.prBlocked = 0.4;
    p.g2.moreLinks = p.g3.moreLinks = 0.25;
    Scn s = genCase(seed, p);
    Rng r(seed * 37 + 1);
    if (s.str("planner") == "PR" && r.chance(0.25)) longPR(s, r);
    return s;
}
static void runC01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& V = c.g().vertex;
    auto& L = c.base().par.boundaryLimits;
    Rng pick(uint64_t(s.num("seed")) + 5);
    size_t cap = c.d3 ? 500 : 3000;
    double keep = V.size() > cap ? double(cap) / double(V.size()) : 1, least = 1e300;
    for (size_t i = 0; i < V.size(); ++i) {
        for (size_t d = 0; d < (c.d3 ? 3u : 2u); ++d)
            if (!(V[i][d] >= L[2 * d] - 1e-6 && V[i][d] <= L[2 * d + 1] + 1e-6))
                o.bad("limits", fmtv("vertex %zu %s outside the limits [%g, %g] of coordinate %zu", i, pose(V[i]).c_str(), L[2 * d], L[2 * d + 1], d));
        if (keep < 1 && !pick.chance(keep)) continue;
        double w = c.worst(V[i]);
        least = std::min(least, w);
        if (w < 0) o.bad("collision", fmtv("at vertex %zu %s the robot is %.6g deep in an obstacle, beyond the surface discretisation", i, pose(V[i]).c_str(), -w));
        o.m["vertices_checked"] += 1;
    }
    // where a sweep line runs through an arena, its vertices keep every body inside
    Ann a = annotate(c);
    size_t zi = c.d3 ? 2 : 0, dim = c.d3 ? 3 : 2;
    std::vector<char> corner(V.size(), 0);   // corners of detours take their height from the neighbouring line
    if (c.d3) {
        std::vector<char> up(V.size(), 0), across(V.size(), 0);
        for (auto& e : c.g().edge) {
            if (e.first >= V.size() || e.second >= V.size()) return;
            const auto &p = V[e.first], &q = V[e.second];
            bool line = p[0] == q[0] && p[1] == q[1];
            if (line) up[e.first] = up[e.second] = 1;
            else if (p[2] == q[2]) across[e.first] = across[e.second] = 1;
        }
        for (size_t i = 0; i < V.size(); ++i) corner[i] = up[i] && across[i];
    }
    for (size_t n = 0; n < a.oris.size(); ++n) {
        Slice sl = sliceOf(c, a.oris[n]);
        for (auto& g : withins(c, sl))
            for (size_t i = 0; i < V.size(); ++i) {
                if (size_t(a.ori[i]) != n || corner[i]) continue;
                double w = g.at(V[i], dim);
                o.m["arena_margins_checked"] += 1;
                if (w > -g.tol || g.folded(V[i], dim)) continue;
                auto deep = g.level(V[i], zi, dim, L[2 * zi], L[2 * zi + 1], 2 * g.tol);
                if (deep.lo < deep.hi)
                    o.bad("outside-arena", fmtv("at vertex %zu %s the robot is %.6g outside the arena, though its sweep line runs through the arena", i, pose(V[i]).c_str(), -w));
            }
    }
}

// ---------------------------------------------------------------- C02
// Long bodies among small, finely sampled obstacles: what a turn sweeps matters more than the two ends.
static std::vector<double> between(const Case& c, const std::vector<double>& a, const std::vector<double>& b, double t) {
    if (c.d3) return orc::slerpPose(a, b, t);
    std::vector<double> v;
    for (size_t i = 0; i < a.size(); ++i) v.push_back((1 - t) * a[i] + t * b[i]);
    return v;
}
static void needles(Scn& s, Rng& r) {
    bool d3 = s.has("robot3");
    const char* on = d3 ? "obs3" : "obs2";
    Scn k;
    auto b = s.nums("bounds");
    double span = 1e300;
    for (size_t i = 0; i + 1 < b.size(); i += 2) span = std::min(span, b[i + 1] - b[i]);
    double len = std::min(7.0, 0.3 * span);
    bool arm = s.has("joint") && r.chance(0.5);   // the long bodies are the links
    for (auto& l : s.lines) {
        if (l.first == on) continue;
        if (l.first == "robot2") k.addNum("robot2", {len * r.uni(0.7, 1), len * r.uni(0.1, 0.25), 50});
        else if (arm && l.first == "robot3") k.addNum("robot3", {len * 0.25, len * 0.2, len * 0.2, double(r.range(10, 20))});
        else if (arm && l.first == "link3") {
            double a = len * r.uni(0.7, 1), t = len * r.uni(0.08, 0.2);
            k.addNum("link3", {a, t, t, r.uni(-0.3, 0.3) * a, 0, 0, 1, 0, 0, 0, double(r.range(10, 20))});
        } else if (l.first == "robot3") k.addNum("robot3", {len * r.uni(0.7, 1), len * r.uni(0.1, 0.25), len * r.uni(0.1, 0.25), double(r.range(10, 20))});
        else k.add(l.first, l.second);
    }
    int n = r.range(4, d3 ? 8 : 12);
    if (r.chance(0.6) && s.str("planner") != "KC") {   // obstacles where a turn on the spot would sweep a body over them, and neither end of the turn touches them
        const Scn bare = k;
        Case c = load(bare);
        std::vector<std::vector<double>> O;
        auto st = c.base().start, go = c.base().goal;
        for (int i = 0; i < c.base().par.numSlice && !d3; ++i) O.push_back({-M_PI + i * 2 * M_PI / std::max(1.0, double(c.base().par.numSlice) - 1)});
        if (d3 && !c.prob()) for (auto& u : c.s3->quats) O.push_back({u.w(), u.x(), u.y(), u.z()});
        if (c.prob()) { O.push_back({st.begin() + 3, st.end()}); O.push_back({go.begin() + 3, go.end()}); }
        size_t dim = d3 ? 3 : 2, np = std::max<size_t>(2, c.base().par.numPoint);
        int made = 0;
        for (int tries = 0; tries < 40 && made < n && O.size() > 1; ++tries) {
            size_t i = size_t(r.below(int(O.size()))), j = d3 ? size_t(r.below(int(O.size()))) : (i + 1) % O.size();
            if (i == j) continue;
            std::vector<double> p;
            if (d3) p = {lineX(c.base(), 0, size_t(r.below(int(c.base().par.numLineX)))), lineY(c.base(), 0, size_t(r.below(int(c.base().par.numLineY)))), 0.5 * (b[4] + b[5])};
            else p = {0.5 * (b[0] + b[1]), lineY(c.base(), 0, size_t(r.below(int(c.base().par.numLineY))))};
            auto A = p, B = p;
            A.insert(A.end(), O[i].begin(), O[i].end()); B.insert(B.end(), O[j].begin(), O[j].end());
            auto M = between(c, A, B, double(r.range(1, int(np) - 1)) / double(np));
            double rad = r.logUni(0.3, 1.2), f = (r.chance(0.5) ? -1 : 1) * r.uni(0.5, 1);
            std::vector<double> o;
            if (d3) {
                auto bs = c.s3->at(M);
                auto& body = bs[size_t(r.below(int(bs.size())))];
                orc::V3 q = body.p + body.R * orc::V3(f * body.a, 0, 0);
                o = {rad, rad, rad, 1, 1, q.x(), q.y(), q.z(), 1, 0, 0, 0, double(r.range(16, 24))};
            } else {
                auto bs = c.s2->at(M);
                auto& body = bs[size_t(r.below(int(bs.size())))];
                orc::V2 q = body.c + body.R() * orc::V2(f * body.a, 0);
                o = {rad, rad, 1, q.x(), q.y(), 0, 80};
            }
            Scn with = bare;
            with.addNum(on, o);
            Case w = load(with);
            if (w.worst(A) < 0.2 || w.worst(B) < 0.2) continue;
            bool cut = false;   // the sweep line stays whole at both ends of the turn
            for (double z = 0; z <= 1; z += 0.08)
                for (auto* e : {&A, &B}) { auto v = *e; size_t zi = dim == 3 ? 2 : 0; v[zi] = b[2 * zi] + z * (b[2 * zi + 1] - b[2 * zi]); if (w.exact(v) < 0) cut = true; }
            if (cut) continue;
            k.addNum(on, o);
            ++made;
        }
        n = 1;
    }
    for (int i = 0; i < n; ++i) {
        auto at = [&](size_t d) { return r.uni(b[2 * d], b[2 * d + 1]); };
        if (d3) k.addNum("obs3", {r.logUni(0.4, 2), r.logUni(0.4, 2), r.logUni(0.4, 2), r.uni(0.6, 1.2), r.uni(0.6, 1.2), at(0), at(1), at(2), 1, 0, 0, 0, double(r.range(16, 24))});
        else k.addNum("obs2", {r.logUni(0.4, 2), r.logUni(0.4, 2), r.uni(0.6, 1.2), at(0), at(1), 0, 80});
    }
    s = k;
}
static Scn genC02(uint64_t seed) {
    PickOpt p{"C02"};
    p.corridor = 0.12;
    p.pr = 0.4; p.ab = 0.15;
    p.blocked = 0.15;
    p.randomQuats = true;
    p.prBlocked = 0.7;
    p.g2.minSlices = 1; p.g2.maxSlices = 9;
    p.g2.moreLinks = p.g3.moreLinks = 0.25;
    Scn s = genCase(seed, p);
    Rng r(seed * 23 + 1);
    if (s.str("planner") == "PR" && r.chance(0.5)) manySlices(s, r, 3, 12);
    if (r.chance(0.3)) needles(s, r);
    return s;
}
// ball tolerance: the surface around an obstacle grown by anything that encloses the moving body
static std::vector<std::vector<double>> ballTol(const Case& c) {
    std::vector<std::vector<double>> t;
    if (c.d3) {
        for (auto b : c.s3->bodies) {
            double m = std::max(b.a, std::max(b.b, b.c));
            b.a = b.b = b.c = m;
            std::vector<double> v;
            for (auto& ob : c.s3->obs) v.push_back(1.5 * orc::sagitta(ob, b) + 1e-3);
            t.push_back(v);
        }
    } else
        for (auto b : c.s2->bodies) {
            b.a = b.b = std::max(b.a, b.b);
            std::vector<double> v;
            for (auto& ob : c.s2->obs) v.push_back(1.5 * orc::sagitta(ob, b) + 1e-4);
            t.push_back(v);
        }
    return t;
}
static void runC02(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& g = c.g();
    auto tb = ballTol(c);
    for (size_t i = 0; i < tb.size(); ++i) for (size_t j = 0; j < tb[i].size(); ++j) tb[i][j] = std::max(tb[i][j], c.tol[i][j]);
    Rng pick(uint64_t(s.num("seed")) + 9);
    size_t cap = c.d3 ? 400 : 1200;
    double keep = g.edge.size() > cap ? double(cap) / double(g.edge.size()) : 1;
    size_t np = c.base().par.numPoint;
    bool dup = annotate(c).dup;
    for (auto& e : g.edge) {
        if (e.first >= g.vertex.size() || e.second >= g.vertex.size()) return;
        const auto &a = g.vertex[e.first], &b = g.vertex[e.second];
        bool same = oriDist(c, oriOf(c, a), oriOf(c, b)) < kOri;
        if (keep < 1 && !pick.chance(same ? keep : std::min(1.0, 3 * keep))) continue;
        if (same && !dup) {   // with equal orientations listed twice it may also be an edge between slices
            int n = 6;
            for (int k = 0; k <= n; ++k) {
                auto v = between(c, a, b, (k + (k > 0 && k < n ? pick.uni(-0.4, 0.4) : 0)) / n);
                double w = c.worst(v);
                if (w < 0) o.bad("edge-collision", fmtv("edge %s - %s inside one slice: at %s the robot is %.6g deep in an obstacle", pose(a).c_str(), pose(b).c_str(), pose(v).c_str(), -w));
            }
            o.m["edges_in_slice"] += 1;
        } else {
            size_t n = c.d3 ? np : np - 1;
            for (size_t k = 0; k <= n; ++k) {
                auto v = between(c, a, b, double(k) / double(n));
                double w = c.d3 ? worstClear(*c.s3, v, tb) : worstClear(*c.s2, v, tb);
                o.m["least_inter"] = std::min(o.m["least_inter"], w);
                if (w < 0) o.bad("bridge-collision", fmtv("edge %s - %s between slices: at step %zu of %zu, %s, the robot is %.6g deep in an obstacle", pose(a).c_str(), pose(b).c_str(), k, n, pose(v).c_str(), -w));
            }
            o.m["edges_between_slices"] += 1;
        }
    }
}

// ---------------------------------------------------------------- C03
static Scn genC03(uint64_t seed) {
    PickOpt p{"C03"};
    p.corridor = 0.12;
    p.kc = 0.25; p.pr = 0.3; p.ab = 0.15;
    p.blocked = 0.3;
    p.g2.maxObs = 6;
    p.g2.moreLinks = p.g3.moreLinks = 0.25;
    return genCase(seed, p);
}
static void runC03(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& V = c.g().vertex;
    const auto& B = c.base();
    auto& L = B.par.boundaryLimits;
    Ann a = annotate(c);
    auto ex = expected(c);
    if (ex.empty()) ex = a.oris;
    size_t zi = c.d3 ? 2 : 0, dim = c.d3 ? 3 : 2;
    Rng pick(uint64_t(s.num("seed")) + 11);
    for (size_t n = 0; n < ex.size(); ++n) {
        Slice sl = sliceOf(c, ex[n]);
        auto W = withins(c, sl);
        std::vector<size_t> mine;
        for (size_t i = 0; i < V.size(); ++i) if (oriDist(c, oriOf(c, V[i]), ex[n]) < kOri) mine.push_back(i);
        for (int lv = 0; lv <= (c.prob() ? 0 : a.maxLvl); ++lv) {
            if (lv > 0 && a.dup) continue;   // whose vertices these are cannot be told
            if (lv > 0) {   // was this slice refined to this level before the limit?
                bool done = false;
                for (size_t i = 0; i < V.size() && !done; ++i) {
                    if (!a.sure[i] || a.lvl[i] < lv) continue;
                    if (a.lvl[i] > lv) done = true;
                    for (size_t m = n; m < ex.size() && !done; ++m) done = oriDist(c, oriOf(c, V[i]), ex[m]) < kOri;
                }
                if (!done) continue;
            }
            size_t nx = c.d3 ? linesX(B, lv) : 1, ny = linesY(B, lv);
            double keep = std::min(1.0, (c.d3 ? 60.0 : 200.0) / double(nx * ny));
            for (size_t ix = 0; ix < nx; ++ix)
                for (size_t iy = 0; iy < ny; ++iy) {
                    if (keep < 1 && !pick.chance(keep)) continue;
                    double x = c.d3 ? lineX(B, lv, ix) : 0, y = lineY(B, lv, iy);
                    std::vector<double> p0 = c.d3 ? std::vector<double>{x, y, L[4]} : std::vector<double>{L[0], y}, p1 = p0;
                    p1[zi] = L[2 * zi + 1];
                    // the stretch inside the arenas: at most [lo, hi], at least [li, hj]
                    double lo = L[2 * zi], hi = L[2 * zi + 1], li = lo, hj = hi;
                    {
                        bool through = true, cut = false;
                        for (auto& g : W) {
                            auto all = g.level(p0, zi, dim, L[2 * zi], L[2 * zi + 1], g.tol);
                            if (all.lo == L[2 * zi] && all.hi == L[2 * zi + 1]) continue;
                            cut = true;
                            auto deep = g.level(p0, zi, dim, L[2 * zi], L[2 * zi + 1], 3 * g.tol), out = g.level(p0, zi, dim, L[2 * zi], L[2 * zi + 1], -g.tol);
                            if (deep.lo >= deep.hi || g.folded(p0, dim)) { through = false; break; }
                            lo = std::max(lo, out.lo); hi = std::min(hi, out.hi);
                            li = std::max(li, all.lo); hj = std::min(hj, all.hi);
                        }
                        if (!through || hj - li < 1e-3) { o.m["lines_near_arena"] += 1; continue; }
                        o.m["lines_cut_by_arena"] += cut;
                    }
                    std::vector<orc::Span> full, core;
                    if (c.d3) for (size_t k = 0; k < sl.c3.size(); ++k) { full.push_back(sl.c3[k].cut(x, y, 1 + 5e-6 / sl.c3[k].rho)); core.push_back(sl.c3[k].cut(x, y, 1 - sl.tol[k] / sl.c3[k].rho)); }
                    else for (size_t k = 0; k < sl.c2.size(); ++k) { full.push_back(sl.c2[k].cut(y, 1 + 5e-6 / sl.c2[k].rho)); core.push_back(sl.c2[k].cut(y, 1 - sl.tol[k] / sl.c2[k].rho)); }
                    auto fr = orc::freeRuns(li, hj, full), cr = orc::freeRuns(lo, hi, core);
                    o.m["lines_checked"] += 1;
                    for (auto& f : fr) {
                        if (f.hi - f.lo < 1e-3) continue;
                        orc::Span w;
                        for (auto& k : cr) if (k.lo <= f.lo + 1e-6 && k.hi >= f.hi - 1e-6) w = k;
                        if (w.empty()) continue;
                        double a0 = (std::min(w.lo, f.lo) + f.lo) / 2 - 1e-4, a1 = (std::max(w.hi, f.hi) + f.hi) / 2 + 1e-4;
                        // [ (w.lo+f.hi)/2 , (f.lo+w.hi)/2 ]: where the middle of a run between those two can lie
                        double m0 = (std::min(w.lo, f.lo) + f.hi) / 2 - 1e-4, m1 = (f.lo + std::max(w.hi, f.hi)) / 2 + 1e-4;
                        (void)a0; (void)a1;
                        bool found = false;
                        for (size_t i : mine)
                            if (std::fabs(V[i][1] - y) < 1e-6 && (!c.d3 || std::fabs(V[i][0] - x) < 1e-6) && V[i][zi] >= m0 && V[i][zi] <= m1) { found = true; break; }
                        o.m["runs_checked"] += 1;
                        if (!found)
                            o.bad("uncovered", fmtv("orientation %s, level %d, sweep line %s: the free stretch [%.6g, %.6g] has no vertex in its middle [%.6g, %.6g]", pose(ex[n]).c_str(), lv,
                                                    c.d3 ? pose({x, y}).c_str() : hz::f(y).c_str(), f.lo, f.hi, m0, m1));
                    }
                }
        }
    }
}

// ---------------------------------------------------------------- C04
static Scn genC04(uint64_t seed) {
    PickOpt p{"C04"};
    p.corridor = 0.12;
    p.kc = 0.2; p.pr = 0.3; p.ab = 0.15;
    p.blocked = 0.2;
    p.randomQuats = true;
    p.g2.maxObs = 6;
    return genCase(seed, p);
}
static void runC04(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& V = c.g().vertex;
    const auto& B = c.base();
    auto& L = B.par.boundaryLimits;
    Ann a = annotate(c);
    if (a.dup) return;
    size_t zi = c.d3 ? 2 : 0;
    Rng pick(uint64_t(s.num("seed")) + 13);
    for (size_t n = 0; n < a.oris.size(); ++n) {
        Slice sl = sliceOf(c, a.oris[n]);
        // vertices of the first pass per line
        std::map<std::pair<long, long>, std::vector<size_t>> line;
        for (size_t i = 0; i < a.n0 && i < V.size(); ++i) {
            if (a.ori[i] != int(n) || a.lvl[i] != 0) continue;
            if (c.prob() && c.r.par.numLineY > B.par.numLineY && !a.sure[i]) continue;
            long iy = std::lround((V[i][1] - L[2]) / (L[3] - L[2]) * double(B.par.numLineY - 1)), ix = c.d3 ? std::lround((V[i][0] - L[0]) / (L[1] - L[0]) * double(B.par.numLineX - 1)) : 0;
            line[{ix, iy}].push_back(i);
        }
        // every free stretch of a line: the vertices on it, and its middle one
        struct Run { std::vector<size_t> v; long mid = -1; };
        std::map<std::pair<long, long>, std::vector<Run>> runs;
        for (auto& l : line) {
            double x = c.d3 ? V[l.second[0]][0] : 0, y = V[l.second[0]][1];
            std::vector<orc::Span> full;
            if (c.d3) for (auto& k : sl.c3) full.push_back(k.cut(x, y, 1));
            else for (auto& k : sl.c2) full.push_back(k.cut(y, 1));
            auto fr = orc::freeRuns(L[c.d3 ? 4 : 0], L[c.d3 ? 5 : 1], full);
            for (auto& f : fr) {
                Run r;
                for (size_t i : l.second) if (V[i][zi] > f.lo + 1e-6 && V[i][zi] < f.hi - 1e-6) r.v.push_back(i);
                if (!r.v.empty()) runs[l.first].push_back(r);
            }
        }
        auto need = [&](size_t i, size_t j, const char* what) {
            if (a.joined(i, j)) { o.m["links_present"] += 1; return; }
            double w = sl.segment(V[i], V[j]);
            if (w > 1e-3) o.bad("unlinked", fmtv("%s %s and %s of the first pass: the segment between them keeps %.6g clear, yet there is no edge", what, pose(V[i]).c_str(), pose(V[j]).c_str(), w));
            o.m["links_blocked"] += 1;
        };
        if (!c.d3) {
            for (auto& l : line) {
                auto nx = line.find({0, l.first.second + 1});
                if (nx == line.end()) continue;
                for (size_t i : l.second) for (size_t j : nx->second) need(i, j, "neighbouring lines,");
            }
            for (auto& l : runs)
                for (auto& r : l.second) {
                    auto v = r.v;
                    std::sort(v.begin(), v.end(), [&](size_t i, size_t j) { return V[i][zi] < V[j][zi]; });
                    // coincident vertices: the neighbours of the group are joined to one of them
                    for (size_t k = 0; k + 1 < v.size(); ++k) {
                        if (V[v[k + 1]][zi] - V[v[k]][zi] < 1e-5) continue;
                        bool any = false;
                        for (size_t i = 0; i <= k; ++i) for (size_t j = k + 1; j < v.size(); ++j)
                            if (V[v[k]][zi] - V[v[i]][zi] < 1e-5 && V[v[j]][zi] - V[v[k + 1]][zi] < 1e-5 && a.joined(v[i], v[j])) any = true;
                        o.m["chain_links"] += 1;
                        if (!any) o.bad("unchained", fmtv("%s and %s follow each other on the same free stretch of a sweep line, yet there is no edge", pose(V[v[k]]).c_str(), pose(V[v[k + 1]]).c_str()));
                    }
                }
        } else {
            // the vertices generated for a line itself come one after another, before any bridging one; behind the
            // last line of a plane bridging ones may follow, so there only the first is certain
            auto own = [&](const std::pair<long, long>& key) {
                const auto& v = line[key];
                std::vector<size_t> r{v[0]};
                auto up = line.upper_bound(key);
                if (up == line.end() || up->first.first != key.first) return r;
                for (size_t k = 1; k < v.size() && v[k] == v[k - 1] + 1; ++k) r.push_back(v[k]);
                return r;
            };
            auto detour = [&](size_t i, size_t j) {
                if (a.joined(i, j)) return;
                for (int way = 0; way < 2; ++way) {
                    auto m = V[way ? j : i];
                    m[2] = V[way ? i : j][2];
                    double w = std::min(sl.segment(V[i], m), sl.segment(m, V[j]));
                    if (w <= 1e-3) continue;
                    o.m[way ? "second_detours" : "first_detours"] += 1;
                    for (size_t k = 0; k < V.size(); ++k) {
                        bool same = true;
                        for (int d = 0; d < 3 && same; ++d) same = std::fabs(V[k][d] - V[i][d]) < 1e-9 || std::fabs(V[k][d] - V[j][d]) < 1e-9;
                        if (same && a.joined(k, i) && a.joined(k, j)) return;
                    }
                    o.bad("unbridged", fmtv("%s and %s of neighbouring lines: moving by way of %s keeps %.6g clear, yet no vertex there joins the two", pose(V[i]).c_str(), pose(V[j]).c_str(), pose(m).c_str(), w));
                    return;
                }
                o.m["no_detour"] += 1;
            };
            for (auto& l : line) {
                for (auto d : {std::make_pair(0L, 1L), std::make_pair(1L, 0L)}) {
                    auto nx = line.find({l.first.first + d.first, l.first.second + d.second});
                    if (nx == line.end()) continue;
                    for (size_t i : own(l.first)) for (size_t j : own(nx->first)) {
                        need(i, j, d.first ? "neighbouring planes," : "neighbouring lines,");
                        detour(i, j);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C05
static Scn genC05(uint64_t seed) {
    PickOpt p{"C05"};
    p.corridor = 0.12;
    p.pr = 0.8;
    p.prBlocked = 0.7;
    p.blocked = 0.1;
    p.g2.minSlices = 2; p.g2.maxSlices = 8; p.g2.maxObs = 3;
    p.g3.minSlices = 2; p.g3.maxObs = 2;
    Scn s = genCase(seed, p);
    Rng r(seed * 29 + 1);
    if (s.str("planner") == "PR" && r.chance(0.6)) manySlices(s, r, 3, 14);
    return s;
}
static void runC05(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& V = c.g().vertex;
    const auto& B = c.base();
    auto& L = B.par.boundaryLimits;
    Ann a = annotate(c);
    if (a.dup) return;
    if (c.prob() && c.r.par.numLineY > B.par.numLineY) return;
    size_t np = B.par.numPoint, steps = c.d3 ? np : np - 1;
    auto ex = expected(c);
    bool all = a.oris.size() == c.r.par.numSlice;   // no slice came out empty
    if (c.prob() || ex.empty()) { if (!all) return; ex = a.oris; }
    std::vector<std::vector<size_t>> mine(ex.size());
    for (size_t i = 0; i < a.n0 && i < V.size(); ++i)
        for (size_t n = 0; n < ex.size(); ++n) if (oriDist(c, a.oris[size_t(a.ori[i])], ex[n]) < kOri && a.lvl[i] == 0) { mine[n].push_back(i); break; }
    if (!c.d3 && ex.size() == 1) return;
    auto hasEdge = [&](size_t n, size_t m) {
        std::set<size_t> A(mine[n].begin(), mine[n].end()), C(mine[m].begin(), mine[m].end());
        for (auto& e : c.g().edge) if ((A.count(e.first) && C.count(e.second)) || (A.count(e.second) && C.count(e.first))) return true;
        return false;
    };
    Rng pick(uint64_t(s.num("seed")) + 17);
    auto witness = [&](size_t n, size_t m, std::vector<double>& wa, std::vector<double>& wb) {
        if (mine[n].empty() || mine[m].empty()) return false;
        // enclosures of every body over the rotation
        std::vector<double> rad;
        std::vector<double> z(c.d3 ? 3 : 2, 0.0);
        auto qa = cfg(c, z, ex[n]), qb = cfg(c, z, ex[m]);
        if (c.d3) {
            std::vector<std::vector<orc::M3>> R(c.s3->bodies.size());
            for (size_t k = 0; k <= steps; ++k) { auto b = c.s3->at(between(c, qa, qb, double(k) / double(steps))); for (size_t i = 0; i < b.size(); ++i) R[i].push_back(b[i].R); }
            for (size_t i = 0; i < R.size(); ++i) { auto& b = c.s3->bodies[i]; auto Q = R[i]; Q.insert(Q.begin(), R[i].back()); double r1 = orc::enclosing<3>(orc::V3(b.a, b.b, b.c), R[i]), r2 = orc::enclosing<3>(orc::V3(b.a, b.b, b.c), Q);
                std::reverse(Q.begin(), Q.end()); r2 = std::max(r2, orc::enclosing<3>(orc::V3(b.a, b.b, b.c), Q)); rad.push_back(1.15 * std::max(r1, r2)); }
        } else {
            std::vector<std::vector<orc::M2>> R(c.s2->bodies.size());
            for (size_t k = 0; k <= steps; ++k) { auto b = c.s2->at(between(c, qa, qb, double(k) / double(steps))); for (size_t i = 0; i < b.size(); ++i) R[i].push_back(b[i].R()); }
            for (size_t i = 0; i < R.size(); ++i) { auto& b = c.s2->bodies[i]; auto Q = R[i]; Q.insert(Q.begin(), R[i].back()); double r1 = orc::enclosing<2>(orc::V2(b.a, b.b), R[i]), r2 = orc::enclosing<2>(orc::V2(b.a, b.b), Q);
                std::reverse(Q.begin(), Q.end()); r2 = std::max(r2, orc::enclosing<2>(orc::V2(b.a, b.b), Q)); rad.push_back(1.15 * std::max(r1, r2)); }
        }
        double gy = 1.9 * (L[3] - L[2]) / double(B.par.numLineY), gx = 1.9 * (L[1] - L[0]) / double(B.par.numLineX);
        int tries = 0;
        for (size_t i : mine[n])
            for (size_t j : mine[m]) {
                if (std::fabs(V[i][1] - V[j][1]) > gy || (c.d3 && std::fabs(V[i][0] - V[j][0]) > gx)) continue;
                if (++tries > (c.d3 ? 300 : 1500)) return false;
                bool ok = true;
                for (size_t k = 0; k <= steps && ok; ++k) {
                    auto v = between(c, V[i], V[j], double(k) / double(steps));
                    if (c.d3) {
                        auto b = c.s3->at(v);
                        for (size_t t = 0; t < b.size() && ok; ++t) { b[t].a = b[t].b = b[t].c = rad[t]; for (auto& ob : c.s3->obs) if (orc::separation(b[t], ob, 0.05) < 0.01) { ok = false; break; } }
                    } else {
                        auto b = c.s2->at(v);
                        for (size_t t = 0; t < b.size() && ok; ++t) { b[t].a = b[t].b = rad[t]; for (auto& ob : c.s2->obs) if (orc::separation(b[t], ob) < 0.01) { ok = false; break; } }
                    }
                }
                if (ok) { wa = V[i]; wb = V[j]; return true; }
            }
        return false;
    };
    auto pair = [&](size_t n, size_t m) {
        if (hasEdge(n, m)) { o.m["slice_pairs_joined"] += 1; return; }
        std::vector<double> wa, wb;
        o.m["slice_pairs_apart"] += 1;
        if (witness(n, m, wa, wb))
            o.bad("slices-apart", fmtv("no edge joins the neighbouring orientations %s and %s, yet %s - %s is clear of every obstacle by the full turning radius", pose(ex[n]).c_str(), pose(ex[m]).c_str(), pose(wa).c_str(), pose(wb).c_str()));
    };
    if (!c.d3) {
        for (size_t i = 0; i + 1 < ex.size(); ++i) pair(i, i + 1);
        if (ex.size() > 2) pair(ex.size() - 1, 0);
        return;
    }
    auto ang = [&](const std::vector<double>& x, const std::vector<double>& y) {
        double d = 0;
        for (size_t k = 0; k < 4; ++k) d += x[k] * y[k];
        return 2 * std::acos(std::min(1.0, std::fabs(d)));
    };
    for (size_t i = 1; i < ex.size(); ++i) {
        if (c.prob()) {
            // closest earlier slice by rotation (q and -q are the same) and joint angles
            std::vector<std::pair<double, size_t>> d;
            for (size_t j = 0; j < i; ++j) {
                double m = 0, p = 0, t = 0;
                for (size_t k = 0; k < ex[i].size(); ++k) { double x = ex[i][k] - ex[j][k], y = ex[i][k] + ex[j][k]; if (k < 4) { m += x * x; p += y * y; } else t += x * x; }
                d.push_back({std::sqrt(std::min(m, p) + t), j});
            }
            std::sort(d.begin(), d.end());
            if (i == 1 || d[1].first - d[0].first > 1e-6) {
                o.m["closest_slice_known"] += 1;
                if (i <= 40) pair(i, d[0].second);
                continue;
            }
            bool any = false, every = true;
            std::vector<double> wa, wb;
            for (size_t j = 0; j < i && !any; ++j) any = hasEdge(i, j);
            if (any) { o.m["slice_pairs_joined"] += 1; continue; }
            o.m["slice_pairs_apart"] += 1;
            if (i > 12) continue;
            for (size_t j = 0; j < i && every; ++j) every = witness(i, j, wa, wb);
            if (every) o.bad("slices-apart", fmtv("slice %zu is joined to no earlier slice, though each of them offers a clear connection such as %s - %s", i, pose(wa).c_str(), pose(wb).c_str()));
            continue;
        }
        std::vector<std::pair<double, size_t>> d;
        for (size_t j = 0; j < i; ++j) d.push_back({ang(ex[i], ex[j]), j});
        std::sort(d.begin(), d.end());
        if (d.size() > 1 && d[1].first - d[0].first < 1e-6) continue;
        pair(i, d[0].second);
    }
}
namespace hz {
Prop propR01{"R01", genR01, runR01}, propC01{"C01", genC01, runC01}, propC02{"C02", genC02, runC02}, propC03{"C03", genC03, runC03}, propC04{"C04", genC04, runC04}, propC05{"C05", genC05, runC05};
}
