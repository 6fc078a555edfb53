// S01 path and cost, S02 when a path is found, P01 the path handed out, B01 orientations of the sampling planner.
#include "graph.h"

#include <cmath>

using namespace hz;

static Scn genSearch(const char* id, uint64_t seed) {
    PickOpt p{id};
    p.corridor = 0.12;
    p.kc = 0.15; p.pr = 0.5; p.ab = 0.1; p.pa = 0.1;
    p.blocked = 0.25;
    p.randomQuats = true;
    p.g2.maxObs = 4; p.g2.maxLine = 10;
    p.g3.maxLine = 5;
    return genCase(seed, p);
}
static double ang(const std::vector<double>& a, size_t i, const std::vector<double>& b, size_t j) {
    Eigen::Quaterniond p(a[i], a[i + 1], a[i + 2], a[i + 3]), q(b[j], b[j + 1], b[j + 2], b[j + 3]);
    Eigen::Quaterniond d = p * q.conjugate();
    return 2 * std::atan2(d.vec().norm(), std::fabs(d.w()));
}
// Roadmap vertices a query may be attached to; sure is cleared where two candidates are too close to tell apart
struct Near { std::vector<size_t> v; bool sure = true; };
static Near nearSet(const Case& c, const Ann& a, const std::vector<double>& q) {
    Near n;
    const auto& V = c.g().vertex;
    const auto& par = c.r.par;
    auto& L = par.boundaryLimits;
    if (V.empty()) return n;
    // the slices, in the planner's order
    std::vector<std::vector<double>> sl;
    if (!c.d3) {
        size_t m = par.numSlice;
        for (size_t i = 0; i < m; ++i) sl.push_back({m > 1 ? -hrm::PI + 2 * hrm::PI * double(i) / double(m - 1) : -hrm::PI});
    } else if (!c.prob() && !c.s3->quats.empty())
        for (auto& x : c.s3->quats) sl.push_back({x.w(), x.x(), x.y(), x.z()});
    else {
        sl = a.oris;
        if (sl.size() != par.numSlice) { n.sure = false; return n; }   // orientations without a vertex cannot be seen
    }
    auto d = [&](const std::vector<double>& x) { return c.d3 ? ang(q, 3, x, 0) : std::fabs(q[2] - x[0]); };
    // closest orientation; in 2D among the orientations that have vertices
    std::vector<std::pair<double, size_t>> cand;
    for (size_t i = 0; i < sl.size(); ++i) {
        bool has = c.d3;
        for (size_t k = 0; k < a.oris.size() && !has; ++k) has = std::fabs(a.oris[k][0] - sl[i][0]) < 1e-6;
        if (has) cand.push_back({d(sl[i]), i});
    }
    if (cand.empty()) { n.sure = false; return n; }
    std::sort(cand.begin(), cand.end());
    auto between = [&](size_t i, size_t j) { return c.d3 ? ang(sl[i], 0, sl[j], 0) : std::fabs(sl[i][0] - sl[j][0]); };
    if (cand.size() > 1 && cand[1].first - cand[0].first < 1e-6 && between(cand[0].second, cand[1].second) > 1e-7) { n.sure = false; return n; }
    size_t best = cand[0].second;
    std::vector<size_t> list;
    for (size_t i = 0; i < sl.size() && list.size() < par.numSearchNeighbor; ++i) {
        double x = between(best, i);
        if (std::fabs(x - par.searchRadius) < 1e-6) { n.sure = false; return n; }
        if (x < par.searchRadius) list.push_back(i);
    }
    for (size_t i : list) {
        double m = 1e300;
        std::vector<size_t> at;
        for (size_t k = 0; k < V.size(); ++k) {
            double od = c.d3 ? ang(V[k], 3, sl[i], 0) : std::fabs(V[k][2] - sl[i][0]);
            if (od > 2e-6) continue;
            double x = orc::euclid(q, V[k]);
            if (x < m - 1e-9) { m = x; at = {k}; }
            else if (x < m + 1e-9) at.push_back(k);
        }
        if (at.empty()) continue;
        if (at.size() > 1) n.sure = false;
        for (size_t k : at) {
            double ry = par.searchRadius * (c.d3 ? L[3] - L[2] : L[1] - L[0]) / double(par.numLineY), rx = par.searchRadius * (L[1] - L[0]) / double(par.numLineX);
            double ey = std::fabs(q[1] - V[k][1]) - ry, ex = c.d3 ? std::fabs(q[0] - V[k][0]) - rx : -1;
            if (std::fabs(ey) < 1e-9 || std::fabs(ex) < 1e-9) n.sure = false;
            if (ey < 0 && ex < 0) n.v.push_back(k);
        }
    }
    return n;
}

// ---------------------------------------------------------------- S01
static Scn genS01(uint64_t seed) { return genSearch("S01", seed); }
static void runS01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& g = c.g();
    const auto& sp = c.r.res.solutionPath;
    if (!c.r.res.solved) {
        if (!sp.PathId.empty() || !sp.solvedPath.empty() || !sp.interpolatedPath.empty())
            o.bad("path-unsolved", fmtv("unsolved, yet a path of %zu vertices and %zu poses is handed out", sp.PathId.size(), sp.solvedPath.size()));
        return;
    }
    if (sp.PathId.empty()) { o.bad("path-empty", "solved without any path"); return; }
    std::map<std::pair<size_t, size_t>, double> w;
    for (size_t i = 0; i < g.edge.size() && i < g.weight.size(); ++i) {
        auto k = std::minmax(g.edge[i].first, g.edge[i].second);
        auto it = w.find(k);
        if (it == w.end() || g.weight[i] < it->second) w[k] = g.weight[i];
    }
    double len = 0;
    for (size_t i = 0; i < sp.PathId.size(); ++i) {
        if (sp.PathId[i] < 0 || size_t(sp.PathId[i]) >= g.vertex.size()) { o.bad("path-id", fmtv("path vertex %ld out of %zu", long(sp.PathId[i]), g.vertex.size())); return; }
        if (!i) continue;
        auto it = w.find(std::minmax(size_t(sp.PathId[i - 1]), size_t(sp.PathId[i])));
        if (it == w.end()) { o.bad("path-edge", fmtv("the path goes from vertex %ld to %ld, which no edge joins", long(sp.PathId[i - 1]), long(sp.PathId[i]))); return; }
        len += it->second;
    }
    if (!(std::fabs(len - sp.cost) <= 1e-9 * (1 + len))) o.bad("path-cost", fmtv("cost %.12g, but the edges of the path add up to %.12g", sp.cost, len));
    orc::Dijkstra dj(g.vertex.size(), g.edge, g.weight, size_t(sp.PathId.front()));
    double best = dj.dist[size_t(sp.PathId.back())];
    if (len > best + 1e-9 * (1 + best)) o.bad("path-longer", fmtv("the path of length %.12g between vertices %ld and %ld is not a shortest one: %.12g", len, long(sp.PathId.front()), long(sp.PathId.back()), best));
    std::set<long> seen(sp.PathId.begin(), sp.PathId.end());
    if (seen.size() != sp.PathId.size()) o.bad("path-repeats", "the path visits a vertex twice");
    o.m["paths"] += 1;
    o.m["path_vertices"] += double(sp.PathId.size());
}

// ---------------------------------------------------------------- S02
static Scn genS02(uint64_t seed) {
    if (seed % 4 == 3) return genCorridor("S02", seed);
    Scn s = genSearch("S02", seed);
    // the distance bounds decide something only when the radius is small or the grid lopsided
    Rng r(seed ^ 0x5302);
    auto p = s.nums("param");
    bool d3 = s.has("robot3");
    if (r.chance(0.6)) p[5] = r.uni(0.15, 0.9);
    if (d3 && r.chance(0.5)) { p[1] = r.range(2, 7); p[2] = p[1] > 4 ? r.range(2, 3) : r.range(5, 8); }
    s.setNum("param", p);
    return s;
}
static void runS02(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw || c.pl == "KC") return;
    const auto& g = c.g();
    Ann a = annotate(c);
    auto st = c.base().start, go = c.base().goal;
    Near ns = nearSet(c, a, st), ng = nearSet(c, a, go);
    const auto& id = c.r.res.solutionPath.PathId;
    auto in = [](const Near& n, long v) { return std::find(n.v.begin(), n.v.end(), size_t(v)) != n.v.end(); };
    if (!ns.sure || !ng.sure) { o.m["ties_skipped"] += 1; return; }
    orc::Dsu d(g.vertex.size());
    for (auto& e : g.edge) if (e.first < g.vertex.size() && e.second < g.vertex.size()) d.join(e.first, e.second);
    bool can = false;
    for (size_t x : ns.v) for (size_t y : ng.v) can |= d.find(x) == d.find(y);
    o.m[can ? "connected" : "not_connected"] += 1;
    if (can) {   // not by way of the first candidate of either side
        bool fs = false, fg = false, f1 = d.find(ns.v[0]) == d.find(ng.v[0]);
        for (size_t y : ng.v) fs |= d.find(ns.v[0]) == d.find(y);
        for (size_t x : ns.v) fg |= d.find(x) == d.find(ng.v[0]);
        o.m["needs_other_start"] += !fs;
        o.m["needs_other_goal"] += !fg;
        o.m["needs_other_pair"] += !f1;
    }
    if (can && !c.r.res.solved)
        o.bad("missed", fmtv("unsolved, though a vertex near the start (of %zu) is connected to one near the goal (of %zu)", ns.v.size(), ng.v.size()));
    if (!can && c.r.res.solved)
        o.bad("invented", fmtv("solved, though no vertex near the start (of %zu) is connected to one near the goal (of %zu)", ns.v.size(), ng.v.size()));
    if (c.r.res.solved && !id.empty()) {
        if (!in(ns, id.front())) o.bad("far-start", fmtv("the path starts at vertex %ld %s, which is not one of those near the start %s", long(id.front()), pose(g.vertex.at(size_t(id.front()))).c_str(), pose(st).c_str()));
        if (!in(ng, id.back())) o.bad("far-goal", fmtv("the path ends at vertex %ld %s, which is not one of those near the goal %s", long(id.back()), pose(g.vertex.at(size_t(id.back()))).c_str(), pose(go).c_str()));
    }
}

// ---------------------------------------------------------------- P01
static Scn genP01(uint64_t seed) {
    PickOpt p{"P01"};
    p.corridor = 0.1;
    p.kc = 0.15; p.h3 = 1.5; p.pr = 0.8; p.ab = 0.1; p.pa = 0.1;
    p.blocked = 0.1;
    p.randomQuats = true;
    p.g2.maxObs = 3; p.g2.maxLine = 10;
    p.g3.maxLine = 5;
    return genCase(seed, p);
}
static double poseDiff(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return 1e300;
    double d = 0;
    for (size_t i = 0; i < a.size(); ++i) if (!(a.size() >= 7 && i >= 3 && i < 7)) d = std::max(d, std::fabs(a[i] - b[i]));
    if (a.size() >= 7) {
        double p = 0, m = 0;
        for (size_t i = 3; i < 7; ++i) { p = std::max(p, std::fabs(a[i] - b[i])); m = std::max(m, std::fabs(a[i] + b[i])); }
        d = std::max(d, std::min(p, m));
    }
    return d == d ? d : 1e300;
}
static void runP01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& g = c.g();
    const auto& sp = c.r.res.solutionPath;
    const auto &st = c.base().start, &go = c.base().goal;
    if (c.r.start != st) o.bad("start-changed", "asked to plan from " + pose(st) + ", the planner reports " + pose(c.r.start));
    if (c.r.goal != go) o.bad("goal-changed", "asked to plan to " + pose(go) + ", the planner reports " + pose(c.r.goal));
    if (!c.r.res.solved) return;
    const auto& P = sp.solvedPath;
    if (P.size() != sp.PathId.size() + 2) { o.bad("path-size", fmtv("%zu poses for a path of %zu roadmap vertices", P.size(), sp.PathId.size())); return; }
    if (P.front() != st) o.bad("path-start", "the path starts at " + pose(P.front()) + " instead of " + pose(st));
    if (P.back() != go) o.bad("path-goal", "the path ends at " + pose(P.back()) + " instead of " + pose(go));
    for (size_t i = 0; i < sp.PathId.size(); ++i)
        if (size_t(sp.PathId[i]) < g.vertex.size() && P[i + 1] != g.vertex[size_t(sp.PathId[i])]) { o.bad("path-pose", fmtv("pose %zu of the path is not the roadmap vertex %ld", i + 1, long(sp.PathId[i]))); break; }
    const auto& I = sp.interpolatedPath;
    o.m["paths"] += 1;
    o.m["poses"] += double(I.size());
    if (!c.d3) {
        if (I != P) o.bad("interp-2d", fmtv("the interpolated path has %zu poses and differs from the path of %zu", I.size(), P.size()));
        return;
    }
    double len = 0;
    for (size_t i = 0; i + 1 < P.size(); ++i) len += orc::euclid(P[i], P[i + 1]);
    double step = len / (double(c.base().par.numPoint) * double(P.size() - 1));
    size_t at = 0;
    for (size_t i = 0; i + 1 < P.size(); ++i) {
        double d = orc::euclid(P[i], P[i + 1]), r = step > 0 ? d / step : 0;
        size_t n = size_t(r), used = 0;
        std::vector<size_t> tryN = {n};
        if (r - double(n) < 1e-6 && n) tryN.push_back(n - 1);
        if (double(n) + 1 - r < 1e-6) tryN.push_back(n + 1);
        double err = 1e300;
        for (size_t m : tryN) {
            size_t k = m ? m + 1 : 2;
            if (at + k > I.size()) continue;
            double e = 0;
            for (size_t j = 0; j < k; ++j) e = std::max(e, poseDiff(I[at + j], orc::slerpPose(P[i], P[i + 1], double(j) / double(k - 1))));
            if (e < err) { err = e; used = k; }
        }
        if (err > 1e-6) {
            o.bad("interp", fmtv("leg %zu of the path, %s to %s, is not followed evenly by the interpolated path from pose %zu on (%zu steps expected, error %.3g)", i, pose(P[i]).c_str(), pose(P[i + 1]).c_str(), at, n, err));
            return;
        }
        at += used;
    }
    if (at != I.size()) o.bad("interp", fmtv("%zu poses beyond the end of the path", I.size() - at));
}

// ---------------------------------------------------------------- B01
static Scn genB01(uint64_t seed) {
    PickOpt p{"B01"};
    p.h2 = 0; p.h3 = 0; p.pr = 1; p.pa = 0.2;
    p.blocked = 0.7;
    p.g3.maxLine = 5; p.g3.maxObs = 2; p.g3.maxSlices = 10; p.g3.rounds = 2;
    Scn s = genCase(seed, p);
    Rng r(seed * 3 + 1);
    if (r.chance(0.25)) s.setNum("randedge", {r.uni(0.01, 0.3)});
    return s;
}
static void runB01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    if (c.r.threw) return;
    const auto& V = c.g().vertex;
    Ann a = annotate(c);
    const auto& B = c.base();
    size_t nj = c.s3->joints.size();
    for (auto& v : V)
        if (v.size() != 7 + nj) { o.bad("arity", fmtv("a vertex has %zu coordinates, the robot %zu", v.size(), 7 + nj)); return; }
    if (V.empty()) return;
    // growth of the roadmap: every slice comes in one go, in order
    std::vector<double> so(B.start.begin() + 3, B.start.end()), go(B.goal.begin() + 3, B.goal.end());
    size_t n = c.r.par.numSlice;
    bool all = a.oris.size() == n;
    bool refined = c.r.par.numLineY > B.par.numLineY;
    auto isS = [&](size_t i) { return oriDist(c, a.oris[i], so) < 1e-6; };
    auto isG = [&](size_t i) { return oriDist(c, a.oris[i], go) < 1e-6; };
    if (all) {
        if (!isS(0)) o.bad("first-slice", "the first slice is at " + pose(a.oris[0]) + " instead of the start " + pose(so));
        if (n > 1 && !isG(1)) o.bad("second-slice", "the second slice is at " + pose(a.oris[1]) + " instead of the goal " + pose(go));
    }
    if (a.oris.size() > n) o.bad("too-many", fmtv("%zu orientations after %zu iterations", a.oris.size(), n));
    for (size_t i = 0; i < a.oris.size(); ++i) {
        double nn = 0;
        for (size_t k = 0; k < 4; ++k) nn += a.oris[i][k] * a.oris[i][k];
        if (std::fabs(nn - 1) > 1e-6) o.bad("unit", "orientation " + pose(a.oris[i]) + " is not a unit quaternion");
        if (isS(i) || isG(i)) continue;
        for (size_t k = 4; k < a.oris[i].size(); ++k)
            if (std::fabs(a.oris[i][k]) > M_PI / 2 + 1e-9) o.bad("joint-limit", "joint angle beyond a quarter turn in " + pose(a.oris[i]));
    }
    // sampled orientations come back only when the roadmap is refined
    if (!refined) {
        int cur = -1;
        std::set<int> done;
        for (size_t i = 0; i < V.size(); ++i) {
            if (a.ori[i] == cur) continue;
            if (done.count(a.ori[i])) { o.bad("repeat", fmtv("vertex %zu returns to the orientation %s of an earlier slice", i, pose(a.oris[size_t(a.ori[i])]).c_str())); break; }
            cur = a.ori[i];
            done.insert(cur);
        }
        // a search follows each slice: between two moments of growth the orientation changes
        for (size_t i = 0; i + 1 < c.r.ticks.size(); ++i) {
            size_t x = c.r.ticks[i].nv, y = c.r.ticks[i + 1].nv;
            if (y > x && y <= V.size() && std::set<int>(a.ori.begin() + long(x), a.ori.begin() + long(y)).size() > 1) {
                o.bad("two-slices", fmtv("vertices %zu-%zu were added in one iteration at more than one orientation", x, y - 1));
                break;
            }
        }
    }
    o.m["slices"] += double(n);
    o.m["all_visible"] += all;
}
namespace hz {
Prop propS01{"S01", genS01, runS01}, propS02{"S02", genS02, runS02}, propP01{"P01", genP01, runP01}, propB01{"B01", genB01, runB01};
}
