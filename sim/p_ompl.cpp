// O01 answers of the sampling-based planners, O02 open queries are solved, O03 queries do not mix, O04 time.
#include "gen.h"

#include <cmath>

#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"

using namespace hz;
namespace oi = hrm::planners::ompl_interface;

namespace {
struct ORec {
    bool threw = false, solved = false;
    std::string what;
    double time = 0;
    size_t len = 0, nv = 0, ne = 0;
    std::vector<std::vector<double>> path, interp, vert;
    std::vector<std::pair<hrm::Index, hrm::Index>> edge;
    int64_t t0 = 0, t1 = 0;
    long reads = 0, lateReads = 0;
};
struct OCase {
    Case c;
    Input in;
    std::vector<double> lo, hi;
    int planner = 0, sampler = 0;
    std::unique_ptr<oi::OMPL2D> p2;
    std::unique_ptr<oi::OMPL3D> p3;
    std::vector<std::vector<double>> tol;
    explicit OCase(const Scn& s) : c(load(s)), in(c) {
        auto& L = c.base().par.boundaryLimits;
        for (size_t i = 0; i < L.size(); i += 2) { lo.push_back(L[i]); hi.push_back(L[i + 1]); }
        auto o = s.nums("ompl");
        planner = int(o.at(0));
        sampler = int(o.at(1));
    }
    void make() {
        std::vector<double> l = lo, h = hi;   // the caller's own, gone when planning starts
        if (c.pl == "O2") p2 = std::make_unique<oi::OMPL2D>(l, h, *in.r2, in.a2, in.o2);
        else if (c.pl == "O3") p3 = std::make_unique<oi::OMPL3D>(l, h, *in.r3, in.a3, in.o3, std::vector<hrm::Mesh>{});
        else {
            sim::vfs::put(c.s3->urdfPath, c.s3->urdf());
            p3 = std::make_unique<oi::OMPL3DArticulated>(l, h, *in.r3, c.s3->urdfPath, in.a3, in.o3, std::vector<hrm::Mesh>{});
        }
        if (p2) p2->setup(hrm::Index(planner), hrm::Index(sampler)); else p3->setup(hrm::Index(planner), hrm::Index(sampler));
        for (auto& x : l) x = 1e9;
        for (auto& x : h) x = -1e9;
    }
    template <class P> ORec ask(P& p, const std::vector<double>& a, const std::vector<double>& b, double tl) {
        ORec r;
        auto saved = sim::S.onClock;
        startClock();
        r.t0 = sim::S.mono;
        long n0 = sim::S.readN;
        sim::S.onClock = [&r, tl]() { if (double(sim::S.mono - r.t0) * 1e-9 > std::max(tl, 0.0) * (1 + 1e-9) + 2e-6) ++r.lateReads; };
        try { p.plan(a, b, tl); }
        catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
        r.t1 = sim::S.mono;
        r.reads = sim::S.readN - n0;
        sim::S.onClock = saved;
        sim::Quiet q;
        r.solved = p.isSolved(); r.time = p.getPlanningTime(); r.len = p.getPathLength(); r.nv = p.getNumVertex(); r.ne = p.getNumEdges();
        r.path = p.getSolutionPath(); r.interp = p.getInterpolatedSolutionPath(); r.vert = p.getVertices(); r.edge = p.getEdges();
        return r;
    }
    ORec ask(const std::vector<double>& a, const std::vector<double>& b, double tl) { return p2 ? ask(*p2, a, b, tl) : ask(*p3, a, b, tl); }
    // what the planner makes of a query: inside the bounds, angles normalised
    std::vector<double> norm(std::vector<double> q) const {
        size_t n = c.d3 ? 3 : 2;
        for (size_t i = 0; i < n; ++i) q[i] = std::min(hi[i], std::max(lo[i], q[i]));
        if (!c.d3) q[2] = std::remainder(q[2], 2 * M_PI);
        else {
            double s = 0;
            for (size_t i = 3; i < 7; ++i) s += q[i] * q[i];
            for (size_t i = 3; i < 7; ++i) q[i] /= std::sqrt(s);
            for (size_t i = 7; i < q.size(); ++i) q[i] = std::min(M_PI / 2, std::max(-M_PI / 2, q[i]));
        }
        return q;
    }
    double apart(const std::vector<double>& a, const std::vector<double>& b) const {
        if (a.size() != b.size()) return 1e300;
        double d = 0, p = 0, m = 0;
        for (size_t i = 0; i < a.size(); ++i) {
            if (c.d3 && i >= 3 && i < 7) { p = std::max(p, std::fabs(a[i] - b[i])); m = std::max(m, std::fabs(a[i] + b[i])); }
            else if (!c.d3 && i == 2) d = std::max(d, std::fabs(std::remainder(a[i] - b[i], 2 * M_PI)));
            else d = std::max(d, std::fabs(a[i] - b[i]));
        }
        d = std::max(d, std::min(p, m));
        return d == d ? d : 1e300;
    }
    std::string outside(const std::vector<double>& q) const {
        size_t n = c.d3 ? 3 : 2;
        if (q.size() != n + (c.d3 ? 4 : 1) + (c.pl == "OA" ? c.s3->joints.size() : 0)) return fmtv("has %zu coordinates", q.size());
        for (size_t i = 0; i < n; ++i) if (!(q[i] >= lo[i] - 1e-9 && q[i] <= hi[i] + 1e-9)) return fmtv("leaves [%g, %g] in coordinate %zu", lo[i], hi[i], i);
        for (size_t i = n + (c.d3 ? 4 : 1); i < q.size(); ++i) if (!(std::fabs(q[i]) <= M_PI / 2 + 1e-6)) return "leaves the joint range";
        if (c.d3) {
            double s = 0;
            for (size_t i = 3; i < 7; ++i) s += q[i] * q[i];
            if (!(std::fabs(s - 1) < 1e-6)) return "has no unit rotation";
        }
        return "";
    }
    // the collision checker works on inscribed meshes of the obstacles that are no ellipses
    void tolerances() {
        size_t nb = c.d3 ? c.s3->bodies.size() : c.s2->bodies.size(), no = c.d3 ? c.s3->obs.size() : c.s2->obs.size();
        tol.assign(nb, std::vector<double>(no, 1e-3));
        for (size_t j = 0; j < no; ++j) {
            double t = 0;
            if (c.d3) {
                auto& O = c.s3->obs[j];
                if (std::fabs(O.e1 - 1) > 1e-6 || std::fabs(O.e2 - 1) > 1e-6) { orc::Shape3 pt; pt.a = pt.b = pt.c = 1e-9; t = 1.2 * orc::sagitta(O, pt); }
            } else {
                auto& O = c.s2->obs[j];
                if (std::fabs(O.e - 1) > 1e-6) {   // outline used: a rounded rectangle of ten points, ten degrees off the equator
                    std::vector<orc::V2> P;
                    double ring = std::pow(std::cos(M_PI / 18), O.e);
                    for (int k = 0; k < 9; ++k) {
                        double w = -M_PI + 2 * M_PI * k / 9;
                        P.push_back(ring * orc::V2(O.a * orc::spow(std::cos(w), 0.1), O.b * orc::spow(std::sin(w), 0.1)));
                    }
                    std::sort(P.begin(), P.end(), [](auto& x, auto& y) { return std::atan2(x.y(), x.x()) < std::atan2(y.y(), y.x()); });
                    for (int k = 0; k < 720; ++k) {
                        double w = M_PI * k / 360, best = 0;
                        orc::V2 x(O.a * orc::spow(std::cos(w), O.e), O.b * orc::spow(std::sin(w), O.e));
                        for (size_t i = 0; i < P.size(); ++i) {
                            orc::V2 d = P[(i + 1) % P.size()] - P[i];
                            if (d.norm() < 1e-12) continue;
                            best = std::max(best, orc::V2(d.y(), -d.x()).normalized().dot(x - P[i]));
                        }
                        t = std::max(t, best);
                    }
                    t *= 1.1;
                }
            }
            for (size_t i = 0; i < nb; ++i) tol[i][j] += t;
        }
    }
    // separation, minus what the meshes may hide
    double clear(const std::vector<double>& q) const {
        double w = 1e300;
        if (c.d3) {
            auto b = c.s3->at(q);
            for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < c.s3->obs.size(); ++j) w = std::min(w, orc::separation(b[i], c.s3->obs[j], 0.0) + tol[i][j]);
        } else {
            auto b = c.s2->at(q);
            for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < c.s2->obs.size(); ++j) w = std::min(w, orc::separation(b[i], c.s2->obs[j]) + tol[i][j]);
        }
        return w;
    }
    double lever() const {
        double l = 0;
        if (c.d3) { for (auto& b : c.s3->bodies) l += b.p.norm() + std::max(b.a, std::max(b.b, b.c)); for (auto& j : c.s3->joints) l += j.xyz.norm(); }
        else for (auto& b : c.s2->bodies) l = std::max(l, b.c.norm() + std::max(b.a, b.b));
        return l;
    }
    // how far a motion that was found free may dip into an obstacle between two checked states
    double dip() const {
        double d = 0;
        for (size_t i = 0; i < lo.size(); ++i) d += (hi[i] - lo[i]) * (hi[i] - lo[i]);
        double j = c.pl == "OA" ? 0.01 * M_PI * std::sqrt(double(c.s3->joints.size())) * std::sqrt(double(c.s3->joints.size())) : 0;
        return 0.5 * (0.01 * std::sqrt(d) + (0.01 * M_PI + j) * lever()) * 1.05 + 1e-6;
    }
    std::vector<double> mid(const std::vector<double>& a, const std::vector<double>& b, double t) const {
        if (c.d3) return orc::slerpPose(a, b, t);
        std::vector<double> v = {(1 - t) * a[0] + t * b[0], (1 - t) * a[1] + t * b[1], a[2] + t * std::remainder(b[2] - a[2], 2 * M_PI)};
        return v;
    }
};
std::array<double, 4> rndQuat(Rng& r) {
    double n = 0;
    std::array<double, 4> q;
    do {
        n = 0;
        for (auto& x : q) { x = r.uni(-1, 1); n += x * x; }
    } while (n > 1 || n < 1e-3);
    for (auto& x : q) x /= std::sqrt(n);
    return q;
}
struct OGen { double blocked = 0.15; bool open = false; double loWork = 3e4, hiWork = 6e5; double art = 0.12; };
}  // namespace

static Scn genO(const char* id, uint64_t seed, const OGen& g = {}) {
    Rng r(seed * 41 + 3);
    Scn s;
    s.set("prop", {id});
    s.setNum("seed", {double(seed)});
    FaultOpt fo;
    fo.jumps = false;
    genFaults(s, r, fo);
    int k = r.chance(g.art) ? 2 : r.below(2);
    s.set("planner", {k == 0 ? "O2" : k == 1 ? "O3" : "OA"});
    bool blocked = r.chance(g.blocked);
    Scn sc;
    if (k == 0) {
        Gen2 q;
        q.blocked = blocked; q.maxObs = g.open ? 2 : 5; q.minObs = g.open ? 0 : 1; q.arenas = 1;
        genScene2(sc, r, q);
    } else {
        Gen3 q;
        q.blocked = blocked; q.quats = false; q.joints = k == 2; q.nJoints = r.range(1, 2); q.maxObs = g.open ? 1 : 3; q.minObs = g.open ? 0 : 1;
        genScene3(sc, r, q);
    }
    for (auto& l : sc.lines) if (l.first != "clock" && l.first != "tlim" && l.first != "stall") s.add(l.first, l.second);
    double ac = r.logUni(50, 2e4), work = r.logUni(g.loWork, g.hiWork);
    s.addNum("clock", {10, 1000, ac, 0});
    s.addNum("tlim", {ac * 1e-9 * work});
    s.addNum("ompl", {double(r.below(k == 2 ? 4 : 7)), double(r.below(5))});
    s.setNum("schedseed", {double(r.u64() % 1000000007)});
    s.setNum("preempt", {r.logUni(1e-4, 0.2)});
    s.setNum("preemptalloc", {1});
    s.setNum("clocklimit", {3e6});
    return s;
}
static void count(const OCase& k, const ORec& r, Out& o) {
    o.m["planner_" + k.c.pl] += 1;
    o.m["ompl_planner_" + std::to_string(k.planner)] += 1;
    o.m["solved"] += r.solved;
    o.m["solved_" + k.c.pl] += r.solved;
    o.m["vertices"] += double(r.vert.size());
    o.nontrivial = r.vert.size() > 1;
    for (auto& v : r.vert) for (double d : v) o.mixd(d);
    for (auto& v : r.path) for (double d : v) o.mixd(d);
    o.mix(sim::sched::order());
}
// Everything an answer has to satisfy on its own.
static void checkAnswer(const OCase& k, const ORec& r, const std::vector<double>& st, const std::vector<double>& go, Out& o, const std::string& tag = "") {
    if (r.threw) { o.bad(tag + "threw", "planning threw: " + r.what); return; }
    if (r.vert.size() != r.nv) o.bad(tag + "vertex-count", fmtv("%zu vertices listed, %zu reported", r.vert.size(), r.nv));
    if (r.edge.size() != r.ne) o.bad(tag + "edge-count", fmtv("%zu edges listed, %zu reported", r.edge.size(), r.ne));
    for (auto& e : r.edge)
        if (e.first >= r.vert.size() || e.second >= r.vert.size()) { o.bad(tag + "edge-range", fmtv("edge (%zu, %zu) among %zu vertices", size_t(e.first), size_t(e.second), r.vert.size())); break; }
    Rng pick(7);
    size_t nchk = 0;
    for (auto& v : r.vert) {
        auto w = k.outside(v);
        if (!w.empty()) { o.bad(tag + "vertex-bounds", "graph vertex " + pose(v) + " " + w); break; }
        if (k.planner == 1 || (r.vert.size() > 60 && !pick.chance(60.0 / double(r.vert.size())))) continue;
        ++nchk;
        double d = k.clear(v);
        if (d < 0) { o.bad(tag + "vertex-collision", fmtv("graph vertex %s is %.4g deep in an obstacle", pose(v).c_str(), -d)); break; }
    }
    o.m["vertices_checked"] += double(nchk);
    if (!r.solved) {
        if (!r.path.empty() || !r.interp.empty() || r.len) o.bad(tag + "path-unsolved", fmtv("not solved, yet a path of %zu states and length %zu is handed out", r.path.size(), r.len));
        return;
    }
    if (r.path.size() < 2) { o.bad(tag + "path-empty", fmtv("solved with a path of %zu states", r.path.size())); return; }
    auto a = k.norm(st), b = k.norm(go);
    for (auto* p : {&r.path, &r.interp}) {
        if (p->empty()) { if (p == &r.interp && k.c.pl != "O2") o.bad(tag + "interp-empty", "solved without an interpolated path"); continue; }
        if (k.apart(p->front(), a) > 1e-5) o.bad(tag + "path-start", "the path starts at " + pose(p->front()) + ", asked for " + pose(a));
        if (k.apart(p->back(), b) > 1e-5) o.bad(tag + "path-goal", "the path ends at " + pose(p->back()) + ", asked for " + pose(b));
        for (auto& v : *p) { auto w = k.outside(v); if (!w.empty()) { o.bad(tag + "path-bounds", "path state " + pose(v) + " " + w); break; } }
    }
    if (k.c.d3 ? r.len != r.path.size() : (r.len < 2 || r.len > r.path.size())) o.bad(tag + "path-length", fmtv("length %zu reported for a path of %zu states", r.len, r.path.size()));
    double dip = k.dip(), least = 1e300;
    auto& P = r.path;
    // the path itself, and the finer one, which follows it
    for (auto* p : {&r.path, &r.interp}) {
        double len = 0;
        for (size_t i = 0; i + 1 < p->size(); ++i) len += orc::euclid((*p)[i], (*p)[i + 1]);
        for (size_t i = 0; i + 1 < p->size(); ++i) {
            double l = orc::euclid((*p)[i], (*p)[i + 1]);
            int n = 1 + int(60 * l / (len + 1e-9));
            for (int j = 0; j < n; ++j) {
                auto v = k.mid((*p)[i], (*p)[i + 1], double(j) / n);
                double d = k.clear(v) + (j == 0 && p == &r.path && k.c.d3 ? 0 : dip);
                least = std::min(least, d);
                if (d < 0) { o.bad(tag + "path-collision", fmtv("on leg %zu of the path, at %s, the robot is %.4g deep in an obstacle", i, pose(v).c_str(), -d)); return; }
            }
        }
    }
    double d = k.clear(P.back());
    if (d < 0) o.bad(tag + "path-collision", fmtv("at the end of the path, %s, the robot is %.4g deep in an obstacle", pose(P.back()).c_str(), -d));
    o.m["paths"] += 1;
}

// ---------------------------------------------------------------- O01
// Start and goal at the rim of the space: faces and corners of the box, joints at their stops.
static void rim(Scn& s, Rng& r) {
    auto b = s.nums("bounds");
    size_t n = s.str("planner") == "O2" ? 2 : 3;
    for (const char* k : {"start", "goal"}) {
        auto v = s.nums(k);
        for (size_t i = 0; i < n; ++i) {
            if (!r.chance(0.6)) continue;
            double in = r.chance(0.2) ? 0 : r.uni(0, 0.04) * (b[2 * i + 1] - b[2 * i]);
            v[i] = r.chance(0.5) ? b[2 * i] + in : b[2 * i + 1] - in;
        }
        for (size_t i = 7; i < v.size(); ++i) if (r.chance(0.6)) v[i] = (r.chance(0.5) ? -1 : 1) * r.uni(1.2, 1.57);
        s.setNum(k, v);
    }
}
static Scn genO01(uint64_t seed) {
    Scn s = genO("O01", seed);
    Rng r(seed * 3 + 17);
    if (r.chance(0.1)) rim(s, r);
    else if (r.chance(0.15)) {   // start or goal anywhere, perhaps in an obstacle or outside
        auto v = s.nums("goal");
        auto b = s.nums("bounds");
        v[0] = r.uni(b[0] * 1.2, b[1] * 1.2);
        v[1] = r.uni(b[2] * 1.2, b[3] * 1.2);
        s.setNum(r.chance(0.5) ? "goal" : "start", v);
    } else if (r.chance(0.3)) {   // start or goal where only a link of the robot, or only its rim, is in an obstacle
        OCase k(s);
        k.tolerances();
        auto v = s.nums("goal"), at = v;
        auto b = s.nums("bounds");
        bool link = r.chance(0.7), art = k.c.pl == "OA";
        double best = 1e300;
        for (int n = 0; n < 60; ++n) {
            auto q = v;
            q[0] = r.uni(b[0], b[1]); q[1] = r.uni(b[2], b[3]);
            if (k.c.d3) { q[2] = r.uni(b[4], b[5]); auto u = rndQuat(r); std::copy(u.begin(), u.end(), q.begin() + 3); } else q[2] = r.uni(-3.1, 3.1);
            if (art) for (size_t i = 7; i < q.size(); ++i) q[i] = r.uni(-1.2, 1.2);
            double d = k.clear(q);
            if (d >= -1e-3) continue;
            double base = 1;
            if (link) {
                base = 1e300;
                if (k.c.d3) { auto B = k.c.s3->at(q); for (auto& ob : k.c.s3->obs) base = std::min(base, orc::separation(B[0], ob, 0.0)); }
                else { auto B = k.c.s2->at(q); for (auto& ob : k.c.s2->obs) base = std::min(base, orc::separation(B[0], ob)); }
            }
            double score = -d + (base > 0.05 ? 0 : 100);
            if (score < best) { best = score; at = q; }
        }
        if (best < 50) s.setNum(r.chance(0.5) ? "goal" : "start", at);
    } else if (r.chance(0.12)) {   // start and goal both inside one obstacle, or nearly
        bool d3 = s.str("planner") != "O2";
        auto all = s.all(d3 ? "obs3" : "obs2");
        if (!all.empty()) {
            size_t pick = size_t(r.below(int(all.size())));
            size_t c0 = d3 ? 5 : 3;
            double off[3] = {0.3, 1.2, 1.2};
            if (s.str("planner") != "OA" && r.chance(0.6)) {   // an obstacle that is a mesh, swallowing a robot of one body
                auto& m = all[pick];
                for (size_t j = 0; j < c0 - (d3 ? 2u : 1u); ++j) m[j] = r.uni(6, 12);
                int half = r.chance(0.3) ? r.range(1, 2) : 0;
                for (size_t j = c0 - (d3 ? 2u : 1u); j < c0; ++j) m[j] = half == int(c0 - j) && d3 ? 1 : r.uni(0.4, 1.5);
                auto rob = s.nums(d3 ? "robot3" : "robot2");
                for (size_t j = 0; j < (d3 ? 3u : 2u); ++j) rob[j] = std::min(rob[j], r.logUni(0.15, 2.5));
                std::vector<std::pair<std::string, std::vector<std::string>>> keep;
                for (auto& l : s.lines) if (l.first != "obs2" && l.first != "obs3" && (l.first != "link2" && l.first != "link3")) keep.push_back(l);
                s.lines = keep;
                s.setNum(d3 ? "robot3" : "robot2", rob);
                for (auto& a : all) s.addNum(d3 ? "obs3" : "obs2", a);
            }
            auto ob = all[pick];
            if (ob[0] > 6 && ob[1] > 6 && r.chance(0.7)) off[0] = off[1] = off[2] = 3.2;
            for (const char* k : {"start", "goal"}) {
                auto v = s.nums(k);
                for (size_t j = 0; j < (d3 ? 3u : 2u); ++j) v[j] = ob[c0 + j] + r.uni(-1, 1) * off[j];
                s.setNum(k, v);
            }
        }
    }
    return s;
}
static void runO01(const Scn& s, Out& o) {
    OCase k(s);
    k.make();
    auto &st = k.c.base().start, &go = k.c.base().goal;
    ORec r = k.ask(st, go, k.c.base().tlim);
    sim::Quiet q;
    k.tolerances();
    count(k, r, o);
    checkAnswer(k, r, st, go, o);
    if (r.solved)
        for (auto* e : {&st, &go}) {
            double d = k.clear(k.norm(*e));
            if (d < 0) o.bad("invalid-query", fmtv("solved although %s is %.4g deep in an obstacle", pose(*e).c_str(), -d));
        }
}

// ---------------------------------------------------------------- O02
// A short motion that passes an obstacle closely.
static void snug(Scn& s, Rng& r) {
    OCase k(s);
    if (k.c.s2) for (auto& b : k.c.s2->obs) if (std::fabs(b.e - 1) > 1e-6) b.e = 0.1;
    k.tol.assign(k.c.d3 ? k.c.s3->bodies.size() : k.c.s2->bodies.size(), std::vector<double>(k.c.d3 ? k.c.s3->obs.size() : k.c.s2->obs.size(), 0.0));
    size_t n = k.c.d3 ? k.c.s3->obs.size() : k.c.s2->obs.size(), d = k.lo.size();
    if (!n) return;
    size_t j = size_t(r.below(int(n)));
    auto v = s.nums("start");
    if (k.c.d3) { auto u = rndQuat(r); std::copy(u.begin(), u.end(), v.begin() + 3); } else v[2] = r.uni(-3.1, 3.1);
    std::vector<double> dir(d), c(d);
    double len = 0;
    for (size_t i = 0; i < d; ++i) { dir[i] = r.uni(-1, 1); len += dir[i] * dir[i]; c[i] = k.c.d3 ? k.c.s3->obs[j].p[long(i)] : k.c.s2->obs[j].c[long(i)]; }
    len = std::sqrt(len) + 1e-9;
    double want = r.uni(0.4, 0.7), at = 0;
    for (double x = 0; x < 60; x += 0.15) {
        for (size_t i = 0; i < d; ++i) v[i] = c[i] + dir[i] / len * x;
        if (k.clear(v) > want) { at = x; break; }
    }
    if (at <= 0) return;
    for (size_t i = 0; i < d; ++i) if (v[i] < k.lo[i] || v[i] > k.hi[i]) return;
    s.setNum("start", v);
    double go = r.uni(0, 6);
    for (size_t i = 0; i < d; ++i) v[i] = std::min(k.hi[i], std::max(k.lo[i], v[i] + dir[i] / len * go));
    s.setNum("goal", v);
}
static Scn genO02(uint64_t seed) {
    OGen g;
    g.blocked = 0; g.open = true; g.art = 0.2;
    Scn s = genO("O02", seed, g);
    Rng r(seed * 5 + 1);
    auto ac = s.nums("clock");
    s.setNum("tlim", {ac[2] * 1e-9 * 2e7});
    auto o = s.nums("ompl");
    s.setNum("ompl", {o[0], 0});
    if (r.chance(0.2)) s.setNum("goal", s.nums("start"));
    else if (r.chance(0.3)) rim(s, r);
    else if (r.chance(0.5)) snug(s, r);
    return s;
}
static void runO02(const Scn& s, Out& o) {
    OCase k(s);
    auto &st = k.c.base().start, &go = k.c.base().goal;
    {   // ample room along the straight motion, and most of the space is free
        sim::Quiet q;
        OCase w(s);
        if (w.c.s2) for (auto& b : w.c.s2->obs) if (std::fabs(b.e - 1) > 1e-6) b.e = 0.1;
        w.tol.assign(w.c.d3 ? w.c.s3->bodies.size() : w.c.s2->bodies.size(), std::vector<double>(w.c.d3 ? w.c.s3->obs.size() : w.c.s2->obs.size(), 0.0));
        auto a = k.norm(st), b = k.norm(go);
        double least = 1e300;
        for (int i = 0; i <= 80; ++i) least = std::min(least, w.clear(k.mid(a, b, i / 80.0)));
        Rng r(5);
        int ok = 0;
        for (int i = 0; i < 100; ++i) {
            auto v = a;
            for (size_t j = 0; j < k.lo.size(); ++j) v[j] = r.uni(k.lo[j], k.hi[j]);
            if (k.c.d3) { auto e = rndQuat(r); v[3] = e[0]; v[4] = e[1]; v[5] = e[2]; v[6] = e[3]; } else v[2] = r.uni(-M_PI, M_PI);
            ok += w.clear(v) > 0.05;
        }
        double step = 0;
        for (size_t i = 0; i < k.lo.size(); ++i) step += (b[i] - a[i]) * (b[i] - a[i]);
        double turn = k.c.d3 ? M_PI : std::fabs(std::remainder(b[2] - a[2], 2 * M_PI));
        if (k.c.d3) turn = 2 * std::acos(std::min(1.0, std::fabs(a[3] * b[3] + a[4] * b[4] + a[5] * b[5] + a[6] * b[6])));
        for (size_t i = 7; i < a.size(); ++i) turn += std::fabs(a[i] - b[i]);
        step = std::sqrt(step) / 80 + turn / 80 * k.lever();
        o.m["open"] = least > 0.3 + 0.5 * step && ok >= 60;
    }
    k.make();
    // the full budget only where an answer is due
    ORec r = k.ask(st, go, k.c.base().tlim * (o.m["open"] > 0 ? 1 : 0.01));
    sim::Quiet q;
    count(k, r, o);
    o.nontrivial = o.m["open"] > 0;
    if (r.threw) { o.bad("threw", "planning threw: " + r.what); return; }
    o.m["open_solved"] = o.m["open"] > 0 && r.solved;
    if (o.m["open"] > 0 && r.solved && !r.path.empty()) {   // an answer to this query
        if (k.apart(r.path.front(), k.norm(st)) > 1e-5) o.bad("other-start", "the path starts at " + pose(r.path.front()) + ", asked for " + pose(k.norm(st)));
        if (k.apart(r.path.back(), k.norm(go)) > 1e-5) o.bad("other-goal", "the path ends at " + pose(r.path.back()) + ", asked for " + pose(k.norm(go)));
    }
    if (o.m["open"] > 0 && !r.solved) o.bad("unsolved", fmtv("planner %d: no path although the straight motion is clear of every obstacle and a budget of %.3g s was given (%.3g s used, %zu vertices)", k.planner, k.c.base().tlim, double(r.t1 - r.t0) * 1e-9, r.nv));
}

// ---------------------------------------------------------------- O03
static Scn genO03(uint64_t seed) {
    OGen g;
    g.blocked = 0.3; g.hiWork = 3e5;
    Scn s = genO("O03", seed, g);
    Rng r(seed * 7 + 5);
    auto b = s.nums("bounds"), st = s.nums("start"), go = s.nums("goal");
    int n = r.range(1, 3);
    std::string pl = s.str("planner");
    for (int i = 0; i < n; ++i) {
        auto a = r.chance(0.5) ? st : go, z = r.chance(0.5) ? go : st;
        for (auto* v : {&a, &z}) {
            if (r.chance(0.35)) continue;
            for (size_t j = 0; j < b.size() / 2; ++j) (*v)[j] = r.uni(b[2 * j], b[2 * j + 1]);
            if (pl == "O2") (*v)[2] = r.uni(-3, 3);
            else { auto e = rndQuat(r); for (int j = 0; j < 4; ++j) (*v)[size_t(3 + j)] = e[size_t(j)]; }
        }
        std::vector<double> l = {s.num("tlim") * r.logUni(1e-3, 2)};
        l.insert(l.end(), a.begin(), a.end());
        l.insert(l.end(), z.begin(), z.end());
        s.addNum("query", l);
    }
    return s;
}
static void runO03(const Scn& s, Out& o) {
    OCase k(s);
    k.make();
    std::vector<std::vector<double>> old;   // ends of earlier queries
    std::vector<std::array<std::vector<double>, 2>> Q = {{k.c.base().start, k.c.base().goal}};
    std::vector<double> T = {k.c.base().tlim};
    for (auto& l : s.all("query")) {
        size_t d = k.c.base().start.size();
        if (l.size() != 2 * d + 1) continue;
        T.push_back(l[0]);
        Q.push_back({std::vector<double>(l.begin() + 1, l.begin() + 1 + long(d)), std::vector<double>(l.begin() + 1 + long(d), l.end())});
    }
    { sim::Quiet q; k.tolerances(); }
    for (size_t i = 0; i < Q.size(); ++i) {
        ORec r = k.ask(Q[i][0], Q[i][1], T[i]);
        sim::Quiet q;
        count(k, r, o);
        if (i) o.m["further_queries"] += 1;
        checkAnswer(k, r, Q[i][0], Q[i][1], o, i ? "again-" : "");
        auto a = k.norm(Q[i][0]), b = k.norm(Q[i][1]);
        if (i)
            for (auto& e : old) {
                if (k.apart(e, a) < 1e-3 || k.apart(e, b) < 1e-3) continue;
                for (auto& v : r.vert) if (k.apart(v, e) < 1e-7) { o.bad("stale-vertex", fmtv("query %zu lists the start or goal %s of an earlier query among its vertices", i, pose(e).c_str())); break; }
            }
        if (r.solved)
            for (auto* e : {&a, &b}) if (double d = k.clear(*e); d < 0) o.bad("invalid-query", fmtv("query %zu solved although %s is %.4g deep in an obstacle", i, pose(*e).c_str(), -d));
        double used = double(r.t1 - r.t0) * 1e-9;
        if (!r.threw && r.time > used + 1e-6) o.bad("stale-time", fmtv("query %zu reports %.6g s, but only %.6g s passed", i, r.time, used));
        old.push_back(a);
        old.push_back(b);
    }
}

// ---------------------------------------------------------------- O04
static Scn genO04(uint64_t seed) {
    OGen g;
    g.blocked = 0.5; g.loWork = 3e2; g.hiWork = 3e5;
    Scn s = genO("O04", seed, g);
    Rng r(seed * 9 + 2);
    if (r.chance(0.06)) s.setNum("tlim", {r.chance(0.5) ? 0.0 : -r.uni(0, 3)});
    return s;
}
static void runO04(const Scn& s, Out& o) {
    OCase k(s);
    k.make();
    auto &st = k.c.base().start, &go = k.c.base().goal;
    double tl = k.c.base().tlim;
    ORec r = k.ask(st, go, tl);
    sim::Quiet q;
    count(k, r, o);
    if (r.threw) { o.bad("threw", "planning threw: " + r.what); return; }
    double used = double(r.t1 - r.t0) * 1e-9;
    if (!(r.time >= 0)) o.bad("time-sign", fmtv("reported time %.9g s", r.time));
    if (r.time > used + 1e-6) o.bad("time-more", fmtv("reported %.9g s, but only %.9g s passed", r.time, used));
    if (r.solved && !(r.time < tl)) o.bad("late-solution", fmtv("solved after a reported %.9g s with a limit of %.9g s", r.time, tl));
    o.m["limit_passed"] += r.lateReads > 0;
    o.m["reads_after_limit"] += double(r.lateReads);
    if (!r.solved && r.lateReads > 200)
        o.bad("overrun", fmtv("the clock was read %ld times after the limit of %.9g s had passed; planning went on until %.9g s", r.lateReads, tl, used));
    if (!r.solved && tl > 0) {
        sim::Quiet q2;
        k.tolerances();
        for (auto& row : k.tol) for (auto& t : row) t = -0.3;
        if (k.c.s2) for (auto& b : k.c.s2->obs) if (std::fabs(b.e - 1) > 1e-6) b.e = 0.1;
        if (k.clear(k.norm(st)) > 0 && k.clear(k.norm(go)) > 0) {
            o.m["valid_unsolved"] += 1;
            if (r.time < tl - 1e-6) o.bad("gave-up-early", fmtv("unsolved after a reported %.9g s with a limit of %.9g s, although start and goal are clear", r.time, tl));
        }
    }
}
namespace hz {
Prop propO01{"O01", genO01, runO01}, propO02{"O02", genO02, runO02}, propO03{"O03", genO03, runO03}, propO04{"O04", genO04, runO04};
}
