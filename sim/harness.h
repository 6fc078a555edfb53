// Property registry, verdicts and shared runners.
#pragma once
#include "core.h"
#include "scene.h"

#include <exception>
#include <string>

namespace hz {
using sim::Rng;
using sim::Scn;

struct Viol { std::string kind, detail; };
struct Out {
    std::vector<Viol> viol;
    bool nontrivial = false;
    uint64_t key = 0;                 // what makes this run distinct
    std::map<std::string, double> m;  // counters summed over runs
    void bad(const std::string& kind, const std::string& detail) {
        for (auto& v : viol) if (v.kind == kind) return;   // first witness of each kind
        viol.push_back({kind, detail});
    }
    void mix(uint64_t v) { key = sim::mix64(key ^ v); }
    void mixd(double d) { uint64_t u; memcpy(&u, &d, 8); mix(u); }
};
struct Prop {
    const char* id;
    Scn (*gen)(uint64_t seed);
    void (*run)(const Scn&, Out&);
};
const std::vector<Prop>& props();
std::string f(double v);
template <class... A> std::string fmtv(const char* s, A... a) {
    char b[600];
    snprintf(b, sizeof b, s, a...);
    return b;
}

// ---- what a planning run left behind
struct Tick { int64_t mono; size_t nv, ne; bool solved; uint64_t vhash, ehash; long phase; };
struct Rec {
    bool threw = false;
    std::string what;
    hrm::PlanningResult res;
    hrm::PlannerParameter par;
    int64_t t0 = 0, t1 = 0, lastRead = 0;
    long reads = 0;
    std::vector<Tick> ticks;
    std::string changed;              // first change seen to a part of the roadmap already built
    std::vector<double> start, goal;  // what the planner says it was asked
};
uint64_t hashEdges(const hrm::Graph& g, size_t n);
uint64_t hashVertices(const hrm::Graph& g, size_t n);
uint64_t hashResult(const hrm::PlanningResult& r, bool withTime);

void startClock();
template <class P>
Rec runPlan(P& planner, double tlim, Out& out) {
    Rec r;
    auto saved = sim::S.onClock;
    const size_t oi = planner.getObstacle().size();
    sim::S.onClock = [&] {
        const auto& g = planner.getPlanningResult().graphStructure;
        if (!r.ticks.empty() && r.changed.empty()) {
            const Tick& p = r.ticks.back();
            if (g.vertex.size() < p.nv || g.edge.size() < p.ne)
                r.changed = fmtv("roadmap shrank from %zu vertices, %zu edges to %zu, %zu", p.nv, p.ne, g.vertex.size(), g.edge.size());
            else if (hashVertices(g, p.nv) != p.vhash) r.changed = fmtv("one of the first %zu vertices changed", p.nv);
            else if (hashEdges(g, p.ne) != p.ehash) r.changed = fmtv("one of the first %zu edges or weights changed", p.ne);
            else if (p.solved && !planner.getPlanningResult().solved) r.changed = "a found solution was withdrawn";
        }
        r.ticks.push_back({sim::S.mono, g.vertex.size(), g.edge.size(), planner.getPlanningResult().solved, hashVertices(g, g.vertex.size()),
                           hashEdges(g, g.edge.size()), sim::S.phase});
        r.lastRead = sim::S.mono;
        if (g.edge.size() != g.weight.size())
            out.bad("mid-weights", fmtv("during planning: %zu edges but %zu weights", g.edge.size(), g.weight.size()));
        for (auto& e : g.edge)
            if (e.first >= g.vertex.size() || e.second >= g.vertex.size()) {
                out.bad("mid-edge-range", fmtv("during planning: edge (%zu,%zu) with %zu vertices", size_t(e.first), size_t(e.second), g.vertex.size()));
                break;
            }
    };
    long c0 = sim::S.readN;
    startClock();
    r.t0 = sim::S.mono;
    try {
        planner.plan(tlim);
    } catch (const std::exception& e) {
        r.threw = true;
        r.what = e.what();
    } catch (...) {
        r.threw = true;
        r.what = "non-standard exception";
    }
    r.t1 = sim::S.mono;
    r.reads = sim::S.readN - c0;
    sim::S.onClock = saved;
    sim::Quiet q;
    r.res = planner.getPlanningResult();
    r.par = planner.getPlannerParameters();
    r.start = planner.getStart();
    r.goal = planner.getGoal();
    if (planner.getObstacle().size() != oi) r.changed = "the obstacle list changed";
    sim::ev("result", hashResult(r.res, true));
    return r;
}

// ---- one simulated planning run of whichever planner the scenario names
double worstClear(const scene::Scene2& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol);
double worstClear(const scene::Scene3& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol);
double exactClear(const scene::Scene2& s, const std::vector<double>& q);
double exactClear(const scene::Scene3& s, const std::vector<double>& q);
struct Case {
    std::string pl;      // H2 HRM2D, KC HRM2DKC, H3 HRM3D, PR ProbHRM3D, AB HRM3DAblation<HRM3D>, PA HRM3DAblation<ProbHRM3D>
    bool d3 = false;
    std::unique_ptr<scene::Scene2> s2;
    std::unique_ptr<scene::Scene3> s3;
    std::vector<std::vector<double>> tol;
    Rec r;
    const scene::Base& base() const { return d3 ? static_cast<const scene::Base&>(*s3) : *s2; }
    const hrm::Graph& g() const { return r.res.graphStructure; }
    bool prob() const { return pl == "PR" || pl == "PA"; }
    bool ablation() const { return pl == "AB" || pl == "PA"; }
    double worst(const std::vector<double>& q) const { return d3 ? worstClear(*s3, q, tol) : worstClear(*s2, q, tol); }
    double exact(const std::vector<double>& q) const { return d3 ? exactClear(*s3, q) : exactClear(*s2, q); }
    // tlim units of work the roadmap is aware of
    double slack() const;  // how far clock readings may be off because of their own cost and granularity (s)
};
Case load(const Scn& s);                       // scene and tolerances, no run
void play(Case& c, const Scn& s, Out& o);      // construct the real planner and plan; fills c.r
struct Input {                                 // what a caller hands to a planner
    std::unique_ptr<hrm::MultiBodyTree2D> r2;
    std::unique_ptr<hrm::MultiBodyTree3D> r3;
    std::vector<hrm::SuperEllipse> a2, o2;
    std::vector<hrm::SuperQuadrics> a3, o3;
    explicit Input(const Case& c);
};
void play(Case& c, const Input& in, Out* o);   // the same from given objects; without o nothing is watched meanwhile
Case playNew(const Scn& s, Out& o);
void restart(const Scn& s);                    // same scenario again in this process: clocks, random streams from the start
void countRun(const Case& c, Out& o);          // measures shared by every check of the planners

// ---- generators
struct FaultOpt { bool clock = true, jumps = true, stalls = true, junk = true; };
void genFaults(Scn& s, Rng& r, const FaultOpt& o = {});
struct Gen2 { int minObs = 1, maxObs = 5, maxLinks = 2; int minSlices = 1, maxSlices = 7; int minLine = 4, maxLine = 14; bool blocked = false; int arenas = 2; double moreLinks = 0, much = 0.08, nice = 0.3, arenaLo = 20, arenaHi = 45, bigLinks = 0.25; };
void genScene2(Scn& s, Rng& r, const Gen2& g = {});
struct Gen3 { int minObs = 1, maxObs = 3, maxLinks = 2; int minSlices = 1, maxSlices = 5; int minLine = 3, maxLine = 6; bool quats = true, joints = false, blocked = false; int nJoints = 2; double moreLinks = 0, much = 0.08, nice = 0.3, rounds = 1.3, bigLinks = 0.25, fine = 0.08; };
void genScene3(Scn& s, Rng& r, const Gen3& g = {});
void genTime(Scn& s, Rng& r, int slices, double rounds);

// ---- shared checks
void checkWellFormed(const Rec& r, Out& o);
struct Tol2 { std::vector<double> t; double maxv = 0; };          // per (body, obstacle)
std::vector<std::vector<double>> tolTable(const scene::Scene2& s);
std::vector<std::vector<double>> tolTable(const scene::Scene3& s);
// most negative (separation + tolerance); < 0 is a collision beyond the discretisation error
double worstClear(const scene::Scene2& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol);
double worstClear(const scene::Scene3& s, const std::vector<double>& q, const std::vector<std::vector<double>>& tol);
double exactClear(const scene::Scene2& s, const std::vector<double>& q);
double exactClear(const scene::Scene3& s, const std::vector<double>& q);
std::string pose(const std::vector<double>& q);
}  // namespace hz
