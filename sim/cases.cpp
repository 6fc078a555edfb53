// Runs the real planner a scenario names.
#include "harness.h"

#include <cstring>

namespace hz {
using namespace scene;
using namespace hrm::planners;

double Case::slack() const {
    double n = double(r.reads) + 2;
    auto& S = sim::S;
    return n * (100e-9 + double(S.granularity) * 1e-9) + 100 * S.allocCost * 1e-9 * n;
}
// The request arrives at the same moment however much work preparing it was.
void startClock() {
    sim::S.before += sim::S.mono;
    sim::S.mono = 0;
    sim::S.allocsAtRead = sim::S.allocN;
}
Case load(const Scn& s) {
    sim::Quiet q;
    Case c;
    c.pl = s.str("planner", "H2");
    c.d3 = !(c.pl == "H2" || c.pl == "KC" || c.pl == "O2");
    if (c.d3) {
        c.s3 = std::make_unique<Scene3>(s);
        c.tol = tolTable(*c.s3);
    } else {
        c.s2 = std::make_unique<Scene2>(s);
        c.tol = tolTable(*c.s2);
    }
    return c;
}
template <class P>
static Rec runPlain(P& planner, double tlim) {   // nothing watched while it runs: several may run at once
    Rec r;
    startClock();
    r.t0 = sim::S.mono;
    try {
        planner.plan(tlim);
    } catch (const std::exception& e) {
        r.threw = true;
        r.what = e.what();
    } catch (...) {
        r.threw = true;
        r.what = "non-standard exception";
    }
    r.t1 = sim::S.mono;
    sim::Quiet q;
    r.res = planner.getPlanningResult();
    r.par = planner.getPlannerParameters();
    r.start = planner.getStart();
    r.goal = planner.getGoal();
    return r;
}
Input::Input(const Case& c) {
    if (!c.d3) {
        r2 = std::make_unique<hrm::MultiBodyTree2D>(c.s2->robot());
        a2 = Scene2::real(c.s2->arena);
        o2 = Scene2::real(c.s2->obs);
    } else {
        r3 = std::make_unique<hrm::MultiBodyTree3D>(c.s3->robot());
        a3 = Scene3::real(c.s3->arena);
        o3 = Scene3::real(c.s3->obs);
    }
}
void play(Case& c, const Input& in, Out* o) {
    double tl = c.base().tlim;
    if (c.prob()) sim::vfs::put(c.s3->urdfPath, c.s3->urdf());
    auto go = [&](auto& p) { c.r = o ? runPlan(p, tl, *o) : runPlain(p, tl); };
    try {
        if (c.pl == "KC") { HRM2DKC p(*in.r2, in.a2, in.o2, c.s2->req(true)); go(p); }
        else if (c.pl == "H2") { HRM2D p(*in.r2, in.a2, in.o2, c.s2->req(true)); go(p); }
        else if (c.pl == "PR") { ProbHRM3D p(*in.r3, c.s3->urdfPath, in.a3, in.o3, c.s3->req(false)); go(p); }
        else if (c.pl == "PA") { HRM3DAblation<ProbHRM3D> p(*in.r3, c.s3->urdfPath, in.a3, in.o3, c.s3->req(false)); go(p); }
        else if (c.pl == "AB") { HRM3DAblation<HRM3D> p(*in.r3, in.a3, in.o3, c.s3->req(true)); go(p); }
        else { HRM3D p(*in.r3, in.a3, in.o3, c.s3->req(true)); go(p); }
    } catch (const std::exception& e) {
        c.r.threw = true;
        c.r.what = e.what();
    }
}
void play(Case& c, const Scn&, Out& o) { play(c, Input(c), &o); }
void countRun(const Case& c, Out& o) {
    const auto& r = c.r;
    o.m["solved"] += r.res.solved;
    o.m["vertices"] += double(c.g().vertex.size());
    o.m["edges"] += double(c.g().edge.size());
    o.m["planner_" + c.pl] += 1;
    if (r.par.numLineY > c.base().par.numLineY) o.m["refined_runs"] += 1;
    o.mix(hashVertices(c.g(), c.g().vertex.size()));
    o.mix(hashEdges(c.g(), c.g().edge.size()));
    o.mix(uint64_t(r.ticks.size()));
    o.nontrivial = !c.g().vertex.empty();
}
Case playNew(const Scn& s, Out& o) {
    Case c = load(s);
    play(c, s, o);
    sim::Quiet q;
    countRun(c, o);
    if (c.r.threw) o.bad("threw", "planning threw: " + c.r.what);
    return c;
}
void restart(const Scn& s) {
    sim::Quiet q;
    static_cast<sim::ClockState&>(sim::S).read(s);
    sim::resetRand();
}
}  // namespace hz
