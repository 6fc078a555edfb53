// D01 repeatability, D02 independent callers, A01 failing allocations.
#include "gen.h"

#include <cmath>

using namespace hz;

static std::string differ(const Rec& a, const Rec& b) {
    if (a.threw != b.threw) return a.threw ? "the first threw: " + a.what : "the second threw: " + b.what;
    if (a.threw) return a.what == b.what ? "" : "they threw " + a.what + " and " + b.what;
    const auto &x = a.res, &y = b.res;
    auto n = [](const hrm::PlanningResult& r) {
        return fmtv("%zu vertices, %zu edges, solved %d, cost %.9g, %zu path vertices, %zu interpolated poses, times %.9g + %.9g s", r.graphStructure.vertex.size(), r.graphStructure.edge.size(),
                    int(r.solved), r.solutionPath.cost, r.solutionPath.PathId.size(), r.solutionPath.interpolatedPath.size(), r.planningTime.buildTime, r.planningTime.searchTime);
    };
    if (hashResult(x, true) != hashResult(y, true)) return n(x) + " against " + n(y);
    if (a.par.numSlice != b.par.numSlice || a.par.numLineX != b.par.numLineX || a.par.numLineY != b.par.numLineY) return "final numbers of slices or sweep lines differ";
    if (a.start != b.start || a.goal != b.goal) return "start or goal differ";
    return "";
}

// ---------------------------------------------------------------- D01
static PickOpt smallOpt(const char* id) {
    PickOpt p{id};
    p.kc = 0.2; p.ab = 0.1; p.pa = 0.1;
    p.blocked = 0.4;
    p.randomQuats = true;
    p.g2.maxObs = 3; p.g2.maxLine = 9;
    p.g3.maxObs = 3; p.g3.maxLine = 4;
    return p;
}
static Scn genD01(uint64_t seed) {
    Rng r(seed * 5 + 2);
    Scn s = genCase(seed, smallOpt("D01"));
    Scn other = genCase(seed ^ 0x777000111ull, smallOpt("D01"));
    if (r.chance(0.8)) s.addAll(other, "other:");
    s.setNum("reuse", {double(r.chance(0.5))});       // the second run gets the very objects the first was given
    s.setNum("junk2", {double(r.range(1, 255))});
    s.setNum("smear", {double(r.range(0, 255))});
    return s;
}
static void runD01(const Scn& s, Out& o) {
    Case a = load(s);
    std::unique_ptr<Input> in = std::make_unique<Input>(a);
    play(a, *in, &o);
    { sim::Quiet q; countRun(a, o); }
    if (a.r.threw) { o.bad("threw", "planning threw: " + a.r.what); return; }
    Scn os = s.sub("other:");
    if (os.has("planner")) {   // an unrelated run in between
        restart(os);
        Case b = load(os);
        play(b, Input(b), nullptr);
        o.m["unrelated_between"] += 1;
    }
    sim::setHeapJunk(int(s.num("junk2", 90)));
    sim::S.st.fault[sim::F_HEAP_JUNK]++;
    sim::stackSmear((unsigned char)s.num("smear", 0));
    restart(s);
    Case c = load(s);
    if (s.num("reuse") < 0.5) in = std::make_unique<Input>(c);
    play(c, *in, &o);
    sim::Quiet q;
    o.m[s.num("reuse") < 0.5 ? "fresh_inputs" : "same_inputs"] += 1;
    auto d = differ(a.r, c.r);
    if (!d.empty()) o.bad("differs", "the same request, clock and random stream gave a different result the second time in this process: " + d);
}

// ---------------------------------------------------------------- D02
static Scn genD02(uint64_t seed) {
    Rng r(seed * 11 + 5);
    Scn s;
    s.set("prop", {"D02"});
    s.setNum("seed", {double(seed)});
    FaultOpt fo;
    fo.jumps = false;
    genFaults(s, r, fo);
    int n = r.chance(0.7) ? 2 : 3;
    Scn prev;
    for (int i = 0; i < n; ++i) {
        PickOpt p = smallOpt("D02");
        p.pr = p.pa = 0;
        p.randomQuats = false;
        if (r.chance(0.5)) p.h2 = 0, p.kc = 0; else p.h3 = 0, p.ab = 0;
        Scn c = i && r.chance(0.3) ? prev : genCase(seed * 17 + uint64_t(i) * 1000003, p);
        prev = c;
        Scn keep;
        for (auto& l : c.lines)
            if (l.first != "prop" && l.first != "seed" && l.first != "heapjunk" && l.first != "randseed") keep.add(l.first, l.second);
        s.addAll(keep, "t" + std::to_string(i) + ":");
    }
    s.setNum("share", {double(r.chance(0.5))});       // equal requests share the caller's robot and obstacles
    s.setNum("schedseed", {double(r.u64() % 1000000007)});
    s.setNum("preempt", {r.logUni(1e-4, 0.3)});
    s.setNum("preemptalloc", {double(r.chance(0.9))});
    return s;
}
static void runD02(const Scn& s, Out& o) {
    std::vector<Scn> sc;
    for (int i = 0; i < 4; ++i) {
        Scn t = s.sub("t" + std::to_string(i) + ":");
        if (t.has("planner")) sc.push_back(t);
    }
    if (sc.size() < 2) return;
    std::vector<Case> solo, both;
    std::vector<std::unique_ptr<Input>> in;
    for (auto& t : sc) {
        restart(t);
        solo.push_back(load(t));
        in.push_back(std::make_unique<Input>(solo.back()));
        play(solo.back(), *in.back(), nullptr);
        if (solo.back().r.threw) o.bad("threw", "planning threw: " + solo.back().r.what);
        both.push_back(load(t));
    }
    std::vector<std::function<void()>> bodies;
    std::vector<sim::ClockState> clocks;
    for (size_t i = 0; i < sc.size(); ++i) {
        size_t src = i;
        if (s.num("share") > 0.5)
            for (size_t j = 0; j < i; ++j) if (sc[j].text() == sc[i].text()) { src = j; break; }
        if (src != i) o.m["shared_inputs"] += 1;
        bodies.push_back([&both, &in, i, src] { play(both[i], *in[src], nullptr); });
        sim::ClockState k;
        { sim::Quiet q; k.read(sc[i]); }
        clocks.push_back(k);
    }
    sim::sched::runThreads(bodies, clocks);
    sim::Quiet q;
    o.nontrivial = true;
    for (size_t i = 0; i < sc.size(); ++i) {
        o.m["callers"] += 1;
        o.m["planner_" + both[i].pl] += 1;
        o.m["solved"] += both[i].r.res.solved;
        o.mix(hashResult(both[i].r.res, true));
        auto d = differ(solo[i].r, both[i].r);
        if (!d.empty()) o.bad("disturbed", fmtv("caller %zu of %zu (%s) got a different result alone and next to the others: ", i, sc.size(), both[i].pl.c_str()) + d);
    }
    o.mix(sim::sched::order());
}

// ---------------------------------------------------------------- A01
static Scn genA01(uint64_t seed) {
    Rng r(seed * 23 + 9);
    PickOpt p = smallOpt("A01");
    Scn s = genCase(seed, p);
    s.setNum("failat", {r.chance(0.2) ? r.logUni(1e-5, 1.0) : r.uni(0, 1.02)});   // share of the allocations of a clean run
    s.setNum("faillen", {double(r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 20) : 100000000)});
    return s;
}
static void runA01(const Scn& s, Out& o) {
    Case a = load(s);
    long n0 = sim::S.st.allocs;
    { Input in(a); play(a, in, nullptr); }
    long n = sim::S.st.allocs - n0;
    { sim::Quiet q; countRun(a, o); }
    if (a.r.threw) { o.bad("threw", "planning threw: " + a.r.what); return; }
    // the same with memory running out
    restart(s);
    Case b = load(s);
    sim::S.allocFailAt = sim::S.st.allocs + long(s.num("failat") * double(n));
    sim::S.allocFailLen = long(s.num("faillen", 1));
    bool early = false;
    try {
        Input in(b);
        play(b, in, nullptr);
    } catch (const std::bad_alloc&) {
        early = true;
    }
    bool hit = sim::S.st.allocs > sim::S.allocFailAt;
    sim::S.allocFailAt = -1;
    {
        sim::Quiet q;
        o.nontrivial = hit;
        o.mix(uint64_t(s.num("failat") * 1e6));
        o.m[!hit ? "no_failure" : early ? "inputs_failed" : b.r.threw ? "planning_failed" : "unaffected"] += 1;
        if (!early && !b.r.threw) {
            auto d = differ(a.r, b.r);
            if (!d.empty()) o.bad("swallowed", fmtv("allocation %.6g of %ld failed, no exception came out and the result changed: ", s.num("failat") * double(n), n) + d);
        }
    }
    restart(s);
    Case c = load(s);
    { Input in(c); play(c, in, nullptr); }
    sim::Quiet q;
    auto d = differ(a.r, c.r);
    if (!d.empty()) o.bad("aftermath", "after a run that ran out of memory, the same request gave a different result: " + d);
}
namespace hz {
Prop propD01{"D01", genD01, runD01}, propD02{"D02", genD02, runD02}, propA01{"A01", genA01, runA01};
}
