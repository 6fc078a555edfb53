// T01 time limit, T02 reported times, T03 wall clock steps.
#include "gen.h"

#include <cmath>
#include <set>

using namespace hz;

// ---------------------------------------------------------------- T01
static Scn genT01(uint64_t seed) {
    PickOpt p{"T01"};
    p.blocked = 0.8;
    p.randomQuats = true;
    p.g2.maxObs = 3; p.g2.maxLine = 10;
    p.g3.maxObs = 2; p.g3.maxLine = 5; p.g3.rounds = 1.8;
    Scn s = genCase(seed, p);
    Rng r(seed * 31 + 7);
    if (r.chance(0.1)) s.setNum("tlim", {r.chance(0.5) ? 0.0 : -r.uni(0, 5)});
    return s;
}
static std::vector<long> orientKey(const Case& c, const std::vector<double>& v) {
    std::vector<long> k;
    for (size_t i = c.d3 ? 3 : 2; i < v.size(); ++i) k.push_back(std::lround(v[i] * 1e7));
    return k;
}
static void runT01(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    const Rec& r = c.r;
    if (r.threw) return;
    double tl = c.base().tlim, slack = c.slack(), used = double(r.t1 - r.t0) * 1e-9;
    if (!r.res.solved) {
        o.m["unsolved"] += 1;
        if (r.res.planningTime.totalTime < tl - 1e-9)
            o.bad("gave-up-early", fmtv("unsolved after a reported %.9g s with a limit of %.9g s", r.res.planningTime.totalTime, tl));
        if (used < tl - slack)
            o.bad("gave-up-early", fmtv("unsolved after %.9g s with a limit of %.9g s", used, tl));
    }
    // the first moment the planner could see that the limit had passed
    size_t first = r.ticks.size();
    for (size_t i = 0; i < r.ticks.size(); ++i)
        if (double(r.ticks[i].mono - r.t0) * 1e-9 > tl + slack && r.ticks[i].nv > 0) { first = i; break; }
    if (first < r.ticks.size()) {
        o.m["limit_passed"] += 1;
        std::set<std::vector<long>> late;
        for (size_t i = r.ticks[first].nv; i < c.g().vertex.size(); ++i) late.insert(orientKey(c, c.g().vertex[i]));
        if (late.size() > 1)
            o.bad("overrun", fmtv("after %.9g s, past the limit of %.9g s, vertices were still added at %zu orientations", double(r.ticks[first].mono - r.t0) * 1e-9, tl, late.size()));
        long more = r.ticks.back().phase - r.ticks[first].phase;
        if (more > 4)
            o.bad("overrun-steps", fmtv("%ld further stretches of work after the limit of %.9g s had passed at %.9g s", more, tl, double(r.ticks[first].mono - r.t0) * 1e-9));
    }
}

// ---------------------------------------------------------------- T02
static Scn genT02(uint64_t seed) {
    PickOpt p{"T02"};
    p.blocked = 0.5;
    p.randomQuats = true;
    p.g2.maxObs = 3; p.g2.maxLine = 10;
    p.g3.maxObs = 2; p.g3.maxLine = 5;
    return genCase(seed, p);
}
static void runT02(const Scn& s, Out& o) {
    Case c = playNew(s, o);
    sim::Quiet q;
    const Rec& r = c.r;
    if (r.threw || r.ticks.size() < 2) return;
    const auto& t = r.res.planningTime;
    double slack = c.slack();
    if (!(t.buildTime >= 0 && t.searchTime >= 0 && std::isfinite(t.totalTime)))
        o.bad("time-sign", fmtv("reported build %.9g s, search %.9g s, total %.9g s", t.buildTime, t.searchTime, t.totalTime));
    if (!(std::fabs(t.totalTime - t.buildTime - t.searchTime) <= 1e-9 * (1 + t.totalTime)))
        o.bad("time-sum", fmtv("reported total %.12g s, build %.12g s + search %.12g s", t.totalTime, t.buildTime, t.searchTime));
    double used = double(r.lastRead - r.t0) * 1e-9;
    if (t.totalTime > used + slack) o.bad("time-more", fmtv("reported total %.9g s, but only %.9g s passed", t.totalTime, used));
    if (t.totalTime < used - slack) o.bad("time-less", fmtv("reported total %.9g s, but %.9g s passed", t.totalTime, used));
    double grow = 0, rest = 0, surely = 0;
    int prev = -1;  // kind of the last stretch that took time: 1 grew the roadmap
    for (size_t i = 0; i + 1 < r.ticks.size(); ++i) {
        double d = double(r.ticks[i + 1].mono - r.ticks[i].mono) * 1e-9;
        bool g = r.ticks[i + 1].nv > r.ticks[i].nv || r.ticks[i + 1].ne > r.ticks[i].ne;
        if (g) grow += d; else rest += d;
        bool work = r.ticks[i + 1].phase > r.ticks[i].phase;
        if (g && r.ticks[i + 1].solved && !r.ticks[i].solved)
            o.bad("search-unmeasured", fmtv("the roadmap grew from %zu to %zu vertices and a path was found between two readings of the clock", r.ticks[i].nv, r.ticks[i + 1].nv));
        if (!g && work && prev == 1 && r.ticks[i].nv >= 150) {
            // a stretch without growth between two that grew, on a large graph: a search
            size_t k = i + 1;
            while (k + 1 < r.ticks.size() && r.ticks[k + 1].phase == r.ticks[k].phase) ++k;
            if (k + 1 >= r.ticks.size() || r.ticks[k + 1].nv > r.ticks[k].nv || r.ticks[k + 1].ne > r.ticks[k].ne) surely += d;
        }
        if (work) prev = g;
    }
    if (t.buildTime < grow - slack) o.bad("build-less", fmtv("reported build %.9g s, but the roadmap grew during %.9g s", t.buildTime, grow));
    if (t.searchTime > rest + slack) o.bad("search-more", fmtv("reported search %.9g s, but only %.9g s passed without the roadmap growing", t.searchTime, rest));
    if (t.searchTime < surely - slack) o.bad("search-less", fmtv("reported search %.9g s, but searches took %.9g s", t.searchTime, surely));
    if (surely > slack) o.m["search_attributed"] += 1;
}

// ---------------------------------------------------------------- T03
static Scn genT03(uint64_t seed) {
    PickOpt p{"T03"};
    p.blocked = 0.6;
    p.randomQuats = true;
    p.jumps = false;
    p.g2.maxObs = 3; p.g2.maxLine = 9;
    p.g3.maxObs = 2; p.g3.maxLine = 4;
    Scn s = genCase(seed, p);
    Rng r(seed * 77 + 3);
    int n = r.range(1, 5);
    for (int i = 0; i < n; ++i)
        s.addNum("jump2", {double(2 + int(r.logUni(1, 60))), r.logUni(1e-3, 1e8) * (r.chance(0.5) ? 1 : -1)});
    return s;
}
static void runT03(const Scn& s, Out& o) {
    Case a = playNew(s, o);
    restart(s);
    Case b = load(s);
    for (auto& j : s.all("jump2")) if (j.size() >= 2) sim::S.jumps.push_back({long(j[0]), j[1]});
    play(b, s, o);
    sim::Quiet q;
    if (a.r.threw != b.r.threw) o.bad("jump-throw", "one of the two runs threw: " + a.r.what + b.r.what);
    if (a.r.threw || b.r.threw) return;
    const auto &ta = a.r.res.planningTime, &tb = b.r.res.planningTime;
    if (a.g().vertex.size() != b.g().vertex.size() || a.g().edge.size() != b.g().edge.size() || a.r.res.solved != b.r.res.solved)
        o.bad("jump-result", fmtv("stepping the wall clock changed the outcome: %zu vertices, %zu edges, solved %d became %zu, %zu, %d", a.g().vertex.size(), a.g().edge.size(),
                                  int(a.r.res.solved), b.g().vertex.size(), b.g().edge.size(), int(b.r.res.solved)));
    else if (hashResult(a.r.res, false) != hashResult(b.r.res, false)) o.bad("jump-result", "stepping the wall clock changed the roadmap or the path");
    double slack = a.slack();
    if (std::fabs(ta.totalTime - tb.totalTime) > slack || std::fabs(ta.buildTime - tb.buildTime) > slack || std::fabs(ta.searchTime - tb.searchTime) > slack)
        o.bad("jump-times", fmtv("stepping the wall clock changed the reported total from %.9g s to %.9g s", ta.totalTime, tb.totalTime));
}
namespace hz {
Prop propT01{"T01", genT01, runT01}, propT02{"T02", genT02, runT02}, propT03{"T03", genT03, runT03};
}
