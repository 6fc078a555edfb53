// F01 scenes read from files, F02 robot descriptions under file faults.
#include "gen.h"

#include <cmath>

#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include "hrm/test/util/ParsePlanningSettings.h"
#include "hrm/util/ParseURDF.h"

using namespace hz;

static void arm(const Scn& s) {
    for (auto& l : s.lines) {
        if (l.first != "iofault" || l.second.size() < 4) continue;
        sim::vfs::Fault f;
        f.pathSub = l.second[0];
        f.kind = l.second[1];
        f.nth = atol(l.second[2].c_str());
        f.arg = atol(l.second[3].c_str());
        sim::vfs::addFault(f);
    }
}
static void genIo(Scn& s, Rng& r, const std::vector<std::string>& where, double maxNth, bool torn) {
    static const char* K[] = {"open_enoent", "open_emfile", "read_eio", "read_short", "read_eintr", "torn"};
    int n = r.chance(0.75) ? 1 : r.range(2, 3);
    for (int i = 0; i < n; ++i) {
        std::string k = K[r.below(torn ? 6 : 5)];
        long arg = k == "torn" ? long(r.logUni(1, 1500)) - 1 : k == "read_short" ? r.range(1, 40) : 1;
        if (k == "read_short" || r.chance(0.25)) if (k != "torn" && k != "read_eintr") arg = -arg;   // from then on
        s.add("iofault", {where[size_t(r.below(int(where.size())))], k, std::to_string(long(r.chance(0.4) ? r.below(3) : r.logUni(1, maxNth))), std::to_string(arg)});
    }
}

// ---------------------------------------------------------------- F01
static Scn genF01(uint64_t seed) {
    Rng r(seed * 29 + 11);
    PickOpt p{"F01"};
    p.kc = 0.15; p.ab = 0.1; p.pr = p.pa = 0;
    p.g2.maxObs = 4; p.g2.maxLine = 8;
    p.g3.maxObs = 3; p.g3.maxLine = 4;
    Scn s = genCase(seed, p);
    bool d3 = s.str("planner") == "H3" || s.str("planner") == "AB";
    // one number of boundary points for everything, as the readers have it
    std::string num;
    for (auto& l : s.lines) if (l.first == "robot2") num = l.second[2]; else if (l.first == "robot3") num = l.second[3];
    for (auto& l : s.lines) {
        if (l.first == "obs2" || l.first == "arena2" || l.first == "obs3" || l.first == "arena3" || l.first == "link2" || l.first == "link3") l.second.back() = num;
    }
    s.setNum("style", {double(r.below(4)), double(r.below(3)), double(r.below(2)), double(r.below(2))});
    s.setNum("styleseed", {double(r.u64() % 1000003)});
    if (r.chance(0.7)) genIo(s, r, {"arena_config", "obstacle_config", "robot_config", "end_points", d3 ? "quats" : "obstacle_config", "*"}, 6, false);
    return s;
}
using Rows = std::vector<std::vector<double>>;
static std::string csv(const Rows& t, const std::vector<double>& style, Rng& r) {
    std::string o;
    const char* nl = style.at(2) > 0.5 ? "\r\n" : "\n";
    const char* fm[] = {"%.17g", "%.17e", " %.17g", "%+.17g"};
    for (size_t i = 0; i < t.size(); ++i) {
        if (style.at(1) > 0.5 && r.chance(0.4)) o += std::string("# a,b,c remark 12") + nl;
        for (size_t j = 0; j < t[i].size(); ++j) {
            char b[64];
            snprintf(b, sizeof b, fm[size_t(style.at(0)) % 4], t[i][j]);
            o += (j ? "," : "") + std::string(b);
        }
        if (style.at(1) > 1.5 && r.chance(0.3)) o += ",";
        if (i + 1 < t.size() || style.at(3) > 0.5) o += nl;
    }
    return o;
}
static void rowsOf(const std::vector<hrm::SuperEllipse>& v, Rows& t) {
    for (auto& e : v) t.push_back({e.getSemiAxis()[0], e.getSemiAxis()[1], e.getEpsilon(), e.getPosition()[0], e.getPosition()[1], e.getAngle()});
}
static void rowsOf(const std::vector<hrm::SuperQuadrics>& v, Rows& t) {
    for (auto& e : v) {
        auto& q = e.getQuaternion();
        t.push_back({e.getSemiAxis()[0], e.getSemiAxis()[1], e.getSemiAxis()[2], e.getEpsilon()[0], e.getEpsilon()[1], e.getPosition()[0], e.getPosition()[1], e.getPosition()[2], q.w(), q.x(), q.y(), q.z()});
    }
}
static bool same(const Rows& a, const Rows& b, std::string& why) {
    if (a.size() != b.size()) { why = fmtv("%zu rows instead of %zu", b.size(), a.size()); return false; }
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) { why = fmtv("%zu columns instead of %zu in row %zu", b[i].size(), a[i].size(), i); return false; }
        for (size_t j = 0; j < a[i].size(); ++j) if (!(a[i][j] == b[i][j])) { why = fmtv("%.17g instead of %.17g in row %zu, column %zu", b[i][j], a[i][j], i, j); return false; }
    }
    return true;
}
struct Files { Rows arena, obs, robot, ends, quats; };
template <class T> static std::vector<T> one(const T& base, const std::vector<T>& links) {
    std::vector<T> v{base};
    v.insert(v.end(), links.begin(), links.end());
    return v;
}
static Files want(const Case& c, const Input& in) {
    Files f;
    if (c.d3) {
        rowsOf(in.a3, f.arena); rowsOf(in.o3, f.obs); rowsOf(one(in.r3->getBase(), in.r3->getLinks()), f.robot);
        for (auto& q : in.r3->getBase().getQuatSamples()) f.quats.push_back({q.x(), q.y(), q.z(), q.w()});
    } else { rowsOf(in.a2, f.arena); rowsOf(in.o2, f.obs); rowsOf(one(in.r2->getBase(), in.r2->getLinks()), f.robot); }
    f.ends = {c.base().start, c.base().goal};
    return f;
}
// Reads everything back the way the demos do.
static void readAll(const Case& c, int num, Input& in, Rows& ends) {
    const std::string pre = "/simfs/config/";
    if (c.d3) {
        hrm::PlannerSetting3D env(num);
        env.loadEnvironment(pre);
        in.r3 = std::make_unique<hrm::MultiBodyTree3D>(hrm::loadRobotMultiBody3D(pre, c.s3->quats.empty() ? "0" : pre + "quats.csv", num));
        in.a3 = env.getArena(); in.o3 = env.getObstacle(); ends = env.getEndPoints();
    } else {
        hrm::PlannerSetting2D env(num);
        env.loadEnvironment(pre);
        in.r2 = std::make_unique<hrm::MultiBodyTree2D>(hrm::loadRobotMultiBody2D(pre, num));
        in.a2 = env.getArena(); in.o2 = env.getObstacle(); ends = env.getEndPoints();
    }
}
static void runF01(const Scn& s, Out& o) {
    Case a = load(s);
    Input mem(a);
    Files f = want(a, mem);
    {
        sim::Quiet q;
        Rng r(uint64_t(s.num("styleseed", 1)));
        auto st = s.nums("style");
        std::string d = a.d3 ? "3D" : "2D", pre = "/simfs/config/";
        sim::vfs::put(pre + "arena_config_" + d + ".csv", csv(f.arena, st, r));
        sim::vfs::put(pre + "obstacle_config_" + d + ".csv", csv(f.obs, st, r));
        sim::vfs::put(pre + "robot_config_" + d + ".csv", csv(f.robot, st, r));
        sim::vfs::put(pre + "end_points_" + d + ".csv", csv(f.ends, st, r));
        sim::vfs::put(pre + "quats.csv", csv(f.quats, st, r));
    }
    int num = a.d3 ? a.s3->bodies[0].num : a.s2->bodies[0].num;
    Input in(a);
    bool good = false;
    auto attempt = [&](const char* tag) {
        Rows ends;
        bool threw = false;
        std::string what;
        try { readAll(a, num, in, ends); }
        catch (const std::exception& e) { threw = true; what = e.what(); }
        sim::Quiet q;
        if (sim::vfs::openNow()) o.bad("left-open", fmtv("%d files left open", sim::vfs::openNow()));
        if (threw) { o.m["load_failed"] += 1; return what.empty() ? std::string("exception") : what; }
        Files g;
        if (a.d3) {
            rowsOf(in.a3, g.arena); rowsOf(in.o3, g.obs); rowsOf(one(in.r3->getBase(), in.r3->getLinks()), g.robot);
            for (auto& x : in.r3->getBase().getQuatSamples()) g.quats.push_back({x.x(), x.y(), x.z(), x.w()});
        } else { rowsOf(in.a2, g.arena); rowsOf(in.o2, g.obs); rowsOf(one(in.r2->getBase(), in.r2->getLinks()), g.robot); }
        std::string why;
        if (!same(f.arena, g.arena, why)) o.bad(std::string(tag) + "arena", "arena read back with " + why);
        else if (!same(f.obs, g.obs, why)) o.bad(std::string(tag) + "obstacles", "obstacles read back with " + why);
        else if (!same(f.robot, g.robot, why)) o.bad(std::string(tag) + "robot", "robot read back with " + why);
        else if (!same(f.quats, g.quats, why)) o.bad(std::string(tag) + "rotations", "rotations read back with " + why);
        else if (!same(f.ends, ends, why)) o.bad(std::string(tag) + "ends", "start and goal read back with " + why);
        else good = true;
        o.m["loaded"] += 1;
        return std::string();
    };
    arm(s);
    attempt("faulted-");
    { sim::Quiet q; o.m["faults_struck"] += double(sim::vfs::fired()); o.nontrivial = true; }
    sim::vfs::clearFaults();
    good = false;
    auto why = attempt("");
    { sim::Quiet q; if (!why.empty()) o.bad("unreadable", "sound files were refused: " + why); }
    if (!good) return;
    play(a, mem, nullptr);
    restart(s);
    Case b = load(s);
    play(b, in, nullptr);
    sim::Quiet q;
    countRun(b, o);
    if (a.r.threw != b.r.threw || hashResult(a.r.res, false) != hashResult(b.r.res, false) || a.r.res.solved != b.r.res.solved)
        o.bad("plan-differs", fmtv("planning with the objects read from files gave %zu vertices, %zu edges; with the objects written there, %zu, %zu", b.g().vertex.size(), b.g().edge.size(), a.g().vertex.size(), a.g().edge.size()));
}

// ---------------------------------------------------------------- F02
static Scn genF02(uint64_t seed) {
    Rng r(seed * 37 + 19);
    PickOpt p{"F02"};
    p.h2 = p.h3 = p.kc = p.ab = 0; p.pr = 0.7; p.pa = 0.3;
    p.g3.maxObs = 2; p.g3.maxLine = 4;
    p.blocked = 0.3;
    Scn s = genCase(seed, p);
    s.setNum("mode", {double(r.chance(0.4) ? 0 : r.chance(0.5) ? 1 : 2)});   // planner, sampling-based planner, kinematics alone
    s.addNum("ompl", {double(r.range(2, 3)), double(r.below(4))});
    if (s.num("mode") == 1) {   // OMPL keeps time by the wall clock
        Scn k;
        for (auto& l : s.lines) if (l.first != "clockjump" && l.first != "clock" && l.first != "tlim" && l.first != "stall") k.add(l.first, l.second);
        s = k;
        double ac = r.logUni(50, 2e4);
        s.addNum("clock", {10, 1000, ac, 0});
        s.addNum("tlim", {ac * 1e-9 * r.logUni(1e4, 1e5)});
        s.setNum("schedseed", {double(r.u64() % 1000000007)});
        s.setNum("preempt", {r.logUni(1e-4, 0.2)});
        s.setNum("preemptalloc", {1});
        s.setNum("clocklimit", {3e6});
    }
    genIo(s, r, {"robot.urdf"}, 300, true);
    return s;
}
static void runF02(const Scn& s, Out& o) {
    int mode = int(s.num("mode"));
    o.m["mode_" + std::to_string(mode)] += 1;
    auto leftOpen = [&] { if (sim::vfs::openNow()) o.bad("left-open", fmtv("%d files left open", sim::vfs::openNow())); };
    if (mode == 0) {
        Case a = load(s);
        play(a, Input(a), nullptr);
        { sim::Quiet q; countRun(a, o); leftOpen(); if (a.r.threw) o.bad("threw", "planning threw: " + a.r.what); }
        if (a.r.threw) return;
        restart(s);
        Case b = load(s);
        arm(s);
        play(b, Input(b), nullptr);
        long hit = sim::vfs::fired();
        sim::vfs::clearFaults();
        {
            sim::Quiet q;
            leftOpen();
            o.nontrivial = hit > 0;
            o.m["faults_struck"] += double(hit);
            o.m[b.r.threw ? "reported" : "unaffected"] += 1;
            if (b.r.threw && !hit) o.bad("threw-unfaulted", "planning threw without a fault: " + b.r.what);
            if (!b.r.threw && hashResult(a.r.res, false) != hashResult(b.r.res, false))
                o.bad("swallowed", fmtv("reading the robot description failed, no exception came out and the result changed from %zu vertices, %zu edges to %zu, %zu", a.g().vertex.size(), a.g().edge.size(), b.g().vertex.size(), b.g().edge.size()));
        }
        restart(s);
        Case c = load(s);
        play(c, Input(c), nullptr);
        sim::Quiet q;
        if (c.r.threw || hashResult(a.r.res, false) != hashResult(c.r.res, false)) o.bad("aftermath", "after a run with read faults, the same request gave a different result");
        return;
    }
    Case c = load(s);
    sim::vfs::put(c.s3->urdfPath, c.s3->urdf());
    Rng r(uint64_t(s.num("seed")) * 7 + 1);
    if (mode == 2) {   // kinematics alone
        arm(s);
        Input in(c);
        for (int i = 0; i < 40; ++i) {
            std::vector<double> v;
            Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
            Eigen::VectorXd j(Eigen::Index(c.s3->joints.size()));
            {
                sim::Quiet q;
                v = c.base().start;
                for (size_t k = 0; k < 3; ++k) v[k] = r.uni(-20, 20);
                Eigen::Quaterniond e(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1) + 1e-3);
                e.normalize();
                v[3] = e.w(); v[4] = e.x(); v[5] = e.y(); v[6] = e.z();
                v.resize(7 + c.s3->joints.size());
                for (size_t k = 7; k < v.size(); ++k) v[k] = r.uni(-3, 3), j(Eigen::Index(k - 7)) = v[k];
                g.topLeftCorner(3, 3) = e.toRotationMatrix();
                g.topRightCorner(3, 1) = Eigen::Vector3d(v[0], v[1], v[2]);
            }
            bool threw = false;
            long h0 = sim::vfs::fired();
            try { in.r3->robotTF(c.s3->urdfPath, g, j); }
            catch (const std::exception&) { threw = true; }
            sim::Quiet q;
            leftOpen();
            o.m[threw ? "reported" : "poses"] += 1;
            o.nontrivial = true;
            o.mixd(v[0]);
            (void)h0;
            if (threw) continue;
            auto w = c.s3->at(v);
            for (size_t k = 0; k < w.size(); ++k) {
                auto& B = k == 0 ? in.r3->getBase() : in.r3->getLinks().at(k - 1);
                Eigen::Vector3d p(B.getPosition()[0], B.getPosition()[1], B.getPosition()[2]);
                double d = (p - w[k].p).norm() + (B.getQuaternion().toRotationMatrix() - w[k].R).norm();
                if (!(d < 1e-6)) { o.bad("pose", fmtv("body %zu is off by %.3g at %s", k, d, pose(v).c_str())); break; }
            }
        }
        o.m["faults_struck"] += double(sim::vfs::fired());
        return;
    }
    auto& L = c.base().par.boundaryLimits;
    std::vector<double> lo, hi;
    for (size_t i = 0; i < L.size(); i += 2) { lo.push_back(L[i]); hi.push_back(L[i + 1]); }
    auto pl = s.nums("ompl");
    arm(s);
    Input in(c);
    std::string threw;
    bool solved = false;
    std::vector<std::vector<double>> path, vert;
    auto attempt = [&](std::unique_ptr<hrm::planners::ompl_interface::OMPL3DArticulated>& p) {
        threw.clear();
        try {
            if (!p) {
                auto n = std::make_unique<hrm::planners::ompl_interface::OMPL3DArticulated>(lo, hi, *in.r3, c.s3->urdfPath, in.a3, in.o3, std::vector<hrm::Mesh>{});
                n->setup(hrm::Index(pl[0]), hrm::Index(pl[1]));
                p = std::move(n);
            }
            startClock();
            p->plan(c.base().start, c.base().goal, c.base().tlim);
        } catch (const std::exception& e) { threw = e.what(); if (threw.empty()) threw = "exception"; }
        sim::Quiet q;
        leftOpen();
        solved = p && threw.empty() && p->isSolved();
        path = solved ? p->getSolutionPath() : decltype(path)();
        vert = p && threw.empty() ? p->getVertices() : decltype(vert)();
        o.m[threw.empty() ? "answered" : "reported"] += 1;
        o.m["solved"] += solved;
        for (auto* l : {&path, &vert})
            for (auto& v : *l) {
                o.mixd(v[0]);
                double w = 1e300;
                auto b = c.s3->at(v);
                for (auto& x : b)
                    for (auto& y : c.s3->obs) {
                        orc::Shape3 pt; pt.a = pt.b = pt.c = 1e-9;
                        bool el = std::fabs(y.e1 - 1) < 1e-6 && std::fabs(y.e2 - 1) < 1e-6;
                        w = std::min(w, orc::separation(x, y, 0.0) + 1e-3 + (el ? 0 : 1.2 * orc::sagitta(y, pt)));
                    }
                if (w < 0) { o.bad("collision", fmtv("with read faults, no exception came out and %s at %s is %.4g deep in an obstacle", l == &path ? "the path" : "a vertex", pose(v).c_str(), -w)); break; }
            }
    };
    std::unique_ptr<hrm::planners::ompl_interface::OMPL3DArticulated> p;
    attempt(p);
    long hit = sim::vfs::fired();
    sim::vfs::clearFaults();
    {
        sim::Quiet q;
        o.nontrivial = true;
        o.m["faults_struck"] += double(hit);
        if (!threw.empty() && !hit) o.bad("threw-unfaulted", "planning threw without a fault: " + threw);
    }
    attempt(p);   // the same planner, the file readable again
    sim::Quiet q;
    if (!threw.empty()) o.bad("aftermath", "with the robot description readable again, planning threw: " + threw);
}
namespace hz {
Prop propF01{"F01", genF01, runF01}, propF02{"F02", genF02, runF02};
}
