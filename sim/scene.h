// Scenario text <-> real planner inputs and reference shapes.
#pragma once
#include "core.h"
#include "oracle.h"

#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/HRM3DAblation.h"
#include "hrm/planners/ProbHRM3D.h"

#include <memory>

namespace scene {
using namespace hrm;
using sim::Scn;

struct Tf2 { Eigen::Matrix3d m = Eigen::Matrix3d::Identity(); };

struct Joint { orc::V3 xyz{0, 0, 0}, rpy{0, 0, 0}, axis{0, 0, 1}; };

inline orc::Shape2 toShape(const SuperEllipse& s) {
    orc::Shape2 o;
    o.a = s.getSemiAxis().at(0); o.b = s.getSemiAxis().at(1); o.e = s.getEpsilon();
    o.c = orc::V2(s.getPosition().at(0), s.getPosition().at(1));
    o.th = s.getAngle(); o.num = int(s.getNum());
    return o;
}

struct Base {
    PlannerParameter par;
    std::vector<double> start, goal;
    double tlim = 1;
    void common(const Scn& s) {
        auto p = s.nums("param");  // slices lineX lineY numPoint nn radius
        p.resize(6, 0);
        par.numSlice = Index(p[0]); par.numLineX = Index(p[1]); par.numLineY = Index(p[2]);
        par.numPoint = Index(p[3]); par.numSearchNeighbor = Index(p[4]); par.searchRadius = p[5];
        par.boundaryLimits = s.nums("bounds");
        start = s.nums("start"); goal = s.nums("goal");
        tlim = s.num("tlim", 1);
    }
    PlanningRequest req(bool rigid) const {
        PlanningRequest r;
        r.isRobotRigid = rigid; r.parameters = par; r.start = start; r.goal = goal;
        return r;
    }
};

struct Scene2 : Base {
    std::vector<orc::Shape2> bodies;  // in base frame, [0] is the base
    std::vector<orc::Shape2> obs, arena;
    static orc::Shape2 body(const std::vector<double>& v) {
        orc::Shape2 s; s.a = v.at(0); s.b = v.at(1); s.c = orc::V2(v.at(2), v.at(3)); s.th = v.at(4); s.num = int(v.at(5)); return s;
    }
    static orc::Shape2 full(const std::vector<double>& v) {
        orc::Shape2 s; s.a = v.at(0); s.b = v.at(1); s.e = v.at(2); s.c = orc::V2(v.at(3), v.at(4)); s.th = v.at(5); s.num = int(v.at(6)); return s;
    }
    static SuperEllipse real(const orc::Shape2& s) { return SuperEllipse({s.a, s.b}, s.e, {s.c.x(), s.c.y()}, s.th, Index(s.num)); }
    explicit Scene2(const Scn& s) {
        common(s);
        auto r = s.nums("robot2");
        orc::Shape2 b; b.a = r.at(0); b.b = r.at(1); b.num = int(r.at(2));
        if (r.size() >= 6) { b.c = orc::V2(r[3], r[4]); b.th = r[5]; }   // pose the caller left the robot in
        bodies.push_back(b);
        for (auto& l : s.all("link2")) bodies.push_back(body(l));
        for (auto& l : s.all("arena2")) arena.push_back(full(l));
        for (auto& l : s.all("obs2")) obs.push_back(full(l));
    }
    MultiBodyTree2D robot() const {
        MultiBodyTree2D t(real(bodies[0]));
        for (size_t i = 1; i < bodies.size(); ++i) t.addBody(real(bodies[i]));
        return t;
    }
    static std::vector<SuperEllipse> real(const std::vector<orc::Shape2>& v) {
        std::vector<SuperEllipse> r;
        for (auto& s : v) r.push_back(real(s));
        return r;
    }
    std::vector<orc::Shape2> at(const std::vector<double>& q) const {
        std::vector<orc::Shape2> r;
        Eigen::Matrix2d R = Eigen::Rotation2Dd(q[2]).toRotationMatrix();
        for (size_t i = 0; i < bodies.size(); ++i) {
            auto s = bodies[i];
            if (i == 0) { s.c = orc::V2(q[0], q[1]); s.th = q[2]; }
            else { s.c = orc::V2(q[0], q[1]) + R * bodies[i].c; s.th = q[2] + bodies[i].th; }
            r.push_back(s);
        }
        return r;
    }
};

struct Scene3 : Base {
    std::vector<orc::Shape3> bodies;
    std::vector<orc::Shape3> obs, arena;
    std::vector<Eigen::Quaterniond> quats;
    std::vector<Joint> joints;      // chain; joint i carries body i+1
    std::string urdfPath = "/simfs/robot.urdf";
    static orc::Shape3 full(const std::vector<double>& v) {
        orc::Shape3 s; s.a = v.at(0); s.b = v.at(1); s.c = v.at(2); s.e1 = v.at(3); s.e2 = v.at(4);
        s.p = orc::V3(v.at(5), v.at(6), v.at(7));
        s.R = Eigen::Quaterniond(v.at(8), v.at(9), v.at(10), v.at(11)).normalized().toRotationMatrix(); s.num = int(v.at(12));
        return s;
    }
    static orc::Shape3 body(const std::vector<double>& v) {
        orc::Shape3 s; s.a = v.at(0); s.b = v.at(1); s.c = v.at(2);
        s.p = orc::V3(v.at(3), v.at(4), v.at(5));
        s.R = Eigen::Quaterniond(v.at(6), v.at(7), v.at(8), v.at(9)).normalized().toRotationMatrix(); s.num = int(v.at(10));
        return s;
    }
    static SuperQuadrics real(const orc::Shape3& s) {
        return SuperQuadrics({s.a, s.b, s.c}, {s.e1, s.e2}, {s.p.x(), s.p.y(), s.p.z()}, Eigen::Quaterniond(s.R), Index(s.num));
    }
    static std::vector<SuperQuadrics> real(const std::vector<orc::Shape3>& v) {
        std::vector<SuperQuadrics> r;
        for (auto& s : v) r.push_back(real(s));
        return r;
    }
    explicit Scene3(const Scn& s) {
        common(s);
        auto r = s.nums("robot3");
        orc::Shape3 b; b.a = r.at(0); b.b = r.at(1); b.c = r.at(2); b.num = int(r.at(3));
        bodies.push_back(b);
        for (auto& l : s.all("link3")) bodies.push_back(body(l));
        for (auto& l : s.all("arena3")) arena.push_back(full(l));
        for (auto& l : s.all("obs3")) obs.push_back(full(l));
        for (auto& q : s.all("quat")) quats.push_back(Eigen::Quaterniond(q.at(0), q.at(1), q.at(2), q.at(3)).normalized());
        for (auto& j : s.all("joint")) {
            Joint jj; jj.xyz = orc::V3(j.at(0), j.at(1), j.at(2)); jj.rpy = orc::V3(j.at(3), j.at(4), j.at(5)); jj.axis = orc::V3(j.at(6), j.at(7), j.at(8)).normalized();
            joints.push_back(jj);
        }
    }
    MultiBodyTree3D robot() const {
        SuperQuadrics base = real(bodies[0]);
        if (!quats.empty()) base.setQuatSamples(quats);
        MultiBodyTree3D t(base);
        for (size_t i = 1; i < bodies.size(); ++i) t.addBody(real(bodies[i]));
        return t;
    }
    std::string urdf() const {
        std::string o = "<?xml version=\"1.0\"?>\n<robot name=\"sim\">\n<link name=\"base\"/>\n";
        for (size_t i = 0; i < joints.size(); ++i) {
            std::string n = std::to_string(i + 1);
            auto v3 = [](const orc::V3& v) { return sim::fmt(v.x()) + " " + sim::fmt(v.y()) + " " + sim::fmt(v.z()); };
            o += "<link name=\"body" + n + "\"/>\n<joint name=\"j" + n + "\" type=\"revolute\">\n<parent link=\"" +
                 (i == 0 ? std::string("base") : "body" + std::to_string(i)) + "\"/>\n<child link=\"body" + n + "\"/>\n<origin rpy=\"" +
                 v3(joints[i].rpy) + "\" xyz=\"" + v3(joints[i].xyz) + "\"/>\n<axis xyz=\"" + v3(joints[i].axis) +
                 "\"/>\n<limit effort=\"100\" lower=\"-1.5707963267948966\" upper=\"1.5707963267948966\" velocity=\"5\"/>\n</joint>\n";
        }
        return o + "</robot>\n";
    }
    bool articulated() const { return !joints.empty(); }
    std::vector<orc::Shape3> at(const std::vector<double>& q) const {
        std::vector<orc::Shape3> r;
        orc::M3 R = Eigen::Quaterniond(q[3], q[4], q[5], q[6]).normalized().toRotationMatrix();
        orc::V3 p(q[0], q[1], q[2]);
        orc::M3 Rj = R;
        orc::V3 pj = p;
        for (size_t i = 0; i < bodies.size(); ++i) {
            auto s = bodies[i];
            if (i == 0) { s.p = p; s.R = R; }
            else {
                if (articulated()) {
                    const Joint& j = joints.at(i - 1);
                    pj = pj + Rj * j.xyz;
                    Rj = Rj * (Eigen::AngleAxisd(j.rpy.z(), orc::V3::UnitZ()) * Eigen::AngleAxisd(j.rpy.y(), orc::V3::UnitY()) *
                               Eigen::AngleAxisd(j.rpy.x(), orc::V3::UnitX())).toRotationMatrix();
                    double th = q.size() > 6 + i ? q[6 + i] : 0;
                    Rj = Rj * Eigen::AngleAxisd(th, j.axis).toRotationMatrix();
                }
                s.p = pj + Rj * bodies[i].p;
                s.R = Rj * bodies[i].R;
            }
            r.push_back(s);
        }
        return r;
    }
};
}  // namespace scene
