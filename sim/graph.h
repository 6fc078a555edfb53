// What the vertices and edges of a finished roadmap are: orientations, sweep-line levels, C-obstacles of a slice.
#pragma once
#include "gen.h"

#include <algorithm>
#include <set>

namespace hz {
struct Slice {
    std::vector<double> ori;               // heading, or quaternion and joints
    std::vector<orc::Cobs2> c2;            // exact C-obstacles of every body and obstacle
    std::vector<orc::Cobs3> c3;
    std::vector<double> tol;               // discretisation tolerance of each
    std::vector<orc::Shape2> b2;           // the bodies at this orientation, base at the origin
    std::vector<orc::Shape3> b3;
    double segment(const std::vector<double>& p, const std::vector<double>& q) const {
        double w = 1e300;
        for (auto& c : c2) w = std::min(w, c.segment(orc::V2(p[0], p[1]), orc::V2(q[0], q[1])));
        for (auto& c : c3) w = std::min(w, c.segment(orc::V3(p[0], p[1], p[2]), orc::V3(q[0], q[1], q[2])));
        return w;
    }
};
struct Ann {
    std::vector<std::vector<double>> oris;  // distinct orientations in order of first appearance
    std::vector<int> ori, lvl;              // per vertex; level -1: on no sweep line
    std::vector<char> sure;                 // the level is not ambiguous (a vertex on the outermost lines is on every level)
    size_t n0 = 0;                          // vertices of the first build (all of them when slices come one by one)
    bool dup = false;                       // the scenario lists nearly equal orientations
    std::set<std::pair<size_t, size_t>> e;
    bool joined(size_t a, size_t b) const { return e.count({a, b}) || e.count({b, a}); }
    int maxLvl = 0;
};
double oriDist(const Case& c, const std::vector<double>& a, const std::vector<double>& b);
std::vector<double> oriOf(const Case& c, const std::vector<double>& v);
Ann annotate(const Case& c);
Slice sliceOf(const Case& c, const std::vector<double>& ori);
double lineY(const scene::Base& b, int lvl, size_t i);
double lineX(const scene::Base& b, int lvl, size_t i);
size_t linesY(const scene::Base& b, int lvl);
size_t linesX(const scene::Base& b, int lvl);
}  // namespace hz
