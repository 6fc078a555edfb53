#include "graph.h"

namespace hz {
size_t linesY(const scene::Base& b, int l) { return size_t(b.par.numLineY) << l; }
size_t linesX(const scene::Base& b, int l) { return size_t(b.par.numLineX) << l; }
double lineY(const scene::Base& b, int l, size_t i) {
    auto& L = b.par.boundaryLimits;
    return L[2] + (L[3] - L[2]) * double(i) / double(linesY(b, l) - 1);
}
double lineX(const scene::Base& b, int l, size_t i) {
    auto& L = b.par.boundaryLimits;
    return L[0] + (L[1] - L[0]) * double(i) / double(linesX(b, l) - 1);
}
std::vector<double> oriOf(const Case& c, const std::vector<double>& v) { return std::vector<double>(v.begin() + std::min<long>(c.d3 ? 3 : 2, long(v.size())), v.end()); }
double oriDist(const Case& c, const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return 1e300;
    double d = 0;
    if (!c.d3) return std::fabs(a[0] - b[0]);
    double p = 0, m = 0;
    for (size_t i = 0; i < 4; ++i) { p = std::max(p, std::fabs(a[i] - b[i])); m = std::max(m, std::fabs(a[i] + b[i])); }
    d = std::min(p, m);
    for (size_t i = 4; i < a.size(); ++i) d = std::max(d, std::fabs(a[i] - b[i]));
    return d;
}
Ann annotate(const Case& c) {
    Ann a;
    const auto& V = c.g().vertex;
    const auto& B = c.base();
    auto& L = B.par.boundaryLimits;
    for (auto& e : c.g().edge) a.e.insert({e.first, e.second});
    auto on = [](double x, double lo, double hi, size_t n) {
        if (n < 2) return std::fabs(x - lo) < 1e-7 * (1 + std::fabs(lo));
        double t = (x - lo) / (hi - lo) * double(n - 1);
        return t > -0.5 && t < double(n) - 0.5 && std::fabs(t - std::round(t)) < 1e-6 + 1e-11 * double(n);
    };
    int top = 9;   // refinement doubles the number of lines
    while (top < 24 && linesY(B, top - 1) < c.r.par.numLineY) ++top;
    for (size_t i = 0; i < V.size(); ++i) {
        auto o = oriOf(c, V[i]);
        int k = -1;
        // nearly always the orientation of the vertex before
        if (i && oriDist(c, o, a.oris[size_t(a.ori.back())]) < 1e-7) k = a.ori.back();
        else for (size_t j = 0; j < a.oris.size(); ++j) if (oriDist(c, o, a.oris[j]) < 1e-7) { k = int(j); break; }
        if (k < 0) { k = int(a.oris.size()); a.oris.push_back(o); }
        a.ori.push_back(k);
        int l = -1, hits = 0;
        for (int q = 0; q < top; ++q)
            if (on(V[i][1], L[2], L[3], linesY(B, q)) && (!c.d3 || on(V[i][0], L[0], L[1], linesX(B, q)))) { if (l < 0) l = q; ++hits; }
        a.lvl.push_back(l);
        a.sure.push_back(hits == 1);
        if (hits == 1) a.maxLvl = std::max(a.maxLvl, l);
    }
    if (c.prob()) a.n0 = V.size();
    else for (auto& t : c.r.ticks) if (t.nv) { a.n0 = t.nv; break; }
    if (c.d3 && !c.prob()) {
        auto& q = c.s3->quats;
        for (size_t i = 0; i < q.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (std::fabs(std::fabs(q[i].dot(q[j])) - 1) < 1e-6) a.dup = true;
    }
    return a;
}
Slice sliceOf(const Case& c, const std::vector<double>& ori) {
    Slice s;
    s.ori = ori;
    std::vector<double> q(c.d3 ? 3 : 2, 0.0);
    q.insert(q.end(), ori.begin(), ori.end());
    if (c.d3) {
        s.b3 = c.s3->at(q);
        for (size_t i = 0; i < s.b3.size(); ++i)
            for (size_t j = 0; j < c.s3->obs.size(); ++j) { s.c3.emplace_back(c.s3->obs[j], s.b3[i], s.b3[i].p); s.tol.push_back(std::max(c.tol[i][j], 1.3 * orc::sagitta(c.s3->obs[j], s.b3[i]) + 1e-3)); }
    } else {
        s.b2 = c.s2->at(q);
        if (c.pl == "KC") { s.b2.resize(1); s.b2[0].a *= 1.1; s.b2[0].b *= 1.1; }
        for (size_t i = 0; i < s.b2.size(); ++i)
            for (size_t j = 0; j < c.s2->obs.size(); ++j) { s.c2.emplace_back(c.s2->obs[j], s.b2[i], s.b2[i].c); s.tol.push_back(std::max(c.tol[i][j] * (c.pl == "KC" ? 1.15 : 1), 1.25 * orc::sagitta(c.s2->obs[j], s.b2[i]) + 1e-4)); }
    }
    return s;
}
}  // namespace hz
