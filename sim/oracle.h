// Independent reference geometry and graph algorithms. Nothing here calls the code under test.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <vector>

namespace orc {
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using M2 = Eigen::Matrix2d;
using M3 = Eigen::Matrix3d;

// ------------------------------------------------------------------ shapes
struct Shape2 {  // |x/a|^(2/e) + |y/b|^(2/e) <= 1, rotated by th, centred at c
    double a = 1, b = 1, e = 1, th = 0;
    V2 c{0, 0};
    int num = 50;
    M2 R() const { return Eigen::Rotation2Dd(th).toRotationMatrix(); }
};
struct Shape3 {
    double a = 1, b = 1, c = 1, e1 = 1, e2 = 1;
    V3 p{0, 0, 0};
    M3 R = M3::Identity();
    int num = 10;
};
inline double pw(double x, double p) { return std::pow(std::fabs(x), p); }
// support value in the local frame
inline double suppLocal(const Shape2& s, const V2& u) {
    if (s.e == 1) return std::sqrt(s.a * s.a * u.x() * u.x() + s.b * s.b * u.y() * u.y());
    double q = 2.0 / (2.0 - s.e);
    return std::pow(pw(s.a * u.x(), q) + pw(s.b * u.y(), q), 1.0 / q);
}
inline double supp(const Shape2& s, const V2& u) { return suppLocal(s, s.R().transpose() * u); }
inline double suppLocal(const Shape3& s, const V3& u) {
    if (s.e1 == 1 && s.e2 == 1) return std::sqrt(s.a * s.a * u.x() * u.x() + s.b * s.b * u.y() * u.y() + s.c * s.c * u.z() * u.z());
    double q2 = 2.0 / (2.0 - s.e2), q1 = 2.0 / (2.0 - s.e1);
    double in = std::pow(pw(s.a * u.x(), q2) + pw(s.b * u.y(), q2), 1.0 / q2);
    return std::pow(pw(in, q1) + pw(s.c * u.z(), q1), 1.0 / q1);
}
inline double supp(const Shape3& s, const V3& u) { return suppLocal(s, s.R.transpose() * u); }
inline bool inside(const Shape2& s, const V2& p) {
    V2 l = s.R().transpose() * (p - s.c);
    return pw(l.x() / s.a, 2 / s.e) + pw(l.y() / s.b, 2 / s.e) <= 1.0;
}

// Signed separation of two convex shapes: > 0 distance apart, < 0 minus the penetration depth.
inline double separation(const Shape2& A, const Shape2& B, double enough = 1e300) {
    V2 d = B.c - A.c;
    double far = d.norm() - std::hypot(A.a, A.b) - std::hypot(B.a, B.b);
    if (far > 0) return far;
    M2 RA = A.R().transpose(), RB = B.R().transpose();
    auto f = [&](double t) {
        V2 u(std::cos(t), std::sin(t));
        return u.dot(d) - suppLocal(A, RA * u) - suppLocal(B, RB * u);
    };
    const int N = 96;
    double v[N];
    if (enough < 1e299) {
        double x = f(std::atan2(d.y(), d.x()));
        if (x >= enough) return x;
    }
    for (int i = 0; i < N; ++i) { v[i] = f(2 * M_PI * i / N); if (v[i] >= enough) return v[i]; }
    double best = -1e300;
    for (int i = 0; i < N; ++i) {
        if (v[i] < v[(i + N - 1) % N] || v[i] < v[(i + 1) % N]) continue;
        double lo = 2 * M_PI * (i - 1) / N, hi = 2 * M_PI * (i + 1) / N;
        for (int k = 0; k < 40; ++k) {
            double m1 = lo + 0.381966 * (hi - lo), m2 = lo + 0.618034 * (hi - lo);
            if (f(m1) < f(m2)) lo = m1; else hi = m2;
        }
        best = std::max(best, std::max(v[i], f(0.5 * (lo + hi))));
    }
    return best;
}
inline const std::vector<V3>& sphereDirs() {
    static const std::vector<V3> dirs = [] {
        std::vector<V3> d;
        const int N = 160;
        for (int i = 0; i < N; ++i) {
            double z = 1 - 2.0 * (i + 0.5) / N, r = std::sqrt(1 - z * z), p = i * 2.39996322972865332;
            d.emplace_back(r * std::cos(p), r * std::sin(p), z);
        }
        for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) { V3 u(0, 0, 0); u[a] = s; d.push_back(u); }
        return d;
    }();
    return dirs;
}
// Lower bound on the signed separation that is tight up to local search (stops early above `enough`).
inline double separation(const Shape3& A, const Shape3& B, double enough = 1e300) {
    V3 d = B.p - A.p;
    double far = d.norm() - std::sqrt(A.a * A.a + A.b * A.b + A.c * A.c) - std::sqrt(B.a * B.a + B.b * B.b + B.c * B.c);
    if (far > 0) return far;
    M3 RA = A.R.transpose(), RB = B.R.transpose();
    auto f = [&](const V3& u) { return u.dot(d) - suppLocal(A, RA * u) - suppLocal(B, RB * u); };
    std::vector<std::pair<double, V3>> c;
    auto push = [&](V3 u) { double n = u.norm(); if (n > 1e-12) { u /= n; c.push_back({f(u), u}); } };
    push(d);
    if (!c.empty() && c[0].first >= enough) return c[0].first;
    for (auto& u : sphereDirs()) { push(u); if (c.back().first >= enough) return c.back().first; }
    for (int i = 0; i < 3; ++i) { push(A.R.col(i)); push(-A.R.col(i)); push(B.R.col(i)); push(-B.R.col(i)); }
    std::sort(c.begin(), c.end(), [](auto& x, auto& y) { return x.first > y.first; });
    double best = c[0].first;
    for (size_t k = 0; k < 6 && k < c.size() && best < enough; ++k) {
        V3 u = c[k].second;
        double v = c[k].first, step = 0.15;
        while (step > 1e-5 && v < enough) {
            V3 t1 = u.cross(std::fabs(u.x()) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), t2 = u.cross(t1);
            double bv = v;
            V3 bu = u;
            for (int j = 0; j < 8; ++j) {
                V3 w = (u + step * (std::cos(j * M_PI / 4) * t1 + std::sin(j * M_PI / 4) * t2)).normalized();
                double x = f(w);
                if (x > bv) { bv = x; bu = w; }
            }
            if (bv > v) { v = bv; u = bu; } else step *= 0.5;
        }
        best = std::max(best, v);
    }
    return best;
}

// ------------------------------------------------------------------ discretisation tolerance
inline double spow(double x, double p) { return (x < 0 ? -1.0 : x > 0 ? 1.0 : 0.0) * std::pow(std::fabs(x), p); }
// exact boundary point of obstacle (+) ellipse body at the obstacle's boundary parameter t
inline V2 minkPoint(const Shape2& O, const Shape2& B, double t, double sign) {
    double c = std::cos(t), s = std::sin(t);
    V2 x(O.a * spow(c, O.e), O.b * spow(s, O.e));
    V2 n(spow(c, 2 - O.e) / O.a, spow(s, 2 - O.e) / O.b);
    M2 RO = O.R(), RB = B.R();
    V2 nw = RO * n;
    V2 l = RB.transpose() * nw;
    V2 m(B.a * B.a * l.x(), B.b * B.b * l.y());
    double den = std::sqrt(B.a * B.a * l.x() * l.x() + B.b * B.b * l.y() * l.y());
    if (den < 1e-300) return RO * x;
    return RO * x + sign * (RB * m / den);
}
inline double segDist(const V2& p, const V2& a, const V2& b) {
    V2 ab = b - a;
    double L = ab.squaredNorm(), t = L > 0 ? std::min(1.0, std::max(0.0, (p - a).dot(ab) / L)) : 0;
    return (p - a - t * ab).norm();
}
// how far the num-point polygon can lie inside the exact boundary
inline double sagitta(const Shape2& O, const Shape2& B) {
    double worst = 0;
    int n = O.num;
    for (int i = 0; i < n - 1; ++i) {
        double t0 = 2 * M_PI * i / (n - 1), t1 = 2 * M_PI * (i + 1) / (n - 1);
        V2 p0 = minkPoint(O, B, t0, 1), p1 = minkPoint(O, B, t1, 1);
        for (int k = 1; k < 16; ++k) {
            // sample densely towards both ends, where small exponents put all the curve
            double f = double(k) / 16, g = f < 0.5 ? 0.5 * std::pow(2 * f, 3) : 1 - 0.5 * std::pow(2 * (1 - f), 3);
            worst = std::max(worst, segDist(minkPoint(O, B, t0 + g * (t1 - t0), 1), p0, p1));
        }
    }
    return worst;
}
inline V3 minkPoint(const Shape3& O, const Shape3& B, double eta, double om, double sign = 1) {
    double ce = std::cos(eta), se = std::sin(eta), co = std::cos(om), so = std::sin(om);
    V3 x(O.a * spow(ce, O.e1) * spow(co, O.e2), O.b * spow(ce, O.e1) * spow(so, O.e2), O.c * spow(se, O.e1));
    V3 n(spow(ce, 2 - O.e1) * spow(co, 2 - O.e2) / O.a, spow(ce, 2 - O.e1) * spow(so, 2 - O.e2) / O.b, spow(se, 2 - O.e1) / O.c);
    V3 l = B.R.transpose() * (O.R * n);
    V3 m(B.a * B.a * l.x(), B.b * B.b * l.y(), B.c * B.c * l.z());
    double den = std::sqrt(B.a * B.a * l.x() * l.x() + B.b * B.b * l.y() * l.y() + B.c * B.c * l.z() * l.z());
    if (den < 1e-300) return O.R * x;
    return O.R * x + sign * (B.R * (m / den));
}
inline double triDist(const V3& p, const V3& a, const V3& b, const V3& c) {
    V3 ab = b - a, ac = c - a, n = ab.cross(ac);
    double nn = n.squaredNorm();
    if (nn > 1e-24) {
        V3 q = p - n * (n.dot(p - a) / nn);
        double w = n.dot(ab.cross(q - a)) / nn, v = n.dot((q - a).cross(ac)) / nn;
        if (w >= 0 && v >= 0 && v + w <= 1) return (p - q).norm();
    }
    auto sd = [&](const V3& x, const V3& y) {
        V3 e = y - x;
        double L = e.squaredNorm(), t = L > 0 ? std::min(1.0, std::max(0.0, (p - x).dot(e) / L)) : 0;
        return (p - x - t * e).norm();
    };
    return std::min(sd(a, b), std::min(sd(b, c), sd(a, c)));
}
inline double sagitta(const Shape3& O, const Shape3& B, bool anyDiagonal = false) {
    int n = O.num;
    auto E = [&](double i) { return -M_PI / 2 + M_PI * i / (n - 1); };
    auto W = [&](double j) { return -M_PI + 2 * M_PI * j / (n - 1); };
    std::vector<V3> P(size_t(n * n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) P[size_t(i * n + j)] = minkPoint(O, B, E(i), W(j));
    double worst = 0;
    static const double fs[] = {0.1, 0.35, 0.5, 0.65, 0.9};
    for (int i = 0; i + 1 < n; ++i)
        for (int j = 0; j + 1 < n; ++j) {
            const V3 &a = P[size_t(i * n + j)], &b = P[size_t(i * n + j + 1)], &c = P[size_t((i + 1) * n + j)], &d = P[size_t((i + 1) * n + j + 1)];
            for (double fi : fs)
                for (double fj : fs) {
                    V3 p = minkPoint(O, B, E(i + fi), W(j + fj));
                    double d0 = std::min(triDist(p, a, b, d), triDist(p, a, c, d)), d1 = std::min(triDist(p, a, b, c), triDist(p, b, c, d));
                    double m = anyDiagonal ? std::max(d0, d1) : std::min(d0, d1);
                    worst = std::max(worst, m);
                }
        }
    return worst;
}

// ------------------------------------------------------------------ configuration-space obstacles
// Base positions at which a body (fixed orientation, at `off` from the base) meets an obstacle form the convex set
// c + { p : u.p < h(u) for all u }. Intersections with a sweep line follow from minimising a convex function.
struct Span { double lo = 1, hi = -1; bool empty() const { return !(lo < hi); } };
struct Cobs2 {
    Shape2 O, B;
    V2 c;
    M2 RO, RB;
    double rho;      // radius of a ball inside
    Cobs2(const Shape2& o, const Shape2& b, const V2& off) : O(o), B(b), c(o.c - off), RO(o.R().transpose()), RB(b.R().transpose()) {
        rho = 1e300;
        for (int i = 0; i < 180; ++i) rho = std::min(rho, h(V2(std::cos(M_PI * i / 90), std::sin(M_PI * i / 90))));
        rho *= 0.999;
    }
    double h(const V2& u) const { return suppLocal(O, RO * u) + suppLocal(B, RB * u); }
    double reach() const { return std::hypot(O.a, O.b) + std::max(B.a, B.b); }
    // > 0: the segment from p to q stays that far outside (lower bound)
    double segment(const V2& p, const V2& q) const {
        V2 dp = p - c, dq = q - c;
        auto f = [&](double t) { V2 u(std::cos(t), std::sin(t)); return std::min(u.dot(dp), u.dot(dq)) - h(u); };
        double best = -1e300, bt = 0;
        for (int i = 0; i < 90; ++i) { double v = f(2 * M_PI * i / 90); if (v > best) { best = v; bt = 2 * M_PI * i / 90; } }
        for (double w = M_PI / 90; w > 1e-7; w *= 0.5)
            for (int k = 0; k < 2; ++k)
                for (double t : {bt - w, bt + w}) { double v = f(t); if (v > best) { best = v; bt = t; } }
        return best;
    }
    // part of the line at height y inside the set scaled by k about its centre
    Span cut(double y, double k) const {
        Span s;
        if (k <= 0 || std::fabs(y - c.y()) > reach()) return s;
        auto side = [&](double sg) {
            auto f = [&](double p) {
                V2 u(sg * std::cos(p), std::sin(p));
                return (k * h(u) - u.y() * (y - c.y())) / std::cos(p);
            };
            double lo = -M_PI / 2 + 1e-7, hi = M_PI / 2 - 1e-7;
            for (int i = 0; i < 60; ++i) {
                double m1 = lo + 0.381966 * (hi - lo), m2 = lo + 0.618034 * (hi - lo);
                if (f(m1) < f(m2)) hi = m2; else lo = m1;
            }
            return f(0.5 * (lo + hi));
        };
        double r = side(1), l = side(-1);
        s.hi = c.x() + r;
        s.lo = c.x() - l;
        return s;
    }
};
struct Cobs3 {
    Shape3 O, B;
    V3 c;
    M3 RO, RB;
    double rho;
    std::vector<std::pair<V3, double>> up, dn;
    Cobs3(const Shape3& o, const Shape3& b, const V3& off) : O(o), B(b), c(o.p - off), RO(o.R.transpose()), RB(b.R.transpose()) {
        rho = 1e300;
        auto add = [&](V3 u) {
            u.normalize();
            double v = h(u);
            rho = std::min(rho, v);
            if (u.z() > 0.03) up.push_back({u, v});
            if (u.z() < -0.03) dn.push_back({u, v});
        };
        for (auto& u : sphereDirs()) add(u);
        for (int i = 0; i < 3; ++i) { add(o.R.col(i)); add(-o.R.col(i)); add(b.R.col(i)); add(-b.R.col(i)); }
        for (auto& u : sphereDirs()) { add(o.R * u); }
        rho *= 0.97;
    }
    double h(const V3& u) const { return suppLocal(O, RO * u) + suppLocal(B, RB * u); }
    double reach() const { return std::sqrt(O.a * O.a + O.b * O.b + O.c * O.c) + std::max(B.a, std::max(B.b, B.c)); }
    double segment(const V3& p, const V3& q) const {
        V3 dp = p - c, dq = q - c;
        double best = -1e300;
        V3 u(0, 0, 1);
        auto f = [&](const V3& w) { return std::min(w.dot(dp), w.dot(dq)) - h(w); };
        auto tryDir = [&](const V3& w, double hw) { double v = std::min(w.dot(dp), w.dot(dq)) - hw; if (v > best) { best = v; u = w; } };
        for (auto& x : up) tryDir(x.first, x.second);
        for (auto& x : dn) tryDir(x.first, x.second);
        V3 m, e = dq - dp;
        double t = e.squaredNorm() > 0 ? std::min(1.0, std::max(0.0, -dp.dot(e) / e.squaredNorm())) : 0;
        m = dp + t * e;
        if (m.norm() > 1e-9) { m.normalize(); tryDir(m, h(m)); }
        for (double step = 0.15; step > 1e-4;) {
            V3 t1 = u.cross(std::fabs(u.x()) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), t2 = u.cross(t1), bu = u;
            double bv = best;
            for (int j = 0; j < 8; ++j) {
                V3 w = (u + step * (std::cos(j * M_PI / 4) * t1 + std::sin(j * M_PI / 4) * t2)).normalized();
                double v = f(w);
                if (v > bv) { bv = v; bu = w; }
            }
            if (bv > best) { best = bv; u = bu; } else step *= 0.5;
        }
        return best;
    }
    Span cut(double x, double y, double k) const {
        Span s;
        V2 d(x - c.x(), y - c.y());
        if (k <= 0 || d.norm() > reach()) return s;
        auto side = [&](const std::vector<std::pair<V3, double>>& dirs, double sg) {
            auto f = [&](const V3& u) { return (k * h(u) - u.x() * d.x() - u.y() * d.y()) / (sg * u.z()); };
            double best = 1e300;
            V3 u(0, 0, sg);
            for (auto& p : dirs) {
                double v = (k * p.second - p.first.x() * d.x() - p.first.y() * d.y()) / (sg * p.first.z());
                if (v < best) { best = v; u = p.first; }
            }
            double step = 0.2;
            while (step > 1e-6) {
                V3 t1 = u.cross(std::fabs(u.x()) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), t2 = u.cross(t1);
                double bv = best;
                V3 bu = u;
                for (int j = 0; j < 8; ++j) {
                    V3 w = (u + step * (std::cos(j * M_PI / 4) * t1 + std::sin(j * M_PI / 4) * t2)).normalized();
                    if (sg * w.z() < 1e-4) continue;
                    double v = f(w);
                    if (v < bv) { bv = v; bu = w; }
                }
                if (bv < best) { best = bv; u = bu; } else step *= 0.5;
            }
            return best;
        };
        s.hi = c.z() + side(up, 1);
        s.lo = c.z() - side(dn, -1);
        return s;
    }
};
// Largest extent of an ellipsoid enclosing the same ellipsoid at each of the given orientations, built one at a time
// as the smallest common enclosure along the shared axes of the two.
template <int N>
double enclosing(const Eigen::Matrix<double, N, 1>& axes, const std::vector<Eigen::Matrix<double, N, N>>& rot) {
    using M = Eigen::Matrix<double, N, N>;
    auto shape = [&](const M& R) -> M { return R * axes.array().square().matrix().asDiagonal() * R.transpose(); };
    M E = shape(rot.at(0));
    for (auto& R : rot) {
        M L = E.llt().matrixL(), Li = L.inverse();
        Eigen::SelfAdjointEigenSolver<M> es(M(Li * shape(R) * Li.transpose()));
        Eigen::Matrix<double, N, 1> d = es.eigenvalues().cwiseMax(1.0);
        M S = L * es.eigenvectors();
        E = S * d.asDiagonal() * S.transpose();
        E = 0.5 * (E + E.transpose()).eval();
    }
    Eigen::SelfAdjointEigenSolver<M> es(E);
    return std::sqrt(es.eigenvalues().maxCoeff());
}
// maximal parts of [lo,hi] outside every span
inline std::vector<Span> freeRuns(double lo, double hi, std::vector<Span> s) {
    std::vector<Span> r;
    std::sort(s.begin(), s.end(), [](const Span& a, const Span& b) { return a.lo < b.lo; });
    double at = lo;
    for (auto& x : s) {
        if (x.empty()) continue;
        if (x.lo > at && at < hi) r.push_back({at, std::min(x.lo, hi)});
        at = std::max(at, x.hi);
    }
    if (at < hi) r.push_back({at, hi});
    return r;
}

// ------------------------------------------------------------------ graphs
struct Dijkstra {
    std::vector<double> dist;
    Dijkstra(size_t n, const std::vector<std::pair<size_t, size_t>>& e, const std::vector<double>& w, size_t src) : dist(n, INFINITY) {
        std::vector<std::vector<std::pair<size_t, double>>> adj(n);
        for (size_t i = 0; i < e.size() && i < w.size(); ++i) {
            if (e[i].first >= n || e[i].second >= n) continue;
            adj[e[i].first].push_back({e[i].second, w[i]});
            adj[e[i].second].push_back({e[i].first, w[i]});
        }
        if (src >= n) return;
        std::priority_queue<std::pair<double, size_t>> q;
        dist[src] = 0;
        q.push({0, src});
        while (!q.empty()) {
            auto t = q.top();
            q.pop();
            if (-t.first > dist[t.second]) continue;
            for (auto& x : adj[t.second])
                if (dist[t.second] + x.second < dist[x.first]) {
                    dist[x.first] = dist[t.second] + x.second;
                    q.push({-dist[x.first], x.first});
                }
        }
    }
};
struct Dsu {
    std::vector<size_t> p;
    explicit Dsu(size_t n) : p(n) { for (size_t i = 0; i < n; ++i) p[i] = i; }
    size_t find(size_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    void join(size_t a, size_t b) { p[find(a)] = find(b); }
};
inline double euclid(const std::vector<double>& a, const std::vector<double>& b) {
    double s = 0;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(s);
}
inline std::vector<double> slerpPose(const std::vector<double>& a, const std::vector<double>& b, double t) {
    std::vector<double> r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r[i] = (1 - t) * a[i] + t * b[i];
    if (a.size() >= 7) {
        Eigen::Vector4d qa(a[3], a[4], a[5], a[6]), qb(b[3], b[4], b[5], b[6]);
        double d = qa.dot(qb), s = d < 0 ? -1 : 1, th = std::acos(std::min(1.0, std::fabs(d)));
        Eigen::Vector4d q = th < 1e-9 ? Eigen::Vector4d((1 - t) * qa + t * s * qb)
                                      : Eigen::Vector4d((std::sin((1 - t) * th) * qa + std::sin(t * th) * s * qb) / std::sin(th));
        for (int i = 0; i < 4; ++i) r[size_t(3 + i)] = q[i];
    }
    return r;
}
}  // namespace orc
