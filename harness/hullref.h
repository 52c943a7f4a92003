#pragma once
/* reference for shortest vectors of convex hulls */
#include "ref.h"
namespace vp {
/* smallest value of <w, M w> over the hull of the columns, by trying every face */
struct HullRef { double val = 1e300; V w; };
inline HullRef shortest(const std::vector<V> &Y, const Mat &M) {
    int k = Y.size(), n = Y[0].size(); HullRef best; Mat G(k, k);
    auto ip = [&](const V &a, const V &b) { double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += a[i] * M(i, j).real() * b[j]; return s; };
    double sc = 0; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double t = ip(Y[i], Y[j]); G(i, j) = t; sc = std::max(sc, std::fabs(t)); }
    if (sc == 0) { best.val = 0; best.w.assign(n, 0); return best; }
    for (int mask = 1; mask < (1 << k); mask++) {
        std::vector<int> s; for (int i = 0; i < k; i++) if (mask >> i & 1) s.push_back(i);
        int q = s.size(); if (q > n + 1) continue;
        Mat K(q + 1, q + 1), b(q + 1, 1); for (int i = 0; i < q; i++) { for (int j = 0; j < q; j++) K(i, j) = G(s[i], s[j]) / sc; K(i, q) = K(q, i) = 1; } b(q, 0) = 1;
        Mat u = solve(K, b); bool ok = true; double sum = 0; for (int i = 0; i < q; i++) { double t = u(i, 0).real(); if (!std::isfinite(t)) ok = false; t = std::max(t, 0.0); u(i, 0) = t; sum += t; } if (!ok || !(sum > 0)) continue; /* clamped into the simplex: always a point of the hull */
        V w(n, 0); for (int i = 0; i < q; i++) w = vadd(w, u(i, 0).real() / sum, Y[s[i]]);
        double v = ip(w, w); if (v < best.val) { best.val = v; best.w = w; }
    }
    return best;
}
/* distance from w to the hull (an upper bound that is sharp up to rounding): least squares on every face, weights clamped into the simplex */
inline double hullDistance(const std::vector<V> &Y, const V &w) {
    int k = Y.size(), n = w.size(); double s = 1e-300; for (auto &y : Y) s = std::max(s, vnrm(y)); double best = 1e300;
    for (int mask = 1; mask < (1 << k); mask++) {
        std::vector<V> A, Q; std::vector<int> id; for (int i = 0; i < k; i++) if (mask >> i & 1) { V c = vscale(1 / s, Y[i]); c.push_back(1); A.push_back(c); id.push_back(i); }
        int q = A.size(); if (q > n + 1) continue;
        V b = vscale(1 / s, w); b.push_back(1); Mat R(q, q); bool ok = true;
        for (int j = 0; j < q && ok; j++) { V c = A[j]; for (int t = 0; t < 2; t++) for (int i = 0; i < j; i++) { double d = vdot(Q[i], c); R(i, j) += d; c = vadd(c, -d, Q[i]); } double d = vnrm(c); if (!(d > 1e-14)) { ok = false; break; } R(j, j) = d; Q.push_back(vscale(1 / d, c)); }
        if (!ok) continue;
        V l(q); for (int i = q - 1; i >= 0; i--) { double t = vdot(Q[i], b); for (int j = i + 1; j < q; j++) t -= R(i, j).real() * l[j]; l[i] = t / R(i, i).real(); }
        double sum = 0; for (auto &e : l) { e = std::max(e, 0.0); sum += e; } if (!(sum > 0)) continue;
        V d = vscale(-1, w); for (int i = 0; i < q; i++) d = vadd(d, l[i] / sum, Y[id[i]]); best = std::min(best, vnrm(d));
    }
    return best;
}
} // namespace vp
