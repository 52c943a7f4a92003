/* shared helpers of the manifold checks */
#ifndef VP_MANIHELP_H
#define VP_MANIHELP_H
#include "mani.h"
#include <unistd.h>
#include <functional>
#include <regex>
namespace vp {

inline double pickLen(Gen &g, const Conf &c) {
    double big = c.kind == SPD && c.spdexp ? (c.metric ? 0.7 : 2.5) : (c.kind == SPHERE || c.kind == SPHERETX ? 2.8 : 8.0);
    switch (g.choice(6)) {
    case 0: return 1;
    case 1: return 0;
    case 2: return g.logreal(1e-12, 1e-4);
    case 3: return g.logreal(1e-4, 0.3);
    case 4: return g.real(0.3, 1.5);
    default: return g.real(1.5, std::max(1.6, big)) * (c.kind == SPD && c.spdexp && c.metric ? 0.3 : 1);
    }
}
struct Pt { CP c; SplitMix r; V x; Variable X; };
inline Pt makePt(Gen &g, Want w = Want()) {
    CP c = makeConf(g, w);
    SplitMix r = g.data();
    int style = g.choice(4) == 3 ? 2 : g.choice(2);
    V x = c->point(r, style);
    Variable X = c->elem(x);
    g.addNote(c->name + " ");
    g.label(c->name.substr(0, c->name.find('(')));
    return Pt{c, r, x, X};
}
/* the retraction the parameter set names, as a class invariant */
inline Mat refRetr(const Conf &c, const V &x, const V &a) {
    V s = vadd(x, 1, a);
    auto X = c.split(x), A = c.split(a), S = c.split(s);
    auto polar = [](const Mat &B) { Mat G = H(B) * B; return B * funh(G, [](double w) { return 1 / std::sqrt(w); }); };
    switch (c.kind) {
    case SPHERE: if (c.pset == 2) { double n = vnrm(a); return cd(std::cos(n)) * X[0] + cd(n < 1e-300 ? 1.0 : std::sin(n) / n) * A[0]; } return cd(1 / vnrm(s)) * S[0];
    case SPHERETX: { double n = c.gn(x, a); return cd(std::cos(n)) * X[0] + cd(n < 1e-300 ? 1.0 : std::sin(n) / n) * A[0]; }
    case STIE:
        if (c.polar) return polar(S[0]);
        if (c.cayley) {
            Mat P = Mat::eye(c.n) - cd(0.5) * (X[0] * H(X[0]));
            Mat W = P * A[0] * H(X[0]) - X[0] * H(A[0]) * P;
            return solve(Mat::eye(c.n) - cd(0.5) * W, (Mat::eye(c.n) + cd(0.5) * W) * X[0]);
        }
        return orth(S[0]);
    case GRASS: { Mat Q = orth(S[0]); return Q * H(Q); }
    case SPD:
        if (c.spdexp) { Mat h = funh(X[0], [](double w) { return std::sqrt(w); }), hi = funh(X[0], [](double w) { return 1 / std::sqrt(w); });
            return h * funh(hi * A[0] * hi, [](double w) { return std::exp(w); }) * h; }
        return X[0] + A[0] + cd(0.5) * (A[0] * solve(X[0], A[0]));
    case SYM:
        if (c.intr) { Mat Z = X[0] * H(X[0]) + X[0] * H(A[0]) + A[0] * H(X[0]); std::vector<double> w; Mat U; eigh(Z, w, U);
            Mat R(c.n, c.n);
            for (int k = c.n - c.p; k < c.n; k++) { if (w[k] < 0) continue; Mat u = sub(U, 0, c.n - 1, k, k); R = R + cd(w[k]) * (u * H(u)); }
            return R; }
        return c.embed(s);
    case FRE: {
        std::vector<double> w; Mat U; eigh(X[0] * H(X[0]), w, U);
        Mat Up(c.m, c.p); for (int j = 0; j < c.p; j++) for (int i = 0; i < c.m; i++) Up(i, j) = U(i, c.m - 1 - j);
        Mat Vp = orth(H(X[0]) * Up), D = H(Up) * X[0] * Vp;
        Mat AV = A[0] * Vp, AU = H(A[0]) * Up;
        Mat dU = (AV - Up * (H(Up) * AV)) * inv(D), dV = (AU - Vp * (H(Vp) * AU)) * inv(H(D)), dD = H(Up) * A[0] * Vp;
        return polar(Up + dU) * (D + dD) * H(polar(Vp + dV)); }
    default: return c.embed(s);
    }
}
/* steps for which the retraction of the manifold is defined by a formula that is well conditioned */
inline bool retrOK(const Conf &c, const V &x, const V &a) {
    if (c.kind == SYM && c.intr) { /* [x, Yp] must have full column rank: not for steps whose part outside span(x) is degenerate */
        auto X = c.split(x), A = c.split(a);
        Mat S = solve(H(X[0]) * X[0], H(X[0]) * A[0]);
        Mat Y(c.n, c.p), Yp = A[0] - X[0] * S;
        Mat Z = X[0] * H(X[0]) + X[0] * H(A[0]) + A[0] * H(X[0]);
        std::vector<double> w; Mat U; eigh(Z, w, U);
        /* the p-th largest eigenvalue must be clear of zero */
        return w[c.n - c.p] > 1e-3 * w[c.n - 1];
    }
    if (c.kind == SYM || c.kind == F2) {
        auto S = c.split(vadd(x, 1, a));
        for (auto &M : S) { auto s = svals(M); if (s[c.p - 1] < 1e-3 * s[0]) return false; }
    }
    if (c.kind == FRE) { auto s = svals(refRetr(c, x, a)); if (s[c.p - 1] < 1e-3 * s[0]) return false; }
    return true;
}
/* a random element of the group that acts on the representatives, as a matrix */
struct Action {
    Mat Q, Qi; /* X -> X Q ; second factor of F2: X2 -> X2 Qi^* */
    const Conf &c;
    Action(SplitMix &r, const Conf &c) : c(c) {
        if (c.kind == F2) { Mat U = orth(randMat(r, c.p, c.p, c.z)), W = orth(randMat(r, c.p, c.p, c.z)), D(c.p, c.p); for (int i = 0; i < c.p; i++) D(i, i) = 0.5 + 1.5 * r.unif(); Q = U * D * W; Qi = H(inv(Q)); }
        else Q = orth(randMat(r, c.p, c.p, c.z));
    }
    V act(const V &x) const { auto X = c.split(x); X[0] = X[0] * Q; if (c.kind == F2) X[1] = X[1] * Qi; return c.join(X); }
};
/* what a call writes to the standard output */
inline std::string capturedOut(std::function<void()> f) {
    fflush(stdout); std::cout.flush(); FILE *t = tmpfile(); int keep = dup(1); dup2(fileno(t), 1); f(); std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; rewind(t); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k); fclose(t); return s;
}
} // namespace vp
#endif
