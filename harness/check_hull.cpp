/* C26: shortest vector of a convex hull of tangent vectors. */
#include "pbt.h"
#include "ref.h"
#include "mani.h"
#include "manihelp.h"
#include "probs.h"
#include "hullref.h"
#include "Solvers/RGS.h"
#include "Others/MinPNormConHull.h"
#include "Problems/SphereConvexHull.h"
#undef max
#undef min
#undef abs
using namespace vp;
using namespace ROPTLIB;

namespace {
struct Op : public RGS { /* carries an operator for the hull problem */
    Mat B; mutable long calls = 0;
    Op(const Problem *p, const Variable *x) : RGS(p, x) {}
    virtual Vector &HvSub(const Vector &v, Vector *result) { calls++; V a(v.Getlength()); const double *q = v.ObtainReadData(); int n = a.size(); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += B(i, j).real() * q[j]; a[i] = s; } *result = v; std::copy(a.begin(), a.end(), result->ObtainWriteEntireData()); return *result; }
};
std::vector<V> vectors(Gen &g, SplitMix &r, int n, int k, bool &origin) {
    int how = g.integer(0, 6); std::vector<V> Y; double off = g.pick(std::vector<double>{0, 1, 3, 30});
    V c(n); for (auto &e : c) e = r.normal(); double cn = vnrm(c) + 1e-300; c = vscale(off / cn, c);
    for (int i = 0; i < k; i++) { V y(n); for (auto &e : y) e = r.normal(); Y.push_back(vadd(y, 1, c)); }
    const char *names[] = {"shifted cloud", "repeated", "collinear", "with zero", "around the origin", "different lengths", "lower dimensional"};
    if (how == 1 && k > 1) for (int i = 1; i < k; i++) if (g.boolean()) Y[i] = Y[i - 1];
    if (how == 2) for (int i = 1; i < k; i++) Y[i] = vadd(Y[0], 1 + r.unif() * 2 * i, k > 1 ? vadd(V(n, 1), 0, V(n, 0)) : V(n, 0));
    if (how == 3) Y[g.choice(k)] = V(n, 0);
    if (how == 4 && k > 1) { V m(n, 0); for (auto &y : Y) m = vadd(m, 1.0 / k, y); for (auto &y : Y) y = vadd(y, -1, m); }
    if (how == 5) for (auto &y : Y) y = vscale(std::pow(10, 2 * r.unif() - 1), y);
    if (how == 6) { V u(n); for (auto &e : u) e = r.normal(); double un = vnrm(u); for (auto &y : Y) { y = vadd(y, -vdot(y, u) / (un * un), u); y = vadd(y, 1 / un, u); } }
    double s = g.pick(std::vector<double>{1, 1, 1e-3, 1e3}); for (auto &y : Y) y = vscale(s, y); origin = how == 4 || how == 3;
    std::ostringstream o; o << k << " vectors in dimension " << n << ", " << names[how] << ", scale " << s << " off " << off << " "; g.addNote(o.str()); g.label(names[how]);
    return Y;
}
Vector fill(const Vector &like, const V &v) { Vector e(like); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; }
void judge(Gen &g, const std::vector<V> &Y, const Mat &M, const V &w, double val) {
    int n = w.size(), k = Y.size(); g.require(vfinite(w) && std::isfinite(val), "the result is not finite");
    auto ip = [&](const V &a, const V &b) { double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += a[i] * M(i, j).real() * b[j]; return s; };
    double big = 0, bigE = 0; for (auto &y : Y) { big = std::max(big, ip(y, y)); bigE = std::max(bigE, vnrm(y)); }
    g.close(val, ip(w, w), 1e-300 + big, 1e-12, "the reported squared norm is not that of the vector");
    double out = hullDistance(Y, w);
    if (!(out <= 1e-9 * bigE)) { std::ostringstream o; o << "the vector lies " << out << " outside the hull"; g.fail(o.str()); }
    HullRef ref = shortest(Y, M); (void) k;
    double a = std::sqrt(std::max(0.0, ip(w, w))), b = std::sqrt(std::max(0.0, ref.val));
    if (getenv("VP_DBG")) fprintf(stderr, "norm %g best %g big %g rel %g\n", a, b, std::sqrt(big), (a - b) / std::sqrt(big));
    if (!(a <= b + 1e-5 * std::sqrt(big))) { std::ostringstream o; o << "a shorter vector exists: " << b << " instead of " << a << " (largest " << std::sqrt(big) << ")"; g.fail(o.str()); }
}
} // namespace

VP_CHECK("C26", plain_norm, 20000, 300000, "at least two vectors") {
    int n = g.integer(1, 5), k = g.integer(1, 7); SplitMix r = g.data(); bool origin; auto Y = vectors(g, r, n, k, origin);
    Euclidean E(n); Variable x = E.RandominManifold(); std::vector<Vector> W; for (auto &y : Y) W.push_back(fill(x, y)); Vector out;
    genrandseed(g.integer(0, 1000)); double v = MinPNormConHull(&E, x, W.data(), k, out);
    for (int i = 0; i < k; i++) g.require(vdiff(raw(W[i]), Y[i]) == 0, "a given vector was changed");
    judge(g, Y, Mat::eye(n), raw(out), v); if (k > 1) g.nontrivial();
}
VP_CHECK("C26", operator_norm, 20000, 300000, "at least two vectors and an operator other than a multiple of the identity") {
    int n = g.integer(1, 5), k = g.integer(1, 7); SplitMix r = g.data(); bool origin; auto Y = vectors(g, r, n, k, origin);
    Euclidean E(n); Variable x = E.RandominManifold(); std::vector<Vector> W; for (auto &y : Y) W.push_back(fill(x, y)); Vector out;
    Stub P(&E, false); Op op(&P, &x); double lo = g.pick(std::vector<double>{1, 0.1, 1e-3, 1e-6}), hi = lo * g.pick(std::vector<double>{1, 10, 1e3}); op.B = spdMat(r, n, false, lo, hi);
    std::ostringstream o; o << "operator " << lo << ".." << hi << " "; g.addNote(o.str());
    genrandseed(g.integer(0, 1000)); double v = MinPNormConHull(&E, x, W.data(), k, &op, &SolversNSMSub::HvSub, out);
    judge(g, Y, op.B, raw(out), v); if (k > 1 && n > 1 && hi > lo) g.nontrivial();
}
