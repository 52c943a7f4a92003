/* C23: nonsmooth solvers. Subgradient methods on piecewise smooth functions, proximal gradient on sparse ones. */
#include "pbt.h"
#include "ref.h"
#include "mani.h"
#include "manihelp.h"
#include "solv.h"
#include "hullref.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Problems/StieSPCA.h"
#undef max
#undef min
#undef abs
using namespace vp;

namespace {
/* 1/2 (x-m)'A(x-m) + g'(x-m) + sum c_k |q_k'(x-m) - d_k|, or with the largest of a_j'(x-m) instead of the sum */
struct KinkProb : public Problem {
    Mat A, Q; V m, g, c, d; bool maxf = false;
    mutable long nf = 0, ng = 0;
    int n() const { return m.size(); }
    double val(const V &x) const {
        V z = vadd(x, -1, m); double s = vdot(g, z);
        for (int i = 0; i < n(); i++) { double t = 0; for (int j = 0; j < n(); j++) t += A(i, j).real() * z[j]; s += 0.5 * t * z[i]; }
        double mx = -1e300;
        for (int k = 0; k < Q.r; k++) { double t = -d[k]; for (int j = 0; j < n(); j++) t += Q(k, j).real() * z[j]; if (maxf) mx = std::max(mx, t); else s += c[k] * std::fabs(t); }
        return maxf ? s + mx : s;
    }
    V grad(const V &x) const {
        V z = vadd(x, -1, m), r(g);
        for (int i = 0; i < n(); i++) for (int j = 0; j < n(); j++) r[i] += A(i, j).real() * z[j];
        double mx = -1e300; int at = 0;
        for (int k = 0; k < Q.r; k++) { double t = -d[k]; for (int j = 0; j < n(); j++) t += Q(k, j).real() * z[j]; if (maxf) { if (t > mx) { mx = t; at = k; } } else { double sg = t >= 0 ? c[k] : -c[k]; for (int j = 0; j < n(); j++) r[j] += sg * Q(k, j).real(); } }
        if (maxf) for (int j = 0; j < n(); j++) r[j] += Q(at, j).real();
        return r;
    }
    /* bound on the length of a subgradient within rad of m */
    double lip(double rad) const { double s = vnrm(g) + nrm(A) * rad, q = 0; for (int k = 0; k < Q.r; k++) { double t = 0; for (int j = 0; j < n(); j++) t += std::norm(Q(k, j)); t = std::sqrt(t); if (maxf) q = std::max(q, t); else q += c[k] * t; } return s + q; }
    virtual realdp f(const Variable &x) const { nf++; return val(rawE(x)); }
    virtual Vector &EucGrad(const Variable &x, Vector *result) const { ng++; V r = grad(rawE(x)); *result = x; realdp *q = result->ObtainWriteEntireData(); std::copy(r.begin(), r.end(), q); return *result; }
};
/* minimiser m with value 0 */
std::shared_ptr<KinkProb> convexKink(Gen &g, SplitMix &r, int n) {
    auto P = std::make_shared<KinkProb>(); P->maxf = g.boolean(); int rank = g.integer(0, 2);
    double lo = g.pick(std::vector<double>{1, 0.1, 1, 10}), hi = lo * g.pick(std::vector<double>{1, 10, 100});
    P->A = rank == 0 ? Mat(n, n) : spdMat(r, n, false, lo, hi);
    P->m.assign(n, 0); for (auto &e : P->m) e = r.normal(); P->g.assign(n, 0);
    int k = P->maxf ? g.integer(n + 1, n + 3) : (rank ? g.integer(0, n + 1) : g.integer(n, n + 2));
    double scale = g.pick(std::vector<double>{1, 1, 0.1, 10});
    P->Q = randMat(r, k, n, false, scale); P->c.assign(k, 1); P->d.assign(k, 0);
    if (P->maxf) { V w(k); double s = 0; for (auto &e : w) { e = 0.2 + r.unif(); s += e; } for (int j = 0; j < n; j++) { double t = 0; for (int i = 0; i < k; i++) t += w[i] / s * P->Q(i, j).real(); for (int i = 0; i < k; i++) P->Q(i, j) -= t; } }
    else for (int i = 0; i < k; i++) { P->c[i] = 0.2 + r.unif(); double th = 0.9 * (2 * r.unif() - 1) * P->c[i]; for (int j = 0; j < n; j++) P->g[j] += th * P->Q(i, j).real(); }
    std::ostringstream o; o << (P->maxf ? "max of " : "sum of ") << k << " kinks, quadratic " << (rank ? lo : 0) << ".." << (rank ? hi : 0) << " scale " << scale << " n " << n << " "; g.addNote(o.str());
    return P;
}
struct CountEuc : public Euclidean {
    CountEuc(int n) : Euclidean(n) {}
    mutable long nR = 0;
    virtual Variable &Retraction(const Variable &x, const Vector &etax, Variable *result) const { nR++; return Euclidean::Retraction(x, etax, result); }
};
struct NIt { int status; double f1, f2, slope, newslope, step, init, eps, del, ndir; V x1, x2, gf1, gf2, eta1, eta2, minPv; };
template <class S> struct RecNS : public S {
    Gen *g = nullptr; double curv = 1; bool intr = false;
    template <class... A> RecNS(A... a) : S(a...) {}
    std::vector<NIt> its; bool stopped = false; double epsStop = 1; V xStop, ps, py; bool secant = false; long judged = 0, hulls = 0; double bigH = 0; bool kinked = false;
    V atV; std::shared_ptr<V> dummy;
    V hv(const V &v) { Vector a(this->gf1), b(this->gf1); std::copy(v.begin(), v.end(), a.ObtainWriteEntireData()); this->HvSub(a, &b); return rawE(b); }
    double ip(const V &u, const V &v) { Vector a(this->gf1), b(this->gf1); std::copy(u.begin(), u.end(), a.ObtainWriteEntireData()); std::copy(v.begin(), v.end(), b.ObtainWriteEntireData()); return this->Mani->Metric(this->x1, a, b); }
    virtual void GetSearchDir(void) {
        constexpr bool rgs = std::is_same<S, RGS>::value;
        double del = this->Del;
        if (!rgs && secant) {
            double ys = ip(py, ps);
            V h = hv(py); secant = false;
            for (size_t i = 0; i < py.size(); i++) { V e(py.size(), 0.0); e[i] = 1; bigH = std::max(bigH, vnrm(hv(e))); } /* the update's rounding grows with the operator */
            closeV(*g, h, ps, vnrm(ps) + vnrm(h) + 1e-7 * bigH * vnrm(py), 1e-5 * std::max(1.0, std::sqrt(ip(py, py) * ip(ps, ps)) / ys), "the approximation does not map the change of gradient to the step");
            judged++;
        }
        S::GetSearchDir();
        int k = rgs ? this->Lengthgfs : this->Currentlengthgfs; if (k > 1) hulls++; (void) del;
        std::vector<V> G; for (int i = 0; i < k; i++) G.push_back(rawE(this->gfs[i]));
        V p = rawE(this->minPv), e = rawE(this->eta1); double big = 0;
        for (auto &q : G) big = std::max(big, vnrm(q));
        V hp = rgs ? p : hv(p); double n2 = ip(p, hp), hq = n2; for (auto &q : G) hq = std::max(hq, rgs ? ip(q, q) : std::fabs(ip(q, hv(q))));
        for (auto &q : G) { if (ip(hp, q) < n2 - 1e-4 * hq) { std::ostringstream w; w << "the shortest vector has product " << ip(hp, q) << " with a subgradient, less than its square " << n2 << " (of " << k << ")"; g->fail(w.str()); } }
        double here = std::sqrt(std::max(0.0, ip(p, p)));
        if (std::fabs(this->ndir1 - here) > 1e-10 * here) { g->require(this->ndir1 <= here, "the stationarity measure is not the length of the shortest vector"); /* measured by the hull in the plain norm */
            g->require(!rgs && std::sqrt(std::max(0.0, n2)) <= 1.001 * this->Del * this->lambdaLower, "the stationarity measure is not the length of the shortest vector");
            HullRef ref = shortest(G, Mat::eye(p.size())); g->close(this->ndir1, std::sqrt(std::max(0.0, ref.val)), big, 1e-4, "the stationarity measure is not the length of the shortest vector"); g->label("measured apart");
        }
        if (rgs && !(this->ndir1 > 0)) return;
        if (getenv("VP_DBG") && !vfinite(e)) { fprintf(stderr, "k %d minPv %g hp %g ndir %g\n", k, vnrm(p), vnrm(hp), this->ndir1); for (auto &q : G) fprintf(stderr, " q %g Hq %g\n", q[0], hv(q)[0]); }
        if (rgs) closeV(*g, e, vscale(-1 / this->ndir1, p), 1, 1e-10, "direction of the gradient sampling method");
        else closeV(*g, e, vscale(-1, hp), 1e-300 + vnrm(hp), 1e-10, "direction is not that of the shortest vector");
    }
    virtual bool IsStopped(void) { bool r = S::IsStopped(); stopped = r; epsStop = this->Eps; xStop = rawE(this->x1); if (getenv("VP_DBG")) fprintf(stderr, "  stop %d ndir1 %g Eps %g Del %g f1 %.17g\n", r, this->ndir1, this->Eps, this->Del, this->f1); return r; }
    virtual void UpdateData(void) {
        NIt t; t.status = this->LSstatus; t.f1 = this->f1; t.f2 = this->f2; t.slope = this->initialslope; t.newslope = this->newslope; t.step = this->stepsize; t.init = this->initiallength; t.eps = this->Eps; t.del = this->Del; t.ndir = this->ndir1;
        t.x1 = rawE(this->x1); t.x2 = rawE(this->x2); t.gf1 = rawE(this->gf1); t.gf2 = rawE(this->gf2); t.eta1 = rawE(this->eta1); t.eta2 = rawE(this->eta2); t.minPv = rawE(this->minPv);
        its.push_back(t);
        if (getenv("VP_DBG")) fprintf(stderr, "it %d f1 %.17g f2 %.17g slope %g new %g step %g status %d ndir %g |eta| %g\n", this->iter, t.f1, t.f2, t.slope, t.newslope, t.step, t.status, t.ndir, vnrm(t.eta1));
        S::UpdateData();
        if constexpr (!std::is_same<S, RGS>::value) if (this->isupdated) { bool some = true; if constexpr (std::is_same<S, LRBFGSSub>::value) some = this->Currentlength > 0; ps = rawE(this->s); py = rawE(this->y); secant = some && vnrm(py) > 1e-10 * (vnrm(t.gf1) + vnrm(t.gf2)) && vnrm(t.eta2) > 1e-10 * (1 + vnrm(t.x1)); }
    }
};
template <class S> void settings(Gen &g, S &s, double scale) {
    s.Verbose = ITERRESULT; s.OutputGap = 1000000; s.Max_Iteration = g.pick(std::vector<int>{200, 200, 20, 3, 0}); if (g.chance(1, 6)) s.Min_Iteration = std::min<integer>(s.Max_Iteration, g.integer(1, 5));
    s.Stop_Criterion = (StopCritNSM) g.pick(std::vector<int>{NSM_DIR_F, NSM_DIR_F_0, NSM_DIR_F_0}); s.Tolerance = g.pick(std::vector<double>{1e-6, 1e-4, 1e-3, 1e-2});
    s.Eps = g.pick(std::vector<double>{1, 0.1, 1e-3}); s.Theta_eps = g.pick(std::vector<double>{0.01, 0.1, 1e-3}); s.Min_Eps = g.pick(std::vector<double>{1e-6, 1e-4, 1e-8}); s.Del = g.pick(std::vector<double>{1, 0.1, 1e-3}); s.Theta_del = g.pick(std::vector<double>{0.01, 0.1, 0.5});
    s.LS_alpha = g.pick(std::vector<double>{1e-4, 1e-4, 0.1}); s.LS_beta = g.pick(std::vector<double>{0.999, 0.9, 0.5}); if (g.chance(1, 4)) s.Maxstepsize = g.pick(std::vector<double>{2, 1, 8});
    if (g.chance(1, 4)) s.NumExtraGF = g.integer(1, 4);
    std::ostringstream o; o << "Eps " << s.Eps << "*" << s.Theta_eps << ">" << s.Min_Eps << " Del " << s.Del << "*" << s.Theta_del << " tol " << s.Tolerance << " crit " << s.Stop_Criterion << " alpha " << s.LS_alpha << " beta " << s.LS_beta << " maxstep " << s.Maxstepsize << " iter " << s.Max_Iteration << " "; g.addNote(o.str()); (void) scale;
}
template <class S> void subRun(Gen &g, int maxn) {
    int n = g.integer(1, maxn); SplitMix r = g.data(); auto P = convexKink(g, r, n); CountEuc E(n); P->SetDomain(&E);
    Variable x0 = E.GetEMPTY(); { realdp *q = x0.ObtainWriteEntireData(); double far = g.pick(std::vector<double>{1, 0.1, 10}); for (int i = 0; i < n; i++) q[i] = P->m[i] + far * r.normal(); }
    V xs = rawE(x0); RecNS<S> s(P.get(), &x0); s.g = &g; settings(g, s, 1);
    if constexpr (std::is_same<S, LRBFGSSub>::value) if (g.chance(1, 2)) s.LengthSY = g.integer(0, 6);
    double minEps = s.Min_Eps, tol = s.Tolerance, maxstep = s.Maxstepsize, minstep = s.Minstepsize, alpha = s.LS_alpha, beta = s.LS_beta, eps0 = s.Eps; long maxit = s.Max_Iteration; int crit = s.Stop_Criterion;
    P->nf = P->ng = 0; E.nR = 0; s.Run();
    g.require(P->nf == s.Getnf(), "reported function evaluations differ from those made"); g.require(P->ng == s.Getng(), "reported gradient evaluations differ from those made"); g.require(E.nR == s.GetnR(), "reported retractions differ from those made");
    g.require((long) s.its.size() == s.GetIter() && s.GetIter() <= maxit, "iterations reported differ from those made");
    V prev = xs; double fprev = P->val(xs); const double f0 = fprev; Vector fse = s.GetfunSeries(), dse = s.GetdirSeries(), si = s.GetSolverInfo().Field("acceptedstepsize"); const double *fs_ = fse.ObtainReadData(), *ds = dse.ObtainReadData(), *as = si.ObtainReadData();
    g.require(s.GetlengthSeries() == s.GetIter() + 1, "length of the series"); g.require(fs_[0] == fprev, "series does not start with the value at the start");
    for (size_t k = 0; k < s.its.size(); k++) {
        NIt &t = s.its[k]; double sc = 1e-300 + std::fabs(t.f1) + std::fabs(t.f2) + P->lip(vnrm(t.x1) + vnrm(P->m) + vnrm(t.x2)) * (vnrm(t.x1) + vnrm(P->m));
        g.require(vdiff(t.x1, prev) == 0 && t.f1 == fprev, "an iteration does not start where the previous one ended");
        closeV(g, t.gf1, P->grad(t.x1), 1 + vnrm(t.gf1), 1e-12, "gradient used by the iteration");
        closeV(g, t.x2, vadd(t.x1, t.step, t.eta1), 1 + vnrm(t.x1) + vnrm(t.x2), t.status == LSNSM_MINSTEPSIZE ? 1e-6 : 1e-12, "next iterate is not the step along the direction");
        g.close(t.f2, P->val(t.x2), sc, 1e-13, "objective at the next iterate");
        double m2 = vdot(t.minPv, t.eta1); g.close(t.slope, m2, 1e-300 + std::fabs(m2), 1e-10, "slope"); g.require(t.slope < 0, "the direction does not descend");
        if (t.status == LSNSM_MINSTEPSIZE) g.require(t.f2 <= t.f1 + 1e-12 * sc + 4 * minstep * vnrm(t.eta1) * P->lip(vnrm(t.x1) + vnrm(P->m)), "an iteration ended above its start");
        else { if (!(t.f2 <= t.f1 + alpha * t.slope * t.step)) { std::ostringstream w; w << "an accepted step does not decrease enough: " << t.f2 - t.f1 << " for a bound of " << alpha * t.slope * t.step; g.fail(w.str()); } }
        if (t.status == LSNSM_SUCCESS) { g.require(vdot(t.gf2, t.eta1) >= beta * t.slope - 1e-9 * std::fabs(t.slope), "the slope at an accepted step is too steep"); g.require(t.step <= maxstep && t.step > minstep, "step outside its bounds"); }
        if (t.status == LSNSM_MAXSTEPSIZE) g.require(t.step == maxstep, "step is not the largest");
        g.require(t.init == 1 && as[k + 1] == t.step && fs_[k + 1] == t.f2 && ds[k] == t.ndir, "series differ from the run");
        prev = t.x2; fprev = t.f2;
    }
    V xf = rawE(s.GetXopt()); g.require(vdiff(xf, prev) == 0 && s.Getfinalfun() == fprev, "the reported solution is not the last iterate");
    g.require(s.Eps >= minEps * (1 - 1e-12) || s.Eps == eps0, "sampling radius below its minimum"); g.require(fprev <= f0 + 1e-9 * (1 + std::fabs(f0)), "the reported solution is above the start");
    double gap = P->val(xf); g.require(gap >= -1e-9 * (1 + P->lip(vnrm(vadd(xf, -1, P->m)) + 1)), "value below the minimum");
    bool conv = s.stopped && s.GetIter() < maxit && (s.its.empty() || s.its.back().status == LSNSM_SUCCESS || s.its.back().status == LSNSM_MAXSTEPSIZE);
    if (conv) {
        double dist = vnrm(vadd(s.xStop, -1, P->m)) /* the last step may come after the test */, L = P->lip(dist + 2 * s.epsStop), meas = s.Getnormnd();
        g.require(crit == NSM_DIR_F ? meas < tol : s.Getnormndnd0() < tol, "stopped with its measure above the tolerance");
        double bound = meas * dist + 2 * L * s.epsStop + 1e-7 * (1 + f0);
        if (!(gap <= bound)) { std::ostringstream w; w << "converged at " << gap << " above the minimum, its measure " << meas << " at distance " << dist << " and radius " << s.epsStop << " allows " << bound; g.fail(w.str()); }
        g.label("converged");
    } else g.label(s.GetIter() >= maxit ? "iterations" : "line search");
    if (s.its.size() >= 3 && s.hulls) g.nontrivial();
}
} // namespace

VP_CHECK("C23", gradient_sampling, 3000, 60000, "at least three iterations were made") { subRun<RGS>(g, 4); }
VP_CHECK("C23", subgradient_bfgs, 8000, 200000, "at least three iterations were made and a hull of several subgradients was used") { subRun<RBFGSSub>(g, 5); }
VP_CHECK("C23", subgradient_lbfgs, 8000, 200000, "at least three iterations were made and a hull of several subgradients was used") { subRun<LRBFGSSub>(g, 5); }

/* ---------------- proximal gradient ---------------- */
namespace {
struct CompProb : public WaveProb { /* smooth waves + lam |x|_1 */
    double lam = 0; V w; mutable long nprec = 0;
    double total(const V &x) const { double s = val(x); for (double e : x) s += lam * std::fabs(e); return s; }
    virtual realdp f(const Variable &x) const { nf++; return total(rawE(x)); }
    virtual Vector &PreConditioner(const Variable &x, const Vector &, Vector *result) const { nprec++; *result = Vector((integer) w.size()); std::copy(w.begin(), w.end(), result->ObtainWriteEntireData()); (void) x; return *result; }
    virtual Vector &ProxW(const Vector &x, const Vector &Weight, Vector *result) const {
        V v = rawE(x); const realdp *q = Weight.ObtainReadData(); int nb = Weight.Getlength(), bs = v.size() / nb;
        for (int i = 0; i < (int) v.size(); i++) { double t = lam / q[i / bs]; v[i] = v[i] > t ? v[i] - t : v[i] < -t ? v[i] + t : 0; }
        std::copy(v.begin(), v.end(), result->ObtainWriteEntireData()); return *result;
    }
    virtual Vector &CalJW(const Vector &x, const Vector &eta, const Vector &Weight, Vector *result) const {
        V v = rawE(x), e = rawE(eta); const realdp *q = Weight.ObtainReadData(); int nb = Weight.Getlength(), bs = v.size() / nb;
        for (int i = 0; i < (int) v.size(); i++) if (!(std::fabs(v[i]) * q[i / bs] > lam)) e[i] = 0;
        std::copy(e.begin(), e.end(), result->ObtainWriteEntireData()); return *result;
    }
};
/* orthonormal (Euclidean) bases of the tangent and normal space at x from the projection */
struct Spaces { std::vector<V> T, N; };
Spaces spaces(const Manifold *M, const Variable &x) {
    Spaces s; int n = x.Getlength();
    for (int pass = 0; pass < 2; pass++) {
        std::vector<V> C; auto &L = pass ? s.N : s.T;
        for (int i = 0; i < n; i++) { Vector e = M->GetEMPTYEXTR(); realdp *q = e.ObtainWriteEntireData(); std::fill(q, q + n, 0.0); q[i] = 1; Vector t(e); M->ExtrProjection(x, e, &t); V v = rawE(t); if (pass) { v = vscale(-1, v); v[i] += 1; } C.push_back(v); }
        for (;;) { /* largest remainder first */
            int at = -1; double big = 1e-6; for (int i = 0; i < n; i++) if (vnrm(C[i]) > big) { big = vnrm(C[i]); at = i; }
            if (at < 0) break; V v = C[at]; for (auto &b : L) v = vadd(v, -vdot(b, v), b); v = vscale(1 / vnrm(v), v); L.push_back(v);
            for (auto &c : C) c = vadd(c, -vdot(c, v), v); C[at].assign(n, 0);
        }
    }
    return s;
}
/* minimum over the tangent space of <g,e> + 1/2 |e|_W^2 + lam |x+e|_1 by an accelerated method on the dual */
struct ProxRef { V eta; double low = -1e300; double res = 0; };
double modelAt(const V &x, const V &g, const V &w, double lam, const V &e) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += g[i] * e[i] + 0.5 * w[i] * e[i] * e[i] + lam * (std::fabs(x[i] + e[i]) - std::fabs(x[i])); return s; }
ProxRef proxRef(const Spaces &sp, const V &x, const V &g, const V &w, double lam) {
    int d = sp.N.size(), n = x.size(); V L(d, 0), y(d, 0); double mu = 1e300, t = 1; for (double e : w) mu = std::min(mu, e); ProxRef best; best.res = 1e300;
    auto inner = [&](const V &l, double &val) { V c(g); for (int k = 0; k < d; k++) c = vadd(c, -l[k], sp.N[k]); V e(n); for (int i = 0; i < n; i++) { double z = x[i] - c[i] / w[i], th = lam / w[i]; z = z > th ? z - th : z < -th ? z + th : 0; e[i] = z - x[i]; } val = modelAt(x, c, w, lam, e); return e; };
    for (int it = 0; it < 20000; it++) {
        double val; V e = inner(y, val); V r(d); for (int k = 0; k < d; k++) r[k] = vdot(sp.N[k], e); double rn = vnrm(r);
        best.low = std::max(best.low, val); if (rn < best.res) { best.res = rn; V p(n, 0); for (auto &b : sp.T) p = vadd(p, vdot(b, e), b); best.eta = p; }
        if (rn < 1e-13 * (1 + vnrm(e))) break;
        V Ln = vadd(y, -mu, r); double t2 = (1 + std::sqrt(1 + 4 * t * t)) / 2; V st = vadd(Ln, -1, L); if (vdot(r, st) > 0) { t2 = 1; t = 1; } y = vadd(Ln, (t - 1) / t2, st); L = Ln; t = t2;
    }
    return best;
}
struct Comp { std::shared_ptr<Manifold> M; std::shared_ptr<CompProb> P; double base = 1; int n = 1, p = 1, kind = 0; };
Comp makeComp(Gen &g, SplitMix &r, bool solver) {
    Comp c; c.kind = g.choice(solver ? 5 : 5); c.n = g.integer(1, 5); c.p = g.integer(1, std::min(c.n, 3)); bool z = c.kind >= 3; std::ostringstream o;
    if (z) { c.n = std::min(c.n, 4); c.p = std::min(c.p, 2); auto S = std::make_shared<CStiefel>(c.n, c.p); if (c.kind == 3) S->ChooseParamsSet2(); else S->ChooseParamsSet4(); c.M = S; }
    else { auto S = std::make_shared<Stiefel>(c.n, c.p); if (c.kind == 0) S->ChooseParamsSet2(); else if (c.kind == 1) S->ChooseParamsSet4(); else S->ChooseParamsSet5(); c.M = S; }
    const char *nm[] = {"Stiefel qf", "Stiefel polar", "Stiefel Cayley", "CStiefel qf", "CStiefel polar"};
    int N = c.n * c.p * (z ? 2 : 1); auto P = std::make_shared<CompProb>(); auto w = makeWave(r, N, g.boolean(), g.integer(0, 2)); static_cast<WaveProb &>(*P) = *w;
    P->lam = g.pick(std::vector<double>{0, 0.1, 0.5, 2, 0.01}); double lip = nrm(P->A); for (size_t k = 0; k < P->c.size(); k++) { double s = 0; for (int j = 0; j < N; j++) s += std::norm(P->W(k, j)); lip += std::fabs(P->c[k]) * s; }
    c.base = std::max(1e-2, lip * g.pick(std::vector<double>{1, 0.5, 2, 0.2})); int how = g.integer(0, 2);
    int len = how == 0 ? 1 : how == 1 ? c.p : N; for (int i = 0; i < len; i++) P->w.push_back(c.base * (how == 0 ? 1 : 0.5 + 2 * r.unif()));
    P->SetDomain(c.M.get()); c.P = P; o << nm[c.kind] << " n " << c.n << " p " << c.p << " lambda " << P->lam << " weights " << len << " of size " << c.base << " "; g.addNote(o.str()); g.label(nm[c.kind]);
    return c;
}
V fullW(const V &w, int N, double ada) { V r(N); int bs = N / w.size(); for (int i = 0; i < N; i++) r[i] = ada * w[i / bs]; return r; }
double tangentDefect(const Spaces &sp, const V &e) { double m = 0; for (auto &b : sp.N) m = std::max(m, std::fabs(vdot(b, e))); return m; }
V liftOf(const Manifold *M, const Variable &x, const Vector &D) { Vector t = M->GetEMPTYEXTR(); M->ObtainNorVerExtr(x, D, &t); return rawE(t); }
void judgeProx(Gen &g, const Spaces &sp, const V &x, const V &gf, const V &W, double lam, const V &eta, double smtol, const V &lift) {
    /* what the semismooth Newton method left over: it may give up early, the step is then only as good as its residual */
    V e0(x.size()); for (size_t i = 0; i < x.size(); i++) { double z = x[i] - (gf[i] - lift[i]) / W[i], th = lam / W[i]; z = z > th ? z - th : z < -th ? z + th : 0; e0[i] = z - x[i]; }
    double E2 = 0; for (auto &b : sp.N) E2 += std::pow(vdot(b, e0), 2); if (E2 > 1.01 * smtol + 1e-28) { g.label("gave up"); return; } g.label("solved"); smtol = std::max(smtol, E2);
    double scale = 1e-300 + vnrm(lift) + vnrm(gf) + lam * std::sqrt((double) x.size()); for (double e : W) scale = std::max(scale, e * (1 + vnrm(eta))); 
    g.require(vfinite(eta), "the proximal step is not finite"); g.require(tangentDefect(sp, eta) <= 1e-11 * (1 + vnrm(eta)), "the proximal step is not tangent");
    ProxRef ref = proxRef(sp, x, gf, W, lam); double m = modelAt(x, gf, W, lam, eta), tol = 5 * scale * std::sqrt(smtol) + 1e-9 * scale;
    if (getenv("VP_DBG")) fprintf(stderr, "prox model %.15g low %.15g ref %.15g res %g tol %g eta %g diff %g\n", m, ref.low, modelAt(x, gf, W, lam, ref.eta), ref.res, tol, vnrm(eta), vdiff(eta, ref.eta));
    if (!(m >= ref.low - 1e-9 * scale)) g.fail("internal: the reference's lower bound is above the model");
    if (!(m <= ref.low + tol)) { double alt = modelAt(x, gf, W, lam, ref.eta); if (!(m <= alt + tol)) { std::ostringstream o; o << "the proximal model is " << m << " at the step and " << alt << " at another tangent vector (lower bound " << ref.low << ", tolerance " << tol << ")"; g.fail(o.str()); } }
}
} // namespace

VP_CHECK("C23", proximal_map, 30000, 600000, "a nonzero weight of the nonsmooth term and a tangent space of dimension at least one") {
    SplitMix r = g.data(); Comp c = makeComp(g, r, false); genrandseed(g.integer(0, 100000)); Variable x = c.M->RandominManifold(); auto &P = *c.P;
    if (g.chance(1, 3)) { realdp *q = x.ObtainWriteEntireData(); int N = x.Getlength(); std::fill(q, q + N, 0.0); int z = c.kind >= 3 ? 2 : 1; for (int j = 0; j < c.p; j++) q[z * (j * c.n + j)] = g.boolean() ? 1 : -1; g.addNote("start at a sparse point "); }
    V xs = rawE(x); P.f(x); Vector gf = c.M->GetEMPTY(); P.Grad(x, &gf); double ada = g.pick(std::vector<double>{1, 0.7, 3}), tol = g.pick(std::vector<double>{1e-10, 1e-20, 1e-16}), sl = g.pick(std::vector<double>{0.2, 0.02, 1e-6});
    Vector initD, eta = c.M->GetEMPTY(); integer it = 0, cg = 0; Spaces sp = spaces(c.M.get(), x);
    int rounds = g.integer(1, 2); V gs = rawE(gf);
    for (int k = 0; k < rounds; k++) {
        c.M->TangentSpaceProximalMap(x, gf, ada, tol, sl, &P, &initD, &it, &cg, &eta);
        std::ostringstream o; o << "ada " << ada << " SMtol " << tol << " SMlambda " << sl << " iterations " << it << " "; g.addNote(o.str());
        g.require(vdiff(rawE(x), xs) == 0 && vdiff(rawE(gf), gs) == 0, "an input was changed");
        judgeProx(g, sp, xs, gs, fullW(P.w, xs.size(), ada), P.lam, rawE(eta), tol, liftOf(c.M.get(), x, initD));
        { /* giving up is rare: it must not happen from every start */
            auto left = [&](const Vector &D) { V l = liftOf(c.M.get(), x, D), W = fullW(P.w, xs.size(), ada), e(xs.size()); for (size_t i = 0; i < xs.size(); i++) { double zz = xs[i] - (gs[i] - l[i]) / W[i], th = P.lam / W[i]; zz = zz > th ? zz - th : zz < -th ? zz + th : 0; e[i] = zz - xs[i]; } double s = 0; for (auto &b : sp.N) s += std::pow(vdot(b, e), 2); return s; };
            bool ok = left(initD) <= 1.01 * tol + 1e-28; int tries = 0;
            for (; !ok && tries < 40; tries++) { Vector D; if (tries) { D = initD; V l(D.Getlength()); for (auto &q : l) q = std::pow(10, 1.5 * r.unif() - 1) * (vnrm(gs) + P.lam) * r.normal(); std::copy(l.begin(), l.end(), D.ObtainWriteEntireData()); } Vector e2 = c.M->GetEMPTY(); integer i2, c2; c.M->TangentSpaceProximalMap(x, gf, ada, 1e-10, tries % 2 ? 0.2 : 1e-3, &P, &D, &i2, &c2, &e2); ok = left(D) <= 1.01e-10; }
            if (tries) g.label("retried"); g.require(ok, "the proximal subproblem is not solved from any start");
        }
        if (k == 0 && rounds == 2) { /* another gradient from the previous multiplier */ V v(xs.size(), 0); for (auto &b : sp.T) v = vadd(v, r.normal(), b); std::copy(v.begin(), v.end(), gf.ObtainWriteEntireData()); gs = v; }
    }
    if (P.lam > 0 && !sp.T.empty()) g.nontrivial();
}

namespace { struct Inner : public Manifold { using Manifold::ComputeBLambda; using Manifold::EW; using Manifold::GLdW; }; }
VP_CHECK("C15", multiplier_jacobian, 20000, 400000, "the normal space has dimension at least one, some entries pass and some do not") {
    SplitMix r = g.data(); Comp c = makeComp(g, r, false); genrandseed(g.integer(0, 100000)); Variable x = c.M->RandominManifold(); auto &P = *c.P;
    auto fB = &Inner::ComputeBLambda; auto fE = &Inner::EW; auto fG = &Inner::GLdW; const Manifold &M = *c.M;
    int m = M.GetExtrDim() - M.GetIntrDim(); if (m < 1) throw Discard();
    Vector W((integer) P.w.size()); std::copy(P.w.begin(), P.w.end(), W.ObtainWriteEntireData());
    double big = 0, sm = 1e300; for (double e : P.w) { big = std::max(big, e); sm = std::min(sm, e); }
    Vector gf = M.GetEMPTYEXTR(); { int N = gf.Getlength(); realdp *q = gf.ObtainWriteEntireData(); for (int i = 0; i < N; i++) q[i] = big * 0.5 * r.normal(); }
    auto mk = [&](const V &v) { Vector e((integer) v.size()); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; };
    V d(m), v(m); double ls = big * g.logreal(0.01, 2); for (auto &e : d) e = ls * r.normal(); for (auto &e : v) e = r.normal();
    auto B = [&](const V &at) { Vector b(x), D = mk(at); (M.*fB)(x, D, W, gf, &P, &b); return b; };
    auto E = [&](const V &at) { Vector b = B(at), o(m); (M.*fE)(x, b, W, &P, &o); return rawE(o); };
    double h = 1e-6 * ls; Vector b0 = B(d), b1 = B(vadd(d, h, v)), b2 = B(vadd(d, -h, v)); V w = fullW(P.w, x.Getlength(), 1); int pass = 0, N = x.Getlength(); V q0 = rawE(b0), q1 = rawE(b1), q2 = rawE(b2);
    for (int i = 0; i < N; i++) { double th = P.lam / w[i]; auto side = [&](double z) { return z > th ? 1 : z < -th ? -1 : 0; }; if (side(q0[i]) != side(q1[i]) || side(q0[i]) != side(q2[i])) throw Discard(); pass += P.lam == 0 || side(q0[i]) != 0; }
    V xs = rawE(x), g0 = rawE(gf); Vector o(m), V0 = mk(v); (M.*fG)(x, V0, W, b0, &P, &o);
    V num = vscale(1 / (2 * h), vadd(E(vadd(d, h, v)), -1, E(vadd(d, -h, v))));
    closeV(g, num, rawE(o), vnrm(v) / sm + (1 + vnrm(q0)) * 1e-3 / ls, 1e-6, "generalised Jacobian of the normal residual in the multiplier");
    g.require(vdiff(rawE(x), xs) == 0 && vdiff(rawE(gf), g0) == 0 && vdiff(rawE(V0), v) == 0, "an input was changed");
    if (pass > 0 && pass < N) g.nontrivial();
}

namespace {
template <class B> struct CntMan : public B { CntMan(int n, int p) : B(n, p) {} mutable long nR = 0; virtual Variable &Retraction(const Variable &x, const Vector &e, Variable *r) const { nR++; return B::Retraction(x, e, r); } };
struct PIt { int status; V x1, gf1, eta1, x2, lift; double f1, f2, slope, step, init, ada, smtol, ndir; int iter; };
struct AIt { V x1, z1, z2, y1, y2, gfy1, eta1, lift; double f1, fz2, s1, s2, ada, smtol; int iter; bool stop; };
template <class S> struct RecPG : public S {
    template <class... A> RecPG(A... a) : S(a...) {}
    std::vector<PIt> its; std::vector<AIt> acc; int stops = 0; bool lastStop = false;
    virtual void LinesearchArmijo(void) {
        PIt t; t.x1 = rawE(this->x1); t.gf1 = rawE(this->gf1); t.eta1 = rawE(this->eta1); t.f1 = this->f1; t.slope = this->initialslope; t.init = this->initiallength; t.ada = this->adavalue; t.smtol = this->SMtol; t.ndir = this->ndir1; t.iter = this->iter; t.lift = liftOf(this->Mani, this->x1, this->initD);
        S::LinesearchArmijo();
        t.status = this->LSstatus; t.x2 = rawE(this->x2); t.f2 = this->f2; t.step = this->stepsize; its.push_back(t);
        if (getenv("VP_DBG")) fprintf(stderr, "ls iter %d f1 %.17g f2 %.17g slope %g step %g status %d ndir %g smtol %g ada %g\n", t.iter, t.f1, t.f2, t.slope, t.step, t.status, t.ndir, t.smtol, t.ada);
    }
    virtual bool IsStopped(void) {
        bool r = S::IsStopped(); stops++; lastStop = r;
        if constexpr (std::is_same<S, AManPG>::value) if (stops > 1) {
            AIt t; t.x1 = rawE(this->x1); t.z1 = rawE(this->z1); t.z2 = rawE(this->z2); t.y1 = rawE(this->y1); t.y2 = rawE(this->y2); t.gfy1 = rawE(this->gfy1); t.eta1 = rawE(this->eta1); t.lift = liftOf(this->Mani, this->y1, this->initDy); t.f1 = this->f1; t.fz2 = this->fz2; t.s1 = this->s1; t.s2 = this->s2; t.ada = this->adavalue; t.smtol = this->SMtol; t.iter = this->iter; t.stop = r; acc.push_back(t);
            if (getenv("VP_DBG")) fprintf(stderr, "it %d f1 %.17g fz2 %.17g fy2 %.17g s1 %g |eta| %g stop %d\n", t.iter, t.f1, t.fz2, this->fy2, t.s1, vnrm(t.eta1), r);
        }
        return r;
    }
};
double feasOf(const V &x, int n, int p, bool z) { Mat X(n, p); for (int i = 0; i < n * p; i++) X.a[i] = z ? cd(x[2 * i], x[2 * i + 1]) : cd(x[i]); return nrm(H(X) * X - Mat::eye(p)); }
template <class S> void proxRun(Gen &g) {
    constexpr bool acc = std::is_same<S, AManPG>::value;
    SplitMix r = g.data(); Comp c = makeComp(g, r, true); auto &P = *c.P; long *cnt = nullptr; bool z = c.kind >= 3;
    if (!z) { auto M = std::make_shared<CntMan<Stiefel>>(c.n, c.p); if (c.kind == 0) M->ChooseParamsSet2(); else if (c.kind == 1) M->ChooseParamsSet4(); else M->ChooseParamsSet5(); cnt = &M->nR; c.M = M; }
    else { auto M = std::make_shared<CntMan<CStiefel>>(c.n, c.p); if (c.kind == 3) M->ChooseParamsSet2(); else M->ChooseParamsSet4(); cnt = &M->nR; c.M = M; }
    P.SetDomain(c.M.get()); genrandseed(g.integer(0, 100000)); Variable x0 = c.M->RandominManifold(); V xs = rawE(x0); const double f0 = P.total(xs);
    RecPG<S> s(&P, &x0); s.Verbose = ITERRESULT; s.OutputGap = 1000000; s.Max_Iteration = g.pick(std::vector<int>{100, 100, 20, 3, 0}); s.Tolerance = g.pick(std::vector<double>{1e-4, 1e-4, 1e-2, 1e-7}); s.Stop_Criterion = (StopCritNSM) g.pick(std::vector<int>{NSM_DIR_F_0, NSM_DIR_F, NSM_FUN_REL});
    s.Variant = g.boolean() ? LSPG_REGULAR : LSPG_ADALIPSCHITZ; s.LS_ratio = g.pick(std::vector<double>{0.5, 0.8, 0.1}); s.LS_alpha = g.pick(std::vector<double>{1e-4, 1e-4, 0.1, 0.4}); s.Minstepsize = g.pick(std::vector<double>{2e-2, 2e-2, 1e-5}); int gap = 5; if constexpr (acc) gap = s.SGIterGap = g.pick(std::vector<int>{5, 1, 2, 10});
    std::ostringstream o; o << "crit " << s.Stop_Criterion << " tol " << s.Tolerance << " variant " << s.Variant << " ratio " << s.LS_ratio << " alpha " << s.LS_alpha << " minstep " << s.Minstepsize << " iter " << s.Max_Iteration << " gap " << gap << " "; g.addNote(o.str());
    double alpha = s.LS_alpha, ratio = s.LS_ratio, minstep = s.Minstepsize, tol = s.Tolerance; int crit = s.Stop_Criterion; bool reg = s.Variant == LSPG_REGULAR; long maxit = s.Max_Iteration;
    P.nf = P.ng = 0; *cnt = 0; s.Run(); long nf = P.nf, ng = P.ng, nR = *cnt;
    g.require(s.Getnf() == nf, "reported function evaluations differ from those made"); g.require(s.Getng() == ng, "reported gradient evaluations differ from those made"); g.require(s.GetnR() == nR, "reported retractions differ from those made");
    double lipF = nrm(P.A) * 2 + vnrm(P.b); for (size_t k = 0; k < P.c.size(); k++) lipF += std::fabs(P.c[k]) * 4; double sc = 1 + std::fabs(f0) + lipF * c.p + P.lam * c.n * c.p; int N = xs.size();
    auto var = [&](const V &v) { Variable q = c.M->GetEMPTY(); std::copy(v.begin(), v.end(), q.ObtainWriteEntireData()); return q; };
    auto tan = [&](const V &v) { Vector q = c.M->GetEMPTY(); std::copy(v.begin(), v.end(), q.ObtainWriteEntireData()); return q; };
    V cur = xs; double fcur = f0, smt = 1e300; long done = 0;
    for (size_t k = 0; k < s.its.size(); k++) {
        PIt &t = s.its[k]; Variable x1 = var(t.x1); g.close(t.f1, P.total(t.x1), sc, 1e-13, "value at the iterate"); V ge = P.grad(t.x1); Vector gt = c.M->GetEMPTYEXTR(); c.M->ExtrProjection(x1, tan(ge), &gt); closeV(g, t.gf1, rawE(gt), 1 + vnrm(ge), 1e-12, "gradient of the smooth part");
        if (!acc) { g.require(vdiff(t.x1, cur) == 0 && t.f1 == fcur, "an iteration does not start where the previous one ended"); }
        g.require(feasOf(t.x1, c.n, c.p, z) <= 1e-10, "iterate is not feasible");
        Spaces sp = spaces(c.M.get(), x1); judgeProx(g, sp, t.x1, t.gf1, fullW(P.w, N, t.ada), P.lam, t.eta1, t.smtol, t.lift);
        g.close(t.ndir, vnrm(t.eta1), 1e-300 + vnrm(t.eta1), 1e-10, "reported step length"); g.close(t.slope, vdot(t.gf1, t.eta1), 1e-300 + vnrm(t.gf1) * vnrm(t.eta1), 1e-12, "slope"); g.require(t.init == 1, "initial step size");
        g.require(reg ? t.ada == 1 : (t.ada > 0 && t.ada <= 1), "adaptive factor out of range"); g.require(t.smtol <= smt, "accuracy of the proximal step was lowered"); smt = t.smtol;
        double step = 1; while (step > t.step * (1 + 1e-12)) { if (step != t.step) { /* a larger trial: must have been rejected */ Vector e = tan(vscale(step, t.eta1)); Variable y = x0; c.M->Retraction(x1, e, &y); double fy = P.total(rawE(y)); g.require(!(fy < t.f1 + alpha * t.slope * step - 1e-9 * sc), "a larger trial step was acceptable"); } step *= ratio; }
        g.require(std::fabs(step - t.step) <= 1e-12 * step, "step is not a power of the shrinking factor");
        if (t.status == LSPG_SUCCESS) {
            if (!(t.f2 <= t.f1 + alpha * t.slope * t.step + 1e-15 * sc)) { std::ostringstream w; w << "an accepted step does not decrease enough: " << t.f2 - t.f1 << " for a bound of " << alpha * t.slope * t.step; g.fail(w.str()); }
            g.require(t.step >= minstep, "accepted step below the minimum"); Vector e = tan(vscale(t.step, t.eta1)); Variable y = x0; c.M->Retraction(x1, e, &y); closeV(g, t.x2, rawE(y), 1, 1e-10, "next iterate is not the retracted step"); g.close(t.f2, P.total(t.x2), sc, 1e-13, "value at the next iterate");
            cur = t.x2; fcur = t.f2; done++;
        } else { g.require(t.step < minstep, "gave up above the minimum step size"); g.label("tightened"); }
    }
    for (size_t k = 0; acc && k < s.acc.size(); k++) {
        AIt &t = s.acc[k]; Variable y1 = var(t.y1), z2 = var(t.z2); Variable q = x0;
        g.require(vfinite(t.z2) && vfinite(t.y2), "an iterate is not finite");
        g.require(feasOf(t.y1, c.n, c.p, z) <= 1e-10 && feasOf(t.z2, c.n, c.p, z) <= 1e-10, "iterate is not feasible");
        V ge = P.grad(t.y1); Vector gt = c.M->GetEMPTYEXTR(); c.M->ExtrProjection(y1, tan(ge), &gt); closeV(g, t.gfy1, rawE(gt), 1 + vnrm(ge), 1e-12, "gradient at the extrapolated point");
        Spaces sp = spaces(c.M.get(), y1); judgeProx(g, sp, t.y1, t.gfy1, fullW(P.w, N, t.ada), P.lam, t.eta1, t.smtol, t.lift);
        c.M->Retraction(y1, tan(t.eta1), &q); closeV(g, t.z2, rawE(q), 1, 1e-10, "the proximal step is not retracted from the extrapolated point"); g.close(t.fz2, P.total(t.z2), sc, 1e-13, "value at the proximal point");
        g.close(t.s2, (1 + std::sqrt(1 + 4 * t.s1 * t.s1)) / 2, t.s2, 1e-12, "extrapolation sequence");
        if (t.s1 == 1) closeV(g, t.y2, t.z2, 1, 1e-10, "extrapolation after a restart");
        g.close(t.f1, P.total(t.x1), sc, 1e-13, "value at the safeguard point");
        if (k) { g.require(vdiff(t.z1, s.acc[k - 1].z2) == 0 || t.s1 == 1, "the proximal points are not chained"); if (t.iter % gap) g.require(vdiff(t.x1, s.acc[k - 1].x1) == 0, "the safeguard point changed between safeguards"); }
    }
    if (acc) { /* safeguard: never above the Armijo step it is compared with */
        for (auto &t : s.its) if (t.status == LSPG_SUCCESS) { const AIt *a = nullptr; for (auto &b : s.acc) if (b.iter == t.iter) a = &b; if (!a) continue; fcur = a->f1; cur = a->x1; if (t.iter == 0) g.require(vdiff(a->x1, t.x1) == 0, "first safeguard point"); else if (!(a->f1 <= t.f2)) { std::ostringstream w; w << "the safeguard point has value " << a->f1 << ", above that of the line search " << t.f2; g.fail(w.str()); } }
    }
    V xf = rawE(s.GetXopt()); if (acc && s.acc.empty()) { cur = xs; fcur = s.Getfinalfun(); }
    g.require(vdiff(xf, cur) == 0 && s.Getfinalfun() == fcur, "the reported solution is not the last iterate"); g.close(s.Getfinalfun(), P.total(xf), sc, 1e-13, "reported value");
    if (!(s.Getfinalfun() <= f0 + 1e-12 * sc)) { std::ostringstream w; w << "the reported solution has value " << s.Getfinalfun() << ", above the start's " << f0; g.fail(w.str()); }
    g.require(s.GetIter() <= maxit && (acc ? (long) s.acc.size() : done) == s.GetIter(), "iterations reported differ from those made"); g.require(s.GetlengthSeries() == s.GetIter() + 1, "length of the series");
    if (!acc) { Vector fse = s.GetfunSeries(), dse = s.GetdirSeries(), si = s.GetSolverInfo().Field("acceptedstepsize"); const double *fq = fse.ObtainReadData(), *dq = dse.ObtainReadData(), *aq = si.ObtainReadData(); size_t k = 0; g.close(fq[0], f0, sc, 1e-13, "series"); for (auto &t : s.its) if (t.status == LSPG_SUCCESS) { k++; g.require(fq[k] == t.f2 && dq[k] == t.ndir && aq[k] == t.step, "series differ from the run"); } }
    bool conv = s.lastStop && s.GetIter() < maxit;
    if (conv && crit == NSM_DIR_F) g.require(s.Getnormnd() < tol, "stopped with its measure above the tolerance"); if (conv && crit == NSM_DIR_F_0 && s.GetIter()) g.require(s.Getnormndnd0() < tol, "stopped with its measure above the tolerance");
    if (conv && crit != NSM_FUN_REL && P.lam == 0 && !acc && s.its.size()) { double wm = 0; for (double e : P.w) wm = std::max(wm, e); V ge = P.grad(xf); Vector gt = c.M->GetEMPTYEXTR(); c.M->ExtrProjection(var(xf), tan(ge), &gt); double gn = vnrm(rawE(gt)); if (!(gn <= 4 * (wm + c.base * 5 + vnrm(ge)) * s.Getnormnd() + (1e-9 + 100 * std::sqrt(s.its.back().smtol)) * sc)) { std::ostringstream w; w << "converged with step " << s.Getnormnd() << " but gradient " << gn; g.fail(w.str()); } }
    if (conv) g.label("converged"); if (s.GetIter() >= 2 && P.lam > 0) g.nontrivial();
}
} // namespace
VP_CHECK("C23", proximal_gradient, 4000, 100000, "at least two iterations with a nonzero weight of the nonsmooth term") { proxRun<ManPG>(g); }
VP_CHECK("C23", accelerated_proximal_gradient, 4000, 100000, "at least two iterations with a nonzero weight of the nonsmooth term") { proxRun<AManPG>(g); }
