/* Solver monitors: subclasses that record what every iteration of a real solver run saw, and generators of runs. */
#ifndef VP_SOLV_H
#define VP_SOLV_H
#include <list>
#include "probs.h"
#include "Solvers/RSD.h"
#include "Solvers/RCG.h"
#include "Solvers/RNewton.h"
#include "Solvers/RBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#undef max
#undef min
#undef abs

namespace vp {
using namespace ROPTLIB;

enum SK { S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RWRBFGS, S_RBROYDEN, S_LRBFGS, NLS, S_RTRSD = NLS, S_RTRNEWTON, S_RTRSR1, S_LRTRSR1, NSMOOTH };
inline const char *solverName(int k) {
    static const char *n[] = {"RSD", "RCG", "RNewton", "RBFGS", "RWRBFGS", "RBroydenFamily", "LRBFGS", "RTRSD", "RTRNewton", "RTRSR1", "LRTRSR1"};
    return n[k];
}

/* data of an element, detached from the library's sharing and companion data */
inline V rawE(const Element &e) { integer n = const_cast<Element &>(e).Getlength(); const double *q = const_cast<Element &>(e).ObtainReadData(); V v(n); for (integer i = 0; i < n; i++) v[i] = q[i]; return v; }

struct It { /* one iteration, seen after the step and before the update */
    int iter = 0, status = 0;
    double f1 = 0, f2 = 0, slope = 0, newslope = 0, step = 0, init = 0, ngf0 = 0, ngf1 = 0, tol = 0, slopepre = 0;
    V x1, x2, gf1, gf2, dir, eta2;
    std::vector<double> prefs;
    struct Trial { double t, f; };
    std::vector<Trial> trials;       /* steps tried in order */
    std::vector<It::Trial> slopes;   /* slopes evaluated: t, value */
    int nevf = 0;
    /* trust region */
    double Delta = 0, rho = 0; int tcg = -1, inner = -1; bool accepted = false; V Heta2;
    double gg = 0, gHg = 0, ge = 0, eHe = 0, ee = 0, res = 0; /* model: <g,g>, <g,Hg>, <g,eta>, <eta,H eta>, <eta,eta>, |g+H eta| */
    double pgg = 0, pgHpg = 0;        /* z = preconditioned gradient: <g,z>, <z,Hz> */
    double pcond = 1;                 /* conditioning of the compact representation */
    std::vector<V> H;                 /* the operator in coordinates, column by column (only when asked for) */
    double newDelta = -1;
    bool stopped = false;            /* what the stopping test said after this iteration */
    double ngf2 = 0;
};
struct Mon {
    std::vector<It> its;
    std::vector<It::Trial> trials, slopes;
    V dir; double initRaw = 0;
    bool stop0 = false, sawStop0 = false, wantH = false;
    long extraH = 0; /* Hessian actions asked for by the monitor itself */
    virtual double finalDelta() const { return 0; }
    virtual double lastF2() const { return 0; }
    virtual ~Mon() {}
};

template <class S> struct RecLS : public S, public Mon {
    template <class... A> RecLS(A... a) : S(a...) {}
    virtual ~RecLS() {}
    virtual void GetSearchDir(void) { S::GetSearchDir(); dir = rawE(this->eta1); trials.clear(); slopes.clear(); }
    virtual realdp h(void) { realdp v = S::h(); if (getenv("VP_DBG2")) fprintf(stderr, "h(%.17g)=%.17g init %g f1 %.17g slope %g\n", this->stepsize, v, this->initiallength, this->f1, this->initialslope); trials.push_back({this->stepsize, v}); return v; }
    virtual realdp dh(void) { realdp v = S::dh(); slopes.push_back({this->stepsize, v}); return v; }
    virtual void UpdateData(void) {
        It t; t.iter = this->iter; t.status = this->LSstatus; t.f1 = this->f1; t.f2 = this->f2; t.slope = this->initialslope; t.newslope = this->newslope;
        t.step = this->stepsize; t.init = this->initiallength; t.ngf0 = this->ngf0; t.ngf1 = this->ngf1; t.tol = this->Tolerance; t.slopepre = this->initialslopepre;
        t.x1 = rawE(this->x1); t.x2 = rawE(this->x2); t.gf1 = rawE(this->gf1); t.gf2 = rawE(this->gf2); t.dir = dir; t.eta2 = rawE(this->eta2);
        t.prefs.assign(this->pre_funs.begin(), this->pre_funs.end()); t.trials = trials; t.slopes = slopes;
        its.push_back(t);
        if (getenv("VP_DBG")) { fprintf(stderr, "it %d f1 %.17g f2 %.17g slope %g newslope %g init %g step %g status %d ngf1 %g |x1| %g |dir| %g trials", t.iter, t.f1, t.f2, t.slope, t.newslope, t.init, t.step, t.status, t.ngf1, vnrm(t.x1), vnrm(t.dir)); for (auto &q : trials) fprintf(stderr, " (%g: %.17g)", q.t, q.f); for (auto &q : slopes) fprintf(stderr, " [%g: %g]", q.t, q.f); fprintf(stderr, "\n"); }
        S::UpdateData();
    }
    virtual bool IsStopped(void) {
        bool r = S::IsStopped();
        if (!sawStop0) { sawStop0 = true; stop0 = r; }
        else if (!its.empty()) { its.back().stopped = r; its.back().ngf2 = this->ngf2; }
        return r;
    }
    virtual double lastF2() const { return this->f2; }
};

template <class S> struct RecTR : public S, public Mon {
    template <class... A> RecTR(A... a) : S(a...) {}
    virtual ~RecTR() {}
    It m; /* what is known about the model of this iteration */
    virtual void tCG_TR(void) {
        if (!its.empty()) its.back().newDelta = this->Delta;
        m = It(); m.Delta = this->Delta;
        S::tCG_TR();
        auto *M = this->Mani; const Variable &x = this->x1;
        Vector Hg(this->gf1), He(this->gf1), z(this->gf1), r(this->gf1), g(this->gf1), e(this->eta2);
        this->HessianEta(g, &Hg); this->HessianEta(e, &He); extraH += 3; this->Prob->PreConditioner(x, g, &z);
        m.gg = M->Metric(x, g, g); m.gHg = M->Metric(x, g, Hg); m.ge = M->Metric(x, g, e); m.eHe = M->Metric(x, e, He); m.ee = M->Metric(x, e, e);
        M->VectorLinearCombination(x, 1, g, 1, He, &r); M->Projection(x, r, &r); m.res = std::sqrt(std::max(0.0, M->Metric(x, r, r)));
        m.pgg = M->Metric(x, g, z); this->HessianEta(z, &Hg); m.pgHpg = M->Metric(x, z, Hg);
        if constexpr (std::is_same<S, LRTRSR1>::value) { int k = this->Currentlength; if (k) { Mat Q = vm(rawE(this->PMGQ), 0, k, k, false); auto sv = svals(Q); m.pcond = sv[0] / std::max(sv[k - 1], 1e-300); } }
        if (wantH) { int n = g.Getlength(); for (int i = 0; i < n; i++) { Vector u(g); realdp *q = u.ObtainWriteEntireData(); for (int j = 0; j < n; j++) q[j] = i == j; M->Projection(x, u, &u); this->HessianEta(u, &Hg); extraH++; m.H.push_back(rawE(Hg)); } }
    }
    virtual void UpdateData(void) {
        It t = m; t.iter = this->iter; t.f1 = this->f1; t.f2 = this->f2; t.ngf0 = this->ngf0; t.ngf1 = this->ngf1; t.tol = this->Tolerance;
        t.x1 = rawE(this->x1); t.x2 = rawE(this->x2); t.gf1 = rawE(this->gf1); t.eta2 = rawE(this->eta2); t.Heta2 = rawE(this->Heta2);
        t.rho = this->rho; t.tcg = this->tCGstatusSM; t.inner = this->innerIter;
        if (getenv("VP_DBG")) fprintf(stderr, "it %d f1 %.17g f2 %.17g Delta %g |eta| %g rho %g status %d inner %d ngf1 %g model %g |x1| %g pcond %g res %g ge %g eHe %g\n", t.iter, t.f1, t.f2, t.Delta, std::sqrt(t.ee), t.rho, t.tcg, t.inner, t.ngf1, t.ge + 0.5 * t.eHe, vnrm(t.x1), t.pcond, t.res, t.ge, t.eHe);
        its.push_back(t);
        S::UpdateData();
    }
    virtual void Acceptence(void) { S::Acceptence(); its.back().accepted = true; its.back().gf2 = rawE(this->gf2); its.back().f2 = this->f2; }
    virtual bool IsStopped(void) {
        bool r = S::IsStopped();
        if (!sawStop0) { sawStop0 = true; stop0 = r; }
        else if (!its.empty()) { its.back().stopped = r; its.back().ngf2 = this->ngf2; }
        return r;
    }
    virtual double finalDelta() const { return this->Delta; }
    virtual double lastF2() const { return this->f2; }
};

struct Run {
    std::shared_ptr<void> own;
    SolversSM *s = nullptr; SolversSMLS *ls = nullptr; SolversSMTR *tr = nullptr; Mon *mon = nullptr;
    int kind = 0;
};
template <class R> inline Run mkLS(int k, Problem *P, const Variable *x0) { auto p = std::make_shared<R>(P, x0); Run r; r.own = p; r.s = r.ls = p.get(); r.mon = p.get(); r.kind = k; return r; }
template <class R> inline Run mkQN(int k, Problem *P, const Variable *x0) { auto p = std::make_shared<R>(P, x0, (LinearOPE *) nullptr); Run r; r.own = p; r.s = r.ls = p.get(); r.mon = p.get(); r.kind = k; return r; }
template <class R> inline Run mkTR(int k, Problem *P, const Variable *x0) { auto p = std::make_shared<R>(P, x0); Run r; r.own = p; r.s = r.tr = p.get(); r.mon = p.get(); r.kind = k; return r; }
inline Run makeRun(int k, Problem *P, const Variable *x0) {
    switch (k) {
    case S_RSD: return mkLS<RecLS<RSD>>(k, P, x0);
    case S_RCG: return mkLS<RecLS<RCG>>(k, P, x0);
    case S_RNEWTON: return mkLS<RecLS<RNewton>>(k, P, x0);
    case S_RBFGS: return mkQN<RecLS<RBFGS>>(k, P, x0);
    case S_RWRBFGS: return mkQN<RecLS<RWRBFGS>>(k, P, x0);
    case S_RBROYDEN: return mkQN<RecLS<RBroydenFamily>>(k, P, x0);
    case S_LRBFGS: return mkLS<RecLS<LRBFGS>>(k, P, x0);
    case S_RTRSD: return mkTR<RecTR<RTRSD>>(k, P, x0);
    case S_RTRNEWTON: return mkTR<RecTR<RTRNewton>>(k, P, x0);
    case S_RTRSR1: { auto p = std::make_shared<RecTR<RTRSR1>>(P, x0, (LinearOPE *) nullptr); Run r; r.own = p; r.s = r.tr = p.get(); r.mon = p.get(); r.kind = k; return r; }
    default: return mkTR<RecTR<LRTRSR1>>(k, P, x0);
    }
}

/* user problem: quadratic plus waves in ambient coordinates; nonconvex, with indefinite Hessians */
struct WaveProb : public Problem {
    Mat A, W; V b, c; double lin = 1;
    bool prec = false; V pd; /* diagonal preconditioner (Euclidean only) */
    mutable long nf = 0, ng = 0, nh = 0;
    double val(const V &x) const {
        int n = x.size(); double s = 0;
        for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j).real() * x[j]; s += 0.5 * x[i] * t + b[i] * x[i]; }
        for (size_t k = 0; k < c.size(); k++) { double t = 0; for (int j = 0; j < n; j++) t += W(k, j).real() * x[j]; s += c[k] * std::cos(t); }
        return s;
    }
    V grad(const V &x) const {
        int n = x.size(); V g(n);
        for (int i = 0; i < n; i++) { double t = b[i]; for (int j = 0; j < n; j++) t += A(i, j).real() * x[j]; g[i] = t; }
        for (size_t k = 0; k < c.size(); k++) { double t = 0; for (int j = 0; j < n; j++) t += W(k, j).real() * x[j]; for (int j = 0; j < n; j++) g[j] -= c[k] * std::sin(t) * W(k, j).real(); }
        return g;
    }
    V hess(const V &x, const V &d) const {
        int n = x.size(); V g(n);
        for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j).real() * d[j]; g[i] = t; }
        for (size_t k = 0; k < c.size(); k++) { double t = 0, u = 0; for (int j = 0; j < n; j++) { t += W(k, j).real() * x[j]; u += W(k, j).real() * d[j]; } for (int j = 0; j < n; j++) g[j] -= c[k] * std::cos(t) * u * W(k, j).real(); }
        return g;
    }
    virtual realdp f(const Variable &x) const { nf++; return val(rawE(x)); }
    virtual Vector &EucGrad(const Variable &x, Vector *result) const { ng++; V g = grad(rawE(x)); *result = x; realdp *q = result->ObtainWriteEntireData(); std::copy(g.begin(), g.end(), q); return *result; }
    virtual Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *result) const { nh++; V g = hess(rawE(x), rawE(e)); *result = x; realdp *q = result->ObtainWriteEntireData(); std::copy(g.begin(), g.end(), q); return *result; }
    virtual Vector &PreConditioner(const Variable &x, const Vector &e, Vector *result) const {
        if (!prec) return Problem::PreConditioner(x, e, result);
        V v = rawE(e); for (size_t i = 0; i < v.size(); i++) v[i] *= pd[i];
        *result = e; realdp *q = result->ObtainWriteEntireData(); std::copy(v.begin(), v.end(), q); return *result;
    }
};
const int PWAVE = NPROB;

/* n = number of ambient coordinates */
inline std::shared_ptr<WaveProb> makeWave(SplitMix &r, int n, bool convex, int waves) {
    auto w = std::make_shared<WaveProb>();
    if (convex) w->A = spdMat(r, n, false, 0.3, 5); else w->A = hermMat(r, n, false);
    w->b.assign(n, 0); for (auto &e : w->b) e = 0.5 * r.normal();
    w->W = randMat(r, std::max(1, waves), n, false); w->c.assign(waves, 0); for (auto &e : w->c) e = r.normal();
    return w;
}

/* what a generated run needs from its manifold */
enum Need { N_ANY = 0, N_TRANSPORT = 1 /* operator transports, isometric */, N_DR = 2 /* derivative of the retraction along the step */, N_LIN = 4 /* linear objectives wanted too */ };
inline bool confOK(const Conf &c, int need) {
    bool proj = (c.kind == SPHERE && !c.intr && c.pset == 1) || (c.kind == STIE && (c.proj || c.cayley || (!c.intr))) || (c.kind == SYM && (c.proj || !c.intr)) || c.kind == FRE || (c.kind == GRASS && !c.intr) || (c.kind == SPD && !c.intr && !c.partr) || (c.kind == F2 && !c.intr);
    if ((need & N_TRANSPORT) && (proj || c.kind == SPHERETX || (c.kind == SPD && c.partr))) return false;
    if ((need & N_DR) && ((c.kind == SPD && c.spdexp) || (c.kind == SYM && c.intr))) return false;
    return true;
}
inline bool instOK(const Inst &I, int need) {
    if (I.c) return confOK(*I.c, need);
    for (auto &p : I.parts) if (!confOK(*p, need)) return false;
    return true;
}
/* a problem (shipped or wave) whose manifold supports what is needed */
inline std::shared_ptr<Inst> makeSolvable(Gen &g, int need, int maxn = 5, std::vector<int> kinds = {}) {
    if (kinds.empty()) kinds = {PSTIE, PEUC, PWAVE, PWAVE, PGRASS, PSPD, PPROD, PCSTIE, PLYAP, PTX, PFWEIGHT, PMC, PPHASE, PHULL, PBLIND};
    if (maxn == 5 && g.chance(1, 40)) maxn = 9;
    int k = g.pick(kinds);
    std::shared_ptr<Inst> I;
    if (k == PWAVE) {
        I = std::make_shared<Inst>(); I->kind = PWAVE;
        Want w; w.maxn = maxn; w.complex = false; w.z = 0; w.spheretx = false; w.kind = g.pick(std::vector<int>{EUC, SPHERE, STIE, STIE, SPD, FRE});
        I->c = makeConf(g, w); I->M = I->c->M;
        SplitMix r = g.data(); int n = I->c->extr();
        bool convex = g.boolean(); int waves = g.integer(0, 3);
        auto W = makeWave(r, n, convex || I->c->kind == EUC || I->c->kind == SPD || I->c->kind == FRE, waves);
        if ((need & N_LIN) && (I->c->kind == EUC || I->c->kind == STIE || I->c->kind == SPHERE) && g.chance(1, 8)) { W->A = Mat(n, n); W->c.clear(); g.addNote("linear "); }
        if (I->c->kind == SPD) { int m = I->c->n; V S(n); for (int i = 0; i < n; i++) S[i] = W->b[i]; W->b = mv1(sym(vm(S, 0, m, m, false)), false);
            /* symmetric functions: act on the symmetric part */
            Mat T(n, n); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { T(i + j * m, i + j * m) += 0.5; T(i + j * m, j + i * m) += 0.5; }
            W->A = T * W->A * T; Mat W2 = W->W * T; W->W = W2; }
        I->P = W; I->f = [W](const V &x) { return W->val(x); }; I->curv = nrm(W->A) + 5 * waves * n; I->symdir = I->c->kind == SPD;
        I->P->SetDomain(I->M);
        I->name = std::string("Wave on ") + I->c->name;
        g.addNote(I->name + " "); g.label(std::string("Wave/") + I->c->name.substr(0, I->c->name.find('(')));
    } else {
        PWant w; w.maxn = maxn; w.kind = k; I = makeProb(g, w);
    }
    if (I->dim() < 1 || !instOK(*I, need)) throw Discard();
    return I;
}
/* elements for oracle evaluation, rebuilt from raw data */
inline Vector tvec(const Inst &I, const Variable &X, const V &a) {
    if (I.c && I.c->kind == FRE) return I.c->ext(X, a);
 Vector e(I.M->GetIsIntrinsic() ? I.M->GetEMPTYINTR() : I.M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(a.begin(), a.end(), e.ObtainWriteEntireData()); return e; }
inline Variable step(const Inst &I, const V &x, const V &eta) { Variable X = I.elem(x), Y = I.elem(x); Vector e = tvec(I, X, eta); I.M->Retraction(X, e, &Y); return Y; }
inline V gradAt(const Inst &I, const V &x) { Variable X = I.elem(x); I.P->f(X); Vector G(I.M->GetIsIntrinsic() ? I.M->GetEMPTYINTR() : I.M->GetEMPTYEXTR()); I.P->Grad(X, &G); return rawE(G); }
/* how much rounding in the point can matter: distance to where the manifold ends */
inline double condOf(const Inst &I, const V &x) {
    if (!I.c || !(I.c->kind == SYM || I.c->kind == F2 || I.c->kind == FRE || I.c->kind == SPD)) return 1;
    double r = 1; for (auto &M : I.c->split(x)) { auto s = svals(M); r = std::max(r, (1 + s[0]) / std::max(s[I.c->p - 1], 1e-12)); }
    return r * r;
}
inline double met(const Inst &I, const V &x, const V &a, const V &b) { Variable X = I.elem(x); return I.M->Metric(X, tvec(I, X, a), tvec(I, X, b)); }
} // namespace vp
#endif
