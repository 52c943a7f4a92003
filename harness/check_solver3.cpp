/* C18 reporting, C19 stopping (smooth solvers) */
#include "solv.h"
using namespace vp;

namespace {
double fs(double f) { return 1 + std::fabs(f); }
/* a view of a problem that counts what is asked of it */
struct CountP : public Problem {
    Problem *in; mutable long nf = 0, ng = 0, nh = 0;
    explicit CountP(Problem *p) : in(p) { SetDomain(p->GetDomain()); SetUseGrad(p->GetUseGrad()); SetUseHess(p->GetUseHess()); SetNumGradHess(p->GetNumGradHess()); }
    virtual void SetUseGrad(bool u) const { UseGrad = u; in->SetUseGrad(u); }
    virtual void SetUseHess(bool u) const { UseHess = u; in->SetUseHess(u); }
    virtual void SetNumGradHess(bool u) const { NumGradHess = u; in->SetNumGradHess(u); }
    virtual realdp f(const Variable &x) const { nf++; return in->f(x); }
    virtual Vector &Grad(const Variable &x, Vector *r) const { ng++; return in->Grad(x, r); }
    virtual Vector &HessianEta(const Variable &x, const Vector &e, Vector *r) const { nh++; return in->HessianEta(x, e, r); }
    virtual Vector &RieGrad(const Variable &x, Vector *r) const { return in->RieGrad(x, r); }
    virtual Vector &RieHessianEta(const Variable &x, const Vector &e, Vector *r) const { return in->RieHessianEta(x, e, r); }
    virtual Vector &EucGrad(const Variable &x, Vector *r) const { return in->EucGrad(x, r); }
    virtual Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const { return in->EucHessianEta(x, e, r); }
    virtual Vector &PreConditioner(const Variable &x, const Vector &e, Vector *r) const { return in->PreConditioner(x, e, r); }
};
bool isQN(int k) { return k == S_RBFGS || k == S_RWRBFGS || k == S_RBROYDEN || k == S_LRBFGS || k == S_RTRSR1 || k == S_LRTRSR1; }
bool keepsModel(int k) { return k == S_RBFGS || k == S_RWRBFGS || k == S_RBROYDEN || k == S_RTRSR1; }
/* generated settings, kept so that the same run can be set up again */
struct Setting {
    int k = 0, al = 0, maxit = 0, minit = 0, init = 0, npf = 1, npbb = 0, inner = 1000, gap = 1, crit = SM_GRAD_F_0, mem = 4, cgm = 0; bool convex = false, lmr = true;
    double r1 = 0.1, r2 = 0.9, t0 = 1, acc = 1e-6, fin = -1, D0 = 1, tol = 1e-6, bbr = 1;
    int verbose = ITERRESULT;
    void apply(Run &R) const {
        SolversSM &s = *R.s; s.Verbose = (VERBOSEINFO) verbose; s.Max_Iteration = maxit; s.Min_Iteration = minit; s.OutputGap = gap; s.Stop_Criterion = (StopCritSM) crit; s.Tolerance = tol; s.Accuracy = acc;
        if (R.ls) { auto &l = *R.ls; l.LineSearch_LS = (LSAlgoSM) al; l.InitSteptype = (InitStepsizeSetSM) init; l.Num_pre_funs = npf; l.LS_ratio1 = r1; l.LS_ratio2 = r2; l.Initstepsize = t0; l.Finalstepsize = fin; l.Num_pre_BB = npbb; l.BBratio = bbr; }
        if (R.tr) { R.tr->initial_Delta = D0; R.tr->Max_Inner_Iter = inner; }
        if (auto q = dynamic_cast<LRBFGS *>(R.s)) { q->LengthSY = mem; q->LMrestart = lmr; q->isconvex = convex; }
        if (auto q = dynamic_cast<LRTRSR1 *>(R.s)) { q->LengthSY = mem; q->LMrestart = lmr; }
        if (auto q = dynamic_cast<RBFGS *>(R.s)) q->isconvex = convex;
        if (auto q = dynamic_cast<RCG *>(R.s)) q->RCGmethod = (RCGmethods) cgm;
    }
    std::string str() const { std::ostringstream o; o << solverName(k) << " ls=" << al << " it=" << minit << ".." << maxit << " init=" << init << " npf=" << npf << " npbb=" << npbb << " bbr=" << bbr << " r=" << r1 << "," << r2 << " t0=" << t0 << " acc=" << acc << " fin=" << fin << " D0=" << D0 << " inner=" << inner << " crit=" << crit << " tol=" << tol << " mem=" << mem << (lmr ? "r" : "") << (convex ? " convex" : "") << " cg=" << cgm << " verb=" << verbose << " "; return o.str(); }
};
struct SCase { std::shared_ptr<Inst> I; Setting S; V x0; };
SCase makeS(Gen &g, std::vector<int> solvers, std::vector<int> algos = {LSSM_ARMIJO, LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT}) {
    SCase c; Setting &S = c.S; S.k = g.pick(solvers);
    bool ls = S.k < NLS;
    if (ls) S.al = g.pick(algos);
    c.I = makeSolvable(g, (ls && S.al != LSSM_ARMIJO ? N_DR : 0) | (isQN(S.k) ? N_TRANSPORT : 0));
    if ((S.k == S_RNEWTON || S.k == S_RTRNEWTON) && !c.I->hess) throw Discard();
    SplitMix r = g.data(); c.x0 = c.I->point(r, 0);
    S.maxit = g.integer(1, 20); if (g.chance(1, 8)) S.maxit = 0;
    S.init = g.integer(0, 4); if (g.boolean()) S.npf = g.integer(1, 5);
    if (g.boolean()) { S.npbb = g.integer(0, 3); S.bbr = g.pick(std::vector<double>{1, 0, 0.5}); }
    if (g.boolean()) { auto q = g.pick(std::vector<std::pair<double, double>>{{0.5, 0.5}, {0.2, 0.6}}); S.r1 = q.first; S.r2 = q.second; }
    if (g.boolean()) S.t0 = g.logreal(1e-3, 10);
    if (g.chance(1, 4)) { S.acc = g.pick(std::vector<double>{0.5, 0}); S.fin = g.pick(std::vector<double>{-1, 0.2}); }
    if (g.boolean()) S.D0 = g.logreal(1e-2, 10);
    if (g.chance(1, 4)) S.inner = g.integer(1, 4);
    S.mem = g.integer(0, 5); S.lmr = g.boolean(); S.convex = g.chance(1, 4); S.cgm = g.integer(0, 5);
    g.addNote(S.str()); g.label(solverName(S.k));
    return c;
}
bool blown(const Inst &I, const std::vector<It> &its) {
    if (its.empty()) return false;
    for (auto &t : its) {
        if (std::fabs(t.step) > 1e8 && t.step * vnrm(t.dir) < 1e4) return true; /* a rounding-level direction stretched to order one */
        for (double f : {t.f1, t.f2}) if (!(std::fabs(f) <= 1e6 * fs(its[0].f1))) return true;
        for (const V *x : {&t.x1, &t.x2}) if (!(vnrm(*x) <= 1e6 * (1 + vnrm(its[0].x1))) || !(condOf(I, *x) < 1e8)) return true;
    }
    return false;
}
const std::vector<int> ALL = {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RWRBFGS, S_RBROYDEN, S_LRBFGS, S_RTRSD, S_RTRNEWTON, S_RTRSR1, S_LRTRSR1};
} // namespace

VP_CHECK("C18", final_report, 90000, 1000000, "at least two iterations were made") {
    SCase c = makeS(g, ALL); const Inst &I = *c.I;
    c.S.verbose = g.pick(std::vector<int>{NOOUTPUT, FINALRESULT, ITERRESULT, ITERRESULT, DETAILED}); c.S.gap = g.pick(std::vector<int>{1, 3});
    CountP P(I.P.get());
    Variable X0 = I.elem(c.x0);
    Run R = makeRun(c.S.k, &P, &X0); c.S.apply(R); SolversSM &s = *R.s;
    s.Run();
    auto &its = R.mon->its;
    closeV(g, rawE(X0), c.x0, 1, 0, "start point after the run");
    g.require(s.Getng() == P.ng, "number of gradient evaluations");
    if (c.S.k == S_RNEWTON || c.S.k == S_RTRNEWTON) g.require(s.GetnH() + R.mon->extraH == P.nh, "number of Hessian actions");
    g.require(s.Getnf() == P.nf, "number of objective evaluations");
    if (c.S.k == S_RCG || c.S.k == S_RSD || c.S.k == S_RNEWTON || R.tr || R.ls) g.require(s.GetnR() == s.Getnf() - 1, "number of retractions");
    Variable Xf = s.GetXopt(); V xf = rawE(Xf);
    if (blown(I, its)) return;
    double fx = I.P->f(I.elem(xf)); g.close(s.Getfinalfun(), fx, fs(fx), 1e-9, "reported objective is that of the reported solution");
    V gr = gradAt(I, xf); double ng = std::sqrt(std::max(0.0, met(I, xf, gr, gr)));
    double cnd = condOf(I, xf);
    g.close(s.Getnormgf(), ng, 1 + ng + vnrm(gr), 1e-7 * cnd, "reported gradient norm is that of the reported solution");
    V gr0 = gradAt(I, c.x0); double ng0 = std::sqrt(std::max(0.0, met(I, c.x0, gr0, gr0)));
    if (ng0 > 1e-8) g.close(s.Getnormgfgf0(), ng / ng0, 1 + (1 + ng) / ng0, 1e-7 * cnd, "reported relative gradient norm");
    int n = s.GetIter();
    g.require(n <= std::max(c.S.maxit, 0) && n >= 0, "number of iterations");
    bool nan = std::isnan(R.mon->lastF2()) || std::isinf(R.mon->lastF2());
    if (R.ls) g.require((int) its.size() == n, "iterations reported"); /* the updates made */
    else g.require((int) its.size() == n || (int) its.size() == n + 1, "iterations reported");
    if (c.S.verbose >= ITERRESULT) {
        g.require(s.GetlengthSeries() == n + 1, "length of the series");
        Vector F = s.GetfunSeries(), G = s.GetgradSeries(), T = s.GettimeSeries();
        for (Vector *v : {&F, &G, &T}) g.require(v->Getlength() >= n + 1, "storage of a series");
        const realdp *pf = F.ObtainReadData(), *pg = G.ObtainReadData(), *pt = T.ObtainReadData();
        g.close(pf[0], I.P->f(I.elem(c.x0)), fs(pf[0]), 1e-12, "first entry of the objective series");
        g.close(pg[0], ng0, 1 + ng0, 1e-9 * condOf(I, c.x0), "first entry of the gradient series");
        double f = pf[0], gn = pg[0];
        for (int k = 1; k <= n; k++) {
            It &t = its[k - 1];
            if (R.ls || t.accepted) { f = t.f2; V gg = gradAt(I, t.x2); gn = std::sqrt(std::max(0.0, met(I, t.x2, gg, gg))); }
            g.close(pf[k], f, fs(f), 1e-12, "objective series against the iterates");
            g.close(pg[k], gn, 1 + gn, 1e-7 * condOf(I, t.x2), "gradient series against the iterates");
            g.require(pt[k] >= pt[k - 1] && pt[k] >= 0, "time series decreases");
        }
        g.require(s.GetComTime() >= pt[n], "total time is less than the time of an iteration");
        if (R.ls) {
            Vector Info = s.GetSolverInfo(), a = Info.Field("initialstepsize"), b = Info.Field("acceptedstepsize");
            const realdp *pa = a.ObtainReadData(), *pb = b.ObtainReadData();
            for (int k = 1; k <= n; k++) {
                if (its[k - 1].status == LSSM_SUCCESS && c.S.al != LSSM_INPUTFUN) g.close(pa[k], its[k - 1].init, std::fabs(its[k - 1].init), 1e-15, "reported initial step size");
                g.close(pb[k], its[k - 1].step, std::fabs(its[k - 1].step), 1e-15, "reported step size");
            }
        }
    }
    if (n >= 2) g.nontrivial(); (void) nan;
}

VP_CHECK("C18", deterministic_and_silent, 20000, 400000, "at least two iterations were made") {
    SCase c = makeS(g, ALL); const Inst &I = *c.I;
    auto go = [&](int verb, int gap, std::vector<double> &out) {
        Variable X0 = I.elem(c.x0); Run R = makeRun(c.S.k, I.P.get(), &X0); Setting S = c.S; S.verbose = verb; S.gap = gap; S.apply(R);
        R.s->Run();
        out = {(double) R.s->GetIter(), (double) R.s->Getnf(), (double) R.s->Getng(), R.s->Getfinalfun(), R.s->Getnormgf()};
        for (double v : rawE(R.s->GetXopt())) out.push_back(v);
        for (auto &t : R.mon->its) { out.push_back(t.f2); out.push_back(t.step); out.push_back(t.Delta); }
        return R.s->GetIter();
    };
    std::vector<double> a, b; int n = go(NOOUTPUT, 1, a);
    V noise(1000 + g.integer(0, 50), 7.25); noise.clear(); noise.shrink_to_fit();
    go(g.pick(std::vector<int>{FINALRESULT, ITERRESULT, DETAILED, NOOUTPUT}), g.pick(std::vector<int>{1, 2, 7}), b);
    g.require(a.size() == b.size(), "two equal runs differ in length");
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) { std::ostringstream o; o << "two equal runs differ: value " << i << " is " << a[i] << " and " << b[i]; g.fail(o.str()); }
    if (n >= 2) g.nontrivial();
}

VP_CHECK("C18", second_run, 30000, 500000, "both runs made at least two iterations") {
    SCase c = makeS(g, ALL); const Inst &I = *c.I;
    if (c.S.maxit < 1) throw Discard();
    CountP P(I.P.get()), Q(I.P.get());
    Variable X0 = I.elem(c.x0); Run R = makeRun(c.S.k, &P, &X0); c.S.apply(R);
    R.s->Run(); int n1 = R.s->GetIter();
    if (blown(I, R.mon->its)) throw Discard();
    V xm = rawE(R.s->GetXopt()); long nf1 = P.nf, ng1 = P.ng; (void) nf1; (void) ng1;
    Setting S = c.S; S.maxit = g.integer(1, 20); S.verbose = g.pick(std::vector<int>{NOOUTPUT, ITERRESULT}); S.apply(R);
    V xs = xm;
    R.mon->its.clear(); R.mon->sawStop0 = false;
    R.s->Run(); std::vector<It> a = R.mon->its;
    Variable Y0 = I.elem(xs); Run F = makeRun(c.S.k, &Q, &Y0); S.apply(F); F.s->Run(); auto &b = F.mon->its;
    g.require(R.s->Getnf() == P.nf && R.s->Getng() == P.ng, "evaluations after two runs");
    if (S.verbose >= ITERRESULT) g.require(R.s->GetlengthSeries() == R.s->GetIter() + 1, "length of the series after the second run");
    double tol = 1e-8;
    if (!keepsModel(c.S.k)) for (size_t k = 0; k < std::min<size_t>(3, std::min(a.size(), b.size())); k++, tol *= 30) {
        if (b[k].ngf1 < 1e-3 * (1 + b[k].ngf0) || condOf(I, b[k].x1) > 1e3 || condOf(I, b[k].x2) > 1e3 || vnrm(b[k].x2) > 1e3 * (1 + vnrm(b[0].x1))) break;
        g.close(a[k].f1, b[k].f1, fs(b[k].f1), tol, "start of an iteration of a second run");
        if (R.ls) g.close(a[k].init, b[k].init, std::fabs(b[k].init) + 1e-3, 1e3 * tol, "initial step size of a second run");
        if (b[k].trials.size() > 2) break; /* interpolation may sit at the edge of its safeguard */
        g.close(a[k].f2, b[k].f2, fs(b[k].f2), 1e2 * tol, "objective after an iteration of a second run");
    }
    if (n1 >= 2 && R.s->GetIter() >= 2) g.nontrivial();
}

namespace {
struct Tally { mutable long R = 0, V = 0; mutable int depth = 0; virtual ~Tally() {} };
template <class M> struct CM : public M, public Tally {
    template <class... A> CM(A... a) : M(a...) {}
    struct In { const CM *c; long *n; In(const CM *c, long &n) : c(c) { if (!c->depth++) n++; } ~In() { c->depth--; } };
    virtual Variable &Retraction(const Variable &x, const Vector &e, Variable *r) const { In i(this, this->R); return M::Retraction(x, e, r); }
    virtual Vector &VectorTransport(const Variable &x, const Vector &e, const Variable &y, const Vector &xi, Vector *r) const { In i(this, this->V); return M::VectorTransport(x, e, y, xi, r); }
    virtual Vector &InverseVectorTransport(const Variable &x, const Vector &e, const Variable &y, const Vector &xi, Vector *r) const { In i(this, this->V); return M::InverseVectorTransport(x, e, y, xi, r); }
    virtual Vector &DiffRetraction(const Variable &x, const Vector &e, const Variable &y, const Vector &xi, Vector *r, bool s = false) const { In i(this, this->V); return M::DiffRetraction(x, e, y, xi, r, s); }
    virtual Vector &coTangentVector(const Variable &x, const Vector &e, const Variable &y, const Vector &xi, Vector *r) const { In i(this, this->V); return M::coTangentVector(x, e, y, xi, r); }
};
} // namespace
VP_CHECK("C18", retraction_and_transport_counts, 20000, 400000, "at least two iterations were made and vectors were transported") {
    SCase c; Setting &S = c.S; S.k = g.pick(ALL);
    int which = g.integer(0, 3), n = g.integer(1, 5), p = g.integer(1, n);
    std::shared_ptr<Manifold> M; const Tally *T; bool exact = true;
    if (which == 0) { auto m = std::make_shared<CM<Euclidean>>(n); M = m; T = m.get(); }
    else if (which == 1) { auto m = std::make_shared<CM<Sphere>>(n + 1); if (!isQN(S.k) && g.boolean()) m->ChooseParamsSet2(); M = m; T = m.get(); n = n + 1; }
    else if (which == 2) { auto m = std::make_shared<CM<Stiefel>>(n + 1, p); M = m; T = m.get(); n = (n + 1) * p; }
    else { auto m = std::make_shared<CM<Grassmann>>(n + 1, p); M = m; T = m.get(); n = (n + 1) * p; }
    SplitMix r = g.data();
    std::shared_ptr<WaveProb> W;
    if (which == 3) { /* invariant under the group */ auto w = makeWave(r, n, true, 0); Mat A(n, n), B = hermMat(r, n / p, false); for (int j = 0; j < p; j++) for (int a = 0; a < n / p; a++) for (int b = 0; b < n / p; b++) A(a + j * (n / p), b + j * (n / p)) = B(a, b); w->A = A; w->b.assign(n, 0); W = w; }
    else W = makeWave(r, n, which == 0, g.integer(0, 2));
    W->SetDomain(M.get()); W->SetUseGrad(true); W->SetUseHess(true);
    if (S.k < NLS) S.al = g.pick(std::vector<int>{LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT});
    S.maxit = g.integer(1, 12); S.init = g.integer(0, 4); S.mem = g.integer(0, 4); S.lmr = g.boolean(); S.cgm = g.integer(0, 5); S.verbose = g.pick(std::vector<int>{NOOUTPUT, ITERRESULT}); S.npbb = g.integer(0, 2); if (g.boolean()) S.r1 = S.r2 = 0.5;
    std::ostringstream o; o << "manifold " << which << " n=" << n << " p=" << p << " "; g.addNote(o.str()); g.addNote(S.str()); g.label(solverName(S.k));
    genrandseed(g.choice(1000)); Variable X0 = M->RandominManifold();
    Run R = makeRun(S.k, W.get(), &X0); S.apply(R);
    long r0 = T->R, v0 = T->V;
    R.s->Run();
    g.require(R.s->GetnR() == T->R - r0, "reported number of retractions");
    if (exact) { std::ostringstream e; e << "reported number of vector transports: " << R.s->GetnV() << "+" << R.s->GetnVp() << " of " << T->V - v0; g.require(R.s->GetnV() + R.s->GetnVp() == T->V - v0, e.str()); }
    if (R.s->GetIter() >= 2 && T->V > v0) g.nontrivial();
}

/* ---------------------------------------------------------------- C19 */
namespace {
struct StopCall { V x; double val, init; int iter; const Problem *P; const Solvers *s; };
std::vector<StopCall> stopCalls; int stopAt = -1;
bool userStop(const Variable &x, const Vector &fun, integer len, realdp val, realdp init, const Problem *P, const Solvers *s) {
    stopCalls.push_back({rawE(x), val, init, (int) s->GetIter(), P, s}); return (int) stopCalls.size() > stopAt && stopAt >= 0;
}
/* an objective that takes its time at one evaluation */
struct SlowP : public CountP {
    int at = -1; double sec = 0;
    explicit SlowP(Problem *p) : CountP(p) {}
    virtual realdp f(const Variable &x) const { realdp v = CountP::f(x); if (nf == at) { unsigned long t0 = getTickCount(); while ((getTickCount() - t0) / 1e6 < sec) {} } return v; }
};
} // namespace
VP_CHECK("C19", ends_when_it_should, 200000, 3000000, "the run ended by a criterion after at least one iteration, before the maximal number of iterations") {
    SCase c = makeS(g, ALL); const Inst &I = *c.I; Setting &S = c.S;
    S.verbose = g.pick(std::vector<int>{NOOUTPUT, ITERRESULT});
    S.crit = g.integer(0, 2); S.tol = g.logreal(1e-8, 0.9);
    S.maxit = g.integer(0, 25); S.minit = g.chance(1, 3) ? g.integer(0, S.maxit) : 0;
    bool user = g.chance(1, 5); int timed = g.chance(1, 12) ? 1 : g.chance(1, 20) ? 2 : 0;
    if (timed && S.minit) S.minit = 0;
    SlowP P(I.P.get());
    Variable X0 = I.elem(c.x0);
    Run R = makeRun(S.k, &P, &X0); S.apply(R); SolversSM &s = *R.s;
    stopCalls.clear(); stopAt = -1;
    if (user) { s.StopPtr = &userStop; stopAt = g.integer(0, 12); }
    if (timed == 1) { s.TimeBound = 2e-3; P.at = g.integer(1, 8); P.sec = 4e-3; S.verbose = ITERRESULT; s.Verbose = ITERRESULT; }
    if (timed == 2) s.TimeBound = -1;
    std::ostringstream o; o << "criterion " << S.crit << " tol " << S.tol << " its " << S.minit << ".." << S.maxit << (user ? " user " : " ") << (user ? stopAt : 0) << " timed " << timed << " "; g.addNote(o.str());
    s.Run();
    auto &its = R.mon->its; int n = s.GetIter();
    if (timed == 2) { g.require(n == 0, "a run without time made iterations"); return; }
    bool bad = !std::isfinite(R.mon->lastF2());
    double ngf0 = its.empty() ? s.Getnormgf() : its[0].ngf0;
    auto crit = [&](int k) { /* after k iterations; k = 0 is the start */
        if (user) return k < 0 ? false : false;
        double f1 = k ? its[k - 1].f1 : s.Getfinalfun(), f2 = k ? its[k - 1].f2 : f1, ng = k ? (R.ls ? its[k - 1].ngf2 : its[k - 1].ngf2) : ngf0;
        if (S.crit == SM_FUN_REL) return k > 0 && std::fabs(f1 - f2) / (std::fabs(f1) + 1) < S.tol;
        if (S.crit == SM_GRAD_F) return ng < S.tol;
        return ng == 0 || ng / ngf0 < S.tol;
    };
    bool stop = user ? stopAt == 0 : crit(0); int calls = 1; int want = -1; bool byCrit = false;
    for (int k = 0;; k++) {
        if (k > 0) {
            if (k > (int) its.size()) { want = k - 1; break; } /* the search gave no further iterate */
            It &t = its[k - 1];
            if (R.ls || t.accepted) { if (user) { calls++; stop = stopAt >= 0 && calls > stopAt; } else stop = crit(k); }
            if (R.ls && t.status != LSSM_SUCCESS) { want = k; break; }
        }
        if ((stop || k >= S.maxit) && k >= S.minit) { want = k; byCrit = stop; break; }
    }
    bool radius = R.tr && R.mon->finalDelta() < R.tr->minimum_Delta;
    if (timed == 1) {
        Vector T = s.GettimeSeries(); const realdp *pt = T.ObtainReadData();
        if (n < want && !bad && !radius) g.require(pt[n] > s.TimeBound * (1 - 1e-9), "the run ended before its time");
        for (int k = 0; k < n && !R.tr; k++) g.require(k == 0 || pt[k - 1] <= s.TimeBound * (1 + 1e-9), "the run went on after its time");
        if (R.tr) { bool over = false; for (int k = 1; k <= n; k++) { g.require(!over, "the run went on after its time"); if (k >= 2 && its[k - 1].accepted && pt[k - 1] > s.TimeBound * (1 + 1e-9)) over = true; } }
        g.require(n <= want, "the run went on although its criterion was met");
    } else {
        if (n != want && !(bad && n == (int) its.size() && n < want) && !(radius && n < want)) { std::ostringstream e; e << "the run ended after " << n << " iterations instead of " << want; g.fail(e.str()); }
    }
    if (user) {
        g.require((int) stopCalls.size() == (timed ? (int) stopCalls.size() : calls) || bad || radius, "the user's criterion was not asked after every iterate");
        size_t j = 0;
        for (int k = 0; k <= (int) its.size() && j < stopCalls.size(); k++) {
            if (k > 0 && !R.ls && !its[k - 1].accepted) continue;
            auto &q = stopCalls[j++];
            g.require(vdiff(q.x, k ? its[k - 1].x2 : c.x0) == 0, "the user's criterion was given another point than the iterate");
            if (k && its[k - 1].x2.size() && !blown(I, its)) { V gr = gradAt(I, its[k - 1].x2); double ng = std::sqrt(std::max(0.0, met(I, its[k - 1].x2, gr, gr))); g.close(q.val, ng, 1 + ng, 1e-7 * condOf(I, its[k - 1].x2), "norm given to the user's criterion"); }
            g.close(q.init, ngf0, 1 + ngf0, 1e-12, "initial norm given to the user's criterion");
            g.require(q.P == &P && q.s == R.s, "problem or solver given to the user's criterion");
            if (k == 0) g.close(q.val, ngf0, 1 + ngf0, 1e-12, "norm given to the user's criterion at the start");
        }
    }
    if ((byCrit || user) && n >= 1 && n < S.maxit) g.nontrivial();
}

VP_CHECK("C19", started_at_a_solution, 20000, 400000, "the start is critical up to rounding and the solver is not asked for more iterations") {
    SCase c; Setting &S = c.S; S.k = g.pick(ALL); SplitMix r = g.data();
    int how = g.integer(0, 2), n = g.integer(1, 5);
    std::shared_ptr<WaveProb> W; std::shared_ptr<Manifold> M; V x0; bool exact = false;
    if (how == 0) { W = makeWave(r, n, true, 0); W->b.assign(n, 0); M = std::make_shared<Euclidean>(n); x0.assign(n, 0); exact = true; }
    else if (how == 1) { /* coordinate vectors of a diagonal quadratic */
        n++; W = makeWave(r, n, true, 0); W->A = Mat(n, n); for (int i = 0; i < n; i++) W->A(i, i) = i + 1 + r.unif(); W->b.assign(n, 0);
        M = std::make_shared<Sphere>(n); x0.assign(n, 0); x0[g.integer(0, n - 1)] = g.boolean() ? 1 : -1; }
    else { int p = g.integer(1, n); n++; std::shared_ptr<Stiefel> s = std::make_shared<Stiefel>(n, p); M = s; W = makeWave(r, n * p, true, 0); W->A = Mat(n * p, n * p); W->b.assign(n * p, 0);
        V d(n); for (auto &e : d) e = 1 + r.unif() * 4;
        for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) W->A(i + j * n, i + j * n) = d[i] * (j + 1);
        x0.assign(n * p, 0); for (int j = 0; j < p; j++) x0[j + j * n] = 1; }
    W->SetDomain(M.get()); W->SetUseGrad(true); W->SetUseHess(true);
    S.al = g.pick(std::vector<int>{LSSM_ARMIJO, LSSM_WOLFE, LSSM_EXACT}); S.crit = g.pick(std::vector<int>{SM_GRAD_F, SM_GRAD_F_0, SM_FUN_REL}); S.maxit = g.integer(1, 10); S.verbose = g.pick(std::vector<int>{NOOUTPUT, ITERRESULT});
    std::ostringstream o; o << "solution " << how << " n=" << n << " "; g.addNote(o.str()); g.addNote(S.str()); g.label(solverName(S.k));
    Variable X0(M->GetEMPTYEXTR()); X0.NewMemoryOnWrite(); std::copy(x0.begin(), x0.end(), X0.ObtainWriteEntireData());
    Run R = makeRun(S.k, W.get(), &X0); S.apply(R); R.s->Run();
    if (S.crit == SM_GRAD_F) g.require(R.s->GetIter() == 0, "iterations were made from a critical point");
    if (S.crit == SM_GRAD_F_0 && (exact || R.s->Getnormgf() == 0)) g.require(R.s->GetIter() == 0, "iterations were made from a critical point");
    if (S.crit == SM_FUN_REL && R.ls) g.require(R.s->GetIter() <= 1, "more than one iteration from a critical point");
    V xf = rawE(R.s->GetXopt()); g.require(vfinite(xf), "the reported solution is not finite"); closeV(g, xf, x0, 1, S.crit == SM_GRAD_F_0 && !exact ? 1e-3 : 1e-9, "solution of a run started at it");
    g.require(std::isfinite(R.s->Getfinalfun()) && R.s->Getfinalfun() <= W->val(x0) + 1e-12 * fs(W->val(x0)), "objective of a run started at a solution");
    g.nontrivial();
}
