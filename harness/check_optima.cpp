/* C21: known optima. */
#include "solv.h"
#undef max
#undef min
#undef abs
using namespace vp;

namespace {
/* largest slope of the documented objective along unit tangent directions, by differences through the retraction */
double fdGrad(const Inst &I, const V &x, SplitMix &r, int dirs) {
    double worst = 0; Variable X = I.elem(x);
    for (int k = 0; k < dirs; k++) {
        Vector d = I.vec(X, I.tangent(r, x, 1)); double n = std::sqrt(std::max(0.0, I.M->Metric(X, d, d))); if (!(n > 1e-12)) continue;
        double h = 1e-3 / std::sqrt(condOf(I, x)); auto F = [&](double s) { Vector e(d); I.M->ScalarTimesVector(X, s / n, d, &e); Variable Y = I.elem(x); I.M->Retraction(X, e, &Y); return I.f(rawE(Y)); };
        worst = std::max(worst, std::fabs((8 * (F(h) - F(-h)) - (F(2 * h) - F(-2 * h))) / (12 * h)));
    }
    return worst;
}
bool flat(const Inst &I) { /* the coordinates of tangent vectors are orthonormal */
    auto ok = [](const Conf &c) { return c.intr || c.kind == EUC || c.kind == SPHERE || (c.kind == STIE && !c.proj) || c.kind == STIE; };
    if (I.c) return ok(*I.c);
    for (auto &p : I.parts) if (!ok(*p)) return false;
    return true;
}
struct OptCase { std::shared_ptr<Inst> I; Run run; V x0; Variable X0; int k; bool global, second; };
OptCase makeOpt(Gen &g) {
    OptCase L; int k = g.integer(0, NSMOOTH - 1); bool tr = k >= NLS;
    int al = tr ? 0 : g.pick(std::vector<int>{LSSM_ARMIJO, LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT});
    int need = tr ? ((k == S_RTRSR1 || k == S_LRTRSR1) ? N_TRANSPORT : 0) : ((al == LSSM_ARMIJO ? 0 : N_DR) | (k == S_RSD || k == S_RNEWTON || k == S_RCG ? 0 : N_TRANSPORT));
    int kind = g.pick(std::vector<int>{PEUC, PSTIE, PSTIE, PCSTIE, PGRASS, PGRASS, PPROD, PSPD, PSPD, PFWEIGHT, PWAVE, PMC, PPHASE});
    if (kind == PWAVE) { /* strictly convex quadratic with a linear part */
        auto I = std::make_shared<Inst>(); I->kind = PWAVE; Want w; w.maxn = 6; w.complex = false; w.z = 0; w.spheretx = false; w.kind = EUC; I->c = makeConf(g, w); I->M = I->c->M; SplitMix r = g.data(); int n = I->c->extr();
        auto W = std::make_shared<WaveProb>(); double lo = g.pick(std::vector<double>{1, 0.1, 1e-3}); W->A = spdMat(r, n, false, lo, lo * g.pick(std::vector<double>{1, 10, 100})); W->b.assign(n, 0); for (auto &e : W->b) e = r.normal(); W->W = Mat(1, n);
        Mat b(n, 1); for (int i = 0; i < n; i++) b(i, 0) = -W->b[i]; Mat m = solve(W->A, b); V mv(n); for (int i = 0; i < n; i++) mv[i] = m(i, 0).real(); I->opt = W->val(mv);
        I->P = W; I->f = [W](const V &x) { return W->val(x); }; I->curv = nrm(W->A); I->P->SetDomain(I->M); I->name = "Quadratic"; g.addNote("quadratic "); g.label("quadratic"); L.I = I;
    } else { PWant w; w.maxn = 6; w.kind = kind; L.I = makeProb(g, w); }
    if (L.I->c && L.I->c->kind == SPD && L.I->c->hhr && L.I->dim() == 1) throw Discard(); /* a unit step has a stationary retraction */
    if (L.I->dim() < 1 || !instOK(*L.I, need)) throw Discard();
    if ((k == S_RNEWTON || k == S_RTRNEWTON) && !L.I->hess) throw Discard();
    L.global = kind != PMC && kind != PPHASE && !(kind == PSPD && L.I->c->metric == 1 /* a step can leave the matrices */); L.k = k; if (k == S_LRTRSR1 && !flat(*L.I)) throw Discard();
    L.second = k != S_RSD && k != S_RCG && k != S_RTRSD && al != LSSM_EXACT && al != LSSM_STRONGWOLFE /* the interpolation may fail on long directions and flat starts */; /* the others may need more iterations than allowed on ill-conditioned instances */
    SplitMix r = g.data(); L.x0 = L.I->point(r, 0); L.X0 = L.I->elem(L.x0); L.run = makeRun(k, L.I->P.get(), &L.X0); g.addNote(solverName(k)); g.label(solverName(k));
    SolversSM &s = *L.run.s; s.Verbose = NOOUTPUT; s.Max_Iteration = 2000; s.Tolerance = g.pick(std::vector<double>{1e-6, 1e-6, 1e-4});
    if (!tr) { L.run.ls->LineSearch_LS = (LSAlgoSM) al; if (g.chance(1, 3)) L.run.ls->Num_pre_funs = g.integer(2, 5); }
    std::ostringstream o; o << " line search " << al << " tol " << s.Tolerance << " "; g.addNote(o.str());
    return L;
}
} // namespace

VP_CHECK("C21", reaches_minimum, 12000, 200000, "the run made at least three iterations") {
    OptCase L = makeOpt(g); const Inst &I = *L.I; SolversSM &s = *L.run.s; double f0 = I.f(L.x0);
    s.Run(); V x = rawE(s.GetXopt()); double f = s.Getfinalfun(), sc = 1 + std::fabs(f0) + std::fabs(std::isnan(I.opt) ? 0 : I.opt);
    if (I.kind == PSPD && condOf(I, x) > 1e12) throw Discard(); /* a first step across many orders of magnitude */
    g.require(vfinite(x) && std::isfinite(f), "the result is not finite");
    g.close(f, I.f(x), sc * (I.kind == PSPD ? condOf(I, x) : 1), 1e-9, "reported minimum");
    bool mono = L.global && (L.run.tr || (L.run.ls->Num_pre_funs <= 1 && L.run.ls->LineSearch_LS != LSSM_EXACT));
    if (mono) g.require(f <= f0 + 1e-10 * sc, "the run ended above its start");
    if (!std::isnan(I.opt)) g.require(f >= I.opt - 1e-9 * sc, "the reported minimum is below the true one");
    bool conv = s.Getnormgfgf0() < s.Tolerance; g.label(conv ? "converged" : s.GetIter() >= 2000 ? "iterations" : "ended early"); double ng0 = s.Getnormgf() / std::max(1e-300, s.Getnormgfgf0());
    if (getenv("VP_DBG")) fprintf(stderr, "iter %d f %.17g opt %.17g |g| %g rel %g\n", (int) s.GetIter(), f, I.opt, s.Getnormgf(), s.Getnormgfgf0());
    auto again = [&](std::function<bool(SolversSM &)> good) { /* rarely a line search or an update rule stalls, or a saddle point attracts: then it has to work from another start */
        SplitMix r2 = g.data();
        for (int t = 0; t < 2; t++) {
            V xa = I.point(r2, 0); Variable XA = I.elem(xa); Run o = makeRun(L.k, I.P.get(), &XA); SolversSM &q = *o.s; q.Verbose = NOOUTPUT; q.Max_Iteration = 2000; q.Tolerance = s.Tolerance; if (o.ls) { o.ls->LineSearch_LS = L.run.ls->LineSearch_LS; o.ls->Num_pre_funs = L.run.ls->Num_pre_funs; }
            q.Run(); if (good(q)) { g.label("from another start"); return true; }
        }
        return false;
    };
    if (!conv) { if (!(s.Getnormgf() <= 1e-5 * std::max(1.0, ng0)) && L.global && L.second) {
        if (again([&](SolversSM &q) { return q.Getnormgfgf0() < q.Tolerance || q.Getnormgf() <= 1e-5 * std::max(1.0, q.Getnormgf() / std::max(1e-300, q.Getnormgfgf0())); })) return;
        std::ostringstream o; o << "ended after " << s.GetIter() << " iterations with gradient " << s.Getnormgf() << " (start " << ng0 << ")"; g.fail(o.str()); } return; }
    SplitMix r = g.data(); double slope = fdGrad(I, x, r, 3), ng = s.Getnormgf();
    if (condOf(I, x) < 1e4) if (!(slope <= 1.01 * ng + 1e-7 * sc * (1 + I.curv) * condOf(I, x))) { std::ostringstream o; o << "the objective's slope is " << slope << " where the gradient is reported as " << ng; g.fail(o.str()); }
    if (L.global && !std::isnan(I.opt) && s.Tolerance < 1e-5) { if (!(f <= I.opt + 1e-6 * sc) && !again([&](SolversSM &q) { return q.Getfinalfun() <= I.opt + 1e-6 * sc; })) { std::ostringstream o; o << "converged to " << f << " while the minimum is " << I.opt << " (gradient " << ng << ")"; g.fail(o.str()); } }
    if (s.GetIter() >= 3) g.nontrivial();
}

VP_CHECK("C21", hessian_extremes, 20000, 400000, "a tangent space of dimension at least two with distinct extreme eigenvalues") {
    std::shared_ptr<Inst> I = makeSolvable(g, 0, 5); if (!I->hess || I->kind == PTX) throw Discard();
    SplitMix r = g.data(); V x = I->point(r, 0); Variable X = I->elem(x); I->P->SetUseGrad(true); I->P->SetUseHess(true); I->P->f(X); Vector G(I->M->GetIsIntrinsic() ? I->M->GetEMPTYINTR() : I->M->GetEMPTYEXTR()); I->P->Grad(X, &G);
    /* dense Hessian in an orthonormal basis of the tangent space */
    std::vector<Vector> B; int d = I->dim();
    for (int t = 0; t < 6 * d && (int) B.size() < d; t++) { Vector v = I->vec(X, I->tangent(r, x, 1)); for (int k = 0; k < 2; k++) for (auto &b : B) I->M->ScalarVectorAddVector(X, -I->M->Metric(X, b, v), b, v, &v); double n = std::sqrt(std::max(0.0, I->M->Metric(X, v, v))); if (n < 1e-3) continue; I->M->ScalarTimesVector(X, 1 / n, v, &v); B.push_back(v); }
    if ((int) B.size() != d) throw Discard();
    Mat Hm(d, d); for (int j = 0; j < d; j++) { Vector h(B[j]); I->P->HessianEta(X, B[j], &h); for (int i = 0; i < d; i++) Hm(i, j) = I->M->Metric(X, B[i], h); }
    std::vector<double> w; Mat U; eigh(sym(Hm), w, U); std::sort(w.begin(), w.end());
    double sc = std::max({std::fabs(w[0]), std::fabs(w[d - 1]), 1e-6}); genrandseed(g.integer(0, 1000)); V q;
    for (int t = 0; t < 3; t++) { /* with a very small probability the random start is next to another eigenvector: not three times */
        Vector e = I->P->MinMaxEigValHess(X); q = rawE(e); if (std::fabs(q[0] - w[0]) <= 1e-4 * sc && std::fabs(q[1] - w[d - 1]) <= 1e-4 * sc) break; g.label("another start");
    }
    if (getenv("VP_DBG")) fprintf(stderr, "cond %g dim %d asym %g ref %g %g got %g %g\n", condOf(*I, x), d, nrm(Hm - H(Hm)), w[0], w[d - 1], q[0], q[1]);
    g.close(q[0], w[0], sc, 1e-4, "smallest eigenvalue of the Hessian"); g.close(q[1], w[d - 1], sc, 1e-4, "largest eigenvalue of the Hessian");
    if (d >= 2 && w[d - 1] - w[0] > 1e-3 * sc) g.nontrivial();
}
