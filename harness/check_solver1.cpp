/* C16 line searches */
#include "solv.h"
using namespace vp;

namespace {
struct LSCase { std::shared_ptr<Inst> I; Run run; V x0; Variable X0; };
LSCase makeLS(Gen &g, std::vector<int> solvers, std::vector<int> algos, std::vector<int> kinds = {}) {
    int k = g.pick(solvers);
    int al = g.pick(algos);
    int need = (al == LSSM_ARMIJO || al == LSSM_INPUTFUN ? 0 : N_DR) | (k == S_RSD || k == S_RNEWTON || k == S_RCG ? 0 : N_TRANSPORT);
    LSCase L; L.I = makeSolvable(g, need | N_LIN, 5, kinds);
    if (k == S_RNEWTON && !L.I->hess) k = S_RSD;
    SplitMix r = g.data(); L.x0 = L.I->point(r, 0); L.X0 = L.I->elem(L.x0);
    L.run = makeRun(k, L.I->P.get(), &L.X0);
    g.addNote(solverName(k)); g.addNote(" "); g.label(solverName(k));
    SolversSMLS &s = *L.run.ls;
    s.Verbose = g.chance(1, 4) ? NOOUTPUT : ITERRESULT;
    s.LineSearch_LS = (LSAlgoSM) al;
    static const char *an[] = {"ARMIJO", "WOLFE", "STRONGWOLFE", "EXACT", "INPUT"};
    g.addNote(an[al]); g.addNote(" "); g.label(an[al]);
    s.Max_Iteration = g.integer(1, 12);
    s.LS_alpha = g.pick(std::vector<double>{1e-4, 0.1, 0.3});
    s.LS_beta = g.pick(std::vector<double>{0.999, 0.9, 0.5});
    if (g.boolean()) { auto q = g.pick(std::vector<std::pair<double, double>>{{0.5, 0.5}, {0.25, 0.25}, {0.2, 0.6}, {0.05, 0.3}, {0.7, 0.4}}); s.LS_ratio1 = q.first; s.LS_ratio2 = q.second; }
    if (g.boolean()) { s.Num_pre_funs = g.integer(1, 5); s.PreFunsAccuracy = g.pick(std::vector<double>{1e6, 1, 0.1, 0}); }
    if (g.boolean()) s.Initstepsize = g.logreal(1e-4, 1e2);
    s.InitSteptype = (InitStepsizeSetSM) g.integer(0, 4);
    if (g.chance(1, 3)) { s.Num_pre_BB = g.integer(0, 3); s.BBratio = g.pick(std::vector<double>{1, 0, 0.5}); }
    if (g.chance(1, 3)) { s.Accuracy = g.pick(std::vector<double>{0.5, 0, 1e-2}); s.Finalstepsize = g.pick(std::vector<double>{-1, 0.2}); }
    if (g.chance(1, 4)) s.Minstepsize = g.logreal(1e-12, 1e-2);
    if (g.chance(1, 4)) s.Maxstepsize = g.logreal(0.1, 100);
    std::ostringstream o; o << "alpha=" << s.LS_alpha << " beta=" << s.LS_beta << " r=" << s.LS_ratio1 << "," << s.LS_ratio2 << " npf=" << s.Num_pre_funs << " pfa=" << s.PreFunsAccuracy << " t0=" << s.Initstepsize << " init=" << s.InitSteptype << " acc=" << s.Accuracy << " min=" << s.Minstepsize << " max=" << s.Maxstepsize << " it=" << s.Max_Iteration << " ";
    g.addNote(o.str());
    return L;
}
double fs(double f) { return 1 + std::fabs(f); }
/* the run was thrown far away (a forced step, an unbounded objective) or to the edge of the manifold: rounding rules from here on */
bool blownUp(const Inst &I, const std::vector<It> &its, const It &t) {
    for (auto &q : its) { if (std::fabs(q.step) > 1e8 && q.step * vnrm(q.dir) < 1e4) return true; if (&q == &t) break; } /* a rounding-level direction stretched to order one */
    for (double f : {t.f1, t.f2}) if (!(std::fabs(f) <= 1e6 * fs(its[0].f1))) return true;
    for (const V *x : {&t.x1, &t.x2}) if (!(vnrm(*x) <= 1e6 * (1 + vnrm(its[0].x1))) || !(condOf(I, *x) < 1e8)) return true;
    return false;
}
bool accurate(const It &t, const SolversSM &s) { return t.ngf1 / (t.ngf0 + s.Tolerance) < s.Accuracy; }
/* slope of f along the curve of the step, by differences; NAN when they do not settle */
double fdSlope(const Inst &I, const V &x, const V &dir, double t) {
    double n = vnrm(dir), lowest = 1; if (n < 1e-12) return NAN;
    if (I.c && (I.c->kind == SYM || I.c->kind == F2 || I.c->kind == FRE || I.c->kind == SPD)) /* close to where the manifold ends differences say nothing */
        for (const V &y : {x, rawE(step(I, x, vscale(t, dir)))}) for (auto &M : I.c->split(y)) { double e = svals(M)[I.c->p - 1]; if (e < 2e-2 * std::max(1.0, n)) return NAN; lowest = std::min(lowest, e); }
    auto F = [&](double s) { return I.P->f(step(I, x, vscale(s, dir))); };
    auto D = [&](double h) { return (8 * (F(t + h) - F(t - h)) - (F(t + 2 * h) - F(t - 2 * h))) / (12 * h); };
    double h = std::min(1e-3, lowest / 100) / std::max(n, 1e-3), a = D(h), b = D(h / 2);
    double sc = n * fs(F(t)) * (1 + I.curv);
    if (!(std::fabs(a - b) <= 1e-6 * sc)) return NAN;
    return b;
}
} // namespace

VP_CHECK("C16", moves_along_direction, 60000, 900000, "at least two iterations were made with a step other than one") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RWRBFGS, S_RBROYDEN, S_LRBFGS}, {LSSM_ARMIJO, LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    s.Run();
    auto &its = L.run.mon->its;
    int moved = 0;
    V prev = L.x0;
    for (auto &t : its) {
        if (vdiff(t.x1, prev) != 0) g.fail("an iteration does not start where the previous one ended");
        prev = t.x2;
        if (blownUp(I, its, t)) break;
        double sx = 1 + vnrm(t.x1);
        V gr = gradAt(I, t.x1);
        closeV(g, t.gf1, gr, (1 + vnrm(gr)) * condOf(I, t.x1), 1e-8, "gradient used by the iteration");
        double sl = met(I, t.x1, t.gf1, t.dir), sg = std::sqrt(std::max(0.0, met(I, t.x1, t.gf1, t.gf1) * met(I, t.x1, t.dir, t.dir)));
        g.close(t.slope, sl, 1e-300 + sg, 1e-9, "initial slope");
        if (t.ngf1 > 1e-5 * t.ngf0 && t.ngf1 > 1e-8) g.require(t.slope < 0, "the search direction does not descend");
        closeV(g, t.eta2, vscale(t.step, t.dir), 1e-300 + std::fabs(t.step) * vnrm(t.dir), t.status == LSSM_SUCCESS ? 1e-12 : 1e300, "step along the direction");
        V y = rawE(step(I, t.x1, t.eta2));
        closeV(g, t.x2, y, (sx + vnrm(y)) * condOf(I, t.x1), 1e-9, "next iterate is the retraction of the step");
        g.close(t.f2, I.P->f(I.elem(t.x2)), fs(t.f2), 1e-9, "objective at the next iterate");
        double fd = fdSlope(I, t.x1, t.dir, 0);
        if (!std::isnan(fd)) g.close(t.slope, fd, vnrm(t.dir) * fs(t.f1) * (1 + I.curv), 1e-5, "slope against differences of the objective");
        if (t.step != 1) moved++;
    }
    if (moved >= 2) g.nontrivial();
}

VP_CHECK("C16", armijo_condition, 100000, 1500000, "some step was reduced, and some were not") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RBROYDEN, S_RWRBFGS, S_LRBFGS}, {LSSM_ARMIJO});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    s.Run();
    auto &its = L.run.mon->its;
    std::vector<double> hist; bool non = false; int red = 0, since = 0;
    double r1 = s.LS_ratio1, r2 = s.LS_ratio2;
    for (size_t k = 0; k < its.size(); k++) {
        It &t = its[k];
        if (blownUp(I, its, t)) break;
        /* largest value in the window */
        if (k > 0 && t.ngf1 / (t.ngf0 + s.Tolerance) <= s.PreFunsAccuracy) non = true; /* ngf1 is the norm where this iteration starts */
        double mx = t.f1, low = t.f1; int win = non ? s.Num_pre_funs : 1;
        for (int i = 1; i < win && i <= (int) hist.size(); i++) mx = std::max(mx, hist[hist.size() - i]);
        /* values the search certainly looks at: those since the window was opened */
        if (non) since++;
        for (int i = 1; i < win && i < since; i++) low = std::max(low, hist[hist.size() - i]);
        hist.push_back(t.f1);
        if (accurate(t, s)) {
            double want = s.Finalstepsize > 0 ? s.Finalstepsize : t.init;
            g.close(t.step, want, std::fabs(want), 1e-15, "step used once accurate enough");
            continue;
        }
        double eps = 1e-13 * fs(t.f1);
        g.require(!t.trials.empty(), "the search evaluated nothing");
        g.close(t.trials[0].t, t.init, std::fabs(t.init), 1e-15, "first step tried");
        if (t.status == LSSM_SUCCESS) {
            g.require(t.f2 <= mx + s.LS_alpha * t.step * t.slope + eps, "accepted step without sufficient decrease");
            g.close(t.step, t.trials.back().t, std::fabs(t.step), 1e-15, "accepted step is the last one tried");
            if (t.trials.size() > 1 && r2 <= r1) g.require(t.step >= s.Minstepsize, "step below the configured minimum");
        } else g.require(t.status == LSSM_MINSTEPSIZE && t.step < s.Minstepsize, "search failed above the smallest step");
        for (size_t j = 0; j + 1 < t.trials.size(); j++) {
            double a = t.trials[j].t, fa = t.trials[j].f, b = t.trials[j + 1].t;
            if (fa + 2 * eps < low + s.LS_alpha * a * t.slope) g.fail("a step with sufficient decrease was rejected");
            if (r2 <= r1) g.close(b, a * r1, a, 1e-14, "backtracking ratio");
            else {
                g.require(b >= a * r1 * (1 - 1e-14) && b <= a * r2 * (1 + 1e-14), "backtracking outside the configured ratios");
                /* minimiser of the interpolating polynomial, kept inside the ratios */
                double want = NAN, d = fa - t.f1 - t.slope * a;
                if (j == 0) want = -t.slope * a * a / (2 * d);
                else {
                    double p = t.trials[j - 1].t, e = t.trials[j - 1].f - t.f1 - t.slope * p;
                    /* d = A a^3 + B a^2, e = A p^3 + B p^2 */
                    double A = (d / (a * a) - e / (p * p)) / (a - p), B = d / (a * a) - A * a, disc = B * B - 3 * A * t.slope;
                    if (std::fabs(d) > 1e-6 * fs(t.f1) && std::fabs(e) > 1e-6 * fs(t.f1) && disc > 1e-6 * B * B && std::fabs(A * a) > 1e-4 * std::fabs(B)) want = (-B + std::sqrt(disc)) / (3 * A);
                }
                if (!std::isnan(want) && std::fabs(d) > 1e-6 * fs(t.f1)) { want = std::min(std::max(want, a * r1), a * r2); g.close(b, want, a, 1e-5, "interpolated step"); }
            }
        }
        if (t.trials.size() > 1) red++;
    }
    if (red >= 1 && red < (int) its.size()) g.nontrivial();
}

VP_CHECK("C16", curvature_conditions, 80000, 1200000, "some initial step did not meet the condition at once") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RBROYDEN, S_RWRBFGS, S_LRBFGS}, {LSSM_WOLFE, LSSM_STRONGWOLFE});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    s.Run();
    bool nt = false;
    for (auto &t : L.run.mon->its) {
        if (blownUp(I, L.run.mon->its, t)) break;
        g.close(t.f2, I.P->f(I.elem(t.x2)), fs(t.f2), 1e-9, "objective at the next iterate");
        V gr = gradAt(I, t.x2); closeV(g, t.gf2, gr, (1 + vnrm(gr)) * condOf(I, t.x2), 1e-8, "gradient at the next iterate");
        if (accurate(t, s)) continue;
        if (t.status == LSSM_SUCCESS || t.status == LSSM_MAXSTEPSIZE) {
            double eps = 1e-13 * fs(t.f1);
            if (t.status == LSSM_SUCCESS) g.require(t.f2 <= t.f1 + s.LS_alpha * t.step * t.slope + eps, "accepted step without sufficient decrease");
            if (t.status == LSSM_SUCCESS) {
                double fd = fdSlope(I, t.x1, t.dir, t.step), sc = vnrm(t.dir) * fs(t.f1) * (1 + I.curv);
                if (s.LineSearch_LS == LSSM_WOLFE) g.require(t.newslope >= s.LS_beta * t.slope * (1 + 1e-12), "accepted step without the curvature condition");
                else g.require(std::fabs(t.newslope) <= -s.LS_beta * t.slope * (1 + 1e-12), "accepted step without the strong curvature condition");
                if (!std::isnan(fd)) g.close(t.newslope, fd, sc, 1e-5, "slope at the accepted step");
            }
            for (size_t j = 1; j < t.trials.size(); j++) g.require(t.trials[j].t <= std::max(s.Maxstepsize, t.init) * (1 + 1e-14), "step beyond the configured maximum");
            if (t.trials.size() > 1) nt = true;
        }
    }
    if (nt) g.nontrivial();
}

VP_CHECK("C16", exact_search, 40000, 600000, "the accepted step was not the first one tried") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RBROYDEN, S_RWRBFGS, S_LRBFGS}, {LSSM_EXACT});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    s.Run();
    bool nt = false;
    for (auto &t : L.run.mon->its) {
        if (blownUp(I, L.run.mon->its, t)) break;
        if (accurate(t, s) || t.status != LSSM_SUCCESS) continue;
        double fd = fdSlope(I, t.x1, t.dir, t.step), sc = vnrm(t.dir) * fs(t.f1) * (1 + I.curv);
        if (!std::isnan(fd)) g.close(t.newslope, fd, sc, 1e-5, "slope at the accepted step");
        g.require(t.f2 <= t.f1 + 1e-12 * fs(t.f1), "exact search increased the objective");
        if (I.c && I.c->kind == EUC && I.kind == PEUC && t.ngf1 > 1e-4 * t.ngf0 && std::fabs(t.slope * t.step) > 1e-6 * fs(t.f1)) g.require(std::fabs(t.newslope) <= 1e-5 * std::fabs(t.slope) + 1e-9, "the exact search did not reach the minimiser of a parabola");
        if (t.trials.size() > 1) nt = true;
    }
    if (nt) g.nontrivial();
}

namespace {
/* checks every initial step against the configured rule; returns how often a rule with memory was used */
int checkInitSteps(Gen &g, const Inst &I, SolversSMLS &s, std::vector<It> &its) {
    std::vector<double> pre; int mem = 0;
    for (size_t k = 0; k < its.size(); k++) {
        It &t = its[k];
        if (k == 0) { g.close(t.init, s.Initstepsize, s.Initstepsize, 1e-15, "first initial step"); continue; }
        It &p = its[k - 1];
        if (blownUp(I, its, t)) break;
        double q = 2 * (t.f1 - p.f1) / p.slope, want = 1, tol = 1e-9;
        double df = std::fabs(t.f1 - p.f1);
        switch (s.InitSteptype) {
        case LSSM_ONESTEP: want = 1; break;
        case LSSM_QUADINT: want = q; break;
        case LSSM_QUADINTMOD: want = std::min(1.0, 1.01 * q); break;
        default: {
            V sv, yv; double ss, sy, yy;
            if (s.InitSteptype == LSSM_BBSTEP) {
                Variable X = I.elem(p.x1), Y = I.elem(p.x2); Vector e = tvec(I, X, p.eta2); I.M->Retraction(X, e, &Y); Vector gg = tvec(I, X, p.gf1), a(e), b(e);
                I.M->VectorTransport(X, e, Y, e, &a); I.M->VectorTransport(X, e, Y, gg, &b);
                V ta = rawE(a), y = vadd(t.gf1, -1, rawE(b));
                ss = met(I, t.x1, ta, ta); sy = met(I, t.x1, ta, y); yy = met(I, t.x1, y, y);
            } else {
                if (!I.c || !(I.c->kind == EUC || I.c->kind == STIE || I.c->kind == SPHERE)) return mem;
                V d = vadd(t.x1, -1, p.x1);
                auto ex = [&](const V &x, const V &v) { Variable X = I.elem(x); return I.c->out(X, tvec(I, X, v)); };
                V y = vadd(ex(t.x1, t.gf1), -1, ex(p.x1, p.gf1));
                ss = vdot(d, d); sy = vdot(d, y); yy = vdot(y, y);
            }
            if (yy == 0) { g.require(std::isfinite(t.init) && t.init > 0, "initial step is not a positive number"); return mem; }
            double b1 = ss / sy, b2 = sy / yy;
            if (std::fabs(sy) < 1e-6 * std::sqrt(ss * yy)) { return mem; }
            pre.insert(pre.begin(), b2 < 2.3e-16 ? s.Initstepsize / t.ngf1 : b2);
            if ((int) pre.size() > s.Num_pre_BB) pre.pop_back();
            if (s.BBratio == 0) want = b1; else if (s.BBratio == 1 && s.Num_pre_BB == 0) want = b2;
            else { double m = b2; for (double v : pre) m = std::min(m, v); if (std::fabs(m / b1 - s.BBratio) < 1e-6) continue; want = m / b1 < s.BBratio ? m : b1; }
            tol = 1e-6; mem++;
        } }
        if (df < 1e-10 * fs(t.f1)) continue; /* the quadratic interpolation is rounding */
        if (std::fabs(want - q / 100) < 1e-7 * std::fabs(want)) continue;
        if (want < q / 100) want = q;
        if (want < 2.3e-16) want = s.Initstepsize / t.ngf1;
        if (s.InitSteptype == LSSM_QUADINT || s.InitSteptype == LSSM_QUADINTMOD) mem++;
        if (getenv("VP_DBG")) fprintf(stderr, "want it %d: %g got %g q %g\n", t.iter, want, t.init, q);
        g.close(t.init, want, std::fabs(want), tol, "initial step of the chosen rule");
    }
    return mem;
}
} // namespace

VP_CHECK("C16", initial_step_rules, 60000, 900000, "a rule with memory was used at least once") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_LRBFGS}, {LSSM_ARMIJO}, {PEUC, PSTIE, PSTIE, PCSTIE, PGRASS, PWAVE, PPROD, PSPD, PHULL});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    if (I.c && I.c->hhr) throw Discard();
    s.Run();
    if (checkInitSteps(g, I, s, L.run.mon->its)) g.nontrivial();
}

/* a search supplied by the user */
namespace {
struct SearchCall { int iter; V x, dir; bool ambient; double init, slope; const Problem *P; const Solvers *S; double answer; };
std::vector<SearchCall> *calls; std::vector<double> *answers;
realdp userSearch(integer iter, const Variable &x1, const Vector &d, realdp init, realdp slope, const Problem *P, const Solvers *S) {
    double a = (*answers)[iter % answers->size()]; if (a < 0) a = -a * init;
    calls->push_back({(int) iter, rawE(x1), rawE(d), true, init, slope, P, S, a});
    return a;
}
} // namespace
VP_CHECK("C16", search_of_the_user, 40000, 600000, "at least two iterations asked the user's search") {
    LSCase L = makeLS(g, {S_RSD, S_RCG, S_RNEWTON, S_RBFGS, S_RWRBFGS, S_RBROYDEN, S_LRBFGS}, {LSSM_INPUTFUN}, {PEUC, PSTIE, PSTIE, PCSTIE, PGRASS, PWAVE, PWAVE, PPROD, PSPD, PHULL});
    const Inst &I = *L.I; SolversSMLS &s = *L.run.ls;
    std::vector<double> ans; std::vector<SearchCall> cs;
    for (int i = 0, n = g.integer(1, 4); i < n; i++) ans.push_back(g.chance(1, 2) ? -g.pick(std::vector<double>{1, 0.5, 0.1}) : g.chance(1, 8) ? 0.0 : g.logreal(1e-4, 1));
    s.IsPureLSInput = g.boolean(); s.LinesearchInput = &userSearch; calls = &cs; answers = &ans;
    g.addNote(s.IsPureLSInput ? "pure " : "then backtracking "); g.label(s.IsPureLSInput ? "pure" : "backtracking");
    s.Run();
    auto its = L.run.mon->its;
    size_t c = 0; bool full = true;
    for (auto &t : its) {
        if (blownUp(I, its, t)) { full = false; its.resize(&t - &its[0]); break; }
        if (accurate(t, s)) {
            double want = s.Finalstepsize > 0 ? s.Finalstepsize : t.init;
            g.close(t.step, want, std::fabs(want), 1e-15, "step used once accurate enough");
            continue;
        }
        g.require(c < cs.size(), "the user's search was not asked");
        SearchCall &u = cs[c++];
        g.require(u.iter == t.iter - 1, "iteration number told to the search");
        g.require(u.P == I.P.get() && u.S == (Solvers *) L.run.s, "problem and solver told to the search");
        closeV(g, u.x, t.x1, 0, 0, "iterate told to the search");
        Variable X = I.elem(t.x1); V want = t.dir;
        if (I.M->GetIsIntrinsic()) { Vector e(I.M->GetEMPTYEXTR()), in = tvec(I, X, t.dir); I.M->ObtainExtr(X, in, &e); want = rawE(e); }
        closeV(g, u.dir, want, 1 + vnrm(want), 1e-13, "direction told to the search");
        g.require(u.slope == t.slope, "slope told to the search");
        double st = u.answer < 2.2e-16 ? u.init : u.answer;
        g.close(t.init, st, st, 1e-15, "step of the search is where the solver starts");
        g.require(!t.trials.empty(), "no step was evaluated");
        g.close(t.trials[0].t, st, st, 1e-15, "first step tried is the one of the user");
        if (s.IsPureLSInput) { g.close(t.step, st, st, 1e-15, "step chosen by the user was not used"); g.require(t.trials.size() == 1, "a step chosen by the user was searched further"); }
        else if (t.status == LSSM_SUCCESS) {
            double top = t.f1; for (double q : t.prefs) top = std::max(top, q);
            g.require(t.f2 <= top + s.LS_alpha * t.step * t.slope + 1e-13 * fs(t.f1), "accepted step without sufficient decrease");
            if (t.trials[0].f + 2e-13 * fs(t.f1) < t.f1 + s.LS_alpha * st * t.slope) g.require(t.trials.size() == 1, "a step with sufficient decrease was rejected");
        }
        g.close(t.f2, I.P->f(I.elem(t.x2)), fs(t.f2), 1e-9, "objective at the next iterate");
        V gr = gradAt(I, t.x2); closeV(g, t.gf2, gr, (1 + vnrm(gr)) * condOf(I, t.x2), 1e-8, "gradient at the next iterate");
        if (t.status == LSSM_SUCCESS) { V y = rawE(step(I, t.x1, vscale(t.step, t.dir))); double l = t.step * vnrm(t.dir); if (l < 1e5) closeV(g, t.x2, y, (1 + vnrm(t.x1) + vnrm(y)) * condOf(I, t.x1) * (1 + 1e-2 * l), 1e-9, "next iterate is the retraction of the step"); /* nearly dependent columns after very long steps */ }
        t.init = u.init;
    }
    if (full && c < cs.size() && std::isfinite(L.run.mon->lastF2())) g.fail("the user's search was asked after the last iteration");
    if (!(I.c && I.c->hhr)) checkInitSteps(g, I, s, its);
    if (c >= 2) g.nontrivial();
}
