/* C17 trust regions */
#include "solv.h"
using namespace vp;

namespace {
struct TRCase { std::shared_ptr<Inst> I; Run run; V x0; Variable X0; };
double fs(double f) { return 1 + std::fabs(f); }
bool flat(const Inst &I) { /* the coordinates of tangent vectors are orthonormal */
    auto ok = [](const Conf &c) { return c.intr || c.kind == EUC || c.kind == SPHERE || (c.kind == STIE && !c.proj) || c.kind == STIE; };
    if (I.c) return ok(*I.c);
    for (auto &p : I.parts) if (!ok(*p)) return false;
    return true;
}
TRCase makeTR(Gen &g, std::vector<int> solvers, std::vector<int> kinds = {}) {
    int k = g.pick(solvers);
    int need = (k == S_RTRSR1 || k == S_LRTRSR1) ? N_TRANSPORT : 0;
    TRCase L; L.I = makeSolvable(g, need, 5, kinds);
    if (k == S_RTRNEWTON && !L.I->hess) k = S_RTRSD;
    if (k == S_LRTRSR1 && !flat(*L.I)) throw Discard();
    SplitMix r = g.data();
    if (L.I->kind == PWAVE && L.I->c->kind == EUC && g.chance(1, 3)) {
        auto W = std::static_pointer_cast<WaveProb>(L.I->P); W->prec = true; W->pd.resize(L.I->c->extr()); for (auto &e : W->pd) e = std::exp(1.2 * r.normal()); g.addNote("preconditioned ");
    }
    L.x0 = L.I->point(r, 0); L.X0 = L.I->elem(L.x0);
    L.run = makeRun(k, L.I->P.get(), &L.X0);
    g.addNote(solverName(k)); g.addNote(" "); g.label(solverName(k));
    SolversSMTR &s = *L.run.tr;
    s.Verbose = g.chance(1, 4) ? NOOUTPUT : ITERRESULT;
    s.Max_Iteration = g.integer(1, 15);
    if (g.boolean()) s.initial_Delta = g.logreal(1e-3, 30);
    if (g.chance(1, 3)) s.maximum_Delta = g.pick(std::vector<double>{0.5, 2, 1e4}); 
    if (g.chance(1, 6)) s.minimum_Delta = g.pick(std::vector<double>{1e-2, 0.2});
    if (s.initial_Delta < s.minimum_Delta) s.initial_Delta = s.minimum_Delta;
    if (s.initial_Delta > s.maximum_Delta) s.initial_Delta = s.maximum_Delta;
    if (g.boolean()) s.Acceptence_Rho = g.pick(std::vector<double>{0.01, 0.2, 0.24});
    if (g.boolean()) s.Shrinked_tau = g.pick(std::vector<double>{0.5, 0.1, 0.9});
    if (g.boolean()) s.Magnified_tau = g.pick(std::vector<double>{1.5, 4, 10});
    if (g.boolean()) s.theta = g.pick(std::vector<double>{0, 0.1, 1});
    if (g.boolean()) s.kappa = g.pick(std::vector<double>{0.9, 0.1, 1e-3});
    if (g.chance(1, 4)) s.Max_Inner_Iter = g.integer(1, 4);
    if (g.chance(1, 5) && L.I->kind == PWAVE && L.I->dim() >= 5 && k != S_RTRSD) s.Min_Inner_Iter = g.integer(0, 2); /* fewer distinct eigenvalues than iterations asked for leave only rounding */
    if (s.Min_Inner_Iter > s.Max_Inner_Iter) s.Min_Inner_Iter = s.Max_Inner_Iter;
    if (g.chance(1, 6)) s.useRand = true;
    if (g.chance(1, 3)) s.Accuracy = g.pick(std::vector<double>{0.3, 0});
    std::ostringstream o; o << "D0=" << s.initial_Delta << " D=" << s.minimum_Delta << ".." << s.maximum_Delta << " rho=" << s.Acceptence_Rho << " tau=" << s.Shrinked_tau << "," << s.Magnified_tau << " theta=" << s.theta << " kappa=" << s.kappa << " inner=" << s.Min_Inner_Iter << ".." << s.Max_Inner_Iter << " acc=" << s.Accuracy << " it=" << s.Max_Iteration << " ";
    g.addNote(o.str());
    return L;
}
bool blownUp(const Inst &I, const std::vector<It> &its, const It &t) {
    for (double f : {t.f1, t.f2}) if (!(std::fabs(f) <= 1e6 * fs(its[0].f1))) return true;
    for (const V *x : {&t.x1, &t.x2}) if (!(vnrm(*x) <= 1e6 * (1 + vnrm(its[0].x1))) || !(condOf(I, *x) < 1e8)) return true;
    return false;
}
double minEig(const std::vector<V> &H, double &nr) { int n = H.size(); Mat A(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A(i, j) = H[j][i]; A = sym(A); nr = nrm(A); std::vector<double> w; Mat U; eigh(A, w, U); return w[0]; }
} // namespace

VP_CHECK("C17", region_acceptance_and_radius, 120000, 2000000, "a step was rejected or the radius changed, and a step was accepted") {
    TRCase L = makeTR(g, {S_RTRSD, S_RTRNEWTON, S_RTRNEWTON, S_RTRSR1, S_LRTRSR1});
    const Inst &I = *L.I; SolversSMTR &s = *L.run.tr;
    s.Run();
    auto &its = L.run.mon->its;
    int rej = 0, acc = 0, chg = 0;
    V at = L.x0;
    double Delta = s.initial_Delta;
    bool judged = true;
    for (size_t k = 0; k < its.size(); k++) {
        It &t = its[k];
        g.require(vdiff(t.x1, at) == 0, "the iterate changed although nothing was accepted, or is not the accepted one");
        if (blownUp(I, its, t)) { judged = false; break; }
        double Dn = k + 1 < its.size() ? its[k + 1].Delta : L.run.mon->finalDelta();
        g.close(t.Delta, Delta, Delta, 1e-15, "radius used");
        g.require(t.Delta <= s.maximum_Delta * (1 + 1e-15) && t.Delta >= s.minimum_Delta * (1 - 1e-15), "radius outside its bounds");
        V y = rawE(step(I, t.x1, t.eta2));
        closeV(g, t.x2, y, (1 + vnrm(t.x1) + vnrm(y)) * condOf(I, t.x1), 1e-9, "candidate is the retraction of the step");
        g.close(t.f2, I.P->f(I.elem(t.x2)), fs(t.f2), 1e-9, "objective at the candidate");
        V gr = gradAt(I, t.x1); closeV(g, t.gf1, gr, (1 + vnrm(gr)) * condOf(I, t.x1), 1e-8, "gradient used by the iteration");
        double pred = -(t.ge + 0.5 * t.eHe), ared = t.f1 - t.f2, rho = ared / pred;
        bool fine = std::fabs(pred) > 1e-10 * fs(t.f1) && std::fabs(pred) > 1e-12 * (std::fabs(t.ge) + std::fabs(t.eHe));
        if (fine) g.close(t.rho, rho, 1 + std::fabs(rho), 1e-4, "ratio of actual to predicted reduction");
        bool accurate = t.ngf1 / (t.ngf0 + s.Tolerance) < s.Accuracy;
        bool nextSame = k + 1 < its.size() ? vdiff(its[k + 1].x1, t.x1) == 0 : true;
        if (t.accepted) {
            acc++; at = t.x2;
            bool small = std::fabs(t.f1 - t.f2) / fs(t.f1) < 1.5e-8 && t.f2 < t.f1;
            g.require(t.rho > s.Acceptence_Rho || small || (accurate && (t.f2 < t.f1 || t.tcg == TRSM_MIN || t.tcg == TRSM_LCON || t.tcg == TRSM_SCON)), "a step was accepted below the threshold");
            if (!accurate && fine && (pred > 0 || L.run.kind != S_LRTRSR1)) g.require(t.f2 <= t.f1 + 1e-13 * fs(t.f1), "an accepted step increased the objective");
            if (!std::isnan(t.rho) && k + 1 < its.size()) g.require(vdiff(its[k + 1].x1, t.x2) == 0, "the next iterate is not the accepted one");
        } else {
            rej++;
            g.require(!(t.rho > s.Acceptence_Rho) || (k + 1 == its.size() && L.run.mon->finalDelta() < s.minimum_Delta), "a good step was rejected");
            g.require(nextSame, "a rejected step moved the iterate");
        }
        bool bnd = t.tcg == TRSM_EXCREGION || t.tcg == TRSM_NEGCURVTURE || t.tcg == TRSM_MAXITER;
        if (t.rho > 0.75) Delta = bnd ? std::min(s.maximum_Delta, Delta * s.Magnified_tau) : Delta;
        else if (t.rho < 0.25 && !accurate) Delta *= s.Shrinked_tau;
        if (Delta != t.Delta) chg++;
        g.close(Dn, Delta, Delta, 1e-15, "radius after the iteration");
        if (Delta < s.minimum_Delta) { g.require(k + 1 == its.size(), "the run goes on with a radius below the minimum"); at = t.x1; t.accepted = false; acc = acc; break; }
    }
    if (judged && !its.empty()) { Variable Xf = s.GetXopt(); g.require(vdiff(rawE(Xf), at) == 0, "the reported solution is not the last accepted iterate"); }
    if (acc && (rej || chg)) g.nontrivial();
}

VP_CHECK("C17", model_decrease, 80000, 1500000, "the step is not just the steepest-descent one: at least two inner iterations, or the boundary was reached") {
    TRCase L = makeTR(g, {S_RTRSD, S_RTRNEWTON, S_RTRNEWTON, S_RTRSR1});
    const Inst &I = *L.I; SolversSMTR &s = *L.run.tr;
    bool prec = I.kind == PWAVE && std::static_pointer_cast<WaveProb>(I.P)->prec;
    if (I.kind == PLYAP) prec = true;
    s.Run();
    auto &its = L.run.mon->its; bool nt = false;
    for (auto &t : its) {
        if (blownUp(I, its, t)) break;
        double ne = std::sqrt(std::max(0.0, t.ee)), ng = std::sqrt(t.gg), cnd = condOf(I, t.x1);
        double hn = (std::fabs(t.eHe) / std::max(t.ee, 1e-300)) + std::fabs(t.gHg) / std::max(t.gg, 1e-300); /* size of the operator as seen */
        if (t.ngf1 < 1e-7 * (1 + t.ngf0) || !(hn < 1e8)) continue;
        double rt = t.inner <= 4 ? 1e-6 : 1e-2; /* directions of many inner iterations lose their conjugacy */
        if (prec) {
            if (I.kind == PWAVE) { /* size in the norm of the preconditioner */
                auto W = std::static_pointer_cast<WaveProb>(I.P); double q = 0; for (size_t i = 0; i < t.eta2.size(); i++) q += t.eta2[i] * t.eta2[i] / W->pd[i];
                ne = std::sqrt(q);
            } else ne = -1;
        }
        if (ne >= 0) g.require(ne <= t.Delta * (1 + rt), "step outside the region");
        if (ne >= 0 && (t.tcg == TRSM_EXCREGION || t.tcg == TRSM_NEGCURVTURE)) g.close(ne, t.Delta, t.Delta, rt * cnd, "a step that left the region ends on its boundary");
        double m = t.ge + 0.5 * t.eHe;
        /* steepest descent within the region */
        const double gp = t.pgg, hp = t.pgHpg; double tm = t.Delta / std::sqrt(gp), tc = hp > 0 ? std::min(gp / hp, tm) : tm;
        double mc = -tc * gp + 0.5 * tc * tc * hp;
        if (std::fabs(mc) > 1e-9 * fs(t.f1)) g.require(m <= mc + 1e-6 * std::fabs(mc) * cnd, "the model decreases less than along the steepest descent");
        if (t.tcg == TRSM_LCON || t.tcg == TRSM_SCON) {
            double lim = ng * std::min(std::pow(ng, s.theta), s.kappa);
            if (std::pow(ng, s.theta) * ng > 1e-9 && cnd < 1e4) g.require(t.res <= lim * (1 + 1e-6) + 1e-9 * ng * cnd, "inner iteration stopped above its tolerance");
            g.require((t.tcg == TRSM_LCON) == (s.kappa < std::pow(ng, s.theta)), "reason given for the end of the inner iteration");
        }
        if (t.tcg == TRSM_NEGCURVTURE && t.inner == 0) g.require(hp <= 0, "negative curvature reported where there is none");
        if (t.tcg == TRSM_MAXITER) g.require(t.inner == s.Max_Inner_Iter, "inner iterations when stopped by their number");
        else g.require(t.inner < s.Max_Inner_Iter, "number of inner iterations");
        if ((t.tcg == TRSM_LCON || t.tcg == TRSM_SCON)) g.require(t.inner >= s.Min_Inner_Iter || t.res <= 1e-11 * ng * cnd, "too few inner iterations");
        if (t.inner >= 1 || t.tcg == TRSM_EXCREGION || t.tcg == TRSM_NEGCURVTURE) nt = true;
    }
    if (nt) g.nontrivial();
}

VP_CHECK("C17", limited_memory_subproblem, 60000, 1000000, "the subproblem was solved with at least two pairs in memory") {
    TRCase L = makeTR(g, {S_LRTRSR1});
    const Inst &I = *L.I; SolversSMTR &s = *L.run.tr;
    LRTRSR1 *q = dynamic_cast<LRTRSR1 *>(L.run.s);
    q->LengthSY = g.integer(0, 6); q->LMrestart = g.boolean();
    std::ostringstream o; o << "mem=" << q->LengthSY << (q->LMrestart ? " restart " : " "); g.addNote(o.str());
    L.run.mon->wantH = true;
    s.Run();
    auto &its = L.run.mon->its; bool nt = false;
    for (auto &t : its) {
        if (blownUp(I, its, t)) break;
        double nr, lo = minEig(t.H, nr), ng = std::sqrt(t.gg), ne = std::sqrt(t.ee);
        if (!(t.pcond < 1e3) || !(nr < 1e6) || !(nr > 1e-4) || t.ngf1 < 1e-4 * (1 + t.ngf0)) continue; /* dependent pairs, rounding-level gradients */
        bool intr = I.M->GetIsIntrinsic() || (I.c && I.c->kind == EUC);
        double tol = 1e-4 * (1 + nr);
        g.require(ne <= t.Delta * (1 + 1e-4), "step outside the region");
        double sg = 0;
        if (ne > t.Delta * (1 - 1e-4)) sg = -(t.ge + t.eHe) / t.ee;
        g.require(sg >= -tol, "multiplier of the region is negative");
        double rr = t.res * t.res - 0; /* |g + H eta + sg eta|^2 = res^2 + 2 sg <eta, g+H eta> + sg^2 ee */
        double r2 = rr + 2 * sg * (t.ge + t.eHe) + sg * sg * t.ee;
        g.require(std::sqrt(std::max(0.0, r2)) <= 1e-4 * (ng + nr * ne + sg * ne), "the step does not solve the subproblem");
        if (intr) g.require(lo + sg >= -tol, "the step is not the minimiser of the subproblem");
        if (t.iter >= 2) nt = true;
    }
    if (nt) g.nontrivial();
}
