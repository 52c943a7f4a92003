/* C27 what the library prints: elements, run reports, built-in diagnostics */
#include "solv.h"
#include "manihelp.h"
#include <functional>
#include <unistd.h>
#include <regex>
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#undef max
#undef min
#undef abs
using namespace vp;

namespace {
std::string captured(std::function<void()> f) { return capturedOut(f); }
/* the numbers printed with a decimal point and ten digits, in order */
std::vector<double> entries(const std::string &s) {
    static const std::regex re("[-+]?[0-9]\\.[0-9]{10}e[-+][0-9]+|-?nan|-?inf");
    std::vector<double> v;
    for (std::sregex_iterator i(s.begin(), s.end(), re), e; i != e; ++i) { std::string t = i->str(); v.push_back(t.find("nan") != std::string::npos ? NAN : strtod(t.c_str(), 0)); }
    return v;
}
/* entries of an element in the order of reading: slice by slice, row by row */
void readingOrder(Element &e, std::vector<double> &out) {
    if (e.Getnumoftypes() != 0) { for (int i = 0; i < e.Getnumofelements(); i++) readingOrder(e.GetElement(i), out); return; }
    const int *sz = e.Getsize(); int ls = e.Getls(), r = sz[0], c = ls > 1 ? sz[1] : 1, L = e.Getlength(), w = e.Getiscomplex() ? 2 : 1;
    V v = rawE(e);
    for (int s = 0; s < L / (r * c); s++) for (int i = 0; i < r; i += w) for (int j = 0; j < c; j++) for (int k = 0; k < w; k++) out.push_back(v[s * r * c + j * r + i + k]);
}
void same(Gen &g, const std::vector<double> &got, const std::vector<double> &want, const char *what) {
    if (got.size() != want.size()) { std::ostringstream o; o << what << ": " << got.size() << " numbers instead of " << want.size(); g.fail(o.str()); }
    for (size_t i = 0; i < got.size(); i++) {
        if (std::isnan(want[i]) && std::isnan(got[i])) continue;
        if (!(got[i] == want[i] || std::fabs(got[i] - want[i]) <= 6e-11 * std::fabs(want[i]))) { std::ostringstream o; o << what << ": number " << i << " is " << got[i] << " instead of " << want[i]; g.fail(o.str()); }
    }
}
Element plainShape(Gen &g) {
    int k = g.integer(0, 2), n = g.integer(1, 4), p = k >= 1 ? g.integer(1, 4) : 1, s = k == 2 ? g.integer(1, 3) : 1;
    return g.boolean() ? Element(n, p, s, "complex") : g.boolean() ? Element(n, p, s) : Element(n, p, s, "real");
}
Element randomElement(Gen &g, SplitMix &r, int depth) {
    Element e;
    if (depth && g.chance(1, 4)) {
        Element a = plainShape(g), b = plainShape(g); int p = g.integer(1, 2), q = g.integer(1, 2); /* the types have to be without values */
        e = g.boolean() ? Element(1, &a, p) : Element(2, &a, p, &b, q);
    } else e = plainShape(g);
    double sc = g.pick(std::vector<double>{1, 1e-200, 1e150, 1});
    realdp *q = e.ObtainWriteEntireData(); for (int i = 0; i < e.Getlength(); i++) { q[i] = r.next() % 6 == 0 ? std::round(3 * r.normal()) : sc * r.normal(); if (r.next() % 41 == 0) q[i] = r.next() % 2 ? INFINITY : NAN; }
    return e;
}
std::string head(Element &e, const char *n) { std::ostringstream o; o << n << ":(" << e.Getrow() << ", " << e.Getcol() << ", " << e.Getnum() << ")"; return o.str(); }
} // namespace

VP_CHECK("C27", printed_element, 60000, 1000000, "at least two entries are printed") {
    SplitMix r = g.data();
    Element e = randomElement(g, r, 1), share; bool shared = g.boolean(); if (shared) share = e;
    std::vector<double> want; readingOrder(e, want);
    int nf = g.integer(0, 2); std::vector<std::pair<std::string, Element>> fs;
    for (int i = 0; i < nf; i++) { std::string n = i ? "Second" : "A_field"; Element f = randomElement(g, r, 1); e.AddToFields(n, f); fs.push_back({n, f}); }
    V before = rawE(e);
    bool main = g.boolean(); std::string name = g.pick(std::vector<std::string>{"x", "gradient", "A B"});
    std::string out = captured([&] { e.Print(name.c_str(), main); });
    std::vector<double> all = want;
    if (!main) for (auto &f : fs) readingOrder(f.second, all);
    same(g, entries(out), all, "printed entries");
    g.require(out.find(head(e, name.c_str())) != std::string::npos, "name and dimensions are not printed");
    if (!main) for (auto &f : fs) g.require(out.find(head(f.second, f.first.c_str())) != std::string::npos, "name and dimensions of an attachment are not printed");
    else for (auto &f : fs) g.require(out.find(f.first) == std::string::npos, "attachment printed although only the value was asked for");
    std::string sz = captured([&] { e.PrintSize(name.c_str(), main); });
    g.require(entries(sz).empty() || !std::isfinite(entries(sz)[0]), "entries printed although only the size was asked for");
    g.require(sz.find(head(e, name.c_str())) != std::string::npos, "name and dimensions are not printed by the size report");
    if (e.Getnumoftypes() == 0) {
        std::string s2 = captured([&] { std::cout << e; });
        same(g, entries(s2), want, "streamed entries");
    }
    g.require(e.Getlength() == (int) before.size(), "printing changed the element");
    V after = rawE(e); for (size_t i = 0; i < after.size(); i++) g.require(after[i] == before[i] || (std::isnan(after[i]) && std::isnan(before[i])), "printing changed the element");
    for (auto &f : fs) g.require(e.FieldsExist(f.first), "printing removed an attachment");
    if (want.size() >= 2) g.nontrivial();
}

namespace {
typedef std::map<std::string, std::string> Line;
Line parseLine(const std::string &l) {
    Line m; size_t p = 0;
    while (p < l.size()) { size_t c = l.find(':', p), e = l.find(',', p); if (c == std::string::npos) break; if (e == std::string::npos) e = l.size(); if (c < e) m[l.substr(p, c - p)] = l.substr(c + 1, e - c - 1); p = e + 1; }
    return m;
}
struct Report { std::vector<Line> it; Line fin; int nfin = 0; };
bool starts(const std::string &l, const char *p) { return l.compare(0, strlen(p), p) == 0; }
Report parseReport(const std::string &out) {
    Report R; std::vector<Line> a; std::istringstream is(out); std::string l;
    std::vector<std::string> ls; while (std::getline(is, l)) { if (!ls.empty() && !l.empty() && l[0] == '\t') ls.back() += l.substr(1); else ls.push_back(l); }
    for (auto &l : ls) {
        if (!(starts(l, "i:") || starts(l, "Iter:"))) continue;
        Line m = parseLine(l); if (starts(l, "Iter:")) m["i"] = m["Iter"];
        if (m.count("|gf|/|gf0|") || m.count("|nd|/|nd0|")) { R.fin = m; R.nfin++; } else R.it.push_back(m);
    }
    return R;
}
/* a printed number with the given relative rounding */
void num(Gen &g, const Line &m, const char *key, double want, double tol, const char *what) {
    auto it = m.find(key); if (it == m.end()) g.fail(std::string(what) + " is not printed");
    double v = strtod(it->second.c_str(), 0);
    if (std::isnan(want) && std::isnan(v)) return;
    if (v == want) return;
    if (!(std::fabs(v - want) <= tol * std::fabs(want))) { std::ostringstream o; o << what << " printed as " << it->second << " but is " << want; g.fail(o.str()); }
}
void count(Gen &g, const Line &m, const char *key, int want, bool maySkip, const char *what) {
    auto it = m.find(key); if (it == m.end()) { if (maySkip && want == 0) return; g.fail(std::string(what) + " is not printed"); }
    if (atoi(it->second.c_str()) != want) { std::ostringstream o; o << what << " printed as " << it->second << " but is " << want; g.fail(o.str()); }
}
void counts(Gen &g, const Line &m, const Solvers &s) {
    count(g, m, "nf", s.Getnf(), false, "number of objective evaluations"); count(g, m, "ng", s.Getng(), false, "number of gradient evaluations");
    count(g, m, "nR", s.GetnR(), false, "number of retractions"); count(g, m, "nH", s.GetnH(), true, "number of Hessian actions");
    if (s.GetnV() || m.count("nV(nVp)")) { auto it = m.find("nV(nVp)"); if (it == m.end()) g.fail("number of transports is not printed"); std::ostringstream w; w << s.GetnV() << "(" << s.GetnVp() << ")"; if (it->second != w.str()) g.fail("number of transports printed as " + it->second + " but is " + w.str()); }
}
void reportGap(Gen &g, const Report &R, int verbose, int gap, int iters) {
    g.require(R.nfin == (verbose >= FINALRESULT), "final report printed when it should not be, or not printed");
    std::vector<int> seen, want; for (auto &m : R.it) seen.push_back(atoi(m.at("i").c_str()));
    if (verbose >= ITERRESULT) for (int k = 1; k <= iters; k++) if (k % gap == 0) want.push_back(k);
    seen.erase(std::remove(seen.begin(), seen.end(), 0), seen.end());
    if (seen != want) { std::ostringstream o; o << "iterations reported:"; for (int k : seen) o << " " << k; o << "; expected:"; for (int k : want) o << " " << k; g.fail(o.str()); }
}
} // namespace

VP_CHECK("C27", run_report, 40000, 600000, "at least two iterations were made and some were reported") {
    int k = g.integer(0, NSMOOTH - 1); bool ls = k < NLS; int al = ls ? g.pick(std::vector<int>{LSSM_ARMIJO, LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT}) : 0;
    bool qn = k == S_RBFGS || k == S_RWRBFGS || k == S_RBROYDEN || k == S_LRBFGS || k == S_RTRSR1 || k == S_LRTRSR1;
    auto I = makeSolvable(g, (ls && al != LSSM_ARMIJO ? N_DR : 0) | (qn ? N_TRANSPORT : 0));
    if ((k == S_RNEWTON || k == S_RTRNEWTON) && !I->hess) throw Discard();
    SplitMix r = g.data(); V x0 = I->point(r, 0); Variable X0 = I->elem(x0);
    Run R = makeRun(k, I->P.get(), &X0); SolversSM &s = *R.s; g.addNote(solverName(k)); g.label(solverName(k));
    s.Verbose = (VERBOSEINFO) g.pick(std::vector<int>{NOOUTPUT, FINALRESULT, ITERRESULT, ITERRESULT, ITERRESULT, DETAILED}); s.OutputGap = g.integer(1, 4); s.Max_Iteration = g.integer(1, 15); if (g.chance(1, 8)) s.Max_Iteration = 0;
    if (R.ls) { R.ls->LineSearch_LS = (LSAlgoSM) al; R.ls->InitSteptype = (InitStepsizeSetSM) g.integer(0, 4); if (g.boolean()) R.ls->Initstepsize = g.logreal(1e-3, 10); }
    if (R.tr) { if (g.boolean()) R.tr->initial_Delta = g.logreal(1e-2, 10); }
    std::string out = captured([&] { s.Run(); });
    if (!std::isfinite(R.mon->lastF2())) throw Discard();
    Report P = parseReport(out);
    reportGap(g, P, s.Verbose, s.OutputGap, s.GetIter());
    if (s.Verbose >= FINALRESULT) {
        count(g, P.fin, "i", s.GetIter(), false, "number of iterations");
        num(g, P.fin, "f", s.Getfinalfun(), 6e-4, "final objective"); num(g, P.fin, "|gf|", s.Getnormgf(), 6e-4, "final gradient norm"); num(g, P.fin, "|gf|/|gf0|", s.Getnormgfgf0(), 6e-4, "final relative gradient norm");
        counts(g, P.fin, s);
    }
    auto &its = R.mon->its; int shown = 0, last = 0;
    for (auto &m : P.it) {
        int i = atoi(m.at("i").c_str()); if (i == 0 || i > (int) its.size()) continue;
        It &t = its[i - 1]; shown++;
        num(g, m, "f", t.f2, 6e-4, "objective of an iteration");
        if (R.ls) { num(g, m, "t0", t.init, 6e-3, "initial step"); num(g, m, "t", t.step, 6e-3, "step"); num(g, m, "s0", t.slope, 6e-3, "slope"); num(g, m, "|gf|", t.ngf2, 6e-4, "gradient norm of an iteration"); }
        if (R.tr) { num(g, m, "rho", t.rho, 6e-3, "quality of the model"); if (t.accepted) num(g, m, "|gf|", t.ngf2, 6e-4, "gradient norm of an iteration"); if (i < (int) its.size()) num(g, m, "radius", its[i].Delta, 6e-4, "radius"); count(g, m, "innerIter", t.inner, false, "inner iterations"); }
        if (std::fabs(t.f1 - t.f2) > 1e-9 * fabs(t.f2) && t.f2 != 0) num(g, m, "df/f", (t.f1 - t.f2) / std::fabs(t.f2), 6e-4, "relative decrease");
        int nf = atoi(m.at("nf").c_str()); g.require(nf > last && nf <= s.Getnf(), "number of objective evaluations reported during the run"); last = nf;
    }
    if (g.chance(1, 3)) { /* the same run at another verbosity */
        Variable X1 = I->elem(x0); Run Q = makeRun(k, I->P.get(), &X1); SolversSM &q = *Q.s; q.Verbose = s.Verbose == NOOUTPUT ? ITERRESULT : NOOUTPUT; q.Max_Iteration = s.Max_Iteration;
        if (R.ls) { Q.ls->LineSearch_LS = R.ls->LineSearch_LS; Q.ls->InitSteptype = R.ls->InitSteptype; Q.ls->Initstepsize = R.ls->Initstepsize; } else Q.tr->initial_Delta = R.tr->initial_Delta;
        captured([&] { q.Run(); });
        Variable A = s.GetXopt(), B = q.GetXopt();
        if (s.GetIter() != q.GetIter() || s.Getfinalfun() != q.Getfinalfun() || s.Getnf() != q.Getnf() || s.Getng() != q.Getng() || s.GetnR() != q.GetnR() || s.GetnH() != q.GetnH() || vdiff(rawE(A), rawE(B)) != 0) g.fail("the verbosity changes the run");
        g.label("compared with the silent run");
    }
    if (s.GetIter() >= 2 && shown) g.nontrivial();
}

namespace {
/* piecewise quadratic on a sphere or in the plane, for the nonsmooth solvers */
struct AbsProb : public Problem {
    Mat A; V m;
    virtual realdp f(const Variable &x) const { V z = vadd(rawE(x), -1, m); double s = 0; for (int i = 0; i < A.r; i++) { double t = 0; for (size_t j = 0; j < z.size(); j++) t += A(i, j).real() * z[j]; s += std::fabs(t); } return s; }
    virtual Vector &EucGrad(const Variable &x, Vector *res) const { V z = vadd(rawE(x), -1, m), q(z.size()); for (int i = 0; i < A.r; i++) { double t = 0; for (size_t j = 0; j < z.size(); j++) t += A(i, j).real() * z[j]; for (size_t j = 0; j < z.size(); j++) q[j] += (t >= 0 ? 1 : -1) * A(i, j).real(); } *res = x; std::copy(q.begin(), q.end(), res->ObtainWriteEntireData()); return *res; }
};
template <class S> void nsmReport(Gen &g, S &s, int iters) {
    s.Verbose = (VERBOSEINFO) g.pick(std::vector<int>{NOOUTPUT, FINALRESULT, ITERRESULT, ITERRESULT}); s.OutputGap = g.integer(1, 4); s.Max_Iteration = iters;
    std::string out = captured([&] { s.Run(); });
    Report P = parseReport(out);
    reportGap(g, P, s.Verbose, s.OutputGap, s.GetIter());
    if (s.Verbose >= FINALRESULT) {
        count(g, P.fin, "i", s.GetIter(), false, "number of iterations");
        num(g, P.fin, "f", s.Getfinalfun(), 6e-4, "final objective"); num(g, P.fin, "ndir", s.Getnormnd(), 6e-4, "final direction norm"); num(g, P.fin, "|nd|/|nd0|", s.Getnormndnd0(), 6e-4, "final relative direction norm");
        counts(g, P.fin, s);
    }
    if (s.Verbose >= ITERRESULT) {
        Vector F = s.GetfunSeries(); const realdp *pf = F.ObtainReadData(); int last = 0;
        for (auto &m : P.it) { int i = atoi(m.at("i").c_str()); num(g, m, "f", pf[i], 6e-4, "objective of an iteration"); if (i == 0) continue; int nf = atoi(m.at("nf").c_str()); g.require(nf >= last && nf <= s.Getnf(), "number of objective evaluations reported during the run"); last = nf; }
        if (s.GetIter() >= 2 && P.it.size() > 1) g.nontrivial();
    }
}
} // namespace
VP_CHECK("C27", nonsmooth_run_report, 10000, 150000, "at least two iterations were made and some were reported") {
    int k = g.integer(0, 4); static const char *nm[] = {"RGS", "RBFGSSub", "LRBFGSSub", "ManPG", "AManPG"}; g.label(nm[k]); g.addNote(nm[k]);
    SplitMix r = g.data(); int iters = g.integer(1, 12);
    if (k >= 3) {
        PWant w; w.kinds = {PSPCA}; auto I = makeProb(g, w); auto S = dynamic_cast<Stiefel *>(I->M); int st = g.integer(0, 2); if (st == 0) S->ChooseParamsSet2(); else if (st == 1) S->ChooseParamsSet4(); else S->ChooseParamsSet5();
        Variable x0 = I->elem(I->point(r, 0));
        if (k == 3) { ManPG s(I->P.get(), &x0); nsmReport(g, s, iters); } else { AManPG s(I->P.get(), &x0); nsmReport(g, s, iters); }
        return;
    }
    int n = g.integer(2, 4); AbsProb P; P.A = randMat(r, g.integer(1, n + 2), n, false); P.m.resize(n); for (auto &e : P.m) e = 0.3 * r.normal();
    std::shared_ptr<Manifold> M; if (g.boolean()) M = std::make_shared<Sphere>(n); else M = std::make_shared<Euclidean>(n);
    P.SetDomain(M.get()); Variable x0 = M->RandominManifold(); V v(n); for (auto &e : v) e = r.normal(); double q = vnrm(v); realdp *p = x0.ObtainWriteEntireData(); for (int i = 0; i < n; i++) p[i] = v[i] / q;
    if (k == 0) { RGS s(&P, &x0); nsmReport(g, s, iters); } else if (k == 1) { RBFGSSub s(&P, &x0); nsmReport(g, s, iters); } else { LRBFGSSub s(&P, &x0); nsmReport(g, s, iters); }
}

namespace {
/* the gradient of another problem, made wrong */
struct WrongGrad : public Problem {
    Problem *in; double s;
    WrongGrad(Problem *p, double f) : in(p), s(f) { SetDomain(p->GetDomain()); SetUseGrad(p->GetUseGrad()); SetUseHess(p->GetUseHess()); SetNumGradHess(p->GetNumGradHess()); }
    virtual void SetUseGrad(bool u) const { UseGrad = u; in->SetUseGrad(u); }
    virtual void SetUseHess(bool u) const { UseHess = u; in->SetUseHess(u); }
    virtual void SetNumGradHess(bool u) const { NumGradHess = u; in->SetNumGradHess(u); }
    virtual realdp f(const Variable &x) const { in->SetUseGrad(UseGrad); in->SetUseHess(UseHess); return in->f(x); }   /* CheckGradHessian sets the flags without the setters */
    virtual Vector &Grad(const Variable &x, Vector *r) const { in->Grad(x, r); return GetDomain()->ScalarTimesVector(x, s, *r, r); }
    virtual Vector &HessianEta(const Variable &x, const Vector &e, Vector *r) const { return in->HessianEta(x, e, r); }
};
struct Row { double len, g, h; };
std::vector<Row> gradRows(const std::string &out) {
    std::vector<Row> R; std::istringstream is(out); std::string l;
    while (std::getline(is, l)) { if (l.compare(0, 2, "i:") != 0) continue; Row r{0, 0, 0}; int i; if (sscanf(l.c_str(), "i:%d,|eta|:%lf,(fy-fx)/<gfx,eta>:%lf,(fy-fx-<gfx,eta>)/<0.5 eta, Hessian eta>:%lf", &i, &r.len, &r.g, &r.h) == 4) R.push_back(r); }
    return R;
}
} // namespace
VP_CHECK("C27", derivative_diagnostic, 20000, 300000, "the gradient is not small and the reported ratio comes close to one") {
    PWant w; w.maxn = 5; w.kinds = {PEUC, PSTIE, PCSTIE, PGRASS, PPROD, PSPD, PLYAP, PTX, PFWEIGHT, PMC, PBLIND, PPHASE, PHULL}; w.kind = g.pick(w.kinds);
    auto I = makeProb(g, w); if (!I->hess || I->dim() < 1) throw Discard();
    SplitMix r = g.data(); V x = I->point(r, 0); Variable X = I->elem(x);
    double wrong = g.chance(1, 3) ? g.pick(std::vector<double>{1.2, -1, 0.5}) : 1; WrongGrad W(I->P.get(), wrong);
    const Problem *P = wrong != 1 ? (const Problem *) &W : I->P.get();
    std::string out = captured([&] { P->CheckGradHessian(X); });
    if (vdiff(rawE(X), x) != 0) g.fail("the diagnostic changed the point");
    auto rows = gradRows(out); if (rows.size() != 35) g.fail("number of step lengths reported");
    I->P->SetUseGrad(true); I->P->SetUseHess(true);
    Variable Z = I->elem(x); auto M = I->M; double f0 = P->f(Z); Vector G(M->GetIsIntrinsic() ? M->GetEMPTYINTR() : M->GetEMPTYEXTR()), xi(G), H(G); P->Grad(Z, &G); M->Projection(Z, G, &xi);
    double ng = std::sqrt(M->Metric(Z, xi, xi)); if (!(ng > 1e-8)) throw Discard();
    M->ScalarTimesVector(Z, 100 / ng, xi, &xi);
    double F = 1 + std::fabs(f0), best = 1e300, off = 1e300;
    for (int i = 0; i < 35; i++, M->ScalarTimesVector(Z, 0.5, xi, &xi)) {
        double len = std::sqrt(M->Metric(Z, xi, xi));
        if (!(std::fabs(rows[i].len - len) <= 6e-4 * len)) g.fail("length of the step reported");
        if (len < 1e-3) off = std::min(off, std::fabs(rows[i].g - 1)); if (std::isfinite(rows[i].g)) best = std::min(best, std::fabs(rows[i].g - 1));
        if (len > 0.5) continue;
        Variable Y(Z); M->Retraction(Z, xi, &Y); Variable Yc = I->elem(rawE(Y)); double fy = P->f(Y); P->HessianEta(Z, xi, &H);
        double a = M->Metric(Z, G, xi), b = 0.5 * M->Metric(Z, xi, H), v = (fy - f0) / a, q = (fy - f0 - a) / b;
        if (!std::isfinite(fy) || std::fabs(fy) > 1e6 * F) continue;
        double eps = 1e-12 * (F + std::fabs(fy) + std::fabs(a)) * condOf(*I, x);
        if (std::isfinite(v) && !(std::fabs(rows[i].g - v) <= 6e-4 * std::fabs(v) + eps / std::fabs(a))) { g.close(rows[i].g, v, std::fabs(v), 6e-4, "ratio for the gradient"); }
        if (std::isfinite(q) && !(std::fabs(rows[i].h - q) <= 6e-4 * std::fabs(q) + eps / std::fabs(b))) g.close(rows[i].h, q, std::fabs(q), 6e-4, "ratio for the Hessian");
    }
    if (ng > 0.05 * F && I->curv < 50 && condOf(*I, x) < 1e3) {
        if (wrong == 1) { g.require(best < 1e-2, "the diagnostic does not recognise a right gradient"); g.nontrivial(); }
        else { g.require(off > 0.05, "the diagnostic takes a wrong gradient for right"); g.nontrivial(); g.label("wrong gradient"); }
    }
}
