/* C22 parameters: name-value maps, ranges, parameter sets of manifolds */
#include "solv.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include <unistd.h>
#undef max
#undef min
#undef abs
using namespace vp;

namespace {
std::string captured(std::function<void()> f) {
    fflush(stdout); FILE *t = tmpfile(); int keep = dup(1); dup2(fileno(t), 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; rewind(t); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, t)) > 0) s.append(b, k); fclose(t); return s;
}
typedef std::function<double(const std::string &)> Look;
struct Entry { std::string name; char kind; std::function<void(double)> set; std::function<double()> get; std::vector<double> good, bad; std::function<bool(double, Look)> ok; std::string shown; };
typedef std::vector<Entry> Table;
#define ENT(s, m, k, good, bad, okx) T.push_back(Entry{#m, k, [s](double v) { assign(s->m, v, k); }, [s]() { return (double) s->m; }, std::vector<double> good, std::vector<double> bad, [](double v, Look o) -> bool { (void) v; (void) o; return okx; }, #m})
template <class X> void assign(X &x, double v, char k) { if (k == 'r') x = (X) v; else if (k == 'b') x = (X) ((integer) v != 0); else x = (X) (integer) v; }
#define L(...) {__VA_ARGS__}

void general(Table &T, Solvers *s) {
    ENT(s, Tolerance, 'r', L(1e-3, 1e-8, 0.5), L(0, -1), v > 0);
    ENT(s, TimeBound, 'r', L(60, 1e3, 0.7), L(0, -3), v > 0);
    ENT(s, Max_Iteration, 'i', L(1, 3, 7.9, 12), L(0, -2), v > 0 && v >= o("Min_Iteration"));
    ENT(s, Min_Iteration, 'i', L(0, 1, 0.9), L(-1, 40), v >= 0 && v <= o("Max_Iteration"));
    ENT(s, OutputGap, 'i', L(1, 2, 5.7), L(0, -1), v > 0);
    ENT(s, Verbose, 'e', L(0, 1, 2), L(4, 5, -1), v >= 0 && v < VERBOSELENGTH);
}
void smooth(Table &T, SolversSM *s) {
    ENT(s, Stop_Criterion, 'e', L(0, 1, 2), L(3, 4, -1), v >= 0 && v < STOPCRITSMLENGTH);
    ENT(s, Accuracy, 'r', L(0, 1e-6, 0.3, 1), L(-0.5, 2), v >= 0 && v <= 1);
}
void lineSearch(Table &T, SolversSMLS *s) {
    ENT(s, LineSearch_LS, 'e', L(0, 1, 2, 3), L(5, 7, -1), v >= 0 && v < LSALGOSMLENGTH);
    ENT(s, InitSteptype, 'e', L(0, 1, 2, 3, 4), L(5, 6, -1), v >= 0 && v < INITSTEPSIZESETSMLENGTH);
    ENT(s, LS_alpha, 'r', L(1e-4, 0.1, 0.3), L(0, 0.5, -1), v > 0 && v < 0.5);
    ENT(s, LS_beta, 'r', L(0.999, 0.5, 0.9), L(1, 1e-9, 3), v > o("LS_alpha") && v < 1);
    ENT(s, LS_ratio1, 'r', L(0.1, 0.25, 0.5), L(0, -0.5), v > 0 && v <= o("LS_ratio2"));
    ENT(s, LS_ratio2, 'r', L(0.9, 0.5, 0.7), L(1, 1.5), v >= o("LS_ratio1") && v < 1);
    ENT(s, Initstepsize, 'r', L(1, 0.01, 2.5), L(0, -1), v > 0);
    ENT(s, Finalstepsize, 'r', L(-1, 1, 0.3), L(-1), true);
    ENT(s, Minstepsize, 'r', L(1e-16, 1e-6), L(0, -1), v > 0 && v <= o("Maxstepsize"));
    ENT(s, Maxstepsize, 'r', L(1e10, 10, 1.5), L(0, -1), v > 0 && v >= o("Minstepsize"));
    ENT(s, Num_pre_funs, 'i', L(1, 3, 4.6), L(0, -1), v >= 1);
    ENT(s, Num_pre_BB, 'i', L(0, 2, 3.9), L(-1), v >= 0);
    ENT(s, BBratio, 'r', L(0, 1, 0.4, -1), L(-0.5, 2), (v >= 0 && v <= 1) || v == -1);
    ENT(s, PreFunsAccuracy, 'r', L(1e6, 0, 0.4), L(-1), v >= 0);
    ENT(s, IsPureLSInput, 'b', L(0, 1, 2), L(0), true);
}
void trust(Table &T, SolversSMTR *s) {
    ENT(s, initial_Delta, 'r', L(1, 0.05, 7.5), L(0, -1), v > 0);
    ENT(s, Acceptence_Rho, 'r', L(0.1, 0.01, 0.2), L(0, 0.25, 1), v > 0 && v < 0.25);
    ENT(s, Shrinked_tau, 'r', L(0.25, 0.6), L(0, 1), v > 0 && v < 1);
    ENT(s, Magnified_tau, 'r', L(2, 1.5, 4), L(1, 0.5), v > 1); T.back().shown = "Magnified tau";
    ENT(s, minimum_Delta, 'r', L(1e-16, 1e-6), L(0, -1), v > 0 && v <= o("maximum_Delta"));
    ENT(s, maximum_Delta, 'r', L(1e4, 10), L(0, -1), v > 0 && v >= o("minimum_Delta"));
    ENT(s, Min_Inner_Iter, 'i', L(0, 1), L(-1, 5000), v >= 0 && v <= o("Max_Inner_Iter"));
    ENT(s, Max_Inner_Iter, 'i', L(1000, 3, 5.5), L(-3), v >= 0 && v >= o("Min_Inner_Iter"));
    ENT(s, theta, 'r', L(1, 0, 0.3, 2), L(-1), v >= 0);
    ENT(s, kappa, 'r', L(0.1, 0.9, 1e-3), L(0, 1), v > 0 && v < 1);
    ENT(s, useRand, 'b', L(0), L(0), true);
}
void nonsmooth(Table &T, SolversNSM *s) { ENT(s, Stop_Criterion, 'e', L(0, 1, 2), L(3, 4, -1), v >= 0 && v < STOPCRITNNSMLENGTH); }
void subgradient(Table &T, SolversNSMSub *s, SolversNSMSubLS *q) {
    ENT(s, Diffx, 'r', L(1e-6, 1e-3), L(0, -1), v > 0);
    ENT(s, NumExtraGF, 'i', L(1, 4, 6.6), L(0, -1), v > 0);
    ENT(q, Eps, 'r', L(1, 0.1, 0.3), L(0, -1), v > 0);
    ENT(q, Theta_eps, 'r', L(0.01, 0.5), L(0, 1), v > 0 && v < 1);
    ENT(q, Min_Eps, 'r', L(1e-6, 1e-3), L(0, 1), v > 0 && v < 1);
    ENT(q, Del, 'r', L(1, 0.1), L(0, -1), v > 0);
    ENT(q, Theta_del, 'r', L(0.01, 0.5), L(0, 1), v > 0 && v < 1);
    ENT(q, LS_alpha, 'r', L(1e-4, 0.1), L(0, 1), v > 0 && v < 1);
    ENT(q, LS_beta, 'r', L(0.999, 0.5), L(0, 1), v > 0 && v < 1);
    ENT(q, Minstepsize, 'r', L(1e-16, 1e-6), L(0, 1.5), v > 0 && v <= 1);
    ENT(q, Maxstepsize, 'r', L(1e3, 10), L(0.5, -1), v >= 1);
    ENT(q, lambdaLower, 'r', L(1e-7, 0.1), L(0, 1), v > 0 && v < 1);
    ENT(q, lambdaUpper, 'r', L(1e7, 10), L(1, 0), v > 1);
}
void proximal(Table &T, SolversNSMPGLS *s) {
    ENT(s, Variant, 'e', L(0, 1), L(2, 3, -1), v >= 0 && v < RPGVARIANTLENGTH); T.back().name = "RPGLSVariant"; T.back().shown = "RPGVariant";
    ENT(s, Minstepsize, 'r', L(2e-2, 1e-3, 1), L(0, 1.5), v > 0 && v <= 1);
    ENT(s, LS_ratio, 'r', L(0.5, 0.25, 0.8), L(0, 1), v > 0 && v < 1);
    ENT(s, LS_alpha, 'r', L(1e-4, 0.1, 0.3), L(0, 1), v > 0 && v < 1);
}
template <class Q> void update(Table &T, Q *q) {
    ENT(q, nu, 'r', L(1e-4, 0.3, 0), L(-1, 1), v >= 0 && v < 1); ENT(q, mu, 'r', L(1, 0, 2.5), L(-1), v >= 0); ENT(q, isconvex, 'b', L(0, 1), L(0), true);
}
enum { K_RGS = 20, K_RBFGSSUB, K_LRBFGSSUB, K_MANPG, K_AMANPG };
const std::vector<int> SUBS = {K_RGS, K_RBFGSSUB, K_LRBFGSSUB}, PGS = {K_MANPG, K_AMANPG};
std::unique_ptr<Solvers> make(int k, const Problem *P, const Variable *x) {
    switch (k) {
    case S_RSD: return std::make_unique<RSD>(P, x); case S_RCG: return std::make_unique<RCG>(P, x); case S_RNEWTON: return std::make_unique<RNewton>(P, x);
    case S_RBFGS: return std::make_unique<RBFGS>(P, x); case S_RWRBFGS: return std::make_unique<RWRBFGS>(P, x); case S_RBROYDEN: return std::make_unique<RBroydenFamily>(P, x);
    case S_LRBFGS: return std::make_unique<LRBFGS>(P, x); case S_RTRSD: return std::make_unique<RTRSD>(P, x); case S_RTRNEWTON: return std::make_unique<RTRNewton>(P, x);
    case S_RTRSR1: return std::make_unique<RTRSR1>(P, x); case S_LRTRSR1: return std::make_unique<LRTRSR1>(P, x);
    case K_RGS: return std::make_unique<RGS>(P, x); case K_RBFGSSUB: return std::make_unique<RBFGSSub>(P, x); case K_LRBFGSSUB: return std::make_unique<LRBFGSSub>(P, x);
    case K_MANPG: return std::make_unique<ManPG>(P, x); default: return std::make_unique<AManPG>(P, x);
    }
}
const char *nameOf(int k) { static const char *N[] = {"RGS", "RBFGSSub", "LRBFGSSub", "ManPG", "AManPG"}; return k >= K_RGS ? N[k - K_RGS] : solverName(k); }
Table tableOf(Solvers *s) {
    Table T; general(T, s);
    if (auto q = dynamic_cast<SolversSM *>(s)) smooth(T, q);
    if (auto q = dynamic_cast<SolversSMLS *>(s)) lineSearch(T, q);
    if (auto q = dynamic_cast<SolversSMTR *>(s)) trust(T, q);
    if (auto q = dynamic_cast<SolversNSM *>(s)) nonsmooth(T, q);
    if (auto q = dynamic_cast<SolversNSMSubLS *>(s)) subgradient(T, q, q);
    if (auto q = dynamic_cast<SolversNSMPGLS *>(s)) proximal(T, q);
    if (auto q = dynamic_cast<RCG *>(s)) ENT(q, RCGmethod, 'e', L(0, 1, 2, 3, 4, 5), L(6, 7, -1), v >= 0 && v < RCGMETHODSLENGTH);
    if (auto q = dynamic_cast<RNewton *>(s)) {
        ENT(q, Min_Inner_Iter, 'i', L(0, 1), L(-1, 5000), v >= 0 && v <= o("Max_Inner_Iter")); ENT(q, Max_Inner_Iter, 'i', L(1000, 3, 5.5), L(-3), v >= 0 && v >= o("Min_Inner_Iter"));
        ENT(q, theta, 'r', L(1, 1.5, 2), L(0.5, -1), v >= 1); ENT(q, kappa, 'r', L(0.1, 0.9, 1e-3), L(0, 1), v > 0 && v < 1); ENT(q, useRand, 'b', L(0, 1), L(0), true);
    }
    if (auto q = dynamic_cast<RBFGS *>(s)) update(T, q);
    if (auto q = dynamic_cast<RWRBFGS *>(s)) update(T, q);
    if (auto q = dynamic_cast<RBroydenFamily *>(s)) update(T, q);
    if (auto q = dynamic_cast<LRBFGS *>(s)) { update(T, q); ENT(q, LengthSY, 'i', L(0, 2, 4.9), L(-1), v >= 0); ENT(q, LMrestart, 'b', L(0, 1), L(0), true); }
    if (auto q = dynamic_cast<LRTRSR1 *>(s)) { ENT(q, LengthSY, 'i', L(0, 2, 4.9), L(-1), v >= 0); ENT(q, LMrestart, 'b', L(0, 1), L(0), true); }
    if (auto q = dynamic_cast<LRBFGSSub *>(s)) ENT(q, LengthSY, 'i', L(0, 2, 4.9), L(-1), v >= 0);
    if (auto q = dynamic_cast<AManPG *>(s)) ENT(q, SGIterGap, 'i', L(1, 5, 3.4), L(0, -1), v > 0);
    return T;
}
struct PCase { std::shared_ptr<Problem> own; std::shared_ptr<Manifold> dom; const Problem *P; Variable x0; std::shared_ptr<Inst> I; int k; };
PCase makeP(Gen &g) {
    PCase c; int fam = g.integer(0, 3);
    c.k = fam == 3 ? g.pick(PGS) : fam == 2 ? g.pick(SUBS) : g.integer(0, S_LRTRSR1);
    SplitMix r = g.data();
    if (fam == 3) { PWant w; w.kinds = {PSPCA}; c.I = makeProb(g, w); c.P = c.I->P.get(); auto S = dynamic_cast<Stiefel *>(c.I->M); int st = g.integer(0, 2); if (st == 0) S->ChooseParamsSet2(); else if (st == 1) S->ChooseParamsSet4(); else S->ChooseParamsSet5(); c.x0 = c.I->elem(c.I->point(r, 0)); return c; }
    int n = g.integer(2, 4); auto W = makeWave(r, n, fam != 2, 0); W->A = spdMat(r, n, false, 0.5, 4);
    if (g.boolean()) c.dom = std::make_shared<Sphere>(n); else c.dom = std::make_shared<Euclidean>(n);
    W->SetDomain(c.dom.get()); W->SetUseGrad(true); W->SetUseHess(true); c.own = W; c.P = W.get(); c.x0 = c.dom->RandominManifold();
    realdp *p = c.x0.ObtainWriteEntireData(); V v(n); for (auto &e : v) e = r.normal(); double q = vnrm(v); for (int i = 0; i < n; i++) p[i] = v[i] / q;
    return c;
}
} // namespace

VP_CHECK("C22", solver_maps, 200000, 3000000, "a parameter was given a value other than its default and a run was made") {
    PCase c = makeP(g);
    auto a = make(c.k, c.P, &c.x0), b = make(c.k, c.P, &c.x0); Table A = tableOf(a.get()), B = tableOf(b.get());
    std::ostringstream o; o << nameOf(c.k) << " {"; g.label(nameOf(c.k));
    for (size_t i = 0; i < A.size(); i++) g.require(A[i].get() == B[i].get(), "two solvers start with different parameters");
    V def; for (auto &e : A) def.push_back(e.get());
    PARAMSMAP m; bool run = true, changed = false;
    int rounds = g.integer(1, 2);
    for (int q = 0; q < rounds; q++) {
        m.clear(); int k = g.integer(1, 6);
        for (int i = 0; i < k; i++) {
            size_t j = g.choice(A.size()); auto &e = A[j]; double v;
            if (g.chance(1, 6)) { v = g.pick(e.bad); if (e.kind == 'e') continue; run = false; }
            else v = e.kind == 'r' && g.chance(1, 3) ? g.pick(e.good) * g.real(0.5, 1) : g.pick(e.good);
            m[e.name] = v; o << e.name << "=" << v << " ";
        }
        int junk = g.integer(0, 4);
        if (junk == 0) m["NoSuchParameter"] = 3; if (junk == 1) m["tolerance"] = 7; if (junk == 2) m[A[g.choice(A.size())].name + " "] = 7; if (junk == 3) m["LengthSYs"] = 1;
        for (auto &e : m) for (auto &t : B) if (t.name == e.first) { t.set(e.second); }
        a->SetParams(m);
        for (size_t i = 0; i < A.size(); i++) if (A[i].get() != B[i].get()) { std::ostringstream w; w << A[i].name << " is " << A[i].get() << " after setting it through the map, expected " << B[i].get(); g.addNote(o.str()); g.fail(w.str()); }
    }
    for (size_t i = 0; i < A.size(); i++) changed |= A[i].get() != def[i];
    o << "} "; g.addNote(o.str());
    /* what is in range is reported as such, with its value */
    std::map<std::string, double> cur; for (auto &e : A) cur[e.name] = e.get();
    Look look = [&](const std::string &n) { return cur[n]; };
    std::string out = captured([&] { a->CheckParams(); });
    for (auto &e : A) {
        size_t at = std::string::npos;
        for (size_t p = out.find(e.shown); p != std::string::npos; p = out.find(e.shown, p + 1)) { size_t q = p + e.shown.size(); bool left = p == 0 || !(isalnum((unsigned char) out[p - 1]) || out[p - 1] == '_' || out[p - 1] == ' '); while (q < out.size() && out[q] == ' ') q++; if (left && q < out.size() && out[q] == ':') { at = q + 1; break; } }
        if (at == std::string::npos && e.name == "IsPureLSInput") continue; /* only listed with a search given by the user */
        if (at == std::string::npos) g.fail("parameter " + e.name + " is not listed when the parameters are checked");
        size_t lb = out.find('[', at); std::string val = out.substr(at, lb - at), st = out.substr(lb + 1, out.find(']', lb) - lb - 1); while (!val.empty() && val[0] == ' ') val.erase(0, 1);
        bool ok = e.ok(e.get(), look);
        if (st != (ok ? "YES" : "NO")) { std::ostringstream w; w << "the check of the parameters says " << st << " for " << e.name << " = " << e.get(); g.fail(w.str()); }
        if (e.kind != 'e') { char buf[64]; snprintf(buf, sizeof buf, "%g", e.get()); if (e.kind == 'i') snprintf(buf, sizeof buf, "%d", (int) e.get()); if (val != buf) g.fail("the check of the parameters shows " + val + " for " + e.name + " which is " + buf); }
    }
    if (!run || !changed || cur["Minstepsize"] > 1) return;
    if (c.k >= K_RGS && g.chance(3, 4)) return;
    for (auto *s : {a.get(), b.get()}) { s->Max_Iteration = std::min<integer>(s->Max_Iteration, 8); s->Min_Iteration = std::min(s->Min_Iteration, s->Max_Iteration); s->Verbose = NOOUTPUT; }
    genrandseed(7); srand(7); a->Run(); genrandseed(7); srand(7); b->Run();
    g.require(a->GetIter() == b->GetIter() && a->Getnf() == b->Getnf() && a->Getng() == b->Getng() && a->GetnR() == b->GetnR(), "runs differ between parameters set through the map and directly");
    V xa = rawE(a->GetXopt()), xb = rawE(b->GetXopt()); for (size_t i = 0; i < xa.size(); i++) g.require(xa[i] == xb[i] || (xa[i] != xa[i] && xb[i] != xb[i]), "results differ between parameters set through the map and directly");
    g.nontrivial();
}
VP_CHECK("C22", enumerations_out_of_range, 60000, 600000, "the value is outside the enumeration") {
    PCase c = makeP(g); auto a = make(c.k, c.P, &c.x0); Table A = tableOf(a.get());
    std::vector<size_t> es; for (size_t i = 0; i < A.size(); i++) if (A[i].kind == 'e') es.push_back(i);
    auto &e = A[g.pick(es)]; double v = g.pick(e.bad); PARAMSMAP m; m[e.name] = v; a->SetParams(m);
    std::ostringstream o; o << nameOf(c.k) << " " << e.name << "=" << v << " "; g.addNote(o.str()); g.label(e.name);
    std::string out = captured([&] { a->CheckParams(); });
    size_t p = 0; while ((p = out.find(e.shown, p)) != std::string::npos) { size_t q = p + e.shown.size(); while (out[q] == ' ') q++; if (out[q] == ':') break; p++; }
    g.require(p != std::string::npos, "parameter is not listed");
    size_t lb = out.find('[', p); g.require(out.compare(lb, 4, "[NO]") == 0, "a value outside the enumeration is reported as legal");
    g.nontrivial();
}
namespace {
struct MCase { std::string name; int sets; std::function<std::shared_ptr<Manifold>()> make; std::function<void(Manifold *, int)> choose; bool sphere = false; };
template <class M> void chooseSet(Manifold *m, int k) {
    M *q = dynamic_cast<M *>(m);
    switch (k) { case 1: q->ChooseParamsSet1(); break; case 2: q->ChooseParamsSet2(); break; case 3: q->ChooseParamsSet3(); break; case 4: q->ChooseParamsSet4(); break; default: break; }
}
} // namespace
VP_CHECK("C22", manifold_parameter_sets, 200000, 3000000, "the set differs from the one chosen before") {
    int which = g.integer(0, 4), n = g.integer(2, 5), p = which > 2 ? g.integer(1, n / 2) : g.integer(1, n - 1); MCase c;
    if (which == 0) { c.name = "Sphere"; c.sets = 4; c.make = [=] { return std::make_shared<Sphere>(n); }; c.choose = chooseSet<Sphere>; }
    if (which == 1) { c.name = "Stiefel"; c.sets = 5; c.make = [=] { return std::make_shared<Stiefel>(n, p); }; c.choose = [](Manifold *m, int k) { if (k == 5) dynamic_cast<Stiefel *>(m)->ChooseParamsSet5(); else chooseSet<Stiefel>(m, k); }; }
    if (which == 2) { c.name = "CStiefel"; c.sets = 4; c.make = [=] { return std::make_shared<CStiefel>(n, p); }; c.choose = chooseSet<CStiefel>; }
    if (which == 3) { c.name = "SymFixedRankQ"; c.sets = 6; c.make = [=] { return std::make_shared<SymFixedRankQ>(n, p); }; c.choose = [](Manifold *m, int k) { auto q = dynamic_cast<SymFixedRankQ *>(m); if (k == 5) q->ChooseParamsSet5(); else if (k == 6) q->ChooseParamsSet6(); else chooseSet<SymFixedRankQ>(m, k); }; }
    if (which == 4) { c.name = "CSymFixedRankQ"; c.sets = 4; c.make = [=] { return std::make_shared<CSymFixedRankQ>(n, p); }; c.choose = chooseSet<CSymFixedRankQ>; }
    auto A = c.make(), B = c.make();
    int j = g.integer(0, c.sets), k = g.integer(1, c.sets); bool hist = g.boolean(); int hh = g.integer(0, 2);
    std::ostringstream o; o << c.name << "(" << n << "," << p << ") set " << j << " then " << k << (hh == 1 ? " HasHHR=1" : hh == 2 ? " HasHHR=0" : "") << " "; g.addNote(o.str()); g.label(c.name);
    if (j) { if (hist) { c.choose(A.get(), j); } else { PARAMSMAP m; m["ParamSet"] = j; A->SetParams(m); } }
    PARAMSMAP m; m["ParamSet"] = k + (g.boolean() ? 0.25 : 0); if (hh) m["HasHHR"] = hh == 1; if (g.boolean()) m["Paramset"] = 1; if (g.boolean()) m["Tolerance"] = 3;
    A->SetParams(m);
    c.choose(B.get(), k); if (hh) B->SetHasHHR(hh == 1);
    g.require(A->GetHasHHR() == B->GetHasHHR(), "use of the locking condition differs from setting it directly");
    g.require(A->GetIsIntrinsic() == B->GetIsIntrinsic() && A->GetEMPTY().Getlength() == B->GetEMPTY().Getlength(), "representation differs");
    Variable x = A->RandominManifold(); SplitMix r = g.data();
    auto rndv = [&](const Manifold *M) { Vector e = M->GetEMPTY(); e.NewMemoryOnWrite(); realdp *q = e.ObtainWriteEntireData(); for (integer i = 0; i < e.Getlength(); i++) q[i] = r.normal(); M->Projection(x, e, &e); return e; };
    Vector e = rndv(A.get()), z = rndv(A.get());
    auto same = [&](const Element &a, const Element &b, const char *what) { V u = rawE(a), w = rawE(b); g.require(u.size() == w.size(), what); for (size_t i = 0; i < u.size(); i++) g.require(u[i] == w[i] || (u[i] != u[i] && w[i] != w[i]), what); };
    Variable xa(x), xb(x); xb.RemoveAllFromFields();
    g.require(A->Metric(xa, e, z) == B->Metric(xb, e, z), "metric differs from the chosen parameter set");
    Vector pa(z), pb(z); A->Projection(xa, z, &pa); B->Projection(xb, z, &pb); same(pa, pb, "projection differs from the chosen parameter set");
    Variable ya(x), yb(x); A->Retraction(xa, e, &ya); B->Retraction(xb, e, &yb); same(ya, yb, "retraction differs from the chosen parameter set");
    if (!(hh == 1)) {
    Vector ta(z), tb(z); A->VectorTransport(xa, e, ya, z, &ta); B->VectorTransport(xb, e, yb, z, &tb); same(ta, tb, "transport differs from the chosen parameter set"); }
    if (j != k) g.nontrivial();
}
VP_CHECK("C22", manifold_flags, 60000, 600000, "the flag was turned on") {
    int which = g.integer(0, 5); std::shared_ptr<Manifold> A;
    int n = g.integer(2, 4);
    if (which == 0) A = std::make_shared<Euclidean>(n); if (which == 1) A = std::make_shared<Grassmann>(n, 1); if (which == 2) A = std::make_shared<SPDManifold>(n); if (which == 3) A = std::make_shared<Stiefel>(n, 1); if (which == 4) A = std::make_shared<Sphere>(n); if (which == 5) A = std::make_shared<SymFixedRankQ>(n, 1);
    double v = g.pick(std::vector<double>{0, 1, 2, 0.5, -1}); PARAMSMAP m; m["HasHHR"] = v; if (g.boolean()) m["hasHHR"] = 1;
    bool before = A->GetHasHHR(); (void) before; A->SetParams(m); std::ostringstream o; o << A->GetName() << " HasHHR=" << v; g.addNote(o.str());
    bool want = (integer) v != 0; g.require(A->GetHasHHR() == want, "use of the locking condition differs from the map"); if (want) g.nontrivial();
    PARAMSMAP e; e["Unknown"] = 1; A->SetParams(e); g.require(A->GetHasHHR() == want, "an unknown name changed a setting");
}
