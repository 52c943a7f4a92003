/* C13 objectives and derivatives of the shipped problems; C15 proximal steps */
#include "probs.h"
using namespace vp;

namespace {
template <class F> double fd4(F f, double h) { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); }
template <class F> V fd4V(F f, double h) { V a = f(h), b = f(-h), c = f(2 * h), d = f(-2 * h); return vadd(vscale(8.0 / 12 / h, vadd(a, -1, b)), -1.0 / 12 / h, vadd(c, -1, d)); }

struct PPt { std::shared_ptr<Inst> I; SplitMix r; V x; Variable X; double sx; };
PPt makePP(Gen &g, PWant w = PWant()) {
    auto I = makeProb(g, w);
    SplitMix r = g.data();
    V x = I->point(r, g.chance(1, 5) ? 2 : 0);
    Variable X = I->elem(x);
    return PPt{I, r, x, X, 1 + vnrm(x)};
}
/* ambient direction, unit length; symmetric where only those are meaningful, tangent on the sphere of a tangent space */
V direction(PPt &t, bool tangent) {
    const Inst &I = *t.I;
    if (tangent || I.kind == PTX) { V a = I.tangent(t.r, t.x, 1); double s = vnrm(a); return s > 1e-12 ? vscale(1 / s, a) : a; }
    V d(t.x.size());
    for (auto &e : d) e = t.r.normal();
    if (I.symdir) { int n = (int) std::lround(std::sqrt((double) d.size())); d = mv1(sym(vm(d, 0, n, n, false)), false); }
    return vscale(1 / vnrm(d), d);
}
double fscale(const PPt &t, double fx) { return 1 + std::fabs(fx) + t.I->curv * t.sx * t.sx; }
/* only the objective, everything else numerical */
struct FOnly : public ROPTLIB::Problem {
    const ROPTLIB::Problem *in;
    FOnly(const ROPTLIB::Problem *p, Manifold *M) : in(p) { SetDomain(M); SetNumGradHess(true); SetUseGrad(true); SetUseHess(true); }
    virtual realdp f(const Variable &x) const { return in->f(x); }
};
Vector emptyRep(Manifold *M) { return M->GetIsIntrinsic() ? M->GetEMPTYINTR() : M->GetEMPTYEXTR(); }
V gradOf(const ROPTLIB::Problem &P, const Variable &X) { P.f(X); Vector G(emptyRep(P.GetDomain())); P.Grad(X, &G); return raw(G); }
V hessOf(const ROPTLIB::Problem &P, const Variable &X, const Vector &e) { P.f(X); Vector G(emptyRep(P.GetDomain())), Hh(emptyRep(P.GetDomain())); P.Grad(X, &G); P.HessianEta(X, e, &Hh); return raw(Hh); }
} // namespace

VP_CHECK("C13", objective_formula, 400000, 8000000, "the problem has at least two coordinates") {
    PPt t = makePP(g);
    const Inst &I = *t.I;
    I.P->SetUseGrad(g.boolean()); I.P->SetUseHess(g.boolean());
    double got = I.P->f(t.X), want = I.f(t.x);
    g.close(got, want, fscale(t, want), 1e-9, "objective");
    g.close(I.P->f(t.X), got, 1 + std::fabs(got), 1e-13, "objective evaluated again");
    Variable Y = I.elem(t.x);
    g.close(I.P->f(Y), got, 1 + std::fabs(got), 1e-13, "objective at an equal point");
    if (vdiff(raw(t.X), t.x) != 0) g.fail("the objective changed the point");
    if (t.x.size() >= 2) g.nontrivial();
}

VP_CHECK("C13", euclidean_gradient, 300000, 6000000, "the directional derivative is not zero") {
    PPt t = makePP(g);
    const Inst &I = *t.I;
    I.P->SetUseGrad(true); I.P->SetUseHess(g.boolean());
    auto fr = I.fs ? I.fs : I.f;
    double fx = I.P->f(t.X);
    Vector G(I.M->GetEMPTYEXTR());
    I.P->EucGrad(t.X, &G);
    V gr = raw(G);
    g.require(gr.size() == t.x.size(), "length of the Euclidean gradient");
    bool nt = false;
    for (int k = 0; k < 3; k++) {
        V d = direction(t, k == 2);
        double h = 2e-3;
        auto along = [&](double s) { return fr(vadd(t.x, s, d)); };
        double a = fd4(along, h), b = fd4(along, h / 2);
        double sc = fscale(t, fx);
        if (std::fabs(a - b) > 1e-8 * sc) continue; /* the objective is not smooth here */
        double want = b;
        double got = I.kind == PTX ? I.c->root->g(I.c->rootv, gr, d) : vdot(gr, d);
        if (I.kind == PTX) got = I.M->Metric(t.X, I.amb(gr), I.amb(d));
        g.close(got, want, sc, I.hess ? 2e-7 : 5e-6, "directional derivative of the objective"); /* the penalty term has kinks in its second derivative */
        if (std::fabs(want) > 1e-6) nt = true;
    }
    if (vdiff(raw(t.X), t.x) != 0) g.fail("the gradient changed the point");
    if (nt) g.nontrivial();
}

VP_CHECK("C13", euclidean_hessian, 300000, 6000000, "the derivative of the gradient is not zero") {
    PPt t = makePP(g);
    const Inst &I = *t.I;
    if (!I.hess) throw Discard();
    I.P->SetUseGrad(true); I.P->SetUseHess(true);
    double fx = I.P->f(t.X);
    Vector G(emptyRep(I.M)), Hv(I.M->GetEMPTYEXTR());
    I.P->Grad(t.X, &G);
    V d = g.chance(1, 12) ? V(t.x.size(), 0.0) : direction(t, true);
    Vector eta = I.ext(t.X, d);
    V before = raw(eta);
    I.P->EucHessianEta(t.X, eta, &Hv);
    V got = raw(Hv);
    if (vdiff(raw(eta), before) != 0) g.fail("the Hessian action changed its direction");
    auto along = [&](double s) { Vector Y = I.amb(vadd(t.x, s, d)); I.P->f(Y); Vector E(I.M->GetEMPTYEXTR()); I.P->EucGrad(Y, &E); return raw(E); };
    double h = 2e-3, sc = fscale(t, fx);
    V a = fd4V(along, h), b = fd4V(along, h / 2);
    if (vdiff(a, b) > 1e-7 * sc) throw Discard();
    closeV(g, got, b, sc, 2e-6, "Euclidean Hessian action against the derivative of the Euclidean gradient");
    if (vnrm(b) > 1e-6) g.nontrivial();
}

VP_CHECK("C13", riemannian_derivatives, 240000, 5000000, "the gradient is not zero") {
    /* the gradient and Hessian the solvers see: pairing with tangent directions, self-adjointness, linearity */
    PPt t = makePP(g);
    const Inst &I = *t.I;
    if (I.dim() < 1) throw Discard();
    I.P->SetUseGrad(true); I.P->SetUseHess(true);
    auto fr = I.fs ? I.fs : I.f;
    double fx = I.P->f(t.X), sc = fscale(t, fx) * t.sx * t.sx;
    Vector G(emptyRep(I.M)); I.P->Grad(t.X, &G);
    for (int k = 0; k < 2; k++) {
        V d = I.tangent(t.r, t.x, 1);
        if (vnrm(d) < 1e-12) continue;
        auto along = [&](double s) { return fr(vadd(t.x, s, d)); };
        double h = 2e-3 / vnrm(d), a = fd4(along, h), b = fd4(along, h / 2);
        if (std::fabs(a - b) > 1e-8 * sc) continue;
        g.close(I.M->Metric(t.X, G, I.vec(t.X, d)), b, sc, I.hess ? 1e-6 : 1e-5, "metric pairing of the gradient with a direction");
    }
    if (I.hess) {
        V u = I.tangent(t.r, t.x, 1), v = I.tangent(t.r, t.x, 1);
        Vector U = I.vec(t.X, u), W = I.vec(t.X, v), HU(emptyRep(I.M)), HV(emptyRep(I.M)), HS(emptyRep(I.M));
        I.P->HessianEta(t.X, U, &HU); I.P->HessianEta(t.X, W, &HV);
        double hs = sc + std::sqrt(std::fabs(I.M->Metric(t.X, HU, HU))) + std::sqrt(std::fabs(I.M->Metric(t.X, HV, HV)));
        g.close(I.M->Metric(t.X, HU, W), I.M->Metric(t.X, U, HV), hs, 1e-7, "self-adjointness of the Hessian");
        Vector S(U); I.M->VectorLinearCombination(t.X, 2, U, -0.5, W, &S);
        I.P->HessianEta(t.X, S, &HS);
        closeV(g, raw(HS), vadd(vscale(2, raw(HU)), -0.5, raw(HV)), hs * t.sx, 1e-7, "linearity of the Hessian");
    }
    if (std::sqrt(std::fabs(I.M->Metric(t.X, G, G))) > 1e-6) g.nontrivial();
}

VP_CHECK("C14", shipped_problems_ignore_the_representative, 120000, 3000000, "the representatives differ and the gradient is not zero") {
    PWant w; w.kinds = {PGRASS, PLYAP, PMC, PBLIND, PPHASE};
    PPt t = makePP(g, w);
    const Inst &I = *t.I;
    if (!I.c || I.dim() < 1) throw Discard();
    const Conf &c = *I.c;
    Action ac(t.r, c);
    V x = t.x, y = ac.act(x);
    Variable X = I.elem(x), Y = I.elem(y);
    double sx = 1 + std::max(vnrm(x), vnrm(y));
    I.P->SetUseGrad(true); I.P->SetUseHess(I.hess);
    double f1 = I.P->f(X), f2 = I.P->f(Y), sc = 1 + std::fabs(f1) + I.curv * sx * sx;
    g.close(f2, f1, sc, 1e-9, "objective at another representative");
    Vector G1(emptyRep(I.M)), G2(G1);
    I.P->Grad(X, &G1); I.P->Grad(Y, &G2);
    double n1 = I.M->Metric(X, G1, G1), n2 = I.M->Metric(Y, G2, G2);
    /* how far the metric of a representative can stretch the coordinates */
    double k = 1; for (const V *v : {&x, &y}) for (auto &M : c.split(*v)) { auto s = svals(M); k = std::max(k, s[0] / std::max(s[s.size() - 1], 1e-300)); k = std::max(k, 1 / std::max(s[s.size() - 1], 1e-300)); }
    if (k > 1e3) throw Discard();
    double gs = sc * sc * k * k;
    g.close(n2, n1, gs, 1e-9, "squared norm of the gradient at another representative");
    closeV(g, c.out(Y, G2), ac.act(c.out(X, G1)), sc * k * k, 1e-8, "corresponding gradients");
    if (I.hess) {
        V a = I.tangent(t.r, x, 1), b = I.tangent(t.r, x, 1);
        Vector A = I.vec(X, a), B = I.vec(X, b), A2 = I.vec(Y, ac.act(a)), B2 = I.vec(Y, ac.act(b)), H1(G1), H2(G1);
        I.P->HessianEta(X, A, &H1); I.P->HessianEta(Y, A2, &H2);
        g.close(I.M->Metric(Y, H2, B2), I.M->Metric(X, H1, B), gs * k * k, 1e-8, "Hessian form on corresponding vectors");
    }
    g.label(I.name.substr(0, I.name.find_first_of("( ")));
    if (vdiff(x, y) > 1e-3 && std::sqrt(std::fabs(n1)) > 1e-6) g.nontrivial();
}

VP_CHECK("C13", numerical_gradient, 120000, 3000000, "the gradient is not zero") {
    PPt t = makePP(g);
    const Inst &I = *t.I;
    if (I.fs || I.dim() < 1) throw Discard();
    if (I.kind == PSPARSE) { double h = 1e-7; for (int k = 0; k < 4; k++) { V d = direction(t, false); auto along = [&](double s) { return I.f(vadd(t.x, s, d)); }; if (std::fabs(along(h) + along(-h) - 2 * along(0)) > 1e-12) throw Discard(); } }
    I.P->SetUseGrad(true); I.P->SetUseHess(g.boolean());
    double fx = I.P->f(t.X), sc = fscale(t, fx) * t.sx;
    V want = gradOf(*I.P, t.X);
    Variable Y = I.elem(t.x);
    V got;
    bool own = g.boolean();
    if (own) { FOnly Q(I.P.get(), I.M); got = gradOf(Q, Y); closeV(g, gradOf(Q, Y), got, sc, 1e-12, "numerical gradient evaluated again"); }
    else { I.P->SetNumGradHess(true); got = gradOf(*I.P, Y); I.P->SetNumGradHess(false); }
    g.note("user", own);
    closeV(g, got, want, sc, 3e-5, "numerical gradient");
    if (vdiff(raw(Y), t.x) != 0) g.fail("the numerical gradient changed the point");
    if (vnrm(want) > 1e-6) g.nontrivial();
}

VP_CHECK("C13", numerical_hessian, 120000, 3000000, "the action is not zero") {
    PPt t = makePP(g);
    const Inst &I = *t.I;
    if (!I.hess || I.fs || I.dim() < 1 || I.kind == PSPARSE) throw Discard();
    I.P->SetUseGrad(true); I.P->SetUseHess(true);
    double fx = I.P->f(t.X), sc = fscale(t, fx) * t.sx * t.sx;
    bool own = g.chance(1, 3);
    double len = g.pick(std::vector<double>{1, 0, 1e-4, 30});
    V d = I.tangent(t.r, t.x, len);
    Vector e1 = I.vec(t.X, d);
    V want = hessOf(*I.P, t.X, e1), got;
    Variable Y = I.elem(t.x);
    Vector e2 = I.vec(Y, d); V before = raw(e2);
    if (own) { FOnly Q(I.P.get(), I.M); got = hessOf(Q, Y, e2); }
    else { I.P->SetNumGradHess(true); got = hessOf(*I.P, Y, e2); I.P->SetNumGradHess(false); }
    g.note("user", own); g.note("len", len);
    closeV(g, got, want, (sc / t.sx + (I.kind == PSPD ? 10 * sc : 0)) * std::max(len, 1e-12), 2e-2, "numerical Hessian action");
    if (vdiff(raw(e2), before) != 0) g.fail("the numerical Hessian changed its direction");
    if (vnrm(want) > 1e-6 * len && len > 0) g.nontrivial();
}

VP_CHECK("C13", evaluation_histories, 120000, 3000000, "two points are evaluated alternately or a copy is written") {
    /* any interleaving of evaluations at several points, with copies that share cached data, gives the values a fresh point gives */
    PPt t = makePP(g);
    const Inst &I = *t.I;
    if (I.dim() < 1) throw Discard();
    I.P->SetUseGrad(true); I.P->SetUseHess(true);
    struct Ref { V x; double f; V gr, d, h; };
    auto refOf = [&](const V &x) {
        Ref R; R.x = x; Variable X = I.elem(x); R.f = I.P->f(X); R.gr = gradOf(*I.P, X); R.d = I.tangent(t.r, x, 1);
        if (I.hess) { Variable Z = I.elem(x); R.h = hessOf(*I.P, Z, I.vec(Z, R.d)); } return R; };
    V x2 = I.point(t.r, 0);
    std::vector<Ref> refs = {refOf(t.x), refOf(x2)};
    struct Slot { int ref; Variable X; int state; }; /* state 0 nothing, 1 f, 2 gradient done */
    std::vector<Slot> S = {{0, I.elem(t.x), 0}, {1, I.elem(x2), 0}};
    int nops = g.integer(2, 14), last = 0; bool nt = false;
    double sc = fscale(t, refs[0].f) + fscale(t, refs[1].f); sc *= t.sx * (1 + vnrm(x2));
    std::ostringstream log;
    for (int o = 0; o < nops; o++) {
        int k = g.choice((uint32_t) S.size()); Slot &s = S[k]; const Ref &R = refs[s.ref];
        int op = g.integer(0, 5);
        log << op << "@" << k << " ";
        if (k != last) nt = true; last = k;
        switch (op) {
        case 0: g.close(I.P->f(s.X), R.f, sc, 1e-11, "objective in history " + log.str()); if (s.state < 1) s.state = 1; break;
        case 1: { if (s.state < 1) { I.P->f(s.X); s.state = 1; } Vector G(emptyRep(I.M)); I.P->Grad(s.X, &G); closeV(g, raw(G), R.gr, sc, 1e-9, "gradient in history " + log.str()); s.state = 2; break; }
        case 2: { if (!I.hess) break; if (s.state < 2) { I.P->f(s.X); Vector G(emptyRep(I.M)); I.P->Grad(s.X, &G); s.state = 2; }
            Vector e = I.vec(s.X, R.d), Hh(emptyRep(I.M)); I.P->HessianEta(s.X, e, &Hh); closeV(g, raw(Hh), R.h, sc, 1e-8, "Hessian action in history " + log.str()); break; }
        case 3: if (S.size() < 6) { Slot n = s; S.push_back(n); } break; /* shares values and cached data */
        case 4: { /* a copy is overwritten with the other point: its cached data must not survive */
            if (I.kind == PFSPARSE || I.kind == PFWEIGHT || I.c == nullptr) break;
            Slot &w = S[g.choice((uint32_t) S.size())]; int nr = 1 - w.ref; double *q = w.X.ObtainWriteEntireData(); std::copy(refs[nr].x.begin(), refs[nr].x.end(), q); w.ref = nr; w.state = 0; nt = true; break; }
        case 5: { Slot &w = S[g.choice((uint32_t) S.size())]; if (&w != &s) { w.X = s.X; w.ref = s.ref; w.state = s.state; nt = true; } break; }
        }
    }
    for (auto &s : S) if (vdiff(raw(s.X), refs[s.ref].x) != 0) g.fail("a point changed in history " + log.str());
    if (nt) g.nontrivial();
}

/* ---------------- C15 ---------------- */
namespace {
/* the nonsmooth term of a composite problem */
double l1(const V &x, double la) { double s = 0; for (double e : x) s += std::fabs(e); return la * s; }
V blockW(const V &w, size_t n) { V r(n); size_t b = n / w.size(); for (size_t i = 0; i < n; i++) r[i] = w[i / b]; return r; }
double softt(double x, double th) { return x > th ? x - th : x < -th ? x + th : 0; }
struct Comp { std::shared_ptr<Inst> I; V w, wf; Vector W; };
Comp makeComp(Gen &g, SplitMix &r, std::shared_ptr<Inst> I) {
    Comp c; c.I = I; int len = I->M->GetEMPTYEXTR().Getlength(); std::vector<int> lw = {1, len};
    if (I->kind == PSPCA) lw.push_back(I->c->p); else lw.push_back(I->c->n);
    int nb = g.pick(lw); int kind = g.choice(3);
    for (int i = 0; i < nb; i++) c.w.push_back(kind == 0 ? 1 + (i % 3) : kind == 1 ? std::exp(3 * (2 * r.unif() - 1)) : std::exp(r.normal()));
    c.W = Vector(nb); double *q = c.W.ObtainWriteEntireData(); std::copy(c.w.begin(), c.w.end(), q); c.wf = blockW(c.w, len);
    g.note("blocks", nb);
    return c;
}
V proxInput(Gen &g, SplitMix &r, const Comp &c) { /* entries well away from, on and around the threshold */
    V x(c.wf.size()); int mode = g.choice(3);
    for (size_t i = 0; i < x.size(); i++) { double th = c.I->lambda / c.wf[i];
        switch (mode == 0 ? 0 : (int) (r.next() % 6)) {
        case 0: x[i] = r.normal() * (1 + th); break; case 1: x[i] = 0; break; case 2: x[i] = th; break; case 3: x[i] = -th; break;
        case 4: x[i] = th * (1 + 1e-6 * r.normal()) * (r.next() % 2 ? 1 : -1); break; default: x[i] = th * (2 * r.unif() - 1); } }
    return x;
}
} // namespace

VP_CHECK("C15", prox_is_the_minimiser, 400000, 8000000, "some entries are shrunk to zero and some are not") {
    PWant w; w.kinds = {PSPCA, PFSPARSE}; auto I = makeProb(g, w); SplitMix r = g.data(); Comp c = makeComp(g, r, I);
    V x = proxInput(g, r, c); Vector X = I->amb(x), R(I->M->GetEMPTYEXTR());
    bool alias = g.chance(1, 3); /* the solvers pass distinct elements; sharing memory with the input must not matter */
    if (alias) R = X;
    I->P->ProxW(X, c.W, &R);
    V y = raw(R); double la = I->lambda;
    if (vdiff(raw(X), x) != 0) g.fail("ProxW changed its input");
    double sc = 1; for (double e : x) sc = std::max(sc, std::fabs(e)); for (double e : c.wf) sc = std::max(sc, la / e);
    V want(x.size()); for (size_t i = 0; i < x.size(); i++) want[i] = softt(x[i], la / c.wf[i]);
    closeV(g, y, want, sc, 1e-13, "proximal point");
    auto obj = [&](const V &u) { double s = 0; for (size_t i = 0; i < u.size(); i++) s += 0.5 * c.wf[i] * (u[i] - x[i]) * (u[i] - x[i]); return s + l1(u, la); };
    double o = obj(y);
    for (int k = 0; k < 6; k++) { V d(x.size()); for (auto &e : d) e = r.normal() * (k < 3 ? 1 : (r.next() % 3 == 0)); double st = std::pow(10, -5 * r.unif()); double v = obj(vadd(y, st, d));
        double q = 0; for (size_t i = 0; i < d.size(); i++) q += 0.5 * c.wf[i] * d[i] * d[i] * st * st;
        if (v < o + q - 1e-9 * (1 + std::fabs(o) + std::fabs(v))) g.fail("another point has a lower proximal objective"); }
    /* nonexpansive in the weighted norm */
    V x2 = proxInput(g, r, c); Vector X2 = I->amb(x2), R2(I->M->GetEMPTYEXTR()); I->P->ProxW(X2, c.W, &R2); V y2 = raw(R2);
    double a = 0, b = 0; for (size_t i = 0; i < x.size(); i++) { a += c.wf[i] * (y[i] - y2[i]) * (y[i] - y2[i]); b += c.wf[i] * (x[i] - x2[i]) * (x[i] - x2[i]); }
    if (a > b * (1 + 1e-9) + 1e-12) g.fail("the proximal mapping is expansive");
    int zc = 0; for (double e : y) zc += e == 0; if (zc > 0 && zc < (int) y.size()) g.nontrivial();
}

VP_CHECK("C15", generalised_jacobian, 300000, 6000000, "some entries pass and some do not") {
    PWant w; w.kinds = {PSPCA, PFSPARSE}; auto I = makeProb(g, w); SplitMix r = g.data(); Comp c = makeComp(g, r, I);
    V x = proxInput(g, r, c), d(x.size()); for (auto &e : d) e = r.normal();
    Vector X = I->amb(x), D = I->amb(d), R(I->M->GetEMPTYEXTR());
    I->P->CalJW(X, D, c.W, &R); V j = raw(R); double la = I->lambda; int pass = 0;
    if (vdiff(raw(X), x) != 0 || vdiff(raw(D), d) != 0) g.fail("CalJW changed an input");
    for (size_t i = 0; i < x.size(); i++) {
        double th = la / c.wf[i], ax = std::fabs(x[i]);
        if (std::fabs(ax - th) <= 1e-12 * th) { double tt = d[i] == 0 ? 0 : j[i] / d[i]; if (!(tt >= -1e-14 && tt <= 1 + 1e-14)) g.fail("Jacobian at a threshold outside [0,1]"); continue; }
        double want = ax > th ? d[i] : 0; pass += ax > th;
        g.close(j[i], want, std::fabs(d[i]) + 1e-300, 1e-13, "generalised Jacobian of the proximal mapping");
    }
    /* derivative of the library's own mapping where it is differentiable */
    double h = 1e-6; bool smooth = true; for (size_t i = 0; i < x.size(); i++) { double th = la / c.wf[i]; if (std::fabs(std::fabs(x[i]) - th) < 10 * h * (1 + std::fabs(d[i]))) smooth = false; }
    if (smooth) { Vector A = I->amb(vadd(x, h, d)), B = I->amb(vadd(x, -h, d)), RA(I->M->GetEMPTYEXTR()), RB(I->M->GetEMPTYEXTR()); I->P->ProxW(A, c.W, &RA); I->P->ProxW(B, c.W, &RB);
        double sx = 1 + vnrm(x); closeV(g, vscale(1 / (2 * h), vadd(raw(RA), -1, raw(RB))), j, sx, 1e-8, "derivative of the proximal mapping"); }
    if (pass > 0 && pass < (int) x.size()) g.nontrivial();
}

VP_CHECK("C15", pieces_and_weights, 240000, 5000000, "the point has zero and nonzero entries or the weights vary") {
    PWant w; w.kinds = {PSPCA, PFSPARSE}; auto I = makeProb(g, w); SplitMix r = g.data();
    V x = I->point(r, g.chance(1, 3) ? 2 : 0); Variable X = I->elem(x); double la = I->lambda;
    double tot = I->P->f(X), sm = I->fs(x), sc = 1 + std::fabs(sm) + l1(x, la) + I->curv * (1 + vdot(x, x));
    g.close(tot, sm + l1(x, la), sc, 1e-10, "objective = smooth part + lambda |x|_1");
    Vector Wt; I->P->PreConditioner(X, X, &Wt); V wt = raw(Wt);
    for (double e : wt) g.require(e > 0 && std::isfinite(e), "the weights of the metric are positive");
    bool vary = false; for (double e : wt) if (e != wt[0]) vary = true;
    if (I->kind == PSPCA) {
        /* recover B'B from the smooth part: fs(e_ij) */
        int n = I->c->n, p = I->c->p; V cn(n), bx(p);
        for (int i = 0; i < n; i++) { V e(x.size(), 0.0); e[i] = 1; cn[i] = -I->fs(e); }
        for (int j = 0; j < p; j++) { V e(x.size(), 0.0); for (int i = 0; i < n; i++) e[i] = x[i + (size_t) j * n]; bx[j] = -I->fs(e); }
        V want;
        if ((int) wt.size() == n * p) { for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) want.push_back(std::max(0.1, 2 * (bx[j] - cn[i]))); }
        if ((int) wt.size() == p && want.empty()) for (int j = 0; j < p; j++) want.push_back(std::max(0.1, 2 * (bx[j] - 1)));
        if (wt.size() == 1 && (n * p > 1 || true)) { /* twice the largest eigenvalue of B'B */
            Mat BB(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { V e(x.size(), 0.0); e[i] += 1; e[j] += 1; double s = -I->fs(e); BB(i, j) = i == j ? s / 4 : (s - cn[i] - cn[j]) / 2; }
            std::vector<double> ev; Mat U; eigh(BB, ev, U); double L = 2 * ev[n - 1];
            if (want.empty() || p == 1) { bool ok = std::fabs(wt[0] - L) <= 1e-9 * sc; for (double e : want) ok = ok || std::fabs(wt[0] - e) <= 1e-9 * sc; g.require(ok, "scalar weight"); want.clear(); } }
        if (!want.empty()) closeV(g, wt, want, sc, 1e-9, "weights of the diagonal metric");
    } else { g.require(wt.size() == 1, "one weight"); g.close(wt[0], 2, 1, 1e-14, "weight of the Frobenius metric"); }
    int zc = 0; for (double e : x) zc += e == 0; if (vary || (zc && zc < (int) x.size())) g.nontrivial();
}
