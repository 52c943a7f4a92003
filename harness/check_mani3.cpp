/* C10 Riemannian gradients and Hessians from Euclidean ones; C14 independence of the representative */
#include "manihelp.h"
using namespace vp;

namespace {
/* phi(E) = sum_k c_k t_k + t_k^2/2 + g t_k^3/6, t_k = <W_k, E> : a smooth function on the invariant of the class */
struct Phi {
    std::vector<Mat> W; std::vector<double> co; double gam = 0;
    void draw(SplitMix &r, const Conf &c, const Mat &E, int K, bool cubic) {
        for (int k = 0; k < K; k++) {
            Mat M = randMat(r, E.r, E.c, c.z);
            if (c.kind == SPD) M = sym(M);
            W.push_back(cd(1 / nrm(M)) * M);
            co.push_back(r.normal());
        }
        gam = cubic ? 0.7 : 0;
    }
    double val(const Mat &E) const { double s = 0; for (size_t k = 0; k < W.size(); k++) { double t = dot(W[k], E); s += co[k] * t + t * t / 2 + gam * t * t * t / 6; } return s; }
    Mat grad(const Mat &E) const { Mat G(E.r, E.c); for (size_t k = 0; k < W.size(); k++) { double t = dot(W[k], E); G = G + cd(co[k] + t + gam * t * t / 2) * W[k]; } return G; }
    Mat hess(const Mat &E, const Mat &D) const { Mat G(E.r, E.c); for (size_t k = 0; k < W.size(); k++) { double t = dot(W[k], E); G = G + cd((1 + gam * t) * dot(W[k], D)) * W[k]; } return G; }
};
struct PhiProb : public ROPTLIB::Problem {
    const Conf &c; Phi phi;
    PhiProb(const Conf &c, bool h) : c(c) { SetDomain(c.M); SetUseHess(h); }
    void put(Vector *result, const V &v) const {
        result->NewMemoryOnWrite();
        double *q = result->ObtainWriteEntireData();
        std::copy(v.begin(), v.end(), q);
    }
    virtual realdp f(const Variable &x) const { return phi.val(c.embed(raw(x))); }
    virtual Vector &EucGrad(const Variable &x, Vector *result) const {
        V v = raw(x);
        put(result, c.adembed(v, phi.grad(c.embed(v))));
        return *result;
    }
    virtual Vector &EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const {
        V v = raw(x), a = raw(etax);
        Mat E = c.embed(v);
        V h = c.adembed(v, phi.hess(E, c.dembed(v, a)));
        if (!c.linembed()) h = vadd(h, 1, c.adembed(a, phi.grad(E)));
        put(result, h);
        return *result;
    }
};
/* a curve through x with velocity a, in the ambient space, for the kinds whose gradient is an orthogonal projection */
V curve(const Conf &c, const V &x, const V &a, double t) {
    V s = vadd(x, t, a);
    switch (c.kind) {
    case STIE: case SPHERE: case GRASS: { Mat S = c.split(s)[0]; Mat Q = orth(S); Mat R = H(Q) * S; /* positive diagonal */
        for (int j = 0; j < c.p; j++) { cd ph = R(j, j) / std::abs(R(j, j)); for (int i = 0; i < c.n; i++) Q(i, j) *= ph; }
        return mv1(Q, c.z); }
    case SPHERETX: return vscale(1 / std::sqrt(c.root->g(c.rootv, s, s)), s);
    case FRE: return mv1(refRetr(c, x, vscale(t, a)), false);
    default: return s;
    }
}
bool projGrad(const Conf &c) { return c.kind == STIE || c.kind == SPHERE || c.kind == GRASS || c.kind == SPHERETX || c.kind == FRE || c.kind == EUC; }
template <class F> V fdV(F f, double h) { V a = f(h), b = f(-h), c = f(2 * h), d = f(-2 * h); return vadd(vscale(8.0 / 12 / h, vadd(a, -1, b)), -1.0 / 12 / h, vadd(c, -1, d)); }
template <class F> double fdD(F f, double h) { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); }
} // namespace

VP_CHECK("C10", riemannian_gradient, 150000, 4000000, "the gradient is not zero and the dimension is at least 2") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    PhiProb P(c, g.boolean());
    P.phi.draw(t.r, c, c.embed(t.x), 4, g.boolean());
    Vector G(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    P.Grad(t.X, &G);
    V got = c.out(t.X, G);
    Mat eg = P.phi.grad(c.embed(t.x));
    double sc = (1 + nrm(eg)) * c.scale(t.x) * c.scale(t.x);
    if (c.kind == SPD) sc *= c.scale(t.x) * c.scale(t.x);
    closeV(g, c.project(t.x, got), got, vnrm(got) * c.scale(t.x), 1e-8, "tangency of the gradient");
    for (int k = 0; k < 3; k++) {
        V xi = c.tangent(t.r, t.x, 1);
        double want = dot(eg, c.dembed(t.x, xi));
        g.close(c.g(t.x, got, xi), want, sc, 1e-9, "metric pairing of the gradient with a tangent vector");
        g.close(c.M->Metric(t.X, G, c.vec(t.X, xi)), want, sc, 1e-8, "library metric of the gradient with a tangent vector");
    }
    /* second evaluation with warm companion data */
    Vector G2(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    P.Grad(t.X, &G2);
    closeV(g, c.out(t.X, G2), got, vnrm(got), 1e-10, "repeated gradient");
    if (vdiff(raw(t.X), t.x) != 0) g.fail("the gradient changed the point");
    if (vnrm(got) > 1e-8 && c.dim() >= 2) g.nontrivial();
}

VP_CHECK("C10", riemannian_hessian, 80000, 2000000, "the action is not zero and the dimension is at least 2") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    PhiProb P(c, true);
    P.phi.draw(t.r, c, c.embed(t.x), 4, g.boolean());
    Vector E(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR()), G(E);
    P.f(t.X);
    P.Grad(t.X, &G);
    V a = c.tangent(t.r, t.x, 1), b = c.tangent(t.r, t.x, 1);
    auto Hs = [&](const V &v) { Vector A = c.vec(t.X, v), O(E); V ra = raw(A); P.HessianEta(t.X, A, &O); if (vdiff(ra, raw(A)) != 0) throw PropFail{"the Hessian action changed its direction"}; return c.out(t.X, O); };
    V Ha = Hs(a), Hb = Hs(b);
    Mat Em = c.embed(t.x), eg = P.phi.grad(Em);
    double s1 = c.scale(t.x), cond = 1;
    if (c.kind == SPD) { std::vector<double> w; Mat U; eigh(c.split(t.x)[0], w, U); cond = 1 / std::min(1.0, w[0]); }
    if (c.kind == FRE) { auto s = svals(c.split(t.x)[0]); cond = 1 / std::min(1.0, s[c.p - 1]); }
    if (c.kind == SYM || c.kind == F2) { for (auto &M : c.split(t.x)) { auto s = svals(M); cond = std::max(cond, 1 / std::min(1.0, s[c.p - 1])); } cond *= cond; }
    double sc = (3 + nrm(eg)) * s1 * s1 * cond * cond * (1 + vnrm(a) + vnrm(b)) * (1 + vnrm(a) + vnrm(b));
    closeV(g, c.project(t.x, Ha), Ha, vnrm(Ha) * s1 * cond, 1e-8, "tangency of the Hessian action");
    g.close(c.g(t.x, Ha, b), c.g(t.x, a, Hb), sc, 1e-8, "self-adjointness of the Hessian");
    closeV(g, Hs(vadd(a, -0.6, b)), vadd(Ha, -0.6, Hb), (vnrm(Ha) + vnrm(Hb)) * s1 * cond, 1e-8, "linearity of the Hessian");
    if (projGrad(c)) {
        V na = a;
        V want = c.project(t.x, fdV([&](double h) { V y = curve(c, t.x, na, h); return c.project(y, c.adembed(y, P.phi.grad(c.embed(y)))); }, c.kind == FRE ? 2e-4 : 5e-4));
        closeV(g, Ha, want, sc, 1e-6, "covariant derivative of the gradient");
    } else {
        V gr(t.x.size());
        { Vector GG(E); P.Grad(t.X, &GG); gr = c.out(t.X, GG); }
        double ng = vnrm(gr), inv = ng > 0 ? 1 / ng : 0;
        gr = vscale(inv, gr);
        auto hes = [&](const V &p, const V &q) { /* second derivative of the function in the linear chart minus the Christoffel term */
            double d2 = dot(P.phi.hess(Em, c.dembed(t.x, p)), c.dembed(t.x, q)) + dot(eg, c.ddembed(t.x, p, q));
            auto Gm = [&](const V &dir, double h, const V &u, const V &v) { V y = vadd(t.x, h, dir); return c.g(y, c.project(y, u), c.project(y, v)); };
            double h = 1e-3 / std::max(1.0, cond);
            double np = std::max(vnrm(p), 1e-300), nq = std::max(vnrm(q), 1e-300);
            V pu = vscale(1 / np, p), qu = vscale(1 / nq, q);
            double A = np * fdD([&](double s) { return Gm(pu, s, q, gr); }, h);
            double B = nq * fdD([&](double s) { return Gm(qu, s, p, gr); }, h);
            double C = fdD([&](double s) { return Gm(gr, s, p, q); }, h);
            return d2 - 0.5 * (A + B - C) * ng;
        };
        g.close(c.g(t.x, Ha, b), hes(a, b), sc * (1 + ng), 1e-6, "second covariant derivative (mixed)");
        g.close(c.g(t.x, Ha, a), hes(a, a), sc * (1 + ng), 1e-6, "second covariant derivative");
    }
    if (vnrm(Ha) > 1e-8 && c.dim() >= 2) g.nontrivial();
}
