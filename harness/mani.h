/* Independent reference description of every manifold of the library: constraints, tangent spaces, metrics, classes.
   All of it works on plain vectors of real coordinates of the ambient representation. */
#ifndef VP_MANI_H
#define VP_MANI_H
#include <algorithm>
#include <memory>
#include "ref.h"
#include "Manifolds/Manifold.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/SPDManifold.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
#include "Manifolds/CFixedRankQ2F.h"
#include "Manifolds/MultiManifolds.h"
#include "Problems/Problem.h"
#undef max
#undef min
#undef abs

namespace vp {
using ROPTLIB::Manifold;
using ROPTLIB::Vector;
using ROPTLIB::Variable;
typedef std::vector<double> V;

inline double vdot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline double vnrm(const V &a) { return std::sqrt(vdot(a, a)); }
inline V vadd(const V &a, double s, const V &b) { V c(a); for (size_t i = 0; i < a.size(); i++) c[i] += s * b[i]; return c; }
inline V vscale(double s, const V &a) { V c(a); for (auto &x : c) x *= s; return c; }
inline bool vfinite(const V &a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }
inline double vdiff(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s = std::max(s, std::fabs(a[i] - b[i])); return s; }
inline void closeV(Gen &g, const V &a, const V &b, double scale, double tol, const std::string &what) {
    if (a.size() != b.size()) { std::ostringstream o; o << what << ": length " << a.size() << " instead of " << b.size(); g.fail(o.str()); }
    if (!vfinite(a)) g.fail(what + ": not finite");
    if (!vfinite(b)) g.fail(what + ": reference not finite");
    double d = vdiff(a, b);
    if (!(d <= tol * std::max(scale, 1e-300))) { std::ostringstream o; o << what << ": differs by " << d << " (scale " << scale << ", tolerance " << tol << ")"; g.fail(o.str()); }
}
/* matrix <-> real coordinates, column major, complex interleaved */
inline Mat vm(const V &v, size_t off, int r, int c, bool z) {
    Mat m(r, c);
    for (size_t i = 0; i < m.a.size(); i++) m.a[i] = z ? cd(v[off + 2 * i], v[off + 2 * i + 1]) : cd(v[off + i], 0);
    return m;
}
inline void mv(const Mat &m, bool z, V &out) { for (auto &x : m.a) { out.push_back(x.real()); if (z) out.push_back(x.imag()); } }
inline V mv1(const Mat &m, bool z) { V v; mv(m, z, v); return v; }

enum Kind { EUC, SPHERE, SPHERETX, STIE, GRASS, SPD, SYM, FRE, F2, NKIND };

struct Stub : public ROPTLIB::Problem { /* carries only the UseHess switch and the domain */
    Stub(Manifold *m, bool h) { SetDomain(m); SetUseHess(h); }
    virtual realdp f(const Variable &x) const { return 0; }
};

struct Conf {
    int kind = EUC;
    bool z = false;              /* complex */
    int m = 1, n = 1, p = 1;     /* see comps() */
    int pset = 1;
    int metric = 0;              /* SPD: 0 affine invariant, 1 Euclidean; SYM: 0 EUC 1 HGZ 2 QEUC; STIE: 0 */
    bool proj = false, polar = false, cayley = false, spdexp = false, partr = false;
    bool intr = false, hhr = false;
    std::string name;
    std::shared_ptr<Manifold> own;
    Manifold *M = nullptr;
    std::shared_ptr<Conf> root;  /* SPHERETX */
    V rootv;

    std::vector<std::pair<int, int>> comps() const {
        switch (kind) {
        case F2: return {{m, p}, {n, p}};
        case FRE: return {{m, n}};
        case SPD: return {{n, n}};
        case SPHERETX: return root->comps();
        default: return {{n, p}};
        }
    }
    int extr() const { int s = 0; for (auto &c : comps()) s += c.first * c.second; return s * (z ? 2 : 1); }
    int dim() const {
        switch (kind) {
        case EUC: return extr();
        case SPHERE: return n - 1;
        case SPHERETX: return root->dim() - 1;
        case STIE: return z ? 2 * n * p - p * p : n * p - p * (p + 1) / 2;
        case GRASS: return (n - p) * p;
        case SPD: return n * (n + 1) / 2;
        case SYM: return z ? 2 * n * p - p * p : n * p - p * (p - 1) / 2;
        case FRE: return (m + n - p) * p;
        case F2: return (z ? 2 : 1) * (m + n - p) * p;
        }
        return 0;
    }
    bool quotient() const { return kind == GRASS || kind == SYM || kind == F2; }
    std::vector<Mat> split(const V &v) const {
        std::vector<Mat> r; size_t off = 0;
        for (auto &c : comps()) { r.push_back(vm(v, off, c.first, c.second, z)); off += (size_t) c.first * c.second * (z ? 2 : 1); }
        return r;
    }
    V join(const std::vector<Mat> &ms) const { V v; for (auto &a : ms) mv(a, z, v); return v; }

    /* ---- points ---- */
    V point(SplitMix &r, int style) const {
        auto full = [&](int a, int b) { /* a x b with controlled singular values */
            Mat A = randMat(r, a, b, z);
            if (style == 1) { for (int t = 0; t < 8; t++) { auto s = svals(A); if (s[std::min(a, b) - 1] > 0.05 * s[0] && s[0] > 0.2) return A; A = randMat(r, a, b, z); } }
            int k = std::min(a, b);
            Mat U = orth(randMat(r, a, k, z)), W = orth(randMat(r, b, k, z)), D(k, k);
            for (int i = 0; i < k; i++) D(i, i) = style == 2 ? 1.0 : 0.5 + 2.5 * r.unif();
            return U * D * H(W);
        };
        switch (kind) {
        case EUC: return mv1(randMat(r, n, p, z), z);
        case SPHERE: case STIE: case GRASS: {
            if (style == 2) { Mat X(n, p); for (int j = 0; j < p; j++) X(j, j) = r.unif() < 0.5 ? 1 : -1; return mv1(X, z); }
            return mv1(orth(randMat(r, n, p, z)), z); }
        case SPHERETX: {
            V e(extr()); for (auto &t : e) t = r.normal();
            e = root->project(rootv, e);
            return vscale(1 / std::sqrt(root->g(rootv, e, e)), e); }
        case SPD: {
            Mat Q = orth(randMat(r, n, n, false)), D(n, n);
            for (int i = 0; i < n; i++) D(i, i) = style == 2 ? 1.0 : std::exp(1.5 * (2 * r.unif() - 1));
            return mv1(sym(Q * D * H(Q)), false); }
        case SYM: return mv1(full(n, p), z);
        case FRE: { Mat U = orth(randMat(r, m, p, false)), W = orth(randMat(r, n, p, false)); Mat D = orth(randMat(r, p, p, false)), S(p, p);
            for (int i = 0; i < p; i++) S(i, i) = 0.6 + 2 * r.unif();
            D = style == 2 ? S : D * S; return mv1(U * D * H(W), false); }
        case F2: { V v; mv(full(m, p), z, v); mv(full(n, p), z, v); return v; }
        }
        return V();
    }
    /* relative distance from the defining constraints */
    double infeas(const V &x) const {
        if (!vfinite(x)) return INFINITY;
        auto X = split(x);
        switch (kind) {
        case SPHERE: case STIE: case GRASS: return nrm(H(X[0]) * X[0] - Mat::eye(p));
        case SPHERETX: { double d = std::fabs(root->g(rootv, x, x) - 1); return d + vdiff(root->project(rootv, x), x); }
        case SPD: { std::vector<double> w; Mat U; eigh(X[0], w, U); double s = nrm(X[0]); return nrm(X[0] - H(X[0])) / s + (w[0] > 0 ? 0 : 1); }
        case SYM: { auto s = svals(X[0]); return s[p - 1] > 1e-9 * s[0] ? 0 : 1; }
        case FRE: { auto s = svals(X[0]); return (s[p - 1] > 1e-9 * s[0] ? 0 : 1) + ((int) s.size() > p ? (s[p] > 1e-6 * s[0] ? 1 : 0) : 0); }
        case F2: { auto s = svals(X[0]), t = svals(X[1]); return (s[p - 1] > 1e-9 * s[0] && t[p - 1] > 1e-9 * t[0]) ? 0 : 1; }
        }
        return 0;
    }
    /* basis of the orthogonal complement (in pm) of the tangent / horizontal space */
    std::vector<V> normals(const V &x) const {
        std::vector<V> B; auto X = split(x);
        auto each = [&](int a, int b, bool zz, std::function<void(const Mat &)> f) {
            for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int c = 0; c < (zz ? 2 : 1); c++) { Mat E(a, b); E(i, j) = c ? cd(0, 1) : cd(1, 0); f(E); }
        };
        switch (kind) {
        case SPHERE: case STIE:
            for (int i = 0; i < p; i++) for (int j = i; j < p; j++) for (int c = 0; c < (z && i != j ? 2 : 1); c++) {
                Mat E(p, p); E(i, j) = c ? cd(0, 1) : cd(1, 0); E(j, i) = std::conj(E(i, j)); B.push_back(mv1(X[0] * E, z)); }
            break;
        case GRASS: each(p, p, z, [&](const Mat &E) { B.push_back(mv1(X[0] * E, z)); }); break;
        case SPHERETX: B = root->normals(rootv); B.push_back(x); break;
        case SPD: for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Mat E(n, n); E(i, j) = 1; E(j, i) = -1; B.push_back(mv1(E, false)); } break;
        case SYM:
            for (int i = 0; i < p; i++) for (int j = i; j < p; j++) for (int c = 0; c < (z ? 2 : 1); c++) {
                if (i == j && c == 0) continue;
                Mat E(p, p); E(i, j) = c ? cd(0, 1) : cd(1, 0); E(j, i) = -std::conj(E(i, j)); B.push_back(mv1(X[0] * E, z)); }
            break;
        case FRE: {
            /* complements of the column and row spaces */
            auto comp = [&](const Mat &A, int k) { /* orthonormal complement of range(A), A is a x b of rank p */
                Mat AA = A * H(A); std::vector<double> w; Mat U; eigh(AA, w, U);
                Mat C(A.r, k); for (int j = 0; j < k; j++) for (int i = 0; i < A.r; i++) C(i, j) = U(i, j); return C; };
            Mat Uc = comp(X[0], m - p), Wc = comp(H(X[0]), n - p);
            for (int i = 0; i < m - p; i++) for (int j = 0; j < n - p; j++) { Mat E(m - p, n - p); E(i, j) = 1; B.push_back(mv1(Uc * E * H(Wc), false)); }
            break; }
        case F2: each(p, p, z, [&](const Mat &L) { V v; mv(X[0] * L, z, v); mv(cd(-1) * (X[1] * H(L)), z, v); B.push_back(v); }); break;
        }
        return B;
    }
    /* the metric in which the library's projection is orthogonal */
    double pm(const V &x, const V &a, const V &b) const {
        if (kind == SPHERETX) return root->g(rootv, a, b);
        if (kind == SYM && metric != 2) { auto X = split(x), A = split(a), Bm = split(b); return dot(A[0] * (H(X[0]) * X[0]), Bm[0]); }
        if (kind == F2) { auto X = split(x), A = split(a), Bm = split(b); return dot(A[0] * (H(X[1]) * X[1]), Bm[0]) + dot(A[1] * (H(X[0]) * X[0]), Bm[1]); }
        return vdot(a, b);
    }
    V project(const V &x, const V &v) const {
        auto B = normals(x);
        int k = B.size();
        if (!k) return v;
        Mat G(k, k), R(k, 1);
        for (int i = 0; i < k; i++) { R(i, 0) = pm(x, B[i], v); for (int j = 0; j <= i; j++) { G(i, j) = pm(x, B[i], B[j]); G(j, i) = G(i, j); } }
        Mat c = solve(G, R);
        V w = v;
        for (int i = 0; i < k; i++) w = vadd(w, -c(i, 0).real(), B[i]);
        return w;
    }
    /* the Riemannian metric on ambient representations */
    double g(const V &x, const V &a, const V &b) const {
        auto X = split(x), A = split(a), Bm = split(b);
        switch (kind) {
        case SPHERETX: return root->g(rootv, a, b);
        case SPD: if (metric == 0) return dot(solve(X[0], A[0]), H(solve(X[0], Bm[0]))); return vdot(a, b);
        case SYM:
            if (metric == 2) return vdot(a, b);
            if (metric == 1) return dot(A[0] * (H(X[0]) * X[0]), Bm[0]);
            return dot(X[0] * H(A[0]) + A[0] * H(X[0]), X[0] * H(Bm[0]) + Bm[0] * H(X[0]));
        case F2: return dot(A[0] * H(X[1]) + X[0] * H(A[1]), Bm[0] * H(X[1]) + X[0] * H(Bm[1]));
        default: return vdot(a, b);
        }
    }
    double gn(const V &x, const V &a) const { return std::sqrt(std::max(0.0, g(x, a, a))); }
    /* invariant of the class of x, its first derivative along a and its mixed second derivative */
    Mat embed(const V &x) const {
        auto X = split(x);
        switch (kind) {
        case GRASS: case SYM: return X[0] * H(X[0]);
        case F2: return X[0] * H(X[1]);
        default: return X[0];
        }
    }
    Mat dembed(const V &x, const V &a) const {
        auto X = split(x), A = split(a);
        switch (kind) {
        case GRASS: case SYM: return X[0] * H(A[0]) + A[0] * H(X[0]);
        case F2: return X[0] * H(A[1]) + A[0] * H(X[1]);
        default: return A[0];
        }
    }
    Mat ddembed(const V &, const V &a, const V &b) const {
        auto A = split(a), Bm = split(b);
        switch (kind) {
        case GRASS: case SYM: return A[0] * H(Bm[0]) + Bm[0] * H(A[0]);
        case F2: return A[0] * H(Bm[1]) + Bm[0] * H(A[1]);
        default: return Mat(A[0].r, A[0].c);
        }
    }
    /* transpose of dembed: ambient gradient W of phi -> gradient in coordinates */
    V adembed(const V &x, const Mat &W) const {
        auto X = split(x);
        switch (kind) {
        case GRASS: case SYM: return mv1((W + H(W)) * X[0], z);
        case F2: { V v; mv(W * X[1], z, v); mv(H(W) * X[0], z, v); return v; }
        case SPD: return mv1(sym(W), false);
        default: return mv1(W, z);
        }
    }
    V adembedvec(const V &a, const Mat &W) const { return adembed(a, W); } /* bilinear in (x, W) except SPD/linear kinds */
    bool linembed() const { return !(kind == GRASS || kind == SYM || kind == F2); }

    /* ---- library elements ---- */
    Variable elem(const V &x) const {
        Variable e(M->GetEMPTYEXTR());
        e.NewMemoryOnWrite();
        double *q = e.ObtainWriteEntireData();
        std::copy(x.begin(), x.end(), q);
        if (kind == FRE) {
            /* factors of x, as every FixedRankE point carries */
            Mat X = vm(x, 0, m, n, false);
            std::vector<double> w; Mat U; eigh(X * H(X), w, U);
            Mat Up(m, p); for (int j = 0; j < p; j++) for (int i = 0; i < m; i++) Up(i, j) = U(i, m - 1 - j);
            Mat Wp = orth(H(X) * Up);
            e.AddToFields("U", fromMat(Up, false));
            e.AddToFields("D", fromMat(H(Up) * X * Wp, false));
            e.AddToFields("V", fromMat(Wp, false));
        }
        return e;
    }
    /* tangent vector in the representation in use, from ambient coordinates of a tangent vector */
    Vector ext(const Variable &x, const V &a) const {
        Vector e(M->GetEMPTYEXTR());
        e.NewMemoryOnWrite();
        double *q = e.ObtainWriteEntireData();
        std::copy(a.begin(), a.end(), q);
        if (kind == FRE) M->ExtrProjection(x, e, &e);
        if (kind == SPHERETX && root->kind == FRE) root->M->ExtrProjection(root->elem(rootv), e, &e);
        return e;
    }
    Vector vec(const Variable &x, const V &a) const {
        Vector e = ext(x, a);
        if (!intr) return e;
        Vector i(M->GetEMPTYINTR());
        M->ObtainIntr(x, e, &i);
        return i;
    }
    V out(const Variable &x, const Vector &a) const {
        if (!intr) return raw(a);
        Vector e(M->GetEMPTYEXTR());
        M->ObtainExtr(x, a, &e);
        return raw(e);
    }
    V tangent(SplitMix &r, const V &x) const {
        V a(extr()); for (auto &t : a) t = r.normal();
        return project(x, a);
    }
    /* tangent vector of the given metric length; 0 gives the zero vector */
    V tangent(SplitMix &r, const V &x, double len) const {
        V a = tangent(r, x);
        double s = gn(x, a);
        if (s < 1e-12) return vscale(0, a);
        return vscale(len / s, a);
    }
    /* a length scale of the point: coordinates of this size are normal */
    double scale(const V &x) const { return 1 + vnrm(x); }
};
typedef std::shared_ptr<Conf> CP;

struct Want {
    int maxn = 7;
    bool complex = true, spheretx = true;
    int kind = -1;
    bool allowHHR = true;
    int z = -1;               /* 0 real, 1 complex */
    int m = -1, n = -1, p = -1; /* prescribed sizes */
};

inline CP makeConf(Gen &g, Want w = Want()) {
    CP c = std::make_shared<Conf>();
    static const std::vector<int> kinds = {STIE, STIE, STIE, GRASS, SYM, SYM, F2, SPD, SPHERE, EUC, FRE, SPHERETX};
    c->kind = w.kind >= 0 ? w.kind : g.pick(kinds);
    if (c->kind == SPHERETX && !w.spheretx) c->kind = STIE;
    bool mayz = c->kind == STIE || c->kind == SYM || c->kind == F2 || c->kind == EUC;
    c->z = w.z >= 0 ? w.z == 1 : mayz && w.complex && g.chance(1, 2);
    Manifold *M = nullptr;
    std::ostringstream nm;
    int big = w.maxn;
    if (big == 7 && g.chance(1, 50)) big = g.chance(1, 12) ? 20 : 11;
    auto fix = [&]() { if (w.m > 0) c->m = w.m; if (w.n > 0) c->n = w.n; if (w.p > 0) c->p = w.p; };
    auto dims = [&](int lo, bool strict) { c->p = g.integer(lo, std::max(lo, big / 2)); c->n = g.integer(c->p + (strict ? 1 : 0), std::max(c->p + (strict ? 1 : 0), big)); };
    switch (c->kind) {
    case EUC:
        c->n = g.integer(1, big); c->p = g.integer(1, 3); fix();
        M = c->z ? new ROPTLIB::Euclidean(c->n, c->p, "complex") : new ROPTLIB::Euclidean(c->n, c->p);
        nm << (c->z ? "CEuclidean" : "Euclidean");
        break;
    case SPHERE: {
        c->n = g.integer(2, big); fix(); c->p = 1;
        ROPTLIB::Sphere *S = new ROPTLIB::Sphere(c->n); M = S;
        c->pset = g.integer(1, 4);
        if (c->pset == 1) S->ChooseParamsSet1(); else if (c->pset == 2) S->ChooseParamsSet2(); else if (c->pset == 3) S->ChooseParamsSet3(); else S->ChooseParamsSet4();
        c->intr = c->pset == 1; c->partr = c->pset > 1;
        nm << "Sphere"; break; }
    case STIE: {
        if (g.chance(1, 6)) { c->p = g.integer(1, 3); c->n = c->p; if (c->n == 1 && !c->z) c->n = 2; } else dims(1, true);
        fix();
        c->pset = g.integer(1, c->z ? 4 : 5);
        if (c->z) { ROPTLIB::CStiefel *S = new ROPTLIB::CStiefel(c->n, c->p); M = S;
            switch (c->pset) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; default: S->ChooseParamsSet4(); } }
        else { ROPTLIB::Stiefel *S = new ROPTLIB::Stiefel(c->n, c->p); M = S;
            switch (c->pset) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; default: S->ChooseParamsSet5(); } }
        c->intr = c->pset == 1 || c->pset == 3; c->proj = c->pset == 2 || c->pset == 4; c->polar = c->pset == 3 || c->pset == 4; c->cayley = c->pset == 5;
        nm << (c->z ? "CStiefel" : "Stiefel"); break; }
    case GRASS:
        dims(1, true); fix(); M = new ROPTLIB::Grassmann(c->n, c->p); c->intr = true; nm << "Grassmann"; break;
    case SPD: {
        c->n = g.integer(1, big > 7 ? 9 : std::min(big, 5)); fix(); c->p = c->n;
        ROPTLIB::SPDManifold *S = new ROPTLIB::SPDManifold(c->n); M = S;
        c->pset = g.integer(1, 4);
        switch (c->pset) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; default: S->ChooseParamsSet4(); }
        c->metric = (c->pset == 1 || c->pset == 3) ? 0 : 1; c->intr = c->pset <= 2; c->spdexp = c->partr = c->pset > 2;
        nm << "SPD"; break; }
    case SYM: {
        c->p = g.integer(1, std::max(1, big / 2)); c->n = g.integer(2 * c->p, std::max(2 * c->p, big)); fix();
        c->pset = g.integer(1, c->z ? 4 : 6);
        if (c->z) { ROPTLIB::CSymFixedRankQ *S = new ROPTLIB::CSymFixedRankQ(c->n, c->p); M = S;
            switch (c->pset) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; default: S->ChooseParamsSet4(); }
            c->metric = (c->pset - 1) % 2; c->proj = c->pset > 2; }
        else { ROPTLIB::SymFixedRankQ *S = new ROPTLIB::SymFixedRankQ(c->n, c->p); M = S;
            switch (c->pset) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; case 5: S->ChooseParamsSet5(); break; default: S->ChooseParamsSet6(); }
            c->metric = (c->pset - 1) % 3; c->proj = c->pset > 3; }
        c->intr = true;
        nm << (c->z ? "CSymFixedRankQ" : "SymFixedRankQ"); break; }
    case FRE:
        c->p = g.integer(1, 3); c->m = g.integer(c->p, std::max(c->p, big)); c->n = g.integer(c->p, std::max(c->p, big)); fix();
        M = new ROPTLIB::FixedRankE(c->m, c->n, c->p); c->intr = false; nm << "FixedRankE"; break;
    case F2:
        c->p = g.integer(1, std::max(1, big / 2)); c->m = g.integer(c->p, std::max(c->p, big)); c->n = g.integer(c->p, std::max(c->p, big)); fix();
        if (c->z) M = new ROPTLIB::CFixedRankQ2F(c->m, c->n, c->p); else M = new ROPTLIB::FixedRankQ2F(c->m, c->n, c->p);
        c->intr = true; nm << (c->z ? "CFixedRankQ2F" : "FixedRankQ2F"); break;
    case SPHERETX: {
        Want w2 = w; w2.spheretx = false; w2.allowHHR = false; w2.complex = false;
        static const std::vector<int> rk = {STIE, GRASS, SPHERE, EUC};
        w2.kind = g.pick(rk);
        c->root = makeConf(g, w2);
        if (c->root->dim() < 2) throw Discard();
        c->root->M->SetIsIntrApproach(false); c->root->intr = false;
        SplitMix r = g.data();
        c->rootv = c->root->point(r, 0);
        c->z = c->root->z; c->n = c->root->n; c->p = c->root->p; c->m = c->root->m; c->pset = 1;
        Variable rt = c->root->elem(c->rootv);
        M = new ROPTLIB::SphereTx(c->root->M, &rt);
        nm << "SphereTx of " << c->root->name; break; }
    }
    c->own.reset(M); c->M = M;
    nm << "(";
    if (c->kind == F2 || c->kind == FRE) nm << c->m << "," << c->n << "," << c->p; else if (c->kind == SPD || c->kind == SPHERE) nm << c->n; else nm << c->n << "," << c->p;
    nm << ") set " << c->pset;
    /* representation */
    bool canSwitch = (c->kind == STIE && !c->cayley) || c->kind == GRASS || c->kind == SPD || c->kind == SYM || c->kind == F2;
    if (canSwitch && g.chance(1, 3)) { c->intr = !c->intr; M->SetIsIntrApproach(c->intr); }
    nm << (c->intr ? " intr" : " extr");
    bool canHHR = !(c->kind == SPHERETX) && !(c->partr) && !c->cayley && !(c->kind == EUC);
    if (w.allowHHR && canHHR && g.chance(1, 4)) { c->hhr = true; M->SetHasHHR(true); nm << " locking"; }
    c->name = nm.str();
    return c;
}
} // namespace vp
#endif
