/* Instances of every shipped problem with the documented objective written out independently. */
#ifndef VP_PROBS_H
#define VP_PROBS_H
#include "manihelp.h"
#include "Others/SparseMatrix.h"
#include "Problems/EucQuadratic.h"
#include "Problems/StieBrockett.h"
#include "Problems/CStieBrockett.h"
#include "Problems/GrassRQ.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/StieSPCA.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/SphereConvexHull.h"
#undef max
#undef min
#undef abs

namespace vp {
enum PKind { PEUC, PSTIE, PCSTIE, PGRASS, PPROD, PSPD, PLYAP, PSPARSE, PTX, PSPCA, PFSPARSE, PFWEIGHT, PMC, PBLIND, PPHASE, PHULL, NPROB };

struct Inst {
    int kind = 0;
    std::string name;
    std::shared_ptr<ROPTLIB::Problem> P;
    Manifold *M = nullptr;
    CP c;                                  /* the manifold, unless it is a product built here */
    std::vector<CP> parts;                 /* factors of the product */
    std::vector<std::shared_ptr<void>> keep;
    std::function<double(const V &)> f;    /* documented objective, any ambient coordinates */
    std::function<double(const V &)> fs;   /* the part EucGrad differentiates, if it is not all of f */
    bool symdir = false;                   /* only symmetric directions are meaningful */
    bool hess = true;
    double lambda = 0;
    double opt = NAN;                      /* minimum of f over the manifold when known */
    double curv = 1;                       /* size of the second derivative */

    template <class T> T *hold(T *t) { keep.push_back(std::shared_ptr<T>(t)); return t; }
    V point(SplitMix &r, int style) const {
        if (c) return c->point(r, style);
        V x; for (auto &k : parts) { V y = k->point(r, style); x.insert(x.end(), y.begin(), y.end()); } return x;
    }
    /* a feasible point; well conditioned ones come from style 0 */
    Variable elem(const V &x) const {
        if (c) return c->elem(x);
        Variable e(M->GetEMPTYEXTR()); e.NewMemoryOnWrite();
        size_t o = 0; int j = 0;
        for (auto &k : parts) { V y(x.begin() + o, x.begin() + o + k->extr()); o += k->extr(); e.GetElement(j++) = k->elem(y); }
        return e;
    }
    /* the same kind of element with any coordinates */
    Vector amb(const V &v) const { Vector e(M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; }
    V tangent(SplitMix &r, const V &x, double len) const {
        if (c) return c->tangent(r, x, len);
        V a; size_t o = 0;
        for (auto &k : parts) { V y(x.begin() + o, x.begin() + o + k->extr()); o += k->extr(); V t = k->tangent(r, y, len / std::sqrt((double) parts.size())); a.insert(a.end(), t.begin(), t.end()); }
        return a;
    }
    /* tangent vector as an element in the extrinsic representation */
    Vector ext(const Variable &x, const V &a) const {
        if (c) return c->ext(x, a);
        return amb(a);
    }
    /* tangent vector in the representation in use */
    Vector vec(const Variable &x, const V &a) const {
        if (c) return c->vec(x, a);
        Vector e = amb(a);
        if (!M->GetIsIntrinsic()) return e;
        Vector r(M->GetEMPTYINTR()); M->ObtainIntr(x, e, &r); return r;
    }
    int dim() const { if (c) return c->dim(); int s = 0; for (auto &k : parts) s += k->dim(); return s; }
};

inline Mat spdMat(SplitMix &r, int n, bool z, double lo, double hi) { /* spectrum inside [lo, hi] */
    Mat Q = orth(randMat(r, n, n, z)), D(n, n);
    for (int i = 0; i < n; i++) D(i, i) = lo + (hi - lo) * r.unif();
    return sym(Q * D * H(Q));
}
inline Mat hermMat(SplitMix &r, int n, bool z) { return sym(randMat(r, n, n, z)); }
/* eigenvalues with gaps */
inline Mat gapMat(SplitMix &r, int n, bool z, std::vector<double> &w, double shift) {
    Mat Q = orth(randMat(r, n, n, z)), D(n, n); w.assign(n, 0);
    double v = shift;
    for (int i = 0; i < n; i++) { v += 0.4 + r.unif(); w[i] = v; D(i, i) = v; }
    return sym(Q * D * H(Q));
}
inline Mat dftRef(const Mat &A, int sgn) {
    Mat F(A.r, A.c); const double tp = 6.283185307179586476925;
    for (int p = 0; p < A.r; p++) for (int q = 0; q < A.c; q++) { cd s = 0; for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) s += A(i, j) * std::polar(1.0, sgn * tp * ((double) (p * i % A.r) / A.r + (double) (q * j % A.c) / A.c)); F(p, q) = s; }
    return F;
}
inline void invHaarRef(Mat &A) { /* columns */
    int n = A.r, top = 1; while (2 * top <= n) top *= 2;
    for (int j = 0; j < A.c; j++) for (int k = 2; k <= top; k *= 2) {
        std::vector<cd> t(k); for (int i = 0; i < k / 2; i++) { t[2 * i] = (A(i, j) + A(k / 2 + i, j)) / std::sqrt(2.0); t[2 * i + 1] = (A(i, j) - A(k / 2 + i, j)) / std::sqrt(2.0); }
        for (int i = 0; i < k; i++) A(i, j) = t[i];
    }
}
struct SparseHold { std::vector<integer> ir, jc; V v; std::vector<realdpcomplex> z; std::shared_ptr<ROPTLIB::SparseMatrix> S; };
inline std::shared_ptr<SparseHold> sparseOf(const Mat &A, bool z) {
    auto h = std::make_shared<SparseHold>();
    for (int j = 0; j < A.c; j++) for (int i = 0; i < A.r; i++) if (std::abs(A(i, j)) > 0) { h->ir.push_back(i); h->jc.push_back(j); h->v.push_back(A(i, j).real()); realdpcomplex q; q.r = A(i, j).real(); q.i = A(i, j).imag(); h->z.push_back(q); }
    if (z) h->S = std::make_shared<ROPTLIB::SparseMatrix>(A.r, A.c, h->ir.data(), h->jc.data(), h->z.data(), (integer) h->z.size());
    else h->S = std::make_shared<ROPTLIB::SparseMatrix>(A.r, A.c, h->ir.data(), h->jc.data(), h->v.data(), (integer) h->v.size());
    return h;
}

struct PWant { int kind = -1; int maxn = 6; bool hhr = true; bool nonsmooth = true; std::vector<int> kinds; bool dflt = false; };

inline std::shared_ptr<Inst> makeProb(Gen &g, PWant w = PWant()) {
    auto I = std::make_shared<Inst>();
    Inst &q = *I;
    if (w.maxn == 6 && g.chance(1, 50)) w.maxn = g.chance(1, 12) ? 16 : 10;
    if (w.kind >= 0) q.kind = w.kind; else if (!w.kinds.empty()) q.kind = g.pick(w.kinds); else q.kind = g.integer(0, NPROB - 1);
    Want k; k.maxn = w.maxn; k.allowHHR = w.hhr; k.complex = false; k.z = 0;
    std::ostringstream nm;
    auto use = [&](int kind) { k.kind = kind; q.c = makeConf(g, k); q.M = q.c->M; };
    switch (q.kind) {
    case PEUC: {
        use(EUC); SplitMix r = g.data(); int n = q.c->n, p = q.c->p;
        Mat A = spdMat(r, n, false, 0.3, 5); q.P = std::make_shared<ROPTLIB::EucQuadratic>(fromMat(A, false)); q.opt = 0; q.curv = 5;
        q.f = [=](const V &x) { Mat X = vm(x, 0, n, p, false); return 0.5 * dot(X, A * X); }; nm << "EucQuadratic"; break; }
    case PSTIE: case PCSTIE: {
        bool z = q.kind == PCSTIE; k.z = z; use(STIE); SplitMix r = g.data(); int n = q.c->n, p = q.c->p;
        std::vector<double> ev; Mat B = gapMat(r, n, z, ev, g.boolean() ? -3 : 0.2), D(p, 1), Dm(p, p);
        double d = 0.3; for (int i = p - 1; i >= 0; i--) { d += 0.3 + r.unif(); D(i, 0) = Dm(i, i) = d; }
        q.opt = 0; for (int i = 0; i < p; i++) q.opt += D(i, 0).real() * ev[i]; /* decreasing weights against increasing eigenvalues */
        if (z) q.P = std::make_shared<ROPTLIB::CStieBrockett>(fromMat(B, true), fromMat(D, true)); else q.P = std::make_shared<ROPTLIB::StieBrockett>(fromMat(B, false), fromMat(D, false));
        q.curv = 2 * nrm(B) * d;
        q.f = [=](const V &x) { Mat X = vm(x, 0, n, p, z); return dot(X, B * X * Dm); }; nm << (z ? "CStieBrockett" : "StieBrockett"); break; }
    case PGRASS: {
        use(GRASS); SplitMix r = g.data(); int n = q.c->n, p = q.c->p; std::vector<double> ev; Mat B = gapMat(r, n, false, ev, g.boolean() ? -3 : 0.2);
        q.opt = 0; for (int i = 0; i < p; i++) q.opt += ev[i] / 2; q.curv = nrm(B);
        q.P = std::make_shared<ROPTLIB::GrassRQ>(fromMat(B, false), n, p);
        q.f = [=](const V &x) { Mat X = vm(x, 0, n, p, false); return 0.5 * dot(X, B * X); }; nm << "GrassRQ"; break; }
    case PPROD: {
        k.kind = STIE; CP a = makeConf(g, k), b = makeConf(g, k); SplitMix r = g.data(); int n = a->n, p = a->p, m = b->n, s = b->p;
        q.parts = {a, a, b};
        auto M = std::make_shared<ROPTLIB::MultiManifolds>(2, a->M, 2, b->M, 1); q.keep.push_back(M); q.M = M.get();
        Mat B[3], D[3], Dv[3]; q.opt = 0;
        for (int i = 0; i < 3; i++) { std::vector<double> ev; int nn = i < 2 ? n : m, pp = i < 2 ? p : s; B[i] = gapMat(r, nn, false, ev, i == 1 ? -2 : 0.2); D[i] = Mat(pp, pp); Dv[i] = Mat(pp, 1); double d = 0.2; for (int j = pp - 1; j >= 0; j--) { d += 0.3 + r.unif(); D[i](j, j) = Dv[i](j, 0) = d; } for (int j = 0; j < pp; j++) q.opt += Dv[i](j, 0).real() * ev[j]; q.curv = std::max(q.curv, 2 * nrm(B[i]) * d); }
        q.P = std::make_shared<ROPTLIB::ProdStieSumBrockett>(fromMat(B[0], false), fromMat(Dv[0], false), fromMat(B[1], false), fromMat(Dv[1], false), fromMat(B[2], false), fromMat(Dv[2], false));
        Mat B0 = B[0], B1 = B[1], B2 = B[2], D0 = D[0], D1 = D[1], D2 = D[2];
        q.f = [=](const V &x) { Mat X = vm(x, 0, n, p, false), Y = vm(x, (size_t) n * p, n, p, false), Z = vm(x, 2 * (size_t) n * p, m, s, false); return dot(X, B0 * X * D0) + dot(Y, B1 * Y * D1) + dot(Z, B2 * Z * D2); };
        nm << "ProdStieSumBrockett on " << a->name << "^2 x " << b->name; break; }
    case PSPD: {
        use(SPD); SplitMix r = g.data(); int n = q.c->n, num = g.integer(1, 4); q.symdir = true;
        bool comm = g.chance(1, 3); Mat Q = orth(randMat(r, n, n, false)); std::vector<double> lm(n, 0.0);
        Vector L1(n, n), Ls(1, &L1, num); Ls.NewMemoryOnWrite(); std::vector<Mat> Li;
        std::vector<std::vector<double>> lg;
        for (int i = 0; i < num; i++) {
            Mat A;
            if (comm) { Mat D(n, n); std::vector<double> l(n); for (int j = 0; j < n; j++) { double e = r.normal() * 0.7; l[j] = e; lm[j] += e / num; D(j, j) = std::exp(e); } lg.push_back(l); A = sym(Q * D * H(Q)); }
            else A = spdMat(r, n, false, 0.3, 4);
            Mat L(n, n); for (int j = 0; j < n; j++) { double s = A(j, j).real(); for (int t = 0; t < j; t++) s -= std::norm(L(j, t)); L(j, j) = std::sqrt(s); for (int i2 = j + 1; i2 < n; i2++) { cd u = A(i2, j); for (int t = 0; t < j; t++) u -= L(i2, t) * std::conj(L(j, t)); L(i2, j) = u / L(j, j); } }
            Ls.GetElement(i) = fromMat(L, false); Li.push_back(inv(L));
        }
        if (comm) { q.opt = 0; for (auto &l : lg) for (int j = 0; j < n; j++) q.opt += (l[j] - lm[j]) * (l[j] - lm[j]); q.opt /= 2 * num; }
        q.P = std::make_shared<ROPTLIB::SPDKarcherMean>(Ls, n, num); q.curv = 10;
        q.f = [=](const V &x) { Mat X = sym(vm(x, 0, n, n, false)); double s = 0; for (auto &B : Li) { std::vector<double> ev; Mat U; eigh(sym(B * X * H(B)), ev, U); for (double e : ev) s += std::log(e) * std::log(e); } return s / (2 * num); };
        nm << "SPDKarcherMean(" << num << (comm ? ",commuting" : "") << ")"; break; }
    case PLYAP: {
        use(SYM); SplitMix r = g.data(); int n = q.c->n, p = q.c->p, cp = g.integer(1, 3);
        auto tri = [&]() { Mat A(n, n); for (int i = 0; i < n; i++) { A(i, i) = 1.5 + r.unif(); if (i) A(i, i - 1) = A(i - 1, i) = 0.7 * (r.unif() - 0.5); } return A; };
        Mat A = tri(), B = tri(), C = randMat(r, n, cp, false);
        auto ha = sparseOf(A, false), hb = sparseOf(B, false); q.keep.push_back(ha); q.keep.push_back(hb);
        q.P = std::make_shared<ROPTLIB::SFRQLyapunov>(*ha->S, *hb->S, fromMat(C, false), p); q.curv = 10 + 2 * nrm(C) * nrm(C);
        q.f = [=](const V &x) { Mat Y = vm(x, 0, n, p, false), S = Y * H(Y); return (trace(S * A * S * B) - trace(S * C * H(C))).real(); }; nm << "SFRQLyapunov"; break; }
    case PSPARSE: {
        use(SPHERE); SplitMix r = g.data(); int n = q.c->n, m = n + g.integer(0, 4); Mat Q = randMat(r, m, n, false);
        q.P = std::make_shared<ROPTLIB::SphereSparsestVector>(fromMat(Q, false)); q.curv = 0;
        q.f = [=](const V &x) { Mat y = Q * vm(x, 0, n, 1, false); double s = 0; for (auto &e : y.a) s += std::fabs(e.real()); return s; }; nm << "SphereSparsestVector"; break; }
    case PTX: {
        use(SPHERETX); SplitMix r = g.data(); Conf &R = *q.c->root; int n = R.n, p = R.p; Mat B; std::shared_ptr<ROPTLIB::Problem> in;
        std::vector<double> ev; B = gapMat(r, n, false, ev, -1);
        if (R.kind == STIE) { Mat D(p, 1); for (int i = 0; i < p; i++) D(i, 0) = 0.5 + p - i + 0.3 * r.unif(); in = std::make_shared<ROPTLIB::StieBrockett>(fromMat(B, false), fromMat(D, false)); }
        else if (R.kind == EUC) in = std::make_shared<ROPTLIB::EucQuadratic>(fromMat(B, false));
        else in = std::make_shared<ROPTLIB::GrassRQ>(fromMat(B, false), n, p);
        in->SetDomain(R.M); q.keep.push_back(in);
        bool mn = g.boolean(); Variable rt = R.elem(q.c->rootv);
        q.P = std::make_shared<ROPTLIB::SphereTxRQ>(R.M, &rt, in.get(), mn); q.curv = 10 * nrm(B);
        auto root = std::make_shared<Variable>(R.elem(q.c->rootv)); { in->f(*root); Vector G(R.M->GetEMPTYEXTR()); in->Grad(*root, &G); }
        ROPTLIB::Problem *pr = in.get(); Manifold *RM = R.M; CP cc = q.c->root;
        q.f = [=](const V &x) { Vector a = cc->ext(*root, x), h(RM->GetEMPTYEXTR()); pr->HessianEta(*root, a, &h); return (mn ? 1 : -1) * RM->Metric(*root, a, h); }; nm << "SphereTxRQ(" << (mn ? "min" : "max") << ")"; break; }
    case PSPCA: {
        if (g.chance(1, 2)) { k.n = g.integer(2, w.maxn + 2); k.p = g.integer(1, k.n - 1); }
        use(STIE); SplitMix r = g.data(); int n = q.c->n, p = q.c->p, m = g.integer(1, n); Mat B = randMat(r, m, n, false);
        q.lambda = g.pick(std::vector<double>{0.5, 0.01, 2}); int lw = g.pick(std::vector<int>{1, p, n * p});
        q.P = std::make_shared<ROPTLIB::StieSPCA>(fromMat(B, false), q.lambda, n, m, p, lw); q.curv = 2 * nrm(B) * nrm(B);
        double la = q.lambda;
        q.fs = [=](const V &x) { Mat y = B * vm(x, 0, n, p, false); return -dot(y, y); };
        q.f = [=](const V &x) { Mat y = B * vm(x, 0, n, p, false); double s = -dot(y, y); for (double e : x) s += la * std::fabs(e); return s; }; nm << "StieSPCA"; break; }
    case PFSPARSE: {
        use(FRE); SplitMix r = g.data(); int m = q.c->m, n = q.c->n; Mat A = randMat(r, m, n, false); q.lambda = g.pick(std::vector<double>{0.5, 0.01, 2}); double la = q.lambda;
        q.P = std::make_shared<ROPTLIB::FRankESparseApprox>(fromMat(A, false), la, m, n, q.c->p, 1); q.curv = 2;
        q.fs = [=](const V &x) { Mat d = vm(x, 0, m, n, false) - A; return dot(d, d); };
        q.f = [=](const V &x) { Mat d = vm(x, 0, m, n, false) - A; double s = dot(d, d); for (double e : x) s += la * std::fabs(e); return s; }; nm << "FRankESparseApprox"; break; }
    case PFWEIGHT: {
        use(FRE); SplitMix r = g.data(); int m = q.c->m, n = q.c->n; bool id = g.chance(1, 3); Mat A = randMat(r, m, n, false), W = id ? Mat::eye(m * n) : spdMat(r, m * n, false, 0.5, 3);
        if (id) { auto s = svals(A); q.opt = 0; for (int i = q.c->p; i < (int) s.size(); i++) q.opt += s[i] * s[i]; }
        q.P = std::make_shared<ROPTLIB::FRankEWeightApprox>(fromMat(A, false), fromMat(W, false), m, n, q.c->p); q.curv = 6;
        q.f = [=](const V &x) { Mat d = vm(x, 0, m, n, false) - A; Mat v(m * n, 1); v.a = d.a; return dot(v, W * v); }; nm << "FRankEWeightApprox" << (id ? "(identity)" : ""); break; }
    case PMC: {
        use(F2); SplitMix r = g.data(); int m = q.c->m, n = q.c->n, p = q.c->p; Mat G = randMat(r, m, p, false), Hh = randMat(r, n, p, false), T = G * H(Hh), Om(m, n);
        bool exact = g.boolean();
        for (auto &e : Om.a) e = r.unif() < 0.75 ? 1 : 0; Om(0, 0) = 1;
        struct MCData { std::vector<integer> ir, jc; V v; }; auto h = std::make_shared<MCData>(); q.keep.push_back(h);
        Mat Vv(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (Om(i, j).real() > 0) { double v = T(i, j).real() + (exact ? 0 : 0.3 * r.normal()); h->ir.push_back(i); h->jc.push_back(j); h->v.push_back(v); Vv(i, j) = v; }
        if (exact) q.opt = 0;
        q.P = std::make_shared<ROPTLIB::FRankQ2FMatCompletion>(h->ir.data(), h->jc.data(), h->v.data(), (integer) h->v.size(), m, n, p); q.curv = 10;
        q.f = [=](const V &x) { Mat a = vm(x, 0, m, p, false), b = vm(x, (size_t) m * p, n, p, false), X = a * H(b); double s = 0; for (size_t i = 0; i < X.a.size(); i++) if (Om.a[i].real() > 0) s += std::norm(X.a[i] - Vv.a[i]); return s / 2; }; nm << "FRankQ2FMatCompletion"; break; }
    case PBLIND: {
        static const std::vector<std::pair<int, int>> sz = {{2, 2}, {1, 2}, {2, 1}, {4, 1}, {2, 4}, {4, 2}};
        auto d = g.pick(sz); int n1 = d.first, n2 = d.second, L = n1 * n2; k.m = k.n = L; k.p = 1; k.z = 1; k.allowHHR = false; use(F2); SplitMix r = g.data();
        bool zb = g.chance(1, 3);
        auto sp = [&]() { Mat A(L, L); for (int i = 0; i < L; i++) A(i, i) = zb ? cd(r.normal(), r.normal()) : cd(r.unif() < 0.8 ? 1 : 0); A(0, 0) = 1; if (zb && L > 1) A(0, L - 1) = cd(0.3, -0.5); return A; };
        Mat B = sp(), C = sp(), y = randMat(r, L, 1, true); double rho = g.pick(std::vector<double>{0, 0.2, 1}), dd = g.pick(std::vector<double>{1, 0.5}), mu = g.pick(std::vector<double>{1, 0.7});
        auto hb = sparseOf(B, true), hc = sparseOf(C, true); q.keep.push_back(hb); q.keep.push_back(hc);
        q.P = std::make_shared<ROPTLIB::CFRankQ2FBlindDecon2D>(fromMat(y, true), *hb->S, *hc->S, n1, n2, 1, rho, dd, mu); q.hess = rho == 0; q.curv = 40 * L * L;
        q.f = [=](const V &x) {
            Mat h = vm(x, 0, L, 1, true), m = vm(x, 2 * L, L, 1, true), b = B * h, c = C * m; invHaarRef(c);
            Mat b2(n1, n2), c2(n1, n2); b2.a = b.a; c2.a = c.a; b2 = dftRef(b2, -1); c2 = dftRef(c2, 1);
            double s = 0, mm = nrm(m); for (int i = 0; i < L; i++) { s += std::norm(y.a[i] - b2.a[i] * std::conj(c2.a[i])); double t = L * std::norm(b2.a[i]) * mm * mm / (8 * dd * dd * mu * mu) - 1; if (t > 0) s += rho * t * t; }
            return s; }; nm << "CFRankQ2FBlindDecon2D(" << n1 << "x" << n2 << ",rho " << rho << ")"; break; }
    case PPHASE: {
        static const std::vector<std::pair<int, int>> sz = {{2, 2}, {1, 3}, {3, 2}, {2, 1}, {1, 2}};
        auto d = g.pick(sz); int n1 = d.first, n2 = d.second, n = n1 * n2; int l = g.integer(1, 4); k.n = n; k.p = n >= 4 ? g.integer(1, 2) : 1; k.z = 1; use(SYM); SplitMix r = g.data(); int p = k.p;
        Mat Mk = randMat(r, n, l, true), b(n * l, 1), X0 = randMat(r, n, p, true); double kap = g.pick(std::vector<double>{0, 0.1, 1}); double sq = std::sqrt((double) n);
        auto Z = [=](const Mat &X, int i, int j) { Mat t(n1, n2); for (int a = 0; a < n; a++) t.a[a] = Mk(a, i) * X(a, j) / sq; return dftRef(t, -1); };
        bool exact = g.boolean(); for (int i = 0; i < l; i++) for (int j = 0; j < p; j++) { Mat t = Z(X0, i, j); for (int a = 0; a < n; a++) b(i * n + a, 0) += exact ? std::norm(t.a[a]) : std::norm(t.a[a]) + 0.3 * r.unif(); }
        q.P = std::make_shared<ROPTLIB::CSFRQPhaseRetrieval>(fromMat(b, false), fromMat(Mk, true), kap, n1, n2, l, p); q.curv = 10; if (exact && kap == 0) q.opt = 0;
        double bb = dot(b, b);
        q.f = [=](const V &x) { Mat X = vm(x, 0, n, p, true), e = cd(-1) * b; for (int i = 0; i < l; i++) for (int j = 0; j < p; j++) { Mat t = Z(X, i, j); for (int a = 0; a < n; a++) e(i * n + a, 0) += std::norm(t.a[a]); } return dot(e, e) / bb + kap * dot(X, X); };
        nm << "CSFRQPhaseRetrieval(" << n1 << "x" << n2 << "," << l << ")"; break; }
    case PHULL: {
        use(SPHERE); SplitMix r = g.data(); int lw = q.c->n, d = g.integer(1, 5);
        struct WS { std::vector<Vector> w; }; auto h = std::make_shared<WS>(); q.keep.push_back(h); Mat W(d, lw);
        for (int i = 0; i < lw; i++) { Mat a = randMat(r, d, 1, false); for (int j = 0; j < d; j++) W(j, i) = a(j, 0); h->w.push_back(fromMat(a, false)); }
        q.P = std::make_shared<ROPTLIB::SphereConvexHull>(q.M, h->w.data(), lw, nullptr, nullptr); q.curv = 12 * nrm(W) * nrm(W);
        q.f = [=](const V &x) { Mat s(lw, 1); for (int i = 0; i < lw; i++) s(i, 0) = x[i] * x[i]; Mat y = W * s; return dot(y, y); }; nm << "SphereConvexHull"; break; }
    }
    q.P->SetDomain(q.M);
    if (q.c) nm << " on " << q.c->name;
    q.name = nm.str();
    g.addNote(q.name + " ");
    g.label(q.name.substr(0, q.name.find_first_of("( ")));
    return I;
}
} // namespace vp
#endif
