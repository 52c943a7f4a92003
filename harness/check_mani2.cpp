/* C08 differentiated retractions, cotangent vectors, step ratios; C09 vector and operator transports */
#include "manihelp.h"
using namespace vp;

namespace {
Variable retr(const Conf &c, const Variable &X, const V &a) {
    Variable Y(X);
    c.M->Retraction(X, c.vec(X, a), &Y);
    return Y;
}
/* rate of change of the retracted point when the step changes along b, its horizontal part at y */
V fdRetr(const Conf &c, const V &x, const V &a, const V &b, const V &y) {
    double h = 2e-4;
    auto E = [&](double s) { Variable X = c.elem(x); return raw(retr(c, X, vadd(a, s, b))); };
    V p1 = E(h), m1 = E(-h), p2 = E(h / 2), m2 = E(-h / 2);
    V d = vadd(vscale(4.0 / 3 / h, vadd(p2, -1, m2)), -1.0 / 6 / h, vadd(p1, -1, m1));
    return c.project(y, d);
}
double maxLen(const Conf &c) { return c.kind == SPHERE || c.kind == SPHERETX ? 2.5 : (c.kind == SPD ? 1.2 : 3.0); }
double stepLen(Gen &g, const Conf &c, bool zero) {
    switch (g.choice(zero ? 5 : 4)) {
    case 0: return 1;
    case 1: return g.logreal(1e-3, 0.3);
    case 2: return g.real(0.3, 1);
    case 3: return g.real(1, maxLen(c));
    default: return 0;
    }
}
bool generalDR(const Conf &c) {
    switch (c.kind) {
    case STIE: return !c.polar && !c.cayley;
    case SPHERETX: case FRE: return false;
    case SPD: return !c.spdexp;
    case SYM: return !c.intr;
    default: return true;
    }
}
bool sameDirDR(const Conf &c) { return !(c.kind == SPD && c.spdexp) && !(c.kind == SYM && c.intr); }
/* transports */
enum TK { T_IDCOORD, T_PARAEXT, T_PROJ, T_PT, T_CAYLEY };
TK tkind(const Conf &c) {
    switch (c.kind) {
    case SPHERE: return c.pset == 1 ? (c.intr ? T_IDCOORD : T_PROJ) : T_PT;
    case SPHERETX: return T_PT;
    case STIE: return c.cayley ? T_CAYLEY : (c.intr ? T_IDCOORD : T_PROJ);
    case GRASS: return c.intr ? T_IDCOORD : T_PROJ;
    case SPD: return c.partr ? T_PT : (c.intr ? T_IDCOORD : T_PARAEXT);
    case SYM: return c.proj ? T_PROJ : (c.intr ? T_IDCOORD : T_PROJ);
    case F2: return c.intr ? T_IDCOORD : T_PARAEXT;
    case EUC: return T_IDCOORD;
    default: return T_PROJ;
    }
}
/* reference parallel translation */
V refPT(const Conf &c, const V &x, const V &a, const V &y, const V &b) {
    if (c.kind == SPD) {
        Mat X = vm(x, 0, c.n, c.n, false), A = vm(a, 0, c.n, c.n, false), B = vm(b, 0, c.n, c.n, false);
        Mat h = funh(X, [](double w) { return std::sqrt(w); }), hi = funh(X, [](double w) { return 1 / std::sqrt(w); });
        Mat E = h * funh(cd(0.5) * (hi * A * hi), [](double w) { return std::exp(w); }) * hi;
        return mv1(E * B * H(E), false);
    }
    V s = vadd(x, 1, y);
    auto ip = [&](const V &p, const V &q) { return c.kind == SPHERETX ? c.root->g(c.rootv, p, q) : vdot(p, q); };
    return vadd(b, -2 * ip(b, y) / ip(s, s), s);
}
struct Move { Pt t; V a; Variable Y; V y; Vector A; };
Move makeMove(Gen &g, Want w, bool zero, bool fix = true) {
    Pt t = makePt(g, w);
    const Conf &c = *t.c;
    double len = stepLen(g, c, zero);
    V a = c.tangent(t.r, t.x, len);
    if (c.kind == SPD && c.metric) a = vscale(0.3, a);
    if (!zero && vnrm(a) < 1e-9) throw Discard();
    if (!retrOK(c, t.x, a)) throw Discard();
    g.note("len", len);
    Vector A = c.vec(t.X, a);
    Variable Y(t.X);
    c.M->Retraction(t.X, A, &Y);
    V y = raw(Y);
    return Move{t, a, Y, y, A};
}
/* with the locking correction: the image of the step under the derivative of the retraction (nearly) vanishes */
V stepImage(const Conf &c, const Move &m) { return c.kind == SYM && c.intr ? c.project(m.y, m.a) : fdRetr(c, m.t.x, m.a, m.a, m.y); }
bool stationary(const Conf &c, const Move &m) { return c.hhr && c.gn(m.y, stepImage(c, m)) < 0.02 * c.gn(m.t.x, m.a); }
} // namespace

VP_CHECK("C08", differentiated_retraction, 150000, 4000000, "step and direction are linearly independent") {
    Move m = makeMove(g, Want(), true);
    const Conf &c = *m.t.c;
    if (!generalDR(c)) throw Discard();
    V b = c.tangent(m.t.r, m.t.x, g.chance(1, 6) ? 30 : 1);
    if (vnrm(b) == 0) throw Discard();
    V keep = b;
    Vector B = c.vec(m.t.X, b), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    bool alias = g.boolean();
    V rawA = raw(m.A);
    c.M->DiffRetraction(m.t.X, m.A, m.Y, B, alias ? &B : &O, false);
    V got = c.out(m.Y, alias ? B : O);
    V want = fdRetr(c, m.t.x, m.a, vscale(1 / vnrm(b), b), m.y);
    want = vscale(vnrm(b), want);
    closeV(g, got, want, vnrm(b) * (1 + vnrm(m.t.x)) + vnrm(want), 3e-6, "differentiated retraction");
    closeV(g, c.project(m.y, got), got, vnrm(got) * c.scale(m.y), 1e-8, "tangency of the differentiated retraction");
    if (vdiff(rawA, raw(m.A)) != 0 || vdiff(raw(m.t.X), m.t.x) != 0 || vdiff(raw(m.Y), m.y) != 0) g.fail("the differentiated retraction changed its inputs");
    if (vnrm(m.a) > 1e-6 && c.dim() >= 2) g.nontrivial();
}

VP_CHECK("C08", differentiated_retraction_along_the_step, 150000, 4000000, "the step is nonzero") {
    Move m = makeMove(g, Want(), false);
    const Conf &c = *m.t.c;
    if (!sameDirDR(c)) throw Discard();
    double s = g.boolean() ? 1 : g.logreal(0.1, 10);
    g.note("factor", s);
    V b = vscale(s, m.a);
    Vector B = c.vec(m.t.X, b), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    c.M->DiffRetraction(m.t.X, m.A, m.Y, B, &O, true);
    V got = c.out(m.Y, O);
    V want = fdRetr(c, m.t.x, m.a, vscale(1 / vnrm(b), b), m.y);
    want = vscale(vnrm(b), want);
    closeV(g, got, want, vnrm(b) * (1 + vnrm(m.t.x)) + vnrm(want), 3e-6, "differentiated retraction along the step");
    if (c.kind == FRE) { V z = got; g.close(c.M->Metric(m.Y, O, O), vdot(z, z), vdot(z, z), 1e-8, "metric of the differentiated retraction"); }
    double beta = c.M->Beta(m.t.X, m.A);
    if (!c.hhr) { if (beta != 1) g.fail("the step ratio is not 1 although the locking correction is off"); }
    else {
        double na = c.gn(m.t.x, m.a), nd = c.gn(m.y, want) / s;
        if (nd < 0.02 * na) throw Discard(); /* the retraction is stationary along the step */
        if (!m.A.FieldsExist("beta") || !m.A.FieldsExist("betaTReta")) g.fail("the step ratio was not attached to the step");
        g.close(beta, na / nd, na / nd, 1e-5, "step ratio");
        g.close(raw(m.A.Field("beta"))[1], na * na, na * na, 1e-8, "squared length of the step attached with the ratio");
        g.close(raw(m.A.Field("beta"))[2], nd * nd, nd * nd, 1e-5, "squared length of the image attached with the ratio");
        Vector TR = m.A.Field("betaTReta");
        closeV(g, c.out(m.Y, TR), vscale(na / nd / s, got), vnrm(got) / s * (na / nd), 1e-5, "scaled image of the step");
        g.label("locking");
    }
    g.nontrivial();
}

VP_CHECK("C08", intrinsic_fixed_rank_direction_map, 10000, 200000, "step nonzero") {
    Want w; w.kind = SYM;
    Move m = makeMove(g, w, true);
    const Conf &c = *m.t.c;
    if (!c.intr) throw Discard();
    V b = c.tangent(m.t.r, m.t.x, 1);
    Vector B = c.vec(m.t.X, b), O(c.M->GetEMPTYINTR());
    c.M->DiffRetraction(m.t.X, m.A, m.Y, B, &O, false);
    closeV(g, c.out(m.Y, O), c.project(m.y, b), vnrm(b) * c.scale(m.y), 1e-7, "horizontal part of the direction at the new point");
    if (vnrm(m.a) > 1e-6) g.nontrivial();
}

VP_CHECK("C08", cotangent_vector_is_the_adjoint, 100000, 3000000, "step nonzero and dimension at least 2") {
    Want w; w.kind = g.pick(std::vector<int>{STIE, SPHERE, GRASS, EUC});
    w.allowHHR = g.boolean();
    Move m = makeMove(g, w, true);
    const Conf &c = *m.t.c;
    if (c.kind == STIE && (c.z || c.polar || c.cayley)) throw Discard();
    V z = c.tangent(m.t.r, m.y, 1), b = c.tangent(m.t.r, m.t.x, 1);
    if (vnrm(b) == 0 || vnrm(z) == 0) throw Discard();
    Vector Z = c.vec(m.Y, z), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    bool alias = g.boolean();
    c.M->coTangentVector(m.t.X, m.A, m.Y, Z, alias ? &Z : &O);
    V got = c.out(m.t.X, alias ? Z : O);
    V d = fdRetr(c, m.t.x, m.a, b, m.y);
    g.close(c.g(m.t.x, got, b), c.g(m.y, z, d), 1 + vnrm(got) + vnrm(d), 3e-6, "pairing with the cotangent vector");
    closeV(g, c.project(m.t.x, got), got, 1 + vnrm(got), 1e-8, "tangency of the cotangent vector");
    if (vnrm(m.a) > 1e-6 && c.dim() >= 2) g.nontrivial();
}

/* ------------------------------------------------------------------ C09 */
VP_CHECK("C09", vector_transport, 150000, 4000000, "step nonzero and dimension at least 2") {
    Move m = makeMove(g, Want(), true);
    const Conf &c = *m.t.c;
    if (c.hhr && (vnrm(m.a) < 1e-2 || !sameDirDR(c))) throw Discard(); /* the correction needs a direction, and the derivative of the retraction along it */
    if (stationary(c, m)) throw Discard();
    TK k = tkind(c);
    V b1 = c.tangent(m.t.r, m.t.x, 1), b2 = c.tangent(m.t.r, m.t.x, g.logreal(0.1, 10));
    if (vnrm(b1) == 0) throw Discard();
    auto T = [&](const V &b, bool alias) {
        Vector B = c.vec(m.t.X, b), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
        V rb = raw(B);
        if (alias) { c.M->VectorTransport(m.t.X, m.A, m.Y, B, &B); return c.out(m.Y, B); }
        c.M->VectorTransport(m.t.X, m.A, m.Y, B, &O);
        if (vdiff(raw(B), rb) != 0) throw PropFail{"the transport changed the transported vector"};
        return c.out(m.Y, O);
    };
    auto Ti = [&](const V &b, bool alias) {
        Vector B = c.vec(m.Y, b), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
        if (alias) { c.M->InverseVectorTransport(m.t.X, m.A, m.Y, B, &B); return c.out(m.t.X, B); }
        c.M->InverseVectorTransport(m.t.X, m.A, m.Y, B, &O);
        return c.out(m.t.X, O);
    };
    bool alias = g.boolean();
    V t1 = T(b1, alias), t2 = T(b2, g.boolean());
    double sx = c.scale(m.t.x) * c.scale(m.y), sc = vnrm(b1) * sx, sc2 = vnrm(b2) * sx;
    if (!vfinite(t1)) g.fail("the transported vector is not finite");
    closeV(g, c.project(m.y, t1), t1, sc, 1e-8, "tangency of the transported vector");
    bool iso = k != T_PROJ && !(c.kind == SPD && k == T_PT && c.metric == 1);
    bool linear = iso || !c.hhr;
    if (linear) closeV(g, T(vadd(b2, -1.7, b1), g.boolean()), vadd(t2, -1.7, t1), sc + sc2, 1e-8, "linearity of the transport");
    if (iso || c.hhr) {
        g.close(c.g(m.y, t1, t1), c.g(m.t.x, b1, b1), c.g(m.t.x, b1, b1), 1e-7, "length of the transported vector");
    }
    if (iso) {
        double n1 = c.gn(m.t.x, b1), n2 = c.gn(m.t.x, b2);
        g.close(c.g(m.y, t1, t2), c.g(m.t.x, b1, b2), n1 * n2, 1e-7, "metric of two transported vectors");
        closeV(g, Ti(t1, g.boolean()), b1, sc, 1e-7, "inverse transport of the transported vector");
        V z = c.tangent(m.t.r, m.y, 1);
        closeV(g, T(Ti(z, g.boolean()), g.boolean()), z, vnrm(z) * sx, 1e-7, "transport of the inversely transported vector");
    } else if (k == T_PT && !c.hhr) {
        closeV(g, Ti(t1, g.boolean()), b1, sc, 1e-7, "inverse transport of the transported vector");
    }
    if (!c.hhr) {
        if (k == T_IDCOORD) {
            Vector B = c.vec(m.t.X, b1), O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
            c.M->VectorTransport(m.t.X, m.A, m.Y, B, &O);
            closeV(g, raw(O), raw(B), vnrm(raw(B)), 1e-13, "coordinates of a vector transported by parallelization");
        }
        if (k == T_PROJ) closeV(g, t1, c.project(m.y, b1), sc, 1e-8, "transport by projection");
        if (k == T_PT) closeV(g, t1, refPT(c, m.t.x, m.a, m.y, b1), sc, 1e-8, "parallel translation");
    } else {
        /* locking: the step is transported to its scaled differentiated image */
        V ta = T(m.a, g.boolean());
        V d = stepImage(c, m);
        double na = c.gn(m.t.x, m.a), nd = c.gn(m.y, d);
        closeV(g, ta, vscale(na / nd, d), vnrm(d) * na / nd * sx, 1e-4, "locking condition");
        g.label("locking");
    }
    if (vdiff(raw(m.t.X), m.t.x) != 0 || vdiff(raw(m.Y), m.y) != 0) g.fail("the transport changed a point");
    if (vnrm(m.a) > 1e-6 && c.dim() >= 2) g.nontrivial();
}

VP_CHECK("C09", operator_transport, 60000, 1500000, "the operator changes when transported") {
    Move m = makeMove(g, Want(), true);
    const Conf &c = *m.t.c;
    if (c.hhr && (vnrm(m.a) < 1e-2 || !c.intr)) throw Discard();
    if (stationary(c, m)) throw Discard();
    TK k = tkind(c);
    if (k == T_PROJ || k == T_PARAEXT || k == T_CAYLEY || c.kind == SPHERETX || (c.kind == SPD && c.partr)) throw Discard();
    int L = c.intr ? c.dim() : c.extr();
    if (L < 1) throw Discard();
    auto mk = [&](const V &v, bool z) { /* a vector in the representation with the given raw coordinates */
        Vector e(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; };
    auto tang = [&](const Variable &X, const V &x, const V &v) { return c.intr ? v : c.project(x, v); };
    auto T = [&](const V &v) { Vector B = mk(v, 0), O = mk(v, 0); c.M->VectorTransport(m.t.X, m.A, m.Y, B, &O); return raw(O); };
    auto Ti = [&](const V &v) { Vector B = mk(v, 0), O = mk(v, 0); c.M->InverseVectorTransport(m.t.X, m.A, m.Y, B, &O); return raw(O); };
    auto rnd = [&]() { V v(L); for (auto &q : v) q = m.t.r.normal(); return v; };
    int which = g.choice(3);
    int pad0 = which == 0 ? 0 : g.integer(0, 3), pad1 = which == 0 ? 0 : g.integer(0, 3);
    int N = pad0 + L + pad1;
    g.note("which", which); g.note("N", N); g.note("start", pad0);
    Mat Hm = randMat(m.t.r, N, N, false);
    /* the block must map tangent vectors to tangent vectors */
    auto blk = [&](int i) { return pad0 + i; };
    if (!c.intr) {
        if (which == 0 || which == 2) /* rows of the block: each column tangent at x */
            for (int j = 0; j < N; j++) { V v(L); for (int i = 0; i < L; i++) v[i] = Hm(blk(i), j).real(); v = tang(m.t.X, m.t.x, v); for (int i = 0; i < L; i++) Hm(blk(i), j) = v[i]; }
    }
    ROPTLIB::LinearOPE Hx(N, N); { double *q = Hx.ObtainWriteEntireData(); for (size_t i = 0; i < Hm.a.size(); i++) q[i] = Hm.a[i].real(); }
    ROPTLIB::LinearOPE R(N, N);
    bool alias = g.boolean();
    ROPTLIB::LinearOPE *res = alias ? &Hx : &R;
    if (which == 0) c.M->TranHInvTran(m.t.X, m.A, m.Y, Hx, res);
    else if (which == 1) c.M->HInvTran(m.t.X, m.A, m.Y, Hx, pad0, pad0 + L, res);
    else c.M->TranH(m.t.X, m.A, m.Y, Hx, pad0, pad0 + L, res);
    if (res->Getrow() != N || res->Getcol() != N) g.fail("the transported operator has another shape");
    Mat Rm = toMat(*res);
    if (!finite(Rm)) g.fail("the transported operator is not finite");
    double sc = N * maxabs(Hm) * 10;
    double change = maxabs(Rm - Hm);
    if (which == 0 || which == 1) {
        V z = tang(m.Y, m.y, rnd()), tz = Ti(z);
        /* full vectors of length N: the block carries the tangent vector, the rest is random */
        Mat full(N, 1), fullT(N, 1);
        for (int i = 0; i < N; i++) full(i, 0) = fullT(i, 0) = m.t.r.normal();
        for (int i = 0; i < L; i++) { full(blk(i), 0) = z[i]; fullT(blk(i), 0) = tz[i]; }
        Mat want = Hm * fullT;
        if (which == 0) { V v(L); for (int i = 0; i < L; i++) v[i] = want(i, 0).real(); v = T(v); for (int i = 0; i < L; i++) want(i, 0) = v[i]; }
        closeM(g, Rm * full, want, sc, 1e-8, which == 0 ? "operator transported on both sides" : "operator composed with the inverse transport");
    } else {
        Mat want = Hm;
        for (int j = 0; j < N; j++) { V v(L); for (int i = 0; i < L; i++) v[i] = Hm(blk(i), j).real(); v = T(v); for (int i = 0; i < L; i++) want(blk(i), j) = v[i]; }
        closeM(g, Rm, want, sc, 1e-8, "transport composed with the operator");
    }
    if (c.hhr) g.label("locking");
    if (change > 1e-3) g.nontrivial();
}

VP_CHECK("C09", rank_one_update_and_operator_action, 60000, 1500000, "dimension at least 2") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    bool frob = c.intr || c.kind == STIE || c.kind == SPHERE || c.kind == EUC || c.kind == GRASS || c.kind == FRE || (c.kind == SPD && c.metric == 1) || (c.kind == SYM && c.metric == 2) || (c.kind == SPHERETX);
    if (!frob) throw Discard();
    int L = c.intr ? c.dim() : c.extr();
    if (L < 1) throw Discard();
    V a = c.tangent(t.r, t.x), b = c.tangent(t.r, t.x), z = c.tangent(t.r, t.x);
    Vector A = c.vec(t.X, a), B = c.vec(t.X, b), Z = c.vec(t.X, z);
    Mat Hm = randMat(t.r, L, L, false);
    if (c.kind == FRE) { /* FixedRankE projects the result: columns tangent */
        for (int j = 0; j < L; j++) { V v(L); for (int i = 0; i < L; i++) v[i] = Hm(i, j).real(); v = c.project(t.x, v); for (int i = 0; i < L; i++) Hm(i, j) = v[i]; } }
    ROPTLIB::LinearOPE Hx(L, L), R(L, L); { double *q = Hx.ObtainWriteEntireData(); for (size_t i = 0; i < Hm.a.size(); i++) q[i] = Hm.a[i].real(); }
    double s = g.real(-2, 2);
    V rz = raw(Z), ra = raw(A), rb = raw(B);
    Mat zc(L, 1); for (int i = 0; i < L; i++) zc(i, 0) = rz[i];
    Vector O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    c.M->LinearOPEEta(t.X, Hx, Z, &O);
    V hz = mv1(Hm * zc, false);
    double sc = L * maxabs(Hm) * (vnrm(rz) + 1);
    closeV(g, raw(O), hz, sc, 1e-10, "action of the operator");
    bool alias = g.boolean();
    ROPTLIB::LinearOPE *res = alias ? &Hx : &R;
    c.M->HaddScaledRank1OPE(t.X, Hx, s, A, B, res);
    c.M->LinearOPEEta(t.X, *res, Z, &O);
    V want = vadd(hz, s * c.g(t.x, b, z), ra);
    closeV(g, raw(O), want, sc + 3 * vnrm(ra) * vnrm(rb) * vnrm(rz), 1e-9, "action of the updated operator");
    Vector F(A);
    c.M->ObtainEtaxFlat(t.X, B, &F);
    V rf = raw(F);
    g.close(vdot(rf, rz), c.g(t.x, b, z), vnrm(rb) * vnrm(rz), 1e-9, "pairing with the flattened vector");
    if (!alias && maxabs(toMat(Hx) - Hm) != 0) g.fail("the rank-one update changed its operand");
    if (vdiff(raw(A), ra) != 0 || vdiff(raw(B), rb) != 0 || A.Getiscomplex() != (c.z && !c.intr && A.Getnumofelements() < 2)) { if (vdiff(raw(A), ra) != 0 || vdiff(raw(B), rb) != 0) g.fail("the rank-one update changed its vectors"); }
    if (c.dim() >= 2) g.nontrivial();
}

/* ------------------------------------------------------------------ C27 */
namespace {
/* numbers of the printed element with the given name (its nth appearance) */
V block(Gen &g, const std::string &out, const std::string &name) {
    std::istringstream is(out); std::string l; bool in = false, seen = false; V v;
    static const std::regex re("[-+]?[0-9]\\.[0-9]{10}e[-+][0-9]+|-?nan|-?inf"), hd("^(.*):\\([0-9]+, [0-9]+, [0-9]+\\)$");
    while (std::getline(is, l)) {
        std::smatch m;
        if (std::regex_match(l, m, hd)) { std::string n = m[1]; if (in && n.compare(0, 7, "number ") == 0) continue; if (in) break; in = n == name && !seen; seen |= in; continue; }
        if (in) { if (l.find("Type:") != std::string::npos || l.find("===") != std::string::npos) continue; for (std::sregex_iterator i(l.begin(), l.end(), re), e; i != e; ++i) { std::string t = i->str(); v.push_back(t.find("nan") != std::string::npos ? NAN : strtod(t.c_str(), 0)); } }
    }
    if (!seen) g.fail("the diagnostic does not print " + name);
    return v;
}
double value(Gen &g, const std::string &out, const std::string &label) {
    size_t p = out.find(label); if (p == std::string::npos) g.fail("the diagnostic does not print " + label);
    return strtod(out.c_str() + p + label.size(), 0);
}
/* printed row by row; the coordinates of the ambient space are column by column */
V colmaj(const Conf &c, const V &a) {
    V r(a.size()); size_t off = 0, w = c.z ? 2 : 1;
    for (auto &q : c.comps()) { size_t n = q.first, p = q.second; if (off + n * p * w > a.size()) return a; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < p; j++) for (size_t k = 0; k < w; k++) r[off + (j * n + i) * w + k] = a[off + (i * p + j) * w + k]; off += n * p * w; }
    return r;
}
} // namespace
VP_CHECK("C27", manifold_diagnostics, 40000, 600000, "the two quantities of a diagnostic are compared and are not zero") {
    Want w; int what = g.integer(0, 7);
    static const char *nm[] = {"IntrExtr", "Retraction", "DiffRetraction", "DiffRetraction along", "Locking", "Cotangent", "Isometry", "Inverse isometry"};
    w.allowHHR = what == 4; Pt t = makePt(g, w); const Conf &c = *t.c; if (c.dim() < 1) throw Discard();
    g.addNote(std::string("check ") + nm[what]); g.label(nm[what]);
    Manifold &M = *c.M; bool intr = M.GetIsIntrinsic();
    TK k = tkind(c); bool iso = k != T_PROJ && !(c.kind == SPD && k == T_PT && c.metric == 1);
    auto differ = [&](const V &a, const V &b, double tol, const char *m) {
        if (a.size() != b.size()) g.fail(std::string(m) + ": different numbers of entries");
        if (!vfinite(a) || !vfinite(b)) throw Discard();
        closeV(g, a, b, 1 + vnrm(a) + vnrm(b), tol, m); if (vnrm(b) > 1e-6) g.nontrivial();
    };
    auto pair = [&](double a, double b, double sc, double tol, const char *m) { if (!std::isfinite(a) || !std::isfinite(b)) throw Discard(); g.close(a, b, sc + std::fabs(a) + std::fabs(b), tol, m); if (std::fabs(b) > 1e-6) g.nontrivial(); };
    std::string out; double sc = c.scale(t.x);
    auto run = [&](std::function<void()> f) { out = capturedOut(f); if (M.GetIsIntrinsic() != intr) g.fail("the diagnostic changed the representation the manifold uses"); if (vdiff(raw(t.X), t.x) != 0) g.fail("the diagnostic changed the point"); };
    switch (what) {
    case 0: if (!c.intr) throw Discard(); run([&] { M.CheckIntrExtr(t.X); });
        pair(value(g, out, "extr inp:"), value(g, out, "intr inp:"), 0, 1e-5, "metric in the two representations");
        differ(block(g, out, "exetax1"), block(g, out, "exetax2"), 1e-8 * sc, "vector converted to coordinates and back"); differ(block(g, out, "inetax1"), block(g, out, "inetax2"), 1e-8 * sc, "coordinates converted to the vector and back"); break;
    case 1: run([&] { M.CheckRetraction(t.X); }); differ(c.project(t.x, colmaj(c, block(g, out, "etax:"))), c.project(t.x, colmaj(c, block(g, out, "FDetax:"))), 1e-3 * sc, "step and difference quotient of the retraction"); break;
    case 2: if (!generalDR(c)) throw Discard(); run([&] { M.CheckDiffRetraction(t.X, false); }); differ(block(g, out, "zetax:"), block(g, out, "FDzetax:"), 1e-2, "differentiated retraction and difference quotient"); break;
    case 3: if (!sameDirDR(c)) throw Discard(); run([&] { M.CheckDiffRetraction(t.X, true); }); differ(block(g, out, "zetax:"), block(g, out, "FDzetax:"), 1e-2, "differentiated retraction along the step and difference quotient"); break;
    case 4: if (!c.hhr || !sameDirDR(c)) throw Discard(); run([&] { M.CheckLockingCondition(t.X); }); pair(value(g, out, "beta = |etax| / |T_{etax} etax|: "), value(g, out, "|xix| / |T_{etax} xix|:"), 0, 1e-4, "step ratio"); differ(block(g, out, "Beta DiffRetraction zetax:"), block(g, out, "Vector Transport zetax:"), 1e-5, "scaled differentiated retraction and transport"); break;
    case 5: if (!(c.kind == STIE || c.kind == SPHERE || c.kind == GRASS || c.kind == EUC) || (c.kind == STIE && (c.z || c.polar || c.cayley))) throw Discard(); run([&] { M.CheckcoTangentVector(t.X); }); pair(value(g, out, "<xiy, T_{R_{eta}} xix>:"), value(g, out, "C(x, etax, xiy) [xix]:"), 1, 1e-4, "the two sides of the definition of the cotangent vector"); break;
    case 6: if (!iso) throw Discard(); run([&] { M.CheckIsometryofVectorTransport(t.X); }); pair(value(g, out, "Before vector transport:"), value(g, out, "After vector transport:"), 0, 1e-4, "length before and after transport"); break;
    default: if (!iso) throw Discard(); run([&] { M.CheckIsometryofInvVectorTransport(t.X); }); pair(value(g, out, "Before inverse vector transport:"), value(g, out, "After inverse vector transport:"), 0, 1e-4, "length before and after inverse transport"); break;
    }
}
