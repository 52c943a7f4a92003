/* C12 inputs unchanged, permitted aliasing, independence of companion data; C14 independence of the representative */
#include "manihelp.h"
using namespace vp;

namespace {
bool generalDR(const Conf &c) {
    switch (c.kind) { case STIE: return !c.polar && !c.cayley; case SPHERETX: case FRE: return false; case SPD: return !c.spdexp; default: return true; }
}
bool sameDirDR(const Conf &c) { return !(c.kind == SPD && c.spdexp); }
bool coTan(const Conf &c) { return (c.kind == STIE && !c.z && !c.polar && !c.cayley) || c.kind == SPHERE || c.kind == GRASS || c.kind == EUC; }
bool opTran(const Conf &c) { return !(c.cayley || c.kind == SPHERETX || c.kind == FRE || c.partr || c.proj) && (c.intr || c.kind == EUC); }
bool invRetr(const Conf &c) { return c.kind == EUC || (c.kind == STIE && c.polar) || ((c.kind == SYM || c.kind == F2) && !c.intr); }

/* everything a case works on, as coordinates; objects are built from it afresh */
struct Data {
    const Conf &c; V x, a, a2, b, e, e2, h; Mat Hm; V zc; int L; double s1, s2; bool hess;
};
struct World {
    const Data &d; const Conf &c; Manifold *M;
    Variable X, Y, Y2; Vector A, A2, B, Z, E, E2, Hv; ROPTLIB::LinearOPE H;
    World(const Data &d) : d(d), c(d.c), M(d.c.M), H(d.L, d.L) {
        X = c.elem(d.x); A = c.vec(X, d.a); A2 = c.vec(X, d.a2); B = c.vec(X, d.b);
        Variable Xr = c.elem(d.x); /* the point itself stays cold */
        Y = X; Y2 = X;
        { Vector At = c.vec(Xr, d.a); Y = Variable(Xr); M->Retraction(Xr, At, &Y); }
        { Variable Xs = c.elem(d.x); Vector At = c.vec(Xs, d.a2); Y2 = Variable(Xs); M->Retraction(Xs, At, &Y2); }
        X = c.elem(d.x);
        E = amb(d.e); E2 = amb(d.e2); Hv = amb(d.h);
        double *q = H.ObtainWriteEntireData(); for (size_t i = 0; i < d.Hm.a.size(); i++) q[i] = d.Hm.a[i].real();
        Z = empty(); Z.NewMemoryOnWrite(); std::copy(d.zc.begin(), d.zc.end(), Z.ObtainWriteEntireData());
        if (c.kind == FRE) M->ExtrProjection(Y, Z, &Z); else if (!c.intr) M->Projection(Y, Z, &Z);
        if (c.kind == SPHERETX) { Variable t = Y; V y = raw(Y), z = c.project(y, d.zc); Z = amb(z); }
        B = c.vec(Xr, d.b); A = c.vec(Xr, d.a); A2 = c.vec(Xr, d.a2);
    }
    Vector empty() const { return c.intr ? M->GetEMPTYINTR() : M->GetEMPTYEXTR(); }
    Vector amb(const V &v) const { Vector e(M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; }
    std::vector<V> values() const { return {raw(X), raw(Y), raw(Y2), raw(A), raw(A2), raw(B), raw(Z), raw(E), raw(E2), raw(Hv), raw(H)}; }
};
const char *inName[] = {"the point", "the retracted point", "the other retracted point", "the step", "the other step", "the vector", "the vector at the new point", "the ambient vector", "the other ambient vector", "the Hessian argument", "the operator"};
enum { NOPS = 22 };
const char *opName[NOPS] = {"Metric", "ExtrProjection", "Projection", "Retraction", "Retraction along another step", "DiffRetraction", "DiffRetraction along the step", "coTangentVector", "VectorTransport", "InverseVectorTransport", "ObtainIntr and ObtainExtr", "ObtainExtr at the new point", "EucGradToGrad", "EucHvToHv", "ScalarTimesVector", "VectorLinearCombination", "ScalarVectorAddVector", "Dist", "TranHInvTran", "HaddScaledRank1OPE", "InvRetraction", "VectorTransport along another step"};

/* mode bit 0: aliased result; bit 1: the result shares its storage with another element beforehand */
bool possible(const Conf &c, const Data &d, int op) {
    bool moves = !c.hhr || (vnrm(d.a) > 0.05 && sameDirDR(c) && !(c.kind == SYM && c.intr));
    bool ok2 = vnrm(d.a2) > 0.05;
    switch (op) {
    case 5: return generalDR(c);
    case 6: return sameDirDR(c) && vnrm(d.a) > 1e-3;
    case 7: return coTan(c);
    case 8: return moves;
    case 9: return moves;
    case 18: return moves && opTran(c);
    case 19: return c.intr || c.kind == STIE || c.kind == SPHERE || c.kind == EUC || c.kind == GRASS;
    case 20: return invRetr(c);
    case 21: return !c.hhr && ok2;
    default: return true;
    }
}
V run(Gen &g, World &w, int op, int mode) {
    const Conf &c = w.c; Manifold *M = w.M;
    bool al = mode & 1, sh = mode & 2;
    Vector other = w.amb(w.d.e2), iother = w.B;
    V o0 = raw(other), i0 = raw(iother);
    Vector EO = sh ? other : w.amb(V(c.extr(), 7.0));
    Vector O = w.empty(); if (sh) O = iother; else O.SetToZeros();
    auto R = [&](const Vector &in, Vector &dst, std::function<void(const Vector &, Vector *)> f) { if (al) { dst = in; f(dst, &dst); } else f(in, &dst); };
    V r;
    std::shared_ptr<Stub> st = std::make_shared<Stub>(M, w.d.hess || op == 13);
    switch (op) {
    case 0: r = V{M->Metric(w.X, w.A, w.B), M->Metric(w.Y, w.Z, w.Z)}; break;
    case 1: R(w.E, EO, [&](const Vector &i, Vector *o) { M->ExtrProjection(w.X, i, o); }); r = raw(EO); break;
    case 2: R(w.B, O, [&](const Vector &i, Vector *o) { M->Projection(w.X, i, o); }); r = raw(O); break;
    case 3: { Variable Y(sh ? w.Y2 : w.X); M->Retraction(w.X, w.A, &Y); r = raw(Y); break; }
    case 4: { Variable Y(sh ? w.Y : w.X); M->Retraction(w.X, w.A2, &Y); r = raw(Y); break; }
    case 5: R(w.B, O, [&](const Vector &i, Vector *o) { M->DiffRetraction(w.X, w.A, w.Y, i, o, false); }); r = c.out(w.Y, O); break;
    case 6: R(w.A, O, [&](const Vector &i, Vector *o) { M->DiffRetraction(w.X, w.A, w.Y, i, o, true); }); r = c.out(w.Y, O); r.push_back(M->Beta(w.X, w.A)); break;
    case 7: R(w.Z, O, [&](const Vector &i, Vector *o) { M->coTangentVector(w.X, w.A, w.Y, i, o); }); r = c.out(w.X, O); break;
    case 8: R(w.B, O, [&](const Vector &i, Vector *o) { M->VectorTransport(w.X, w.A, w.Y, i, o); }); r = c.out(w.Y, O); break;
    case 9: R(w.Z, O, [&](const Vector &i, Vector *o) { M->InverseVectorTransport(w.X, w.A, w.Y, i, o); }); r = c.out(w.X, O); break;
    case 10: { if (!c.intr) return V(1, 0.0); Vector P = w.amb(w.d.b); M->ObtainIntr(w.X, P, &O); M->ObtainExtr(w.X, O, &EO); r = raw(EO); break; }
    case 11: { if (!c.intr) return V(1, 0.0); M->ObtainExtr(w.Y, w.Z, &EO); r = raw(EO); break; }
    case 12: R(w.E, EO, [&](const Vector &i, Vector *o) { M->EucGradToGrad(w.X, i, st.get(), o); }); r = raw(EO); break;
    case 13: { Vector G = w.amb(w.d.e); M->EucGradToGrad(w.X, w.E, st.get(), &G);
        Vector xb = c.ext(w.X, w.d.b); V xb0 = raw(xb);
        R(w.Hv, EO, [&](const Vector &i, Vector *o) { M->EucHvToHv(w.X, xb, i, st.get(), o); }); r = raw(EO);
        if (vdiff(raw(xb), xb0) != 0) g.fail("EucHvToHv changed the direction"); break; }
    case 14: R(w.A, O, [&](const Vector &i, Vector *o) { M->ScalarTimesVector(w.X, w.d.s1, i, o); }); r = raw(O); break;
    case 15: R(w.B, O, [&](const Vector &i, Vector *o) { M->VectorLinearCombination(w.X, w.d.s1, w.A, w.d.s2, i, o); }); r = raw(O); break;
    case 16: R(w.B, O, [&](const Vector &i, Vector *o) { M->ScalarVectorAddVector(w.X, w.d.s1, w.A, i, o); }); r = raw(O); break;
    case 17: r = V{M->Dist(w.X, w.Y), M->Dist(w.Y, w.X)}; break;
    case 18: { ROPTLIB::LinearOPE Rr(w.d.L, w.d.L); if (al) { Rr = w.H; M->TranHInvTran(w.X, w.A, w.Y, Rr, &Rr); } else M->TranHInvTran(w.X, w.A, w.Y, w.H, &Rr); r = raw(Rr); break; }
    case 19: { ROPTLIB::LinearOPE Rr(w.d.L, w.d.L); if (al) { Rr = w.H; M->HaddScaledRank1OPE(w.X, Rr, w.d.s1, w.A, w.B, &Rr); } else M->HaddScaledRank1OPE(w.X, w.H, w.d.s1, w.A, w.B, &Rr); r = raw(Rr); break; }
    case 20: M->InvRetraction(w.X, w.Y, &O); r = raw(O); break;
    case 21: R(w.B, O, [&](const Vector &i, Vector *o) { M->VectorTransport(w.X, w.A2, w.Y2, i, o); }); r = c.out(w.Y2, O); break;
    }
    if (vdiff(raw(other), o0) != 0 || vdiff(raw(iother), i0) != 0) g.fail(std::string(opName[op]) + " changed an element that shared storage with its result");
    return r;
}
} // namespace

VP_CHECK("C12", inputs_aliasing_and_companion_data, 600000, 12000000, "at least two earlier operations and dimension at least 2") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    double len = g.choice(3) ? g.real(0.1, 1.2) : (g.boolean() ? 0 : 1e-3);
    double k = c.kind == SPD && c.metric ? 0.3 : 1;
    Data d{c, t.x, c.tangent(t.r, t.x, len * k), c.tangent(t.r, t.x, k * g.real(0.1, 1.2)), c.tangent(t.r, t.x, 1), V(), V(), V(), Mat(), V(), 0, g.real(-2, 2), g.real(-2, 2), g.boolean()};
    if (!retrOK(c, t.x, d.a) || !retrOK(c, t.x, d.a2)) throw Discard();
    for (V *v : {&d.e, &d.e2, &d.h}) { v->resize(c.extr()); for (auto &q : *v) q = t.r.normal(); if (c.kind == SPD) { Mat S = sym(vm(*v, 0, c.n, c.n, false)); *v = mv1(S, false); } }
    d.L = c.intr ? c.M->GetIntrDim() : c.extr();
    if (d.L < 1) throw Discard();
    d.Hm = randMat(t.r, d.L, d.L, false);
    d.zc.resize(d.L); for (auto &q : d.zc) q = t.r.normal();
    int op = g.integer(0, NOPS - 1);
    if (!possible(c, d, op)) throw Discard();
    g.note("op", opName[op]);
    if (c.hhr && (op == 6 || op == 8 || op == 9 || op == 18)) { /* not when the retraction is stationary along the step */
        World w(d); Vector O = w.empty(); c.M->DiffRetraction(w.X, w.A, w.Y, w.A, &O, true);
        if (std::sqrt(c.M->Metric(w.Y, O, O)) < 0.05 * len * k) throw Discard();
    }
    World cold(d);
    V ref = run(g, cold, op, 0);
    if (!vfinite(ref)) g.fail(std::string(opName[op]) + " is not finite");
    /* a history on the same objects, then the same operation */
    World w(d);
    int hist = g.integer(0, 6);
    std::vector<V> v0 = w.values();
    auto unchanged = [&](int o) { std::vector<V> v = w.values(); for (size_t i = 0; i < v.size(); i++) if (vdiff(v[i], v0[i]) != 0) g.fail(std::string(opName[o]) + " changed " + inName[i]); };
    int done = 0;
    for (int i = 0; i < hist; i++) {
        int o = g.integer(0, NOPS - 1), mode = g.choice(4);
        if (!possible(c, d, o)) continue;
        if (c.hhr && (o == 6 || o == 8 || o == 9 || o == 18) && len < 0.05) continue;
        g.addNote(std::string("[") + opName[o] + "] ");
        if (o == 12 || o == 13) { /* another function at the same point */
            Vector keep = w.E; w.E = w.E2; run(g, w, o, mode); w.E = keep; }
        else run(g, w, o, mode);
        done++;
        unchanged(o);
        if (g.chance(1, 6)) { /* go on with a copy and overwrite the original */
            Variable c2(w.X); w.X = c.elem(vscale(2, d.x)); w.X = c2; }
    }
    int mode = g.choice(4);
    g.note("mode", mode);
    V got = run(g, w, op, mode);
    closeV(g, got, ref, 1 + vnrm(ref), 1e-9, std::string(opName[op]) + (mode & 1 ? " with aliased result" : "") + " after other operations");
    unchanged(op);
    g.label(opName[op]);
    if (done >= 2 && c.dim() >= 2) g.nontrivial();
}

/* ------------------------------------------------------------------ C14 */
VP_CHECK("C14", quotient_operations_are_class_functions, 360000, 8000000, "the representatives differ and the dimension is at least 2") {
    Want w; w.kind = g.pick(std::vector<int>{GRASS, SYM, SYM, F2, F2});
    Pt t = makePt(g, w);
    const Conf &c = *t.c;
    Action ac(t.r, c);
    V x = t.x, y = ac.act(x);
    Variable X = c.elem(x), Y = c.elem(y);
    V a = c.tangent(t.r, x, 1), b = c.tangent(t.r, x, 1);
    V a2 = ac.act(a), b2 = ac.act(b); /* the corresponding horizontal vectors */
    Vector A = c.vec(X, a), B = c.vec(X, b), A2 = c.vec(Y, a2), B2 = c.vec(Y, b2);
    double sc = 1 + vnrm(x), sc4 = sc * sc * sc * sc;
    g.close(c.M->Metric(Y, A2, B2), c.M->Metric(X, A, B), 1, 1e-7, "metric of corresponding vectors");
    g.close(c.M->Metric(Y, A2, A2), c.M->Metric(X, A, A), 1, 1e-7, "length of corresponding vectors");
    /* projection commutes with the action */
    { V v(c.extr()); for (auto &q : v) q = t.r.normal(); V v2 = ac.act(v);
      auto E = [&](const V &u) { Vector e(c.M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(u.begin(), u.end(), e.ObtainWriteEntireData()); return e; };
      Vector o1 = E(v), o2 = E(v2); c.M->ExtrProjection(X, E(v), &o1); c.M->ExtrProjection(Y, E(v2), &o2);
      closeV(g, raw(o2), ac.act(raw(o1)), vnrm(v2) * sc * sc, 1e-8, "projection at another representative"); }
    /* retraction */
    double len = g.logreal(0.01, 2);
    V s = vscale(len, a), s2 = vscale(len, a2);
    if (retrOK(c, x, s) && retrOK(c, y, s2)) {
        Variable RX(X), RY(Y);
        c.M->Retraction(X, c.vec(X, s), &RX); c.M->Retraction(Y, c.vec(Y, s2), &RY);
        closeM(g, c.embed(raw(RY)), c.embed(raw(RX)), 1 + nrm(c.embed(raw(RX))), 1e-8, "retracted class");
        g.label("retraction");
        /* transport: lengths and inner products do not depend on the representative */
        if (!c.hhr && c.kind != SYM) {
            Vector T(A), U(A), T2(A), U2(A); T = B; U = A; T2 = B2; U2 = A2;
            c.M->VectorTransport(X, c.vec(X, s), RX, B, &T); c.M->VectorTransport(X, c.vec(X, s), RX, A, &U);
            c.M->VectorTransport(Y, c.vec(Y, s2), RY, B2, &T2); c.M->VectorTransport(Y, c.vec(Y, s2), RY, A2, &U2);
            if (c.intr) { g.close(c.M->Metric(RY, T2, U2), c.M->Metric(RX, T, U), 1, 1e-7, "metric of transported vectors"); g.label("transport"); }
        }
    }
    /* gradient and Hessian of a function of the class */
    {
        Mat Em = c.embed(x);
        std::vector<Mat> W; for (int k = 0; k < 3; k++) { Mat M = randMat(t.r, Em.r, Em.c, c.z); W.push_back(cd(1 / nrm(M)) * M); }
        struct P : public ROPTLIB::Problem { const Conf &c; const std::vector<Mat> &W;
            P(const Conf &c, const std::vector<Mat> &W) : c(c), W(W) { SetDomain(c.M); SetUseHess(true); }
            void put(Vector *r, const V &v) const { r->NewMemoryOnWrite(); std::copy(v.begin(), v.end(), r->ObtainWriteEntireData()); }
            virtual realdp f(const Variable &x) const { Mat E = c.embed(raw(x)); double s = 0; for (auto &w : W) { double u = dot(w, E); s += std::cos(u); } return s; }
            virtual Vector &EucGrad(const Variable &x, Vector *r) const { Mat E = c.embed(raw(x)), G(E.r, E.c); for (auto &w : W) G = G + cd(-std::sin(dot(w, E))) * w; put(r, c.adembed(raw(x), G)); return *r; }
            virtual Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const { Mat E = c.embed(raw(x)), D = c.dembed(raw(x), raw(e)), G(E.r, E.c), G2(E.r, E.c);
                for (auto &w : W) { G = G + cd(-std::sin(dot(w, E))) * w; G2 = G2 + cd(-std::cos(dot(w, E)) * dot(w, D)) * w; }
                put(r, vadd(c.adembed(raw(x), G2), 1, c.adembed(raw(e), G))); return *r; }
        } prob(c, W);
        Vector G1(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR()), G2(G1), H1(G1), H2(G1);
        double f1 = prob.f(X), f2 = prob.f(Y);
        g.close(f2, f1, 1 + std::fabs(f1), 1e-10, "objective");
        prob.Grad(X, &G1); prob.Grad(Y, &G2);
        double n1 = c.M->Metric(X, G1, G1), n2 = c.M->Metric(Y, G2, G2);
        g.close(n2, n1, n1 + sc4 * 1e-3, 1e-7, "squared norm of the gradient");
        closeV(g, c.out(Y, G2), ac.act(c.out(X, G1)), sc4, 1e-8, "corresponding gradients");
        prob.HessianEta(X, A, &H1); prob.HessianEta(Y, A2, &H2);
        g.close(c.M->Metric(Y, H2, B2), c.M->Metric(X, H1, B), sc4, 1e-7, "Hessian form on corresponding vectors");
    }
    if (vdiff(x, y) > 1e-3 && c.dim() >= 2) g.nontrivial();
}
