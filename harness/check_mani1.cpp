/* C06 points, retractions, inverse retractions, distances; C07 tangent spaces and representations */
#include "manihelp.h"
using namespace vp;



VP_CHECK("C06", random_points_are_on_the_manifold, 180000, 3600000, "dimension of the manifold at least 1") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    genrandseed(g.choice(1000000) + 1);
    Variable Y;
    if (c.kind == FRE) { Y = c.M->RandominManifold(); }
    else Y = c.M->RandominManifold();
    V y = raw(Y);
    if ((int) y.size() != c.extr()) g.fail("a random point has the wrong number of coordinates");
    double d = c.infeas(y);
    if (!(d <= 1e-9)) { std::ostringstream o; o << "a random point violates the constraints by " << d; g.fail(o.str()); }
    /* continuous law: two draws differ */
    if (c.dim() >= 1) {
        Variable Z = c.M->RandominManifold();
        if (vdiff(raw(Z), y) == 0 && !(c.kind == SPHERE && c.n == 1)) g.fail("two successive random points are equal");
    }
    if (c.dim() >= 1) g.nontrivial();
}

VP_CHECK("C06", retraction_is_the_named_map, 360000, 7200000, "step longer than 1e-4") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    double len = pickLen(g, c);
    V a = c.tangent(t.r, t.x, len);
    if (!retrOK(c, t.x, a)) throw Discard();
    g.note("len", len);
    Vector e = c.vec(t.X, a);
    int where = g.choice(3);
    Variable Y = where == 0 ? Variable(c.M->GetEMPTYEXTR()) : t.X;
    if (where == 2) Y = c.elem(c.point(t.r, 0));
    if (c.kind == FRE && where == 0) Y = t.X;
    c.M->Retraction(t.X, e, &Y);
    V y = raw(Y);
    if ((int) y.size() != c.extr()) g.fail("the retracted point has the wrong number of coordinates");
    if (!vfinite(y)) g.fail("the retracted point is not finite");
    double d = c.infeas(y);
    if (!(d <= 1e-8)) { std::ostringstream o; o << "the retracted point violates the constraints by " << d; g.fail(o.str()); }
    Mat want = refRetr(c, t.x, a), got = c.embed(y);
    closeM(g, got, want, 1 + nrm(want) + nrm(c.embed(t.x)), 1e-8, "retraction");
    if (vdiff(raw(t.X), t.x) != 0) g.fail("the retraction changed its base point");
    if (len == 0 || vnrm(a) == 0) closeM(g, got, c.embed(t.x), 1 + nrm(got), 1e-10, "retraction of the zero vector");
    if (vnrm(a) > 1e-4) g.nontrivial();
}

VP_CHECK("C06", retraction_is_rigid_to_first_order, 180000, 3600000, "tangent space has a nonzero vector") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    V a = c.tangent(t.r, t.x, 1);
    if (vnrm(a) == 0) throw Discard();
    if (c.kind == SPD && c.metric) a = vscale(0.2, a);
    if (!retrOK(c, t.x, vscale(1e-4, a))) throw Discard();
    double h = 2e-4;
    auto E = [&](double s) { Variable Y(t.X); c.M->Retraction(t.X, c.vec(t.X, vscale(s, a)), &Y); return c.embed(raw(Y)); };
    Mat D = cd(4.0 / 3 / h) * (E(h / 2) - E(-h / 2)) - cd(1.0 / 6 / h) * (E(h) - E(-h));
    Mat want = c.dembed(t.x, a);
    closeM(g, D, want, 1 + nrm(want) + nrm(c.embed(t.x)), 1e-6, "derivative of the retraction at zero");
    g.nontrivial();
}

VP_CHECK("C06", inverse_retraction_undoes, 120000, 2400000, "step longer than 1e-3") {
    Want w;
    int kind = g.pick(std::vector<int>{STIE, SYM, F2, EUC});
    w.kind = kind;
    Pt t = makePt(g, w);
    Conf &c = *t.c;
    if (kind == STIE && !c.polar) { /* only the polar retraction offers an inverse */
        c.pset = 4; c.polar = true; c.proj = true; c.cayley = false;
        if (c.z) static_cast<ROPTLIB::CStiefel *>(c.M)->ChooseParamsSet4(); else static_cast<ROPTLIB::Stiefel *>(c.M)->ChooseParamsSet4();
        c.M->SetIsIntrApproach(c.intr);
    }
    if (kind == SYM || kind == F2) { c.intr = false; c.M->SetIsIntrApproach(false); }
    V a = c.tangent(t.r, t.x, pickLen(g, c));
    Variable Y(t.X);
    c.M->Retraction(t.X, c.vec(t.X, a), &Y);
    Vector b(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    c.M->InvRetraction(t.X, Y, &b);
    closeV(g, c.out(t.X, b), a, 1 + vnrm(t.x) + vnrm(a) * vnrm(a), 1e-8, "inverse retraction of the retracted point");
    if (vdiff(raw(t.X), t.x) != 0) g.fail("the inverse retraction changed its base point");
    if (vnrm(a) > 1e-3) g.nontrivial();
}

VP_CHECK("C06", distances, 180000, 3600000, "the two points differ") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    if (c.quotient()) { /* chordal distance of the factors only: not offered for classes */ if (c.kind != GRASS && c.kind != SYM && c.kind != F2) throw Discard(); }
    bool same = g.chance(1, 8);
    V y = same ? t.x : c.point(t.r, g.choice(2));
    Variable Y = c.elem(y);
    double d = c.M->Dist(t.X, Y), e = c.M->Dist(Y, t.X);
    double want;
    if (c.kind == SPD && c.metric == 0) {
        Mat X = vm(t.x, 0, c.n, c.n, false), YY = vm(y, 0, c.n, c.n, false);
        Mat hi = funh(X, [](double w) { return 1 / std::sqrt(w); });
        std::vector<double> w; Mat U; eigh(hi * YY * hi, w, U);
        want = 0; for (double q : w) want += std::log(q) * std::log(q); want = std::sqrt(want);
    } else want = vnrm(vadd(t.x, -1, y));
    g.note("same", same);
    g.close(d, want, 1 + want, 1e-8, "distance");
    g.close(e, want, 1 + want, 1e-8, "distance with the points exchanged");
    /* along the exponential map the affine-invariant distance is the length of the step */
    if (c.kind == SPD && c.metric == 0 && c.spdexp) {
        double len = g.real(0.05, 2.0);
        V a = c.tangent(t.r, t.x, len);
        Variable Z(t.X); c.M->Retraction(t.X, c.vec(t.X, a), &Z);
        g.close(c.M->Dist(t.X, Z), len, 1 + len, 1e-8, "distance along a geodesic");
    }
    if (!same) g.nontrivial();
}

/* ------------------------------------------------------------------ C07 */
VP_CHECK("C07", projection_is_the_orthogonal_projection, 300000, 6000000, "the projection is neither zero nor the identity there") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    V v(c.extr()), w(c.extr());
    double s = g.logreal(1e-3, 1e3);
    for (auto &q : v) q = s * t.r.normal();
    for (auto &q : w) q = t.r.normal();
    auto proj = [&](const V &u, bool alias) {
        Vector e(c.M->GetEMPTYEXTR()); e.NewMemoryOnWrite();
        std::copy(u.begin(), u.end(), e.ObtainWriteEntireData());
        if (alias) { c.M->ExtrProjection(t.X, e, &e); return raw(e); }
        Vector o(c.M->GetEMPTYEXTR());
        c.M->ExtrProjection(t.X, e, &o);
        if (vdiff(raw(e), u) != 0) throw PropFail{"the projection changed its argument"};
        return raw(o);
    };
    double sc = vnrm(v) * c.scale(t.x) * c.scale(t.x) + 1e-300;
    V pv = proj(v, g.boolean());
    closeV(g, pv, c.project(t.x, v), sc, 1e-9, "projection");
    closeV(g, proj(pv, g.boolean()), pv, sc, 1e-9, "projection of a projected vector");
    double al = g.real(-2, 2);
    V pw = proj(w, false);
    closeV(g, proj(vadd(vscale(al, v), 1, w), false), vadd(vscale(al, pv), 1, pw), sc + vnrm(w) * c.scale(t.x), 1e-9, "linearity of the projection");
    if (c.intr) { /* the intrinsic projection is the identity */
        Vector i = c.vec(t.X, pv), o(c.M->GetEMPTYINTR());
        c.M->Projection(t.X, i, &o);
        if (vdiff(raw(i), raw(o)) != 0) g.fail("the intrinsic projection is not the identity");
    } else {
        Vector e(c.M->GetEMPTYEXTR()); e.NewMemoryOnWrite();
        std::copy(v.begin(), v.end(), e.ObtainWriteEntireData());
        Vector o(c.M->GetEMPTYEXTR());
        c.M->Projection(t.X, e, &o);
        closeV(g, raw(o), pv, sc, 1e-12, "Projection in ambient mode");
    }
    if (vnrm(pv) > 1e-6 * vnrm(v) && vdiff(pv, v) > 1e-6 * vnrm(v)) g.nontrivial();
}

VP_CHECK("C07", metric_and_representations, 300000, 6000000, "dimension at least 2") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    double sa = g.logreal(1e-3, 1e3);
    V a = vscale(sa, c.tangent(t.r, t.x)), b = c.tangent(t.r, t.x);
    double ga = c.g(t.x, a, a), gb = c.g(t.x, b, b), gab = c.g(t.x, a, b);
    double sc = std::sqrt(ga * gb);
    Vector A = c.vec(t.X, a), B = c.vec(t.X, b);
    if (c.intr && A.Getlength() != c.dim()) { std::ostringstream o; o << "the intrinsic representation has " << A.Getlength() << " coordinates, the tangent space has dimension " << c.dim(); g.fail(o.str()); }
    if (c.M->GetIntrDim() != c.dim() && c.kind != SPHERETX) g.fail("GetIntrDim is not the dimension of the tangent space");
    if (!c.hhr && c.M->GetHasHHR()) g.fail("the locking correction is on although it was never switched on");
    if (c.M->GetExtrDim() != c.extr()) g.fail("GetExtrDim is not the number of ambient coordinates");
    g.close(c.M->Metric(t.X, A, B), gab, sc, 1e-9, "metric");
    g.close(c.M->Metric(t.X, B, A), gab, sc, 1e-9, "metric with the vectors exchanged");
    g.close(c.M->Metric(t.X, A, A), ga, ga, 1e-9, "squared length");
    if (c.dim() > 0 && !(c.M->Metric(t.X, A, A) > 0)) g.fail("the squared length of a nonzero vector is not positive");
    closeV(g, c.out(t.X, A), a, vnrm(a) * c.scale(t.x), 1e-9, "ambient to short and back");
    /* an arbitrary short vector is a tangent vector and survives the round trip */
    if (c.intr) {
        Vector i(c.M->GetEMPTYINTR()); double *q = i.ObtainWriteEntireData();
        V iv(c.dim()); for (int k = 0; k < c.dim(); k++) q[k] = iv[k] = t.r.normal();
        Vector e(c.M->GetEMPTYEXTR()), i2(c.M->GetEMPTYINTR());
        c.M->ObtainExtr(t.X, i, &e);
        V ev = raw(e);
        closeV(g, c.project(t.x, ev), ev, vnrm(ev) * c.scale(t.x), 1e-8, "tangency of the ambient form of a short vector");
        c.M->ObtainIntr(t.X, e, &i2);
        closeV(g, raw(i2), iv, vnrm(iv), 1e-9 * c.scale(t.x) * c.scale(t.x), "short to ambient and back");
        g.close(c.M->Metric(t.X, i, i), vdot(iv, iv), vdot(iv, iv), 1e-9, "the short representation is orthonormal");
        g.close(c.g(t.x, ev, ev), vdot(iv, iv), vdot(iv, iv), 1e-8, "metric of the ambient form");
        if (vdiff(raw(i), iv) != 0) g.fail("ObtainExtr changed its argument");
    }
    if (c.dim() >= 2) g.nontrivial();
}

VP_CHECK("C07", vector_space_operations, 180000, 3600000, "both vectors nonzero") {
    Pt t = makePt(g);
    const Conf &c = *t.c;
    V a = c.tangent(t.r, t.x), b = c.tangent(t.r, t.x);
    double s1 = g.choice(5) ? g.real(-3, 3) : 0, s2 = g.choice(5) ? g.real(-3, 3) : 1;
    Vector A = c.vec(t.X, a), B = c.vec(t.X, b);
    V ra = raw(A), rb = raw(B);
    Vector O(c.intr ? c.M->GetEMPTYINTR() : c.M->GetEMPTYEXTR());
    double sc = vnrm(ra) + vnrm(rb);
    int op = g.choice(3), alias = g.choice(2);
    g.note("op", op); g.note("alias", alias);
    Vector &R = op == 0 ? (alias ? A : O) : (alias ? B : O);
    V want;
    if (op == 0) { c.M->ScalarTimesVector(t.X, s1, A, &R); want = vscale(s1, ra); }
    else if (op == 1) { c.M->ScalarVectorAddVector(t.X, s1, A, B, &R); want = vadd(rb, s1, ra); }
    else { c.M->VectorLinearCombination(t.X, s1, A, s2, B, &R); want = vadd(vscale(s2, rb), s1, ra); }
    closeV(g, raw(R), want, sc * 10, 1e-12, "vector operation");
    if (&R != &A && vdiff(raw(A), ra) != 0) g.fail("a vector operation changed its first argument");
    if (&R != &B && vdiff(raw(B), rb) != 0) g.fail("a vector operation changed its second argument");
    if (c.kind == FRE) { /* the metric reads the factors: they must have followed */
        g.close(c.M->Metric(t.X, R, R), vdot(want, want), 1 + vdot(want, want), 1e-8, "metric of the result of a vector operation");
    }
    if (vnrm(a) > 0 && vnrm(b) > 0) g.nontrivial();
}

VP_CHECK("C07", normal_space_coordinates, 150000, 3000000, "the normal space has dimension at least 2") {
    Want w; w.kind = g.pick(std::vector<int>{STIE, STIE, FRE});
    Pt t = makePt(g, w);
    const Conf &c = *t.c;
    int k = c.extr() - c.dim();
    if (k <= 0) throw Discard();
    auto B = c.normals(t.x);
    V nv(c.extr(), 0.0);
    for (auto &b : B) nv = vadd(nv, t.r.normal(), b);
    V tv = c.tangent(t.r, t.x);
    auto E = [&](const V &u) { Vector e(c.M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); std::copy(u.begin(), u.end(), e.ObtainWriteEntireData()); return e; };
    Vector n1(k), n2(k), n3(k);
    Vector nE = E(nv);
    c.M->ObtainNorVerIntr(t.X, nE, &n1);
    if (n1.Getlength() != k) g.fail("the short normal vector has the wrong length");
    g.close(vdot(raw(n1), raw(n1)), vdot(nv, nv), vdot(nv, nv), 1e-9, "squared length of the short normal vector");
    Vector back(c.M->GetEMPTYEXTR());
    c.M->ObtainNorVerExtr(t.X, n1, &back);
    closeV(g, raw(back), nv, vnrm(nv), 1e-9, "normal vector to short form and back");
    /* only the normal part of an ambient vector counts */
    c.M->ObtainNorVerIntr(t.X, E(vadd(nv, 1, tv)), &n2);
    closeV(g, raw(n2), raw(n1), vnrm(nv) + vnrm(tv), 1e-9, "normal coordinates of a vector with a tangent part");
    V cv(k); double *q = n3.ObtainWriteEntireData(); for (int i = 0; i < k; i++) q[i] = cv[i] = t.r.normal();
    c.M->ObtainNorVerExtr(t.X, n3, &back);
    V bv = raw(back);
    g.close(vdot(bv, bv), vdot(cv, cv), vdot(cv, cv), 1e-9, "squared length of the ambient form of normal coordinates");
    closeV(g, c.project(t.x, bv), V(c.extr(), 0.0), vnrm(bv), 1e-9, "tangent part of a normal vector");
    c.M->ObtainNorVerIntr(t.X, back, &n2);
    closeV(g, raw(n2), cv, vnrm(cv), 1e-9, "normal coordinates to ambient and back");
    if (vdiff(raw(t.X), t.x) != 0) g.fail("a normal-space operation changed the point");
    if (k >= 2) g.nontrivial();
}
