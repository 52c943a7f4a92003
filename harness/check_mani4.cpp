/* C11 product manifolds against their factors */
#include "manihelp.h"
using namespace vp;

namespace {
struct Node {
    CP c;                          /* leaf */
    std::vector<std::shared_ptr<Node>> kids; std::vector<int> pows; /* product: kids repeated */
    std::shared_ptr<Manifold> own; Manifold *M = nullptr;
    std::vector<Conf *> leaves() const {
        if (c) return {c.get()};
        std::vector<Conf *> r;
        for (size_t i = 0; i < kids.size(); i++) for (int k = 0; k < pows[i]; k++) for (Conf *l : kids[i]->leaves()) r.push_back(l);
        return r;
    }
    std::vector<Node *> comps() const { std::vector<Node *> r; for (size_t i = 0; i < kids.size(); i++) for (int k = 0; k < pows[i]; k++) r.push_back(kids[i].get()); return r; }
    typedef std::vector<V>::const_iterator It;
    Element assemble(const Element &empty, It &it, std::function<Element(Node &, It &)> f) const {
        Element e(empty); e.NewMemoryOnWrite();
        int j = 0;
        for (Node *k : comps()) { Element s = f(*k, it); e.GetElement(j++) = s; }
        return e;
    }
    Variable elem(It &it) const {
        if (c) return c->elem(*it++);
        return assemble(M->GetEMPTYEXTR(), it, [](Node &k, It &i) -> Element { return k.elem(i); });
    }
    /* an element of the ambient shape with the given coordinates; no companion data */
    Vector amb(It &it) const {
        if (c) { Vector e(M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); const V &v = *it++; std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; }
        return assemble(M->GetEMPTYEXTR(), it, [](Node &k, It &i) -> Element { return k.amb(i); });
    }
    Vector ext(const Variable &x, It &it) const {
        if (c) return c->ext(x, *it++);
        int j = 0;
        return assemble(M->GetEMPTYEXTR(), it, [&](Node &k, It &i) -> Element { return k.ext(x.GetElement(j++), i); });
    }
    Vector vec(const Variable &x, It &it) const {
        if (c) return c->vec(x, *it++);
        int j = 0;
        return assemble(M->GetEMPTYINTR(), it, [&](Node &k, It &i) -> Element { return k.vec(x.GetElement(j++), i); });
    }
    Vector empty() const { if (c) return c->intr ? M->GetEMPTYINTR() : M->GetEMPTYEXTR(); return M->GetEMPTYINTR(); }
    int repLen() const { int s = 0; for (Conf *l : leaves()) s += l->intr ? l->dim() : l->extr(); return s; }
    bool anyHHR() const { if (M->GetHasHHR()) return true; for (Conf *l : leaves()) if (l->hhr) return true; return false; }
};
typedef std::shared_ptr<Node> NP;

bool opTransportOK(const Conf &c) {
    if (c.cayley || c.kind == SPHERETX || c.kind == FRE || c.partr || c.proj) return false;
    return c.intr || c.kind == EUC;
}
bool dirOK(const Conf &c) { return !(c.kind == SPD && c.spdexp); }
bool coTanOK(const Conf &c) { return (c.kind == STIE && !c.z && !c.polar && !c.cayley) || c.kind == SPHERE || c.kind == GRASS || c.kind == EUC; }

NP leaf(Gen &g, bool hhr, int maxn, bool op) {
    for (int t = 0; op && t < 8; t++) { /* only factors that transport operators */
        Want w; w.maxn = maxn; w.allowHHR = false; w.kind = g.pick(std::vector<int>{STIE, GRASS, SYM, F2, SPD, SPHERE, EUC});
        NP n = std::make_shared<Node>(); n->c = makeConf(g, w); n->M = n->c->M;
        if (opTransportOK(*n->c)) return n;
    }
    if (op) throw Discard();
    Want w; w.maxn = maxn; w.allowHHR = hhr;
    NP n = std::make_shared<Node>(); n->c = makeConf(g, w); n->M = n->c->M; return n;
}
NP product(Gen &g, int depth, bool hhrTop, bool op) {
    NP n = std::make_shared<Node>();
    bool leafHHR = g.chance(1, 4) && !hhrTop;
    int types = g.integer(1, depth ? 3 : 2);
    int total = 0;
    for (int i = 0; i < types; i++) {
        int pw = g.chance(1, 2) ? 1 : g.integer(1, 3);
        if (depth && g.chance(1, 5)) n->kids.push_back(product(g, 0, hhrTop, op)); else n->kids.push_back(leaf(g, leafHHR, depth ? 5 : 4, op));
        n->pows.push_back(pw); total += pw;
    }
    std::vector<Manifold *> ms; std::vector<integer> pi(1, 0);
    for (int i = 0; i < types; i++) { ms.push_back(n->kids[i]->M); pi.push_back(pi.back() + n->pows[i]); }
    Manifold *P;
    if (g.boolean()) P = new ROPTLIB::MultiManifolds(ms.data(), types, pi.data());
    else switch (types) {
        case 1: P = new ROPTLIB::MultiManifolds(1, ms[0], (integer) n->pows[0]); break;
        case 2: P = new ROPTLIB::MultiManifolds(2, ms[0], (integer) n->pows[0], ms[1], (integer) n->pows[1]); break;
        default: P = new ROPTLIB::MultiManifolds(3, ms[0], (integer) n->pows[0], ms[1], (integer) n->pows[1], ms[2], (integer) n->pows[2]);
    }
    n->own.reset(P); n->M = P;
    if (hhrTop && depth) P->SetHasHHR(true);
    return n;
}
std::string nameOf(const Node &n) {
    if (n.c) return n.c->name;
    std::string s = "["; for (size_t i = 0; i < n.kids.size(); i++) { std::ostringstream o; o << (i ? " x " : "") << nameOf(*n.kids[i]) << "^" << n.pows[i]; s += o.str(); }
    return s + "]";
}
struct Case {
    NP n; std::vector<Conf *> L; std::vector<Node *> C; SplitMix r; std::vector<V> x; Variable X;
    std::vector<int> first; /* leaf index of the first leaf of every component */
    Case(Gen &g, bool hhrTop, bool op = false) : r(0) {
        n = product(g, 1, hhrTop, op);
        L = n->leaves(); C = n->comps();
        if (L.size() > 9) throw Discard();
        r = g.data();
        int k = 0; for (Node *c : C) { first.push_back(k); k += c->leaves().size(); }
        for (Conf *l : L) x.push_back(l->point(r, g.choice(2)));
        Node::It it = x.begin(); X = n->elem(it);
        g.addNote(nameOf(*n) + " ");
        bool nested = false, rep = false;
        for (auto &k : n->kids) nested |= !k->c;
        for (int p : n->pows) rep |= p > 1;
        if (nested) g.label("nested"); if (rep) g.label("repeated");
    }
    std::vector<V> tang(const std::vector<V> &at, double len) { std::vector<V> a; for (size_t i = 0; i < L.size(); i++) a.push_back(L[i]->tangent(r, at[i], len * ((L[i]->kind == SPD && L[i]->metric) ? 0.3 : 1))); return a; }
    /* standalone objects of component j */
    Variable xj(int j) const { Node::It it = x.begin() + first[j]; return C[j]->elem(it); }
    Vector vj(int j, const Variable &xj, const std::vector<V> &a) const { Node::It it = a.begin() + first[j]; return C[j]->vec(xj, it); }
    Vector V_(const std::vector<V> &a) const { Node::It it = a.begin(); return n->vec(X, it); }
};
void cmp(Gen &g, const Element &got, int j, const Element &want, const std::string &what) {
    V a = raw(got.GetElement(j)), b = raw(want);
    closeV(g, a, b, 1 + vnrm(b), 1e-11, what);
}
} // namespace

VP_CHECK("C11", product_operations_are_componentwise, 150000, 2500000, "at least two components of which one has dimension at least 2") {
    Case k(g, false);
    Node &n = *k.n; Manifold *P = n.M;
    int nc = k.C.size();
    /* shapes and dimensions */
    { int e = 0, d = 0; for (Conf *l : k.L) { e += l->extr(); d += l->M->GetIntrDim(); }
      if (P->GetExtrDim() != e) g.fail("the ambient dimension is not the sum of the factors'");
      if (P->GetIntrDim() != d) g.fail("the dimension is not the sum of the factors'");
      if (P->GetEMPTYEXTR().Getlength() != e) g.fail("the ambient template has the wrong length");
      if (P->GetEMPTYINTR().Getlength() != n.repLen() ) g.fail("the template of short vectors has the wrong length");
      if (P->GetEMPTYEXTR().Getnumofelements() != nc) g.fail("the ambient template has the wrong number of components"); }
    double len = g.choice(4) == 0 ? 0 : g.logreal(0.01, 1.5);
    g.note("len", len);
    std::vector<V> a = k.tang(k.x, len), b = k.tang(k.x, 1), am;
    for (size_t i = 0; i < k.L.size(); i++) if (!retrOK(*k.L[i], k.x[i], a[i])) throw Discard();
    for (Conf *l : k.L) { V v(l->extr()); for (auto &q : v) q = k.r.normal(); am.push_back(v); }
    V x0 = raw(k.X);
    Vector A = k.V_(a), B = k.V_(b);
    V a0 = raw(A), b0 = raw(B);
    Node::It it = am.begin(); Vector E = n.amb(it);
    Vector O(n.empty()), EO(P->GetEMPTYEXTR());
    bool al = g.boolean();
    std::vector<Variable> xs; std::vector<Vector> As, Bs, Es;
    for (int j = 0; j < nc; j++) { xs.push_back(k.xj(j)); As.push_back(k.vj(j, xs[j], a)); Bs.push_back(k.vj(j, xs[j], b)); Node::It i2 = am.begin() + k.first[j]; Es.push_back(k.C[j]->amb(i2)); }
    for (int j = 0; j < nc; j++) { cmp(g, A, j, As[j], "component of the assembled step"); }
    auto comp = [&](const Element &got, const std::string &what, std::function<Element(int)> f) { for (int j = 0; j < nc; j++) cmp(g, got, j, f(j), what); };
    auto Ej = [&](int j) { return Vector(k.C[j]->M->GetEMPTYEXTR()); };
    auto Oj = [&](int j) { return k.C[j]->empty(); };
    /* metric */
    { double s = 0, sc = 0; for (int j = 0; j < nc; j++) { double q = k.C[j]->M->Metric(xs[j], As[j], Bs[j]); s += q; sc += std::fabs(q); }
      g.close(P->Metric(k.X, A, B), s, sc, 1e-12, "metric"); }
    /* projections and representations */
    { Vector T(E); P->ExtrProjection(k.X, T, al ? &T : &EO); Vector R = al ? T : EO;
      comp(R, "ambient projection", [&](int j) { Vector o = Ej(j); k.C[j]->M->ExtrProjection(xs[j], Es[j], &o); return o; });
      Vector I(P->GetEMPTYINTR()); P->ObtainIntr(k.X, R, &I);
      auto pj = [&](int j) { Vector o = Ej(j); k.C[j]->M->ExtrProjection(xs[j], Es[j], &o); return o; };
      comp(I, "short representation", [&](int j) { Vector p = pj(j), o = Oj(j); if (k.C[j]->M->GetIsIntrinsic()) { k.C[j]->M->ObtainIntr(xs[j], p, &o); return o; } return p; });
      Vector X2(P->GetEMPTYEXTR()); P->ObtainExtr(k.X, I, &X2);
      closeV(g, raw(X2), raw(R), 1 + vnrm(raw(R)) * (1 + vnrm(x0)), 1e-8, "short representation and back");
      comp(X2, "ambient representation", [&](int j) { Vector p = pj(j), i = Oj(j), o = Ej(j); if (!k.C[j]->M->GetIsIntrinsic()) return p; k.C[j]->M->ObtainIntr(xs[j], p, &i); k.C[j]->M->ObtainExtr(xs[j], i, &o); return o; });
      Vector S(B); P->Projection(k.X, S, al ? &S : &O); Vector PB = al ? S : O;
      comp(PB, "projection", [&](int j) { Vector o = Oj(j); k.C[j]->M->Projection(xs[j], Bs[j], &o); return o; }); }
    /* linear operations */
    { double s1 = g.real(-2, 2), s2 = g.real(-2, 2); Vector R(O); R = n.empty();
      P->VectorLinearCombination(k.X, s1, A, s2, B, &R); closeV(g, raw(R), vadd(vscale(s1, a0), s2, b0), 1 + 4 * (vnrm(a0) + vnrm(b0)), 1e-12, "linear combination");
      P->ScalarTimesVector(k.X, s1, A, &R); closeV(g, raw(R), vscale(s1, a0), 1 + vnrm(a0), 1e-12, "scalar multiple");
      P->ScalarVectorAddVector(k.X, s1, A, B, &R); closeV(g, raw(R), vadd(b0, s1, a0), 1 + vnrm(a0) + vnrm(b0), 1e-12, "scaled sum"); }
    /* retraction */
    Variable Y(k.X); if (g.boolean()) { bool fre = false; for (Conf *l : k.L) fre |= l->kind == FRE; if (!fre) Y = P->GetEMPTYEXTR(); }
    P->Retraction(k.X, A, &Y);
    std::vector<Variable> ys;
    for (int j = 0; j < nc; j++) { Variable y(xs[j]); k.C[j]->M->Retraction(xs[j], As[j], &y); ys.push_back(y); }
    comp(Y, "retraction", [&](int j) -> Element { return ys[j]; });
    V y0 = raw(Y);
    { double s = 0; for (int j = 0; j < nc; j++) { double d = k.C[j]->M->Dist(xs[j], ys[j]); s += d * d; } s = std::sqrt(s);
      g.close(P->Dist(k.X, Y), s, 1 + s, 1e-10, "distance"); }
    { bool ok = true; for (Conf *l : k.L) ok &= (l->kind == EUC) || (l->kind == STIE && l->polar) || ((l->kind == SYM || l->kind == F2) && !l->intr);
      if (ok) { Vector R(n.empty()); P->InvRetraction(k.X, Y, &R); comp(R, "inverse retraction", [&](int j) { Vector o = Oj(j); k.C[j]->M->InvRetraction(xs[j], ys[j], &o); return o; }); g.label("inverse retraction"); } }
    /* differentials, transports */
    bool dir = true, cot = true, same = g.boolean(); for (Conf *l : k.L) { dir &= dirOK(*l); cot &= coTanOK(*l); if (l->kind == STIE && (l->polar || l->cayley)) same = true; if (l->kind == SPHERETX || l->kind == FRE) same = true; }
    if (same && len == 0) dir = false;
    if (dir) {
        Vector S(same ? A : B), R(n.empty());
        P->DiffRetraction(k.X, A, Y, S, al ? &S : &R, same);
        Vector G = al ? S : R;
        comp(G, "differentiated retraction", [&](int j) { Vector o = Oj(j); k.C[j]->M->DiffRetraction(xs[j], As[j], ys[j], same ? As[j] : Bs[j], &o, same); return o; });
        if (P->Beta(k.X, A) != 1) g.fail("the step ratio is not 1 although the product's locking correction is off");
        g.label("differential");
    }
    if (cot) {
        std::vector<V> yv; for (size_t i = 0; i < k.L.size(); i++) yv.push_back(V());
        /* random vectors at y in the representation in use */
        Vector Z(n.empty()); Z.NewMemoryOnWrite(); double *q = Z.ObtainWriteEntireData(); for (int i = 0; i < Z.Getlength(); i++) q[i] = k.r.normal();
        P->Projection(Y, Z, &Z);
        Vector R(n.empty()), S(Z);
        P->coTangentVector(k.X, A, Y, S, al ? &S : &R);
        Vector G = al ? S : R;
        comp(G, "cotangent vector", [&](int j) { Vector z(Z.GetElement(j)), o = Oj(j); z.CopyOnWrite(); k.C[j]->M->coTangentVector(xs[j], As[j], ys[j], z, &o); return o; });
        g.label("cotangent");
    }
    bool hh = n.anyHHR();
    bool tr = !hh || (dir && same && len > 0.02);
    if (tr) {
        Vector R(n.empty()), S(B);
        P->VectorTransport(k.X, A, Y, S, al ? &S : &R);
        Vector G = al ? S : R;
        auto tj = [&](int j) { Vector o = Oj(j); k.C[j]->M->VectorTransport(xs[j], As[j], ys[j], Bs[j], &o); return o; };
        comp(G, "vector transport", [&](int j) { return tj(j); });
        bool inv = true; for (Conf *l : k.L) inv &= !(l->cayley);
        if (inv) {
            Vector S2(G), R2(n.empty());
            P->InverseVectorTransport(k.X, A, Y, S2, al ? &S2 : &R2);
            Vector G2 = al ? S2 : R2;
            comp(G2, "inverse vector transport", [&](int j) { Vector t = tj(j), o = Oj(j); k.C[j]->M->InverseVectorTransport(xs[j], As[j], ys[j], t, &o); return o; });
        }
        g.label(hh ? "transport with locking factors" : "transport");
    }
    /* gradient and Hessian conversion */
    {
        Stub st(P, true);
        Vector EG(E), G(P->GetEMPTYEXTR());
        P->EucGradToGrad(k.X, EG, &st, al ? &EG : &G);
        Vector R = al ? EG : G;
        std::vector<std::shared_ptr<Stub>> sts; for (int j = 0; j < nc; j++) sts.push_back(std::make_shared<Stub>(k.C[j]->M, true));
        std::vector<Variable> zs; for (int j = 0; j < nc; j++) zs.push_back(k.xj(j));
        std::vector<Vector> gj; for (int j = 0; j < nc; j++) { Vector e(Es[j]), o = Ej(j); e.CopyOnWrite(); k.C[j]->M->EucGradToGrad(zs[j], e, sts[j].get(), &o); gj.push_back(o); }
        comp(R, "gradient conversion", [&](int j) { return gj[j]; });
        Node::It i3 = b.begin(); Vector XB = n.ext(k.X, i3);
        std::vector<V> hm; for (Conf *l : k.L) { V v(l->extr()); for (auto &q : v) q = k.r.normal(); hm.push_back(v); }
        Node::It i4 = hm.begin(); Vector HV = n.amb(i4), HO(P->GetEMPTYEXTR());
        P->EucHvToHv(k.X, XB, HV, &st, al ? &HV : &HO);
        Vector RH = al ? HV : HO;
        comp(RH, "Hessian conversion", [&](int j) { Node::It i5 = b.begin() + k.first[j]; Vector xb = k.C[j]->ext(zs[j], i5); Node::It i6 = hm.begin() + k.first[j]; Vector hv = k.C[j]->amb(i6), o = Ej(j);
            k.C[j]->M->EucHvToHv(zs[j], xb, hv, sts[j].get(), &o); return o; });
    }
    if (vdiff(raw(k.X), x0) != 0) g.fail("an operation of the product changed the point");
    if (vdiff(raw(Y), y0) != 0) g.fail("an operation of the product changed the retracted point");
    if (vdiff(raw(A), a0) != 0) g.fail("an operation of the product changed the step");
    if (vdiff(raw(B), b0) != 0) g.fail("an operation of the product changed the transported vector");
    bool big = false; for (Conf *l : k.L) big |= l->dim() >= 2;
    if (nc >= 2 && big) g.nontrivial();
}

VP_CHECK("C11", random_points_of_products, 60000, 800000, "at least two components") {
    Case k(g, false);
    genrandseed(g.choice(1000000) + 1);
    Variable R = k.n->M->RandominManifold();
    V all = raw(R);
    int off = 0; std::vector<V> parts;
    for (Conf *l : k.L) { V p(all.begin() + off, all.begin() + off + l->extr()); off += l->extr(); parts.push_back(p);
        double d = l->infeas(p); if (!(d <= 1e-9)) { std::ostringstream o; o << "a component of a random point violates its constraints by " << d << " (" << l->name << ")"; g.fail(o.str()); } }
    if (off != (int) all.size()) g.fail("a random point of the product has the wrong number of coordinates");
    for (size_t i = 0; i + 1 < k.L.size(); i++) if (k.L[i] == k.L[i + 1] && k.L[i]->dim() > 0 && vdiff(parts[i], parts[i + 1]) == 0) g.fail("repeated factors received the same random point");
    if (k.L.size() >= 2) g.nontrivial();
}

VP_CHECK("C11", step_ratio_from_components, 20000, 400000, "at least two components, one with and one without a step ratio of its own") {
    Case k(g, true, false);
    Node &n = *k.n; Manifold *P = n.M;
    std::vector<V> a = k.tang(k.x, g.logreal(0.05, 2));
    Vector A0 = k.V_(a), A(A0);
    bool was = P->GetHasHHR(); P->SetHasHHR(true);
    double num = 0, den = 0; int with = 0, nc = (int) k.C.size();
    for (int j = 0; j < nc; j++) {
        double m = k.C[j]->M->Metric(k.xj(j), A.GetElement(j), A.GetElement(j));
        num += m;
        if (g.boolean()) { with++; double b = g.logreal(0.2, 5); Vector be(3); double *q = be.ObtainWriteEntireData(); q[0] = b; q[1] = m; q[2] = m / b / b; A.GetElement(j).AddToFields("beta", be); den += m / b / b; }
        else den += m;
    }
    double got = P->Beta(k.X, A);
    P->SetHasHHR(was);
    if (num < 1e-12) throw Discard();
    double want = std::sqrt(num / den);
    g.close(got, want, want, 1e-10, "step ratio combined from the components");
    if (with && with < nc) g.nontrivial();
}

VP_CHECK("C11", product_operator_transport_and_updates, 100000, 2000000, "the transported operator acts across at least two components") {
    bool hhr = g.chance(1, 3);
    Case k(g, hhr, true);
    Node &n = *k.n; Manifold *P = n.M;
    for (Conf *l : k.L) if (!opTransportOK(*l) || l->hhr) throw Discard();
    if (n.anyHHR() && !hhr) throw Discard();
    double len = g.logreal(0.05, 1);
    std::vector<V> a = k.tang(k.x, len), b = k.tang(k.x, 1);
    for (size_t i = 0; i < k.L.size(); i++) if (!retrOK(*k.L[i], k.x[i], a[i])) throw Discard();
    Vector A = k.V_(a), B = k.V_(b);
    Variable Y(k.X);
    P->Retraction(k.X, A, &Y);
    int N = n.repLen();
    auto rnd = [&]() { V v(N); for (auto &q : v) q = k.r.normal(); return v; };
    auto mk = [&](const V &v) { Vector e(n.empty()); e.NewMemoryOnWrite(); std::copy(v.begin(), v.end(), e.ObtainWriteEntireData()); return e; };
    if (N < 1) throw Discard();
    if (hhr) {
        for (Conf *l : k.L) if (!dirOK(*l)) throw Discard();
        Vector DR(n.empty());
        P->DiffRetraction(k.X, A, Y, A, &DR, true);
        double na = std::sqrt(P->Metric(k.X, A, A)), nd = std::sqrt(P->Metric(Y, DR, DR));
        if (nd < 0.05 * na || na < 1e-3) throw Discard();
        if (!A.FieldsExist("beta") || !A.FieldsExist("betaTReta")) g.fail("the step ratio was not attached to the step");
        V be = raw(A.Field("beta"));
        g.close(P->Beta(k.X, A), na / nd, na / nd, 1e-9, "step ratio of the product");
        g.close(be[0], na / nd, na / nd, 1e-9, "attached step ratio");
        g.close(be[1], na * na, na * na, 1e-9, "attached squared length of the step");
        g.close(be[2], nd * nd, nd * nd, 1e-9, "attached squared length of the image");
        V tr = raw(A.Field("betaTReta"));
        closeV(g, tr, vscale(na / nd, raw(DR)), na, 1e-9, "attached image of the step");
        Vector O(n.empty());
        P->VectorTransport(k.X, A, Y, A, &O);
        closeV(g, raw(O), tr, na, 1e-7, "locking condition of the product");
        V z1 = rnd(), z2 = rnd();
        Vector O1(n.empty()), O2(n.empty()), Z1 = mk(z1), Z2 = mk(z2);
        P->VectorTransport(k.X, A, Y, Z1, &O1); P->VectorTransport(k.X, A, Y, Z2, &O2);
        g.close(P->Metric(Y, O1, O2), P->Metric(k.X, Z1, Z2), vnrm(z1) * vnrm(z2), 1e-8, "metric of two transported vectors of the product");
        Vector Bk(n.empty()); P->InverseVectorTransport(k.X, A, Y, O1, &Bk);
        closeV(g, raw(Bk), z1, vnrm(z1), 1e-8, "inverse transport of the product");
        g.label("locking");
    }
    Mat Hm = randMat(k.r, N, N, false);
    ROPTLIB::LinearOPE Hx(N, N), R(N, N); { double *q = Hx.ObtainWriteEntireData(); for (size_t i = 0; i < Hm.a.size(); i++) q[i] = Hm.a[i].real(); }
    bool alias = g.boolean();
    ROPTLIB::LinearOPE *res = alias ? &Hx : &R;
    P->TranHInvTran(k.X, A, Y, Hx, res);
    auto app = [&](const Mat &M, const V &v) { Mat c(N, 1); for (int i = 0; i < N; i++) c(i, 0) = v[i]; return mv1(M * c, false); };
    double sc = N * maxabs(Hm) * 5;
    V z = rnd(); Vector Z = mk(z), O(n.empty()), O2(n.empty());
    P->InverseVectorTransport(k.X, A, Y, Z, &O);
    Vector HZ = mk(app(Hm, raw(O)));
    P->VectorTransport(k.X, A, Y, HZ, &O2);
    Mat Rm = toMat(*res);
    if (Rm.r != N || Rm.c != N) g.fail("the transported operator has another shape");
    closeV(g, app(Rm, z), raw(O2), sc * vnrm(z), 1e-9, "operator of the product transported on both sides");
    /* rank-one update and action at x */
    { ROPTLIB::LinearOPE H2(N, N), R2(N, N); double *q = H2.ObtainWriteEntireData(); for (size_t i = 0; i < Hm.a.size(); i++) q[i] = Hm.a[i].real();
      double s = g.real(-2, 2);
      ROPTLIB::LinearOPE *r2 = g.boolean() ? &H2 : &R2;
      P->HaddScaledRank1OPE(k.X, H2, s, A, B, r2);
      V w = rnd(); Vector W = mk(w), U(n.empty());
      P->LinearOPEEta(k.X, *r2, W, &U);
      double pr = P->Metric(k.X, B, W);
      closeV(g, raw(U), vadd(app(Hm, w), s * pr, raw(A)), sc * vnrm(w) + 3 * vnrm(raw(A)) * vnrm(raw(B)) * vnrm(w), 1e-9, "action of the updated operator of the product"); }
    if (k.C.size() >= 2) g.nontrivial();
}

VP_CHECK("C12", product_inputs_and_aliasing, 150000, 3000000, "at least two components") {
    /* every operation of a product into a fresh output, onto its own input and onto storage shared with other elements */
    Case k(g, false);
    Node &n = *k.n; Manifold *P = n.M;
    double len = g.real(0.1, 1);
    std::vector<V> a = k.tang(k.x, len), b = k.tang(k.x, 1), am, hm;
    for (size_t i = 0; i < k.L.size(); i++) if (!retrOK(*k.L[i], k.x[i], a[i])) throw Discard();
    for (Conf *l : k.L) { V v(l->extr()), w(l->extr()); for (auto &q : v) q = k.r.normal(); for (auto &q : w) q = k.r.normal(); am.push_back(v); hm.push_back(w); }
    Vector A = k.V_(a), B = k.V_(b);
    Node::It it = am.begin(); Vector E = n.amb(it);
    Node::It ih = hm.begin(); Vector HV = n.amb(ih);
    Variable Y(k.X); P->Retraction(k.X, A, &Y);
    Vector Z(n.empty()); Z.NewMemoryOnWrite(); { double *q = Z.ObtainWriteEntireData(); for (int i = 0; i < Z.Getlength(); i++) q[i] = k.r.normal(); } P->Projection(Y, Z, &Z);
    bool dir = true, cot = true, gen = true, inv = true;
    for (Conf *l : k.L) { dir &= dirOK(*l); cot &= coTanOK(*l); inv &= !l->cayley; if ((l->kind == STIE && (l->polar || l->cayley)) || l->kind == SPHERETX || l->kind == FRE) gen = false; }
    bool tr = !n.anyHHR() || (dir && gen);
    if (n.anyHHR() && !tr) throw Discard();
    Stub st(P, true);
    Node::It ib = b.begin(); Vector XB = n.ext(k.X, ib);
    int op = g.integer(0, 10);
    typedef std::function<void(const Vector &, Vector *)> F;
    F f; const Vector *in = &B; bool ambient = false; const char *nm = "";
    switch (op) {
    case 0: nm = "ExtrProjection"; in = &E; ambient = true; f = [&](const Vector &i, Vector *o) { P->ExtrProjection(k.X, i, o); }; break;
    case 1: nm = "Projection"; f = [&](const Vector &i, Vector *o) { P->Projection(k.X, i, o); }; break;
    case 2: nm = "DiffRetraction"; if (!dir || !gen) throw Discard(); f = [&](const Vector &i, Vector *o) { P->DiffRetraction(k.X, A, Y, i, o, false); }; break;
    case 3: nm = "DiffRetraction along the step"; if (!dir) throw Discard(); in = &A; f = [&](const Vector &i, Vector *o) { P->DiffRetraction(k.X, A, Y, i, o, true); }; break;
    case 4: nm = "coTangentVector"; if (!cot) throw Discard(); in = &Z; f = [&](const Vector &i, Vector *o) { P->coTangentVector(k.X, A, Y, i, o); }; break;
    case 5: nm = "VectorTransport"; f = [&](const Vector &i, Vector *o) { P->VectorTransport(k.X, A, Y, i, o); }; break;
    case 6: nm = "InverseVectorTransport"; if (!inv) throw Discard(); in = &Z; f = [&](const Vector &i, Vector *o) { P->InverseVectorTransport(k.X, A, Y, i, o); }; break;
    case 7: nm = "EucGradToGrad"; in = &E; ambient = true; f = [&](const Vector &i, Vector *o) { P->EucGradToGrad(k.X, i, &st, o); }; break;
    case 8: nm = "EucHvToHv"; in = &HV; ambient = true; { Vector G(P->GetEMPTYEXTR()); P->EucGradToGrad(k.X, E, &st, &G); } f = [&](const Vector &i, Vector *o) { P->EucHvToHv(k.X, XB, i, &st, o); }; break;
    case 9: nm = "ScalarTimesVector"; f = [&](const Vector &i, Vector *o) { P->ScalarTimesVector(k.X, -1.5, i, o); }; break;
    case 10: nm = "VectorLinearCombination"; f = [&](const Vector &i, Vector *o) { P->VectorLinearCombination(k.X, 2, A, -0.5, i, o); }; break;
    }
    g.note("op", nm);
    Vector O(ambient ? Vector(P->GetEMPTYEXTR()) : n.empty());
    V x0 = raw(k.X), y0 = raw(Y), a0 = raw(A), i0 = raw(*in), e0 = raw(E), xb0 = raw(XB);
    auto same = [&](const char *when) {
        if (vdiff(raw(k.X), x0) != 0 || vdiff(raw(Y), y0) != 0 || vdiff(raw(A), a0) != 0 || vdiff(raw(*in), i0) != 0 || vdiff(raw(E), e0) != 0 || vdiff(raw(XB), xb0) != 0) g.fail(std::string(nm) + " of a product changed an input " + when);
    };
    f(*in, &O); V ref = raw(O); same("");
    { Vector T(*in); f(T, &T); closeV(g, raw(T), ref, 1 + vnrm(ref), 1e-11, std::string(nm) + " onto its own input, which shares its storage"); same("sharing storage with the output"); }
    { Vector T(*in); T.CopyOnWrite(); if (op != 3) f(T, &T); else T = O; closeV(g, raw(T), ref, 1 + vnrm(ref), 1e-11, std::string(nm) + " onto its own input"); same(""); }
    { Vector T(ambient ? HV : Z), keep(T); V k0 = raw(keep); f(*in, &T); closeV(g, raw(T), ref, 1 + vnrm(ref), 1e-11, std::string(nm) + " onto shared storage"); if (vdiff(raw(keep), k0) != 0) g.fail(std::string(nm) + " of a product wrote into an element that shared storage with the output"); same(""); }
    if (k.C.size() >= 2) g.nontrivial();
}
