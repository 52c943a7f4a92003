/* C01 value semantics and C02 cached fields: random histories over a pool of variables against a model. */
#include <algorithm>
#include <memory>
#include "ref.h"
using namespace vp;
using namespace ROPTLIB;

namespace {
struct Var {
    std::unique_ptr<Element> e;
    Mat m;             /* model of the value */
    bool cplx = false;
    std::vector<std::pair<int, int>> comp; /* shapes of the components, when a product (all real here or per-comp complex) */
    std::vector<bool> compC;
    bool hasTag = false;
    Mat tag;           /* model of the user field "tag" */
    bool tagKnown = true;
    bool empty = false;
};

/* A x = b with the packed factorisation of LAPACK */
Mat unpackLU(const Mat &LU, const int *piv) {
    int n = LU.r;
    Mat L = Mat::eye(n), U(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i > j) L(i, j) = LU(i, j); else U(i, j) = LU(i, j);
    Mat A = L * U;
    for (int k = n - 1; k >= 0; k--) { int p = piv[k] - 1; if (p != k) for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); }
    return A;
}

void factorsValid(Gen &g, const Element &e, const Mat &A, const std::string &when) {
    double sc = std::max(1e-3, nrm(A)) * (A.r + 2);
    if (e.FieldsExist("_Q") && e.FieldsExist("_R")) closeM(g, toMat(e.Field("_Q")) * toMat(e.Field("_R")), A, sc, 1e-9, "stale QR factors " + when);
    if (e.FieldsExist("_HHR") && e.FieldsExist("_tau")) {
        Mat F = toMat(e.Field("_HHR")), R(F.r, F.c);
        if (F.r != A.r || F.c != A.c) g.fail("stale Householder factors (shape) " + when);
        for (int j = 0; j < F.c; j++) for (int i = 0; i <= j && i < F.r; i++) R(i, j) = F(i, j);
        closeM(g, H(R) * R, H(A) * A, sc * sc, 1e-9, "stale Householder factors " + when);
    }
    if (e.FieldsExist("_U") && e.FieldsExist("_S") && e.FieldsExist("_Vt")) {
        Mat U = toMat(e.Field("_U")), S = toMat(e.Field("_S")), V = toMat(e.Field("_Vt"));
        Mat D(U.c, V.r); for (int i = 0; i < std::min(U.c, V.r); i++) D(i, i) = S(i, 0);
        closeM(g, U * D * V, A, sc, 1e-9, "stale singular value decomposition " + when);
    }
    if (e.FieldsExist("_EigVal") && e.FieldsExist("_EigVec")) {
        Mat W = toMat(e.Field("_EigVal")), V = toMat(e.Field("_EigVec"));
        Mat D(V.c, V.c); for (int i = 0; i < V.c; i++) D(i, i) = W(i, 0);
        closeM(g, V * D * H(V), A, sc, 1e-9, "stale eigenvalue decomposition " + when);
    }
    if (e.FieldsExist("_L")) { Mat L = toMat(e.Field("_L")); closeM(g, L * H(L), A, sc, 1e-9, "stale Cholesky factor " + when); }
    if (e.FieldsExist("_LU") && e.FieldsExist("_P"))
        closeM(g, unpackLU(toMat(e.Field("_LU")), (const int *) e.Field("_P").ObtainReadData()), A, sc, 1e-9, "stale LU factors " + when);
    if (e.FieldsExist("_SchurForm") && e.FieldsExist("_SchurVec")) {
        Mat T = toMat(e.Field("_SchurForm")), V = toMat(e.Field("_SchurVec"));
        closeM(g, V * T * H(V), A, sc, 1e-9, "stale Schur form " + when);
    }
}

void fieldsValid(Gen &g, const Var &v, const std::string &when) {
    const Element &e = *v.e;
    factorsValid(g, e, v.m, when);
    for (size_t c = 0; c < v.comp.size(); c++) factorsValid(g, e.GetElement((int) c), toMat(e.GetElement((int) c)), "of component " + std::to_string(c) + " " + when);
    if (e.FieldsExist("tag") != v.hasTag && v.tagKnown) g.fail(std::string(v.hasTag ? "a stored field was lost " : "a stored field survived a change of its element ") + when);
    if (v.hasTag && e.FieldsExist("tag")) closeM(g, toMat(e.Field("tag")), v.tag, 1, 0, "value of a stored field " + when);
}

Var fresh(Gen &g, SplitMix &r) {
    Var v;
    int kind = g.integer(0, 9);
    if (kind >= 8) { /* product */
        int nt = g.integer(1, 3);
        std::vector<Element> types; std::vector<integer> pw(1, 0);
        int len = 0;
        for (int t = 0; t < nt; t++) {
            int a = g.integer(1, 3), b = g.integer(1, 2), k = g.integer(1, 2); bool c = g.chance(1, 4);
            types.push_back(Element(a, b, 1, c)); pw.push_back(pw.back() + k);
            for (int j = 0; j < k; j++) { v.comp.push_back({a, b}); v.compC.push_back(c); len += a * b * (c ? 2 : 1); }
        }
        v.e.reset(new Element(nt, types.data(), pw.data()));
        v.m = Mat(len, 1);
        double *p = v.e->ObtainWriteEntireData();
        v.e->NewMemoryOnWrite();
        p = v.e->ObtainWriteEntireData();
        for (int i = 0; i < len; i++) { p[i] = r.normal(); v.m(i, 0) = p[i]; }
        return v;
    }
    v.cplx = kind >= 5;
    int a = g.integer(1, 4), b = g.integer(1, 4);
    if (g.chance(1, 3)) b = a;
    v.m = randMat(r, a, b, v.cplx);
    if (a == b && g.chance(1, 2)) { v.m = v.m * H(v.m); for (int i = 0; i < a; i++) v.m(i, i) = v.m(i, i).real() + 0.5; v.m = sym(v.m); }
    v.e.reset(new Element(fromMat(v.m, v.cplx)));
    return v;
}

bool hermitian(const Mat &A) { return A.r == A.c && maxabs(A - H(A)) == 0; }

void syncModel(Var &v) { /* after an in-place operation whose result has been compared: use the exact stored value as the model */
    if (v.comp.empty()) v.m = toMat(*v.e);
    else { auto d = raw(*v.e); for (size_t i = 0; i < d.size(); i++) v.m.a[i] = d[i]; }
}
void dropTag(Var &v) { v.hasTag = false; v.tagKnown = true; }

void historyBody(Gen &g, bool values, bool fields, std::string &hist) {
    SplitMix r = g.data();
    genrandseed(g.choice(1000) + 1);
    int K = g.integer(2, 5), steps = g.integer(3, 28);
    std::vector<Var> P;
    for (int i = 0; i < K; i++) P.push_back(fresh(g, r));
    int muts = 0, copies = 0, decs = 0;
    for (int s = 0; s < steps; s++) {
        int k = g.integer(0, K - 1), j = g.integer(0, K - 1);
        Var &x = P[k], &y = P[j];
        std::vector<std::vector<double>> before(K);
        for (int i = 0; i < K; i++) before[i] = raw(*P[i].e);
        bool mat = x.comp.empty();
        int op = g.integer(0, 29);
        double al = r.normal(), be = r.normal();
        realdpcomplex za; za.r = r.normal(); za.i = r.normal();
        realdpcomplex zb; zb.r = r.normal(); zb.i = r.normal();
        cd ca(za.r, za.i), cb(zb.r, zb.i);
        hist += "op" + std::to_string(op) + "(" + std::to_string(k) + "," + std::to_string(j) + ")" ;
        Mat want = x.m; bool changed = false; double tol = 1e-12, scl = nrm(x.m) + 1;
        std::string nm = "none";
        if (op <= 4) { /* assignment (copies share storage until written) */
            nm = "assign";
            *x.e = *y.e;
            if (k != j) { x.m = y.m; x.cplx = y.cplx; x.comp = y.comp; x.compC = y.compC; x.hasTag = y.hasTag; x.tag = y.tag; x.tagKnown = y.tagKnown; copies++; }
            want = x.m; tol = 0;
        } else if (op <= 7) {
            nm = "copyconstruct";
            if (k != j) { Element *n = new Element(*y.e); x.e.reset(n); x.m = y.m; x.cplx = y.cplx; x.comp = y.comp; x.compC = y.compC; x.hasTag = y.hasTag; x.tag = y.tag; x.tagKnown = y.tagKnown; copies++; }
            want = x.m; tol = 0;
        } else if (op == 8) { nm = "setzero"; x.e->SetToZeros(); for (auto &q : want.a) q = 0; changed = true; tol = 0;
        } else if (op == 9) { nm = "rand";
            bool gs = g.boolean(); if (gs) x.e->RandGaussian(); else x.e->RandUnform(-1, 2); changed = true;
            for (double q : raw(*x.e)) if (!std::isfinite(q) || (!gs && !(q >= -1 && q <= 2))) g.fail("random fill out of range");
            if (mat) want = toMat(*x.e); else { auto d = raw(*x.e); for (size_t i = 0; i < d.size(); i++) want.a[i] = d[i]; }
        } else if (op == 10 && mat) { nm = "identity"; x.e->SetToIdentity(); want = Mat(want.r, want.c); for (int i = 0; i < std::min(want.r, want.c); i++) want(i, i) = 1; changed = true; tol = 0;
        } else if (op == 11 && mat && !x.cplx && want.r == want.c) { nm = "scaledid"; x.e->ScaledIdOPE(al); want = cd(al) * Mat::eye(want.r); changed = true; tol = 0;
        } else if (op == 12) { nm = "writeall"; double *p = x.e->ObtainWriteEntireData(); int L = x.e->Getlength(); changed = true; tol = 0;
            for (int i = 0; i < L; i++) { p[i] = r.normal(); if (x.cplx) { if (i % 2) want.a[i / 2].imag(p[i]); else want.a[i / 2].real(p[i]); } else want.a[i] = p[i]; }
        } else if (op == 13) { nm = "writepart"; double *p = x.e->ObtainWritePartialData(); int L = x.e->Getlength(), i = g.integer(0, L - 1); changed = true; tol = 0;
            p[i] = r.normal(); if (x.cplx) { if (i % 2) want.a[i / 2].imag(p[i]); else want.a[i / 2].real(p[i]); } else want.a[i] = p[i];
        } else if (op == 14) { nm = "copyonwrite"; x.e->CopyOnWrite(); changed = true; tol = 0;
        } else if (op == 15) { nm = "scale"; x.e->ScalarTimesThis(al); want = cd(al) * want; changed = true;
        } else if (op == 16 && x.cplx) { nm = "scalez"; x.e->ScalarTimesThis(za); want = ca * want; changed = true;
        } else if (op == 17 && x.m.r == y.m.r && x.m.c == y.m.c && x.cplx == y.cplx && x.e->Getlength() == y.e->Getlength()) { nm = "axpy"; scl += std::fabs(al) * nrm(y.m); want = want + cd(al) * y.m; x.e->AlphaXaddThis(al, *y.e); changed = true;
        } else if (op == 18 && x.m.r == y.m.r && x.m.c == y.m.c && x.cplx && y.cplx && mat && y.comp.empty()) { nm = "zaxpy"; scl += std::abs(ca) * nrm(y.m); want = want + ca * y.m; x.e->AlphaXaddThis(za, *y.e); changed = true;
        } else if (op == 19 && mat) { nm = "hadd1";
            Mat u = randMat(r, want.r, 1, x.cplx), v = randMat(r, want.c, 1, false); /* real v: the header's v' does not say whether it conjugates */
            Element eu = fromMat(u, x.cplx), ev = fromMat(v, x.cplx);
            bool get = g.boolean();
            if (x.cplx) { if (get) *x.e = x.e->GetHaddRankone(za, eu, ev); else x.e->HaddRankone(za, eu, ev); want = want + ca * (u * H(v)); }
            else { if (get) *x.e = x.e->GetHaddRankone(al, eu, ev); else x.e->HaddRankone(al, eu, ev); want = want + cd(al) * (u * H(v)); }
            changed = true; scl += (std::abs(ca) + std::fabs(al)) * nrm(u) * nrm(v);
        } else if (op == 20 && x.cplx) { nm = "conj"; if (g.boolean()) x.e->Conj(); else *x.e = x.e->GetConj(); want = conjM(want); changed = true; tol = 0;
        } else if (op == 21 && mat) { nm = "transpose"; if (g.boolean()) x.e->Transpose(); else *x.e = x.e->GetTranspose(); want = H(want); changed = true; tol = 0;
        } else if (op == 22 && mat) { nm = "reshape"; std::vector<int> dv; int L = want.r * want.c; for (int d = 1; d <= L; d++) if (L % d == 0) dv.push_back(d);
            int d = g.pick(dv); bool same = d == want.r; x.e->Reshape(d, L / d); want.r = d; want.c = L / d; tol = 0;
            if (!same) { x.hasTag = x.e->FieldsExist("tag"); } /* whether a user field survives a reshape is not specified */
            x.m = want;
        } else if (op == 23 && mat) { nm = "subassign"; int a0 = g.integer(0, want.r - 1), a1 = g.integer(a0, want.r - 1), b0 = g.integer(0, want.c - 1), b1 = g.integer(b0, want.c - 1);
            Mat q = randMat(r, a1 - a0 + 1, b1 - b0 + 1, x.cplx); x.e->SubmatrixAssignment(a0, a1, b0, b1, fromMat(q, x.cplx));
            for (int jj = b0; jj <= b1; jj++) for (int i = a0; i <= a1; i++) want(i, jj) = q(i - a0, jj - b0);
            changed = true; tol = 0;
        } else if (op == 24 && mat) { nm = "gemm"; int kk = g.integer(1, 3); bool ta = g.boolean(), tb = g.boolean();
            Mat A = ta ? randMat(r, kk, want.r, x.cplx) : randMat(r, want.r, kk, x.cplx), B = tb ? randMat(r, want.c, kk, x.cplx) : randMat(r, kk, want.c, x.cplx);
            Element eA = fromMat(A, x.cplx), eB = fromMat(B, x.cplx);
            Mat oA = ta ? H(A) : A, oB = tb ? H(B) : B; char *T = x.cplx ? GLOBAL::C : GLOBAL::T;
            if (x.cplx && g.boolean()) { x.e->AlphaABaddBetaThis(za, eA, ta ? T : GLOBAL::N, eB, tb ? T : GLOBAL::N, zb); want = ca * (oA * oB) + cb * want; }
            else { x.e->AlphaABaddBetaThis(al, eA, ta ? T : GLOBAL::N, eB, tb ? T : GLOBAL::N, be); want = cd(al) * (oA * oB) + cd(be) * want; }
            changed = true; scl = (scl + nrm(A) * nrm(B)) * (1 + std::fabs(al) + std::fabs(be) + std::abs(ca) + std::abs(cb));
        } else if (op == 25 && mat) { nm = "diagtimes"; bool left = g.boolean(); Mat d = randMat(r, left ? want.r : want.c, 1, x.cplx); Element ed = fromMat(d, x.cplx);
            ed.DiagTimesM(*x.e, left ? GLOBAL::L : GLOBAL::R);
            for (int i = 0; i < want.r; i++) for (int jj = 0; jj < want.c; jj++) want(i, jj) *= left ? d(i, 0) : d(jj, 0);
            changed = true; scl *= (1 + nrm(d));
        } else if (op == 26) { nm = "tag"; Mat t = randMat(r, 2, 2, false); Element et = fromMat(t, false); x.e->AddToFields("tag", et); x.hasTag = true; x.tagKnown = true; x.tag = t; tol = 0;
        } else if (op == 27 && !mat) { nm = "component"; /* documented use: make the product writable, then write a component */
            int c = g.integer(0, (int) x.comp.size() - 1), off = 0; for (int i = 0; i < c; i++) off += x.comp[i].first * x.comp[i].second * (x.compC[i] ? 2 : 1);
            int L = x.comp[c].first * x.comp[c].second * (x.compC[c] ? 2 : 1);
            int how = g.integer(0, 2);
            x.e->CopyOnWrite();
            if (how == 0) { double *p = x.e->GetElement(c).ObtainWriteEntireData(); for (int i = 0; i < L; i++) { p[i] = r.normal(); want.a[off + i] = p[i]; } }
            else if (how == 1) { x.e->GetElement(c).ScalarTimesThis(al); for (int i = 0; i < L; i++) want.a[off + i] *= al; }
            else { Element n(x.comp[c].first, x.comp[c].second, 1, (bool) x.compC[c]); double *p = n.ObtainWriteEntireData(); for (int i = 0; i < L; i++) { p[i] = r.normal(); want.a[off + i] = p[i]; } x.e->GetElement(c) = n; }
            changed = true; tol = 1e-13;
        } else if (op >= 28 || (mat && op == 27)) { /* a decomposition, cached as a field */
            if (!mat) {
                Element &c = x.e->GetElement(g.integer(0, (int) x.comp.size() - 1)); decs++; nm = "compdecomp"; tol = 0;
                if (c.Getrow() >= c.Getcol() && g.boolean()) c.QRDecom(); else c.SVDDecom();
            } else if (op == 29 && x.e->GetSizeofFields() > 0) { /* a cached factor is assigned to its own element */
                std::vector<std::string> names(x.e->GetSizeofFields());
                x.e->ObtainTempNames(names.data());
                std::string f = g.pick(names);
                if (f != "_P") {
                    nm = "ownfield"; want = toMat(x.e->Field(f)); x.cplx = x.e->Field(f).Getiscomplex();
                    *x.e = x.e->Field(f); changed = true; tol = 0;
                }
            } else {
                int d = g.integer(0, 6); decs++; nm = "decomp"; tol = 0;
                bool sq = x.m.r == x.m.c, he = hermitian(x.m);
                if (d == 0 && x.m.r >= x.m.c) x.e->QRDecom();
                else if (d == 1) x.e->SVDDecom();
                else if (d == 2 && he) x.e->EigenDecomSym();
                else if (d == 3 && he) { std::vector<double> ww; Mat V; eigh(x.m, ww, V); if (ww[0] > 1e-3) x.e->CholDecom(); }
                else if (d == 4 && sq) x.e->LUdecom();
                else if (d == 5 && sq) x.e->SchurForm();
                else x.e->HHRDecom();
            }
        }
        hist += nm + " ";
        g.label(nm);
        if (changed) { muts++; dropTag(x); }
        /* the value of the target */
        const std::string at = "after step " + std::to_string(s) + " " + nm;
        if (values || changed) {
            if (x.comp.empty()) { Mat got = toMat(*x.e); if (x.e->Getiscomplex() != x.cplx) g.fail("type changed " + at); closeM(g, got, want, std::max(scl, 1e-300), tol == 0 ? 0 : 1e-11, "value " + at); }
            else { auto d = raw(*x.e); Mat got(d.size(), 1); for (size_t i = 0; i < d.size(); i++) got.a[i] = d[i]; closeM(g, got, want, scl, tol == 0 ? 0 : 1e-11, "value of a product " + at); }
            x.m = want;
            syncModel(x);
        }
        /* nobody else moved */
        for (int i = 0; i < K; i++) {
            if (i == k) continue;
            auto now = raw(*P[i].e);
            if (now.size() != before[i].size() || (now.size() && memcmp(now.data(), before[i].data(), now.size() * sizeof(double))))
                g.fail("another variable changed " + at);
        }
        /* the component views of products agree with the whole */
        for (int i = 0; i < K; i++) if (!P[i].comp.empty()) {
            Var &v = P[i];
            if (v.e->Getnumofelements() != (int) v.comp.size()) g.fail("number of components " + at);
            auto d = raw(*v.e); size_t off = 0;
            for (size_t c = 0; c < v.comp.size(); c++) {
                const Element &el = v.e->GetElement((int) c);
                if (el.Getrow() != v.comp[c].first || el.Getcol() != v.comp[c].second || el.Getiscomplex() != v.compC[c]) g.fail("component shape " + at);
                auto q = raw(el);
                for (size_t z = 0; z < q.size(); z++) if (off + z >= d.size() || memcmp(&q[z], &d[off + z], sizeof(double))) g.fail("a component view does not show the product's data " + at);
                off += q.size();
            }
        }
        if (fields) for (int i = 0; i < K; i++) { if (P[i].comp.empty() || P[i].hasTag || true) fieldsValid(g, P[i], "of variable " + std::to_string(i) + " " + at); }
    }
    if (values && !fields && copies >= 1 && muts >= 1) g.nontrivial();
    if (fields && decs >= 1 && muts >= 1) g.nontrivial();
}
void history(Gen &g, bool values, bool fields) {
    std::string hist;
    try { historyBody(g, values, fields, hist); } catch (PropFail &) { g.addNote(hist.substr(0, 2000)); throw; }
    g.addNote(hist.substr(0, 900));
}

} // namespace

VP_CHECK("C01", value_history, 400000, 8000000, "history over 2-5 real/complex/product variables with at least one copy and one write") { history(g, true, false); }
VP_CHECK("C02", field_history, 400000, 8000000, "history with at least one cached decomposition and one write") { history(g, true, true); }
