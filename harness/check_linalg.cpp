/* C03 dense linear algebra, C04 sparse/FFT/wavelet transforms, C05 splines, all against naive references. */
#include <algorithm>
#include "ref.h"
#include "Others/SparseMatrix.h"
#include "Others/Spline.h"
#include "Others/wavelet/wavelet.h"
#undef max
#undef min
#undef abs
using namespace vp;
using namespace ROPTLIB;

namespace {
const double TOL = 1e-9;
struct Shape { int m, n; };
Shape shape(Gen &g, int hi = 6) {
    int big = g.chance(1, 12) ? g.chance(1, 6) ? 8 * hi : 3 * hi : hi;
    return {g.integer(1, big), g.integer(1, big)};
}
double scaleFor(Gen &g) { int k = g.integer(0, 9); return k == 8 ? 1e-4 : k == 9 ? 1e4 : 1; }
realdpcomplex zc(cd c) { realdpcomplex z; z.r = c.real(); z.i = c.imag(); return z; }
Mat spd(SplitMix &r, int n, bool c) { Mat A = randMat(r, n, n, c); A = A * H(A); for (int i = 0; i < n; i++) A(i, i) += 0.3; return sym(A); }
Mat upperOf(const Mat &A) { Mat B = A; for (int j = 0; j < B.c; j++) for (int i = j + 1; i < B.r; i++) B(i, j) = 0; return B; }
Mat lowerOf(const Mat &A) { Mat B = A; for (int j = 0; j < B.c; j++) for (int i = 0; i < j && i < B.r; i++) B(i, j) = 0; return B; }
void unitary(Gen &g, const Mat &Q, const std::string &w) { closeM(g, H(Q) * Q, Mat::eye(Q.c), 1, 1e-10 * (1 + Q.r), w + " is not orthonormal"); }
void samebits(Gen &g, const Element &e, const std::vector<double> &b, const std::string &w) {
    auto a = raw(e);
    if (a.size() != b.size() || (a.size() && memcmp(a.data(), b.data(), a.size() * 8))) g.fail(w + ": an argument was modified");
}
} // namespace

VP_CHECK("C03", arithmetic, 600000, 20000000, "any operand shape, real or complex, at least one dimension > 1") {
    SplitMix r = g.data();
    bool c = g.boolean();
    Shape s = shape(g); int k = g.integer(1, 6);
    double sc = scaleFor(g);
    Mat A = randMat(r, s.m, s.n, c, sc), B = randMat(r, s.m, s.n, c), C = randMat(r, s.n, k, c);
    Element eA = fromMat(A, c), eB = fromMat(B, c), eC = fromMat(C, c);
    auto rA = raw(eA), rB = raw(eB), rC = raw(eC);
    double al = r.normal(); cd z(r.normal(), r.normal());
    int op = g.integer(0, 33);
    g.note("op", op); g.note("m", s.m); g.note("n", s.n); g.note("k", k); g.note("complex", c);
    if (s.m * s.n > 1) g.nontrivial();
    double S = sc * 40 + 40;
    auto eq = [&](const Element &got, const Mat &want, const char *w, double scale = 0) {
        if (got.Getiscomplex() != c && want.r) g.fail(std::string(w) + ": wrong field (real/complex)");
        closeM(g, toMat(got), want, scale ? scale : S, TOL, w);
    };
    switch (op) {
    case 0: eq(eA + eB, A + B, "A+B"); break;
    case 1: eq(eA - eB, A - B, "A-B"); break;
    case 2: eq(eA * eC, A * C, "A*C", S * s.n); break;
    case 3: eq(al * eA, cd(al) * A, "s*A"); eq(eA * al, cd(al) * A, "A*s"); break;
    case 4: eq(eA / al, cd(1 / al) * A, "A/s", S / std::fabs(al)); break;
    case 5: if (c) { eq(zc(z) * eA, z * A, "z*A"); eq(eA * zc(z), z * A, "A*z"); eq(eA / zc(z), (1.0 / z) * A, "A/z", S / std::abs(z)); } break;
    case 6: {
        Mat P = A, Q = A, R = A;
        for (auto &x : P.a) x += c ? z : cd(al);
        for (auto &x : Q.a) x -= c ? z : cd(al);
        for (auto &x : R.a) x = (c ? z : cd(al)) - x;
        if (c) { eq(eA + zc(z), P, "A+z"); eq(zc(z) + eA, P, "z+A"); eq(eA - zc(z), Q, "A-z"); eq(zc(z) - eA, R, "z-A"); }
        else { eq(eA + al, P, "A+s"); eq(al + eA, P, "s+A"); eq(eA - al, Q, "A-s"); eq(al - eA, R, "s-A"); }
        break; }
    case 7: {
        Mat R = A; double mx = 0; for (auto &x : R.a) { x = (c ? z : cd(al)) / x; mx = std::max(mx, std::abs(x)); }
        if (c) eq(zc(z) / eA, R, "z/A", mx); else eq(al / eA, R, "s/A", mx);
        break; }
    case 8: { Element t(eA); t += eB; eq(t, A + B, "A+=B"); Element u(eA); u -= eB; eq(u, A - B, "A-=B"); break; }
    case 9: { Mat R = A; for (size_t i = 0; i < R.a.size(); i++) R.a[i] *= B.a[i]; eq(eA.GetHadamardProduct(eB), R, "A.*B"); break; }
    case 10: { Mat R = A; double mx = 0; for (size_t i = 0; i < R.a.size(); i++) { R.a[i] /= B.a[i]; mx = std::max(mx, std::abs(R.a[i])); } eq(eA.GetHadamardDivision(eB), R, "A./B", mx); break; }
    case 11: eq(eA.GetTranspose(), H(A), "A'"); break;
    case 12: if (c) eq(eA.GetConj(), conjM(A), "conj(A)"); break;
    case 13: { int a0 = g.integer(0, s.m - 1), a1 = g.integer(a0, s.m - 1), b0 = g.integer(0, s.n - 1), b1 = g.integer(b0, s.n - 1);
        eq(eA.GetSubmatrix(a0, a1, b0, b1), sub(A, a0, a1, b0, b1), "submatrix"); break; }
    case 14: { bool L = g.boolean(); Mat d = randMat(r, L ? s.m : s.n, 1, c); Mat R = A; for (int i = 0; i < s.m; i++) for (int j = 0; j < s.n; j++) R(i, j) *= L ? d(i, 0) : d(j, 0);
        eq(fromMat(d, c).GetDiagTimesM(eA, L ? GLOBAL::L : GLOBAL::R), R, "diag times M"); Element M(eA); fromMat(d, c).DiagTimesM(M, L ? GLOBAL::L : GLOBAL::R); eq(M, R, "diag times M in place"); break; }
    case 15: { double d = eA.DotProduct(eB); g.close(d, dot(A, B), S * s.m * s.n, TOL, "inner product"); g.close(eA.Fnorm(), nrm(A), S * s.m * s.n, TOL, "Frobenius norm"); break; }
    case 16: { bool L = g.boolean(); Mat v = randMat(r, L ? s.m : s.n, 1, c); Mat P = v * H(v); Mat R = c ? (L ? A - z * (P * A) : A - z * (A * P)) : (L ? A - cd(al) * (P * A) : A - cd(al) * (A * P));
        if (c) eq(eA.GetHtimesRankone(zc(z), fromMat(v, c), L ? GLOBAL::L : GLOBAL::R), R, "(I-zvv')A", S * 40); else eq(eA.GetHtimesRankone(al, fromMat(v, c), L ? GLOBAL::L : GLOBAL::R), R, "(I-svv')A", S * 40);
        break; }
    case 17: { Mat u = randMat(r, s.m, 1, c), v = randMat(r, s.n, 1, false);
        if (c) eq(eA.GetHaddRankone(zc(z), fromMat(u, c), fromMat(v, c)), A + z * (u * H(v)), "A+zuv'"); else eq(eA.GetHaddRankone(al, fromMat(u, c), fromMat(v, c)), A + cd(al) * (u * H(v)), "A+suv'");
        break; }
    case 18: { Mat n2(1, s.n), dp(1, s.n); for (int j = 0; j < s.n; j++) for (int i = 0; i < s.m; i++) { n2(0, j) += std::norm(A(i, j)); dp(0, j) += (std::conj(A(i, j)) * B(i, j)).real(); }
        closeM(g, toMat(eA.GetColNormsSquare()), n2, S * S * s.m, TOL, "squared column norms"); closeM(g, toMat(eA.GetColDotProducts(eB)), dp, S * S * s.m, TOL, "column inner products"); break; }
    case 19: if (!c) { Element e = eA.GetRealToComplex(); if (!e.Getiscomplex()) g.fail("real to complex is not complex"); closeM(g, toMat(e), A, S, 0, "real to complex"); }
        else { closeM(g, toMat(eA.GetRealInComplex()), cd(0.5) * (A + conjM(A)), S, 1e-15, "real part"); Mat I = A; for (auto &x : I.a) x = x.imag(); closeM(g, toMat(eA.GetImagInComplex()), I, S, 1e-15, "imaginary part"); }
        break;
    case 20: if (!c) { Mat R = A, Q = A; for (size_t i = 0; i < R.a.size(); i++) { R.a[i] = std::max(A.a[i].real(), B.a[i].real()); Q.a[i] = std::min(A.a[i].real(), B.a[i].real()); } eq(eA.GetMax(eB), R, "max(A,B)"); eq(eA.GetMin(eB), Q, "min(A,B)");
        for (size_t i = 0; i < R.a.size(); i++) { R.a[i] = std::max(A.a[i].real(), al); Q.a[i] = std::min(A.a[i].real(), al); } eq(eA.GetMax(al), R, "max(A,s)"); eq(eA.GetMin(al), Q, "min(A,s)"); } break;
    case 21: if (!c) { Mat R = A, Q = A; for (size_t i = 0; i < R.a.size(); i++) { R.a[i] = std::fabs(A.a[i].real()); Q.a[i] = std::sqrt(std::fabs(A.a[i].real())); } eq(eA.GetAbs(), R, "abs(A)"); eq(fromMat(R, c).GetSqrt(), Q, "sqrt(A)"); } break;
    case 22: if (!c) { /* comparisons against element and scalar; make some entries equal */
        Mat B2 = B; for (size_t i = 0; i < B2.a.size(); i++) if (r.unif() < 0.3) B2.a[i] = A.a[i];
        Element e2 = fromMat(B2, c); double t = A.a[r.next() % A.a.size()].real();
        auto cmp = [&](const Element &got, const Mat &L, const Mat &R2, int kind, const char *w) { Mat X = L; for (size_t i = 0; i < X.a.size(); i++) { double p = L.a[i].real(), q = R2.a[i].real(); X.a[i] = kind == 0 ? p == q : kind == 1 ? p > q : kind == 2 ? p >= q : kind == 3 ? p < q : p <= q; } closeM(g, toMat(got), X, 1, 0, w); };
        Mat Tm = A; for (auto &x : Tm.a) x = t;
        cmp(eA == e2, A, B2, 0, "A==B"); cmp(eA > e2, A, B2, 1, "A>B"); cmp(eA >= e2, A, B2, 2, "A>=B"); cmp(eA < e2, A, B2, 3, "A<B"); cmp(eA <= e2, A, B2, 4, "A<=B");
        cmp(eA == t, A, Tm, 0, "A==s"); cmp(eA > t, A, Tm, 1, "A>s"); cmp(eA >= t, A, Tm, 2, "A>=s"); cmp(eA < t, A, Tm, 3, "A<s"); cmp(eA <= t, A, Tm, 4, "A<=s");
        cmp(t == eA, Tm, A, 0, "s==A"); cmp(t > eA, Tm, A, 1, "s>A"); cmp(t >= eA, Tm, A, 2, "s>=A"); cmp(t < eA, Tm, A, 3, "s<A"); cmp(t <= eA, Tm, A, 4, "s<=A"); } break;
    case 23: case 24: case 25: { /* this = alpha op(A) op(B) + beta this */
        bool ta = g.boolean(), tb = g.boolean(); int kk = g.integer(1, 5);
        Mat P = ta ? randMat(r, kk, s.m, c) : randMat(r, s.m, kk, c), Q = tb ? randMat(r, s.n, kk, c) : randMat(r, kk, s.n, c);
        bool plainT = c && g.boolean(); char *T = c ? (plainT ? GLOBAL::T : GLOBAL::C) : GLOBAL::T;
        Mat oP = ta ? (plainT ? Tr(P) : H(P)) : P, oQ = tb ? (plainT ? Tr(Q) : H(Q)) : Q;
        Element eP = fromMat(P, c), eQ = fromMat(Q, c), t(eA); double be = g.boolean() ? 0 : r.normal();
        if (c && g.boolean()) { cd zb(r.normal(), r.normal()); t.AlphaABaddBetaThis(zc(z), eP, ta ? T : GLOBAL::N, eQ, tb ? T : GLOBAL::N, zc(zb)); eq(t, z * (oP * oQ) + zb * A, "alpha A B + beta C (complex scalars)", S * 40 * kk); }
        else { t.AlphaABaddBetaThis(al, eP, ta ? T : GLOBAL::N, eQ, tb ? T : GLOBAL::N, be); eq(t, cd(al) * (oP * oQ) + cd(be) * A, "alpha A B + beta C", S * 40 * kk); }
        break; }
    case 26: { Element t(eA); t.AlphaXaddThis(al, eB); eq(t, A + cd(al) * B, "A+s*B in place"); if (c) { Element u(eA); u.AlphaXaddThis(zc(z), eB); eq(u, A + z * B, "A+z*B in place"); } break; }
    case 27: { Element t(eA); t.ScalarTimesThis(al); eq(t, cd(al) * A, "s*A in place"); if (c) { Element u(eA); u.ScalarTimesThis(zc(z)); eq(u, z * A, "z*A in place"); } break; }
    case 28: { Element t(eA); t.SetToIdentity(); Mat I(s.m, s.n); for (int i = 0; i < std::min(s.m, s.n); i++) I(i, i) = 1; eq(t, I, "identity"); break; }
    case 29: { Mat R = A; int d = s.m; R.r = s.m * s.n / d; R.c = d; if (R.r * R.c == s.m * s.n) eq(eA.GetReshape(R.r, R.c), R, "reshape"); break; }
    case 30: case 31: { /* A X = B with % ; X A = B with / */
        int n = s.m; Mat M = randMat(r, n, n, c); for (int i = 0; i < n; i++) M(i, i) += cd(2.0 * n, 0) * (r.unif() < 0.5 ? 1.0 : -1.0);
        Mat RH = randMat(r, n, k, c), LH = randMat(r, k, n, c);
        Element eM = fromMat(M, c);
        eq(eM % fromMat(RH, c), solve(M, RH), "A%B", 1); eq(fromMat(LH, c) / eM, H(solve(H(M), H(LH))), "B/A", 1);
        samebits(g, eM, raw(fromMat(M, c)), "solve"); break; }
    case 32: { int n = s.m; Mat L = lowerOf(randMat(r, n, n, c)); for (int i = 0; i < n; i++) L(i, i) = L(i, i) + cd(3, 0); Mat Lf = L + cd(1) * (upperOf(randMat(r, n, n, c)) ); for (int i = 0; i < n; i++) Lf(i, i) = L(i, i);
        Mat RH = randMat(r, n, k, c); int t = g.integer(0, 2); Mat oL = t == 0 ? L : t == 1 ? Tr(L) : H(L);
        Mat X = toMat(fromMat(RH, c).TriangleLinSol(fromMat(Lf, c), t == 0 ? GLOBAL::N : t == 1 ? GLOBAL::T : GLOBAL::C));
        closeM(g, oL * X, RH, (1 + nrm(L)) * (1 + nrm(X)), TOL, "triangular solve"); break; }
    case 33: { int n = s.m, m = g.integer(1, 5); Mat P = randMat(r, n, n, c), Q = randMat(r, m, m, c), R = randMat(r, n, m, c); for (int i = 0; i < n; i++) P(i, i) += 2.0 * n + 4.0 + m; for (int i = 0; i < m; i++) Q(i, i) += 2.0 * m;
        bool same = n == m && g.boolean(); if (same) Q = P;
        Element eP = fromMat(P, c), eQ = same ? eP : fromMat(Q, c); Mat X = toMat(fromMat(R, c).SYL(eP, eQ));
        closeM(g, P * X + X * Q, R, (1 + nrm(P) + nrm(Q)) * (1 + nrm(X)), TOL, "Sylvester equation"); break; }
    }
    samebits(g, eA, rA, "op"); samebits(g, eB, rB, "op"); samebits(g, eC, rC, "op");
}

VP_CHECK("C03", factorisations, 480000, 15000000, "matrix with both dimensions > 1, or complex") {
    SplitMix r = g.data();
    bool c = g.boolean();
    Shape s = shape(g, 7);
    double sc = scaleFor(g);
    int op = g.integer(0, 11);
    int rank = g.chance(1, 5) ? g.integer(1, std::min(s.m, s.n)) : std::min(s.m, s.n);
    Mat A = rank < std::min(s.m, s.n) ? cd(sc) * (randMat(r, s.m, rank, c) * randMat(r, rank, s.n, c)) : randMat(r, s.m, s.n, c, sc);
    g.note("op", op); g.note("m", s.m); g.note("n", s.n); g.note("rank", rank); g.note("complex", c); g.note("scale", sc);
    if ((s.m > 1 && s.n > 1) || c) g.nontrivial();
    Element e = fromMat(A, c); auto bits = raw(e);
    double S = nrm(A) + 1e-300;
    int n = s.m;
    switch (op) {
    case 0: if (s.m >= s.n) { e.QRDecom(); Mat Q = toMat(e.Field("_Q")), R = toMat(e.Field("_R")); unitary(g, Q, "Q"); closeM(g, Q * R, A, S, TOL, "Q*R"); closeM(g, R, upperOf(R), S, 0, "R upper triangular"); if (Q.r != s.m || Q.c != s.n) g.fail("Q has the wrong shape"); } break;
    case 1: { e.SVDDecom(); Mat U = toMat(e.Field("_U")), V = toMat(e.Field("_Vt")), Sg = toMat(e.Field("_S")); int q = std::min(s.m, s.n); if (U.c != q || V.r != q || Sg.r != q) g.fail("SVD shapes");
        unitary(g, U, "U"); unitary(g, H(V), "V"); Mat D(q, q); for (int i = 0; i < q; i++) { D(i, i) = Sg(i, 0); if (!(Sg(i, 0).real() >= 0) || Sg(i, 0).imag() != 0) g.fail("negative or complex singular value"); if (i && Sg(i, 0).real() > Sg(i - 1, 0).real()) g.fail("singular values not descending"); }
        closeM(g, U * D * V, A, S, TOL, "U*S*Vt"); break; }
    case 2: { Mat B = sym(randMat(r, n, n, c, sc)); Element eb = fromMat(B, c); eb.EigenDecomSym(); Mat W = toMat(eb.Field("_EigVal")), V = toMat(eb.Field("_EigVec")); unitary(g, V, "eigenvectors");
        for (int i = 1; i < n; i++) if (W(i, 0).real() < W(i - 1, 0).real()) g.fail("eigenvalues not ascending"); Mat D(n, n); for (int i = 0; i < n; i++) D(i, i) = W(i, 0).real(); closeM(g, V * D * H(V), B, nrm(B) + 1e-300, TOL, "V*diag(w)*V'");
        std::vector<double> w; Mat V2; eigh(B, w, V2); for (int i = 0; i < n; i++) g.close(W(i, 0).real(), w[i], nrm(B) + 1e-300, TOL, "eigenvalue"); break; }
    case 3: { /* values only first, vectors later; and upper/lower part selection */
        Mat B = sym(randMat(r, n, n, c, sc)); bool up = g.boolean(); Mat G = B; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i > j : i < j) G(i, j) += cd(sc, 0); /* garbage in the part that is not used */
        Element eb = fromMat(G, c); char *ul = up ? GLOBAL::U : GLOBAL::L; if (g.boolean()) eb.EigenDecomSym(GLOBAL::N, ul);
        std::vector<double> w; Mat V2; eigh(B, w, V2);
        if (eb.FieldsExist("_EigVal")) { Mat W = toMat(eb.Field("_EigVal")); for (int i = 0; i < n; i++) g.close(W(i, 0).real(), w[i], nrm(B) + 1e-300, TOL, "eigenvalue (values only)"); }
        eb.EigenDecomSym(GLOBAL::V, ul); Mat W = toMat(eb.Field("_EigVal")), V = toMat(eb.Field("_EigVec")); Mat D(n, n); for (int i = 0; i < n; i++) D(i, i) = W(i, 0).real(); closeM(g, V * D * H(V), B, nrm(B) + 1e-300, TOL, "V*diag(w)*V' from one triangle"); break; }
    case 4: { Mat B = spd(r, n, c); Element eb = fromMat(B, c); eb.CholDecom(); Mat L = toMat(eb.Field("_L")); closeM(g, L * H(L), B, nrm(B), TOL, "L*L'"); closeM(g, L, lowerOf(L), 1, 0, "Cholesky factor lower triangular"); break; }
    case 5: { Mat B = randMat(r, n, n, c, sc); Element eb = fromMat(B, c); eb.SchurForm(); Mat T = toMat(eb.Field("_SchurForm")), V = toMat(eb.Field("_SchurVec")); unitary(g, V, "Schur vectors"); closeM(g, V * T * H(V), B, nrm(B), TOL, "V*T*V'");
        for (int j = 0; j < n; j++) for (int i = j + (c ? 1 : 2); i < n; i++) if (T(i, j) != cd(0)) g.fail("Schur form not (quasi-)triangular"); break; }
    case 6: { Mat B = sym(randMat(r, n, n, c)); closeM(g, toMat(fromMat(B, c).ExpSym()), funh(B, [](double x) { return std::exp(x); }), std::exp(nrm(B)), TOL, "exp of a Hermitian matrix"); closeM(g, toMat(fromMat(B, c).ExpSym()), expm(B), std::exp(nrm(B)), TOL, "exp (series)"); break; }
    case 7: { Mat B = spd(r, n, c); Mat Lg = toMat(fromMat(B, c).LogSym()); closeM(g, Lg, funh(B, [](double x) { return std::log(x); }), 1 + nrm(Lg), TOL, "log of a definite matrix"); closeM(g, expm(Lg), B, nrm(B) * std::max(1.0, nrm(B)), TOL, "exp(log)"); break; }
    case 8: { Mat O = toMat(e.GetOrth()); if (rank == std::min(s.m, s.n)) { /* polar factor: O = A (A'A)^{-1/2} */
            std::vector<double> sv = svals(A); if (sv.back() < 1e-3 * sv[0]) throw Discard(); double cond = sv[0] / sv.back();
            if (s.m >= s.n) { unitary(g, O, "orthogonal factor"); Mat P = H(O) * A; closeM(g, P, H(P), S, 1e-8 * cond, "orthogonal factor: O'A not Hermitian"); std::vector<double> w; Mat V; eigh(P, w, V); if (w[0] < -1e-8 * S) g.fail("orthogonal factor: O'A not semidefinite"); }
            else { unitary(g, H(O), "orthogonal factor"); Mat P = A * H(O); closeM(g, P, H(P), S, 1e-8 * cond, "orthogonal factor: AO' not Hermitian"); } } break; }
    case 9: case 10: { /* the full unitary factor applied from Householder reflectors */
        e.HHRDecom(); Element HHR = e.Field("_HHR"), tau = e.Field("_tau"); int q = std::min(s.m, s.n);
        Mat R(s.m, s.n); Mat F = toMat(HHR); for (int j = 0; j < s.n; j++) for (int i = 0; i <= j && i < s.m; i++) R(i, j) = F(i, j);
        Mat I = Mat::eye(s.m); Mat Q = toMat(fromMat(I, c).HHRMtp(HHR, tau, GLOBAL::N, GLOBAL::L)); unitary(g, Q, "Q of the Householder reflectors"); closeM(g, Q * R, A, S, TOL, "Q*R from reflectors");
        int k = g.integer(1, 4); bool left = g.boolean(); int t = g.integer(0, 2);
        Mat X = left ? randMat(r, s.m, k, c) : randMat(r, k, s.m, c); Mat oQ = t == 0 ? Q : H(Q);
        Mat Y = toMat(fromMat(X, c).HHRMtp(HHR, tau, t == 0 ? GLOBAL::N : t == 1 ? GLOBAL::T : GLOBAL::C, left ? GLOBAL::L : GLOBAL::R)); closeM(g, Y, left ? oQ * X : X * oQ, nrm(X), TOL, std::string("product with the Householder Q, trans ") + "NTC"[t]); (void) q; break; }
    case 11: { Mat B = randMat(r, n, n, c); for (int i = 0; i < n; i++) B(i, i) += 3.0; Element eb = fromMat(B, c); eb.LUdecom(); Mat x = randMat(r, n, 2, c); Mat X = toMat(eb % fromMat(x, c)); closeM(g, B * X, x, nrm(B) * (1 + nrm(X)), TOL, "solve after caching LU"); break; }
    }
    samebits(g, e, bits, "factorisation");
}

VP_CHECK("C04", sparse_products, 600000, 20000000, "at least two stored entries, possibly duplicated positions left out") {
    SplitMix r = g.data();
    bool c = g.boolean(); int m = g.integer(1, 8), n = g.integer(1, 8), k = g.integer(1, 4), nz = g.integer(0, m * n);
    std::vector<int> pos(m * n); for (int i = 0; i < m * n; i++) pos[i] = i;
    for (int i = m * n - 1; i > 0; i--) std::swap(pos[i], pos[r.next() % (i + 1)]);
    Mat S(m, n); std::vector<integer> ir, jc; std::vector<double> v; std::vector<realdpcomplex> z;
    for (int i = 0; i < nz; i++) { int a = pos[i] % m, b = pos[i] / m; cd x = c ? cd(r.normal(), r.normal()) : cd(r.normal(), 0); S(a, b) = x; ir.push_back(a); jc.push_back(b); v.push_back(x.real()); z.push_back(zc(x)); }
    if (nz == 0) { ir.push_back(0); jc.push_back(0); v.push_back(0); z.push_back(zc(0)); }
    g.note("m", m); g.note("n", n); g.note("k", k); g.note("nz", nz); g.note("complex", c);
    if (nz >= 2) g.nontrivial();
    integer inz = nz == 0 ? 1 : nz;
    auto run = [&](SparseMatrix &sp) {
        if (sp.Getrow() != m || sp.Getcol() != n || sp.Getiscomplex() != c) g.fail("sparse matrix reports the wrong shape");
        Mat X = randMat(r, n, k, c), Y = randMat(r, k, m, c); Element eX = fromMat(X, c), eY = fromMat(Y, c);
        closeM(g, toMat(sp * eX), S * X, 1 + nrm(S) * nrm(X), 1e-12, "sparse * dense"); closeM(g, toMat(eY * sp), Y * S, 1 + nrm(S) * nrm(Y), 1e-12, "dense * sparse");
        closeM(g, toMat(eX), X, 1, 0, "dense operand changed"); closeM(g, toMat(eY), Y, 1, 0, "dense operand changed");
    };
    if (c) { SparseMatrix sp(m, n, ir.data(), jc.data(), z.data(), inz); run(sp); run(sp); } else { SparseMatrix sp(m, n, ir.data(), jc.data(), v.data(), inz); run(sp); run(sp); }
}

VP_CHECK("C04", fourier, 200000, 4000000, "transform of more than one entry") {
    SplitMix r = g.data();
    int m = g.integer(1, 9), n = g.integer(1, 9), dir = g.boolean() ? FFTW_FORWARD : FFTW_BACKWARD;
    Mat A = randMat(r, m, n, true), F(m, n); const double tp = 6.283185307179586476925;
    for (int p = 0; p < m; p++) for (int q = 0; q < n; q++) { cd s = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double ang = tp * ((double) ((long) p * i % m) / m + (double) ((long) q * j % n) / n); s += A(i, j) * std::polar(1.0, (dir == FFTW_FORWARD ? -1 : 1) * ang); } F(p, q) = s; }
    g.note("m", m); g.note("n", n); g.note("dir", dir); if (m * n > 1) g.nontrivial();
    Element e = fromMat(A, true); closeM(g, toMat(e.GetFFT2D(dir)), F, nrm(A) * (m * n), 1e-11, "2D Fourier transform");
    Element out(m, n, "complex"); Element shared(out); if (g.boolean()) { out.SetToZeros(); shared = out; }
    std::vector<double> sb = raw(shared);
    e.FFT2D(dir, &out); closeM(g, toMat(out), F, nrm(A) * (m * n), 1e-11, "2D Fourier transform into a given element"); samebits(g, shared, sb, "FFT2D");
    closeM(g, cd(1.0 / (m * n)) * toMat(e.GetFFT2D(dir).GetFFT2D(-dir)), A, nrm(A), 1e-11, "inverse Fourier transform"); closeM(g, toMat(e), A, 1, 0, "operand changed");
}

namespace {
void haarRef(std::vector<cd> &v) { /* one-dimensional Haar pyramid on the leading 2^k entries */
    int n = (int) v.size(), k = 1; while (2 * k <= n) k *= 2;
    for (; k > 1; k /= 2) { std::vector<cd> t(k); for (int i = 0; i < k / 2; i++) { t[i] = (v[2 * i] + v[2 * i + 1]) / std::sqrt(2.0); t[k / 2 + i] = (v[2 * i] - v[2 * i + 1]) / std::sqrt(2.0); } for (int i = 0; i < k; i++) v[i] = t[i]; }
}
Mat haar2Ref(Mat A) {
    for (int j = 0; j < A.c; j++) { std::vector<cd> v(A.r); for (int i = 0; i < A.r; i++) v[i] = A(i, j); haarRef(v); for (int i = 0; i < A.r; i++) A(i, j) = v[i]; }
    for (int i = 0; i < A.r; i++) { std::vector<cd> v(A.c); for (int j = 0; j < A.c; j++) v[j] = A(i, j); haarRef(v); for (int j = 0; j < A.c; j++) A(i, j) = v[j]; }
    return A;
}
}
VP_CHECK("C04", haar, 400000, 10000000, "at least two entries") {
    SplitMix r = g.data();
    int m = g.integer(1, 17), n = g.integer(1, 9); Mat A = randMat(r, m, n, true), B = haar2Ref(A); g.note("m", m); g.note("n", n); if (m * n > 1) g.nontrivial();
    Element e = fromMat(A, true); double S = nrm(A);
    Element f = e.GetHaarFWT(); closeM(g, toMat(f), B, S, 1e-12, "Haar transform"); closeM(g, toMat(f.GetInvHaarFWT()), A, S, 1e-12, "inverse Haar transform"); g.close(f.Fnorm(), S, S, 1e-12, "Haar transform does not preserve the norm");
    closeM(g, toMat(e), A, 1, 0, "operand changed"); closeM(g, toMat(f), B, S, 1e-12, "operand of the inverse changed");
    std::vector<realdpcomplex> v(m * n); for (int i = 0; i < m * n; i++) v[i] = zc(A.a[i]);
    haarFWT_2d(m, n, v.data()); Mat V(m, n); for (int i = 0; i < m * n; i++) V.a[i] = cd(v[i].r, v[i].i); closeM(g, V, B, S, 1e-12, "2D Haar routine"); haarFWT_2d_inverse(m, n, v.data()); for (int i = 0; i < m * n; i++) V.a[i] = cd(v[i].r, v[i].i); closeM(g, V, A, S, 1e-12, "2D inverse Haar routine");
    std::vector<cd> w(m); for (int i = 0; i < m; i++) { w[i] = A(i, 0); v[i] = zc(w[i]); } haarRef(w); haarFWT_1d(m, v.data()); for (int i = 0; i < m; i++) if (!(std::abs(cd(v[i].r, v[i].i) - w[i]) <= 1e-12 * S)) g.fail("1D Haar routine");
    haarFWT_1d_inverse(m, v.data()); for (int i = 0; i < m; i++) if (!(std::abs(cd(v[i].r, v[i].i) - A(i, 0)) <= 1e-12 * S)) g.fail("1D inverse Haar routine");
}

VP_CHECK("C05", spline, 1200000, 40000000, "non-constant data") {
    SplitMix r = g.data();
    int n = g.integer(4, 14), kind = g.integer(0, 3); /* 0/1 periodic uniform/general, 2/3 slopes uniform/general */
    bool uni = kind % 2 == 0, per = kind < 2; double h = g.pick(std::vector<double>{0.1, 0.5, 1.0, 2.5}), x0 = g.boolean() ? 0 : 3 * r.normal();
    std::vector<double> X(n), Y(n); for (int i = 0; i < n; i++) { X[i] = i == 0 ? x0 : X[i - 1] + (uni ? h : h * (0.2 + r.unif())); Y[i] = r.normal(); }
    if (uni) for (int i = 0; i < n; i++) X[i] = i * h;
    if (per) Y[n - 1] = Y[0];
    g.note("n", n); g.note("kind", kind); g.note("h", h); g.nontrivial();
    int nn = n - 1; std::vector<double> co(4 * nn, NAN), d1(3 * nn, NAN), d2(2 * nn, NAN);
    int ok = kind == 0 ? Spline::SplineUniformPeriodic(Y.data(), n, h, co.data()) : kind == 1 ? Spline::SplinePeriodic(X.data(), Y.data(), n, co.data()) : kind == 2 ? Spline::SplineUniformSlopes(Y.data(), n, h, co.data()) : Spline::SplineSlopes(X.data(), Y.data(), n, co.data());
    if (!ok) g.fail("the spline system was not solved");
    Spline::FirstDeri(co.data(), n, d1.data()); Spline::SecondDeri(co.data(), n, d2.data());
    double sy = 1, mh = 1e9; for (int i = 0; i < n; i++) { sy = std::max(sy, std::fabs(Y[i])); if (i) mh = std::min(mh, X[i] - X[i - 1]); }
    auto P = [&](int i, double t, int d) { double a = co[i], b = co[nn + i], c = co[2 * nn + i], e = co[3 * nn + i]; return d == 0 ? ((a * t + b) * t + c) * t + e : d == 1 ? (3 * a * t + 2 * b) * t + c : 6 * a * t + 2 * b; };
    double S1 = sy / mh * 50, S2 = S1 / mh * 50;
    for (int i = 0; i < nn; i++) {
        double L = X[i + 1] - X[i];
        g.close(P(i, 0, 0), Y[i], sy, 1e-9, "interpolation at the left end of a piece"); g.close(P(i, L, 0), Y[i + 1], sy, 1e-9, "interpolation at the right end of a piece");
        int j = i + 1; if (j == nn) { if (!per) continue; j = 0; }
        g.close(P(i, L, 1), P(j, 0, 1), S1, 1e-9, "continuity of the first derivative"); g.close(P(i, L, 2), P(j, 0, 2), S2, 1e-9, "continuity of the second derivative");
    }
    if (!per) { g.close(P(0, 0, 1), (Y[1] - Y[0]) / (X[1] - X[0]), S1, 1e-9, "slope at the first end"); g.close(P(nn - 1, X[nn] - X[nn - 1], 1), (Y[nn] - Y[nn - 1]) / (X[nn] - X[nn - 1]), S1, 1e-9, "slope at the last end"); }
    for (int q = 0; q < 6; q++) {
        int i = (int) (r.next() % nn); double f = q == 0 ? 0.5 : 0.01 + 0.98 * r.unif(), t = X[i] + f * (X[i + 1] - X[i]), u = t - X[i];
        g.close(Spline::ValSpline(co.data(), X.data(), n, t), P(i, u, 0), sy * 10, 1e-9, "value at an interior point"); g.close(Spline::ValFirstDeri(d1.data(), X.data(), n, t), P(i, u, 1), S1, 1e-9, "first derivative at an interior point"); g.close(Spline::ValSecondDeri(d2.data(), X.data(), n, t), P(i, u, 2), S2, 1e-9, "second derivative at an interior point");
        if (uni) { g.close(Spline::ValSplineUniform(co.data(), n, h, t), P(i, u, 0), sy * 10, 1e-9, "value at an interior point (uniform)"); g.close(Spline::ValFirstDeriUniform(d1.data(), n, h, t), P(i, u, 1), S1, 1e-9, "first derivative (uniform)"); g.close(Spline::ValSecondDeriUniform(d2.data(), n, h, t), P(i, u, 2), S2, 1e-9, "second derivative (uniform)"); }
    }
    for (int i = 0; i < n; i++) { g.close(Spline::ValSpline(co.data(), X.data(), n, X[i]), Y[i], sy, 1e-8, "value at a node"); if (uni) g.close(Spline::ValSplineUniform(co.data(), n, h, X[i]), Y[i], sy, 1e-8, "value at a node (uniform)"); }
}
