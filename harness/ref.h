/* Independent reference arithmetic: naive complex matrices, and conversions from/to the library's Element. */
#ifndef VP_REF_H
#define VP_REF_H
#include <complex>
#include <string>
#include <vector>
#include "pbt.h"
#include "Manifolds/Element.h"

namespace vp {
typedef std::complex<double> cd;
using ROPTLIB::Element;

struct Mat {
    int r = 0, c = 0;
    std::vector<cd> a;
    Mat() {}
    Mat(int rr, int cc) : r(rr), c(cc), a((size_t) rr * cc, cd(0, 0)) {}
    cd &operator()(int i, int j) { return a[(size_t) i + (size_t) j * r]; }
    cd operator()(int i, int j) const { return a[(size_t) i + (size_t) j * r]; }
    static Mat eye(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
};

inline Mat operator*(const Mat &A, const Mat &B) {
    if (A.c != B.r) throw std::runtime_error("ref: size mismatch in product");
    Mat C(A.r, B.c);
    for (int j = 0; j < B.c; j++) for (int k = 0; k < A.c; k++) { cd b = B(k, j); for (int i = 0; i < A.r; i++) C(i, j) += A(i, k) * b; }
    return C;
}
inline Mat operator+(const Mat &A, const Mat &B) {
    if (A.r != B.r || A.c != B.c) throw std::runtime_error("ref: size mismatch in sum");
    Mat C = A; for (size_t i = 0; i < C.a.size(); i++) C.a[i] += B.a[i]; return C;
}
inline Mat operator-(const Mat &A, const Mat &B) {
    if (A.r != B.r || A.c != B.c) throw std::runtime_error("ref: size mismatch in difference");
    Mat C = A; for (size_t i = 0; i < C.a.size(); i++) C.a[i] -= B.a[i]; return C;
}
inline Mat operator*(cd s, const Mat &A) { Mat C = A; for (auto &x : C.a) x *= s; return C; }
inline Mat H(const Mat &A) { Mat C(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) C(j, i) = std::conj(A(i, j)); return C; }
inline Mat Tr(const Mat &A) { Mat C(A.c, A.r); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) C(j, i) = A(i, j); return C; }
inline Mat conjM(const Mat &A) { Mat C = A; for (auto &x : C.a) x = std::conj(x); return C; }
inline Mat sym(const Mat &A) { return cd(0.5) * (A + H(A)); }
inline double nrm(const Mat &A) { double s = 0; for (auto &x : A.a) s += std::norm(x); return std::sqrt(s); }
inline double maxabs(const Mat &A) { double s = 0; for (auto &x : A.a) s = std::max(s, std::abs(x)); return s; }
inline bool finite(const Mat &A) { for (auto &x : A.a) if (!std::isfinite(x.real()) || !std::isfinite(x.imag())) return false; return true; }
/* real inner product Re tr(A^H B) */
inline double dot(const Mat &A, const Mat &B) { double s = 0; for (size_t i = 0; i < A.a.size(); i++) s += A.a[i].real() * B.a[i].real() + A.a[i].imag() * B.a[i].imag(); return s; }
inline cd trace(const Mat &A) { cd s = 0; for (int i = 0; i < std::min(A.r, A.c); i++) s += A(i, i); return s; }
inline Mat sub(const Mat &A, int r0, int r1, int c0, int c1) { Mat C(r1 - r0 + 1, c1 - c0 + 1); for (int j = c0; j <= c1; j++) for (int i = r0; i <= r1; i++) C(i - r0, j - c0) = A(i, j); return C; }
/* solve A X = B, Gaussian elimination with partial pivoting */
inline Mat solve(Mat A, Mat B) {
    int n = A.r;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); for (int j = 0; j < B.c; j++) std::swap(B(k, j), B(p, j)); }
        for (int i = k + 1; i < n; i++) {
            cd f = A(i, k) / A(k, k);
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.c; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int j = 0; j < B.c; j++) for (int i = n - 1; i >= 0; i--) { cd s = B(i, j); for (int k = i + 1; k < n; k++) s -= A(i, k) * B(k, j); B(i, j) = s / A(i, i); }
    return B;
}
inline Mat inv(const Mat &A) { return solve(A, Mat::eye(A.r)); }
/* eigen-decomposition of a Hermitian matrix by cyclic Jacobi: A = V diag(w) V^H, w ascending */
inline void eigh(Mat A, std::vector<double> &w, Mat &V) {
    int n = A.r;
    V = Mat::eye(n);
    A = sym(A);
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0, tot = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += std::norm(A(i, j)); if (i != j) off += std::norm(A(i, j)); }
        if (off <= 1e-32 * tot || tot == 0) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double ab = std::abs(A(p, q));
            if (ab == 0) continue;
            cd ph = A(p, q) / ab;
            double th = (A(q, q).real() - A(p, p).real()) / (2 * ab);
            double t = (th >= 0 ? 1.0 : -1.0) / (std::fabs(th) + std::sqrt(1 + th * th));
            double c = 1 / std::sqrt(1 + t * t), s = t * c;
            for (int k = 0; k < n; k++) { cd x = A(k, p), y = A(k, q); A(k, p) = c * x - s * std::conj(ph) * y; A(k, q) = s * ph * x + c * y; }
            for (int k = 0; k < n; k++) { cd x = A(p, k), y = A(q, k); A(p, k) = c * x - s * ph * y; A(q, k) = s * std::conj(ph) * x + c * y; }
            for (int k = 0; k < n; k++) { cd x = V(k, p), y = V(k, q); V(k, p) = c * x - s * std::conj(ph) * y; V(k, q) = s * ph * x + c * y; }
        }
    }
    w.resize(n);
    std::vector<int> id(n);
    for (int i = 0; i < n; i++) id[i] = i;
    std::sort(id.begin(), id.end(), [&](int a, int b) { return A(a, a).real() < A(b, b).real(); });
    Mat W(n, n);
    for (int j = 0; j < n; j++) { w[j] = A(id[j], id[j]).real(); for (int i = 0; i < n; i++) W(i, j) = V(i, id[j]); }
    V = W;
}
template <class F> inline Mat funh(const Mat &A, F f) {
    std::vector<double> w; Mat V; eigh(A, w, V);
    Mat D(A.r, A.r); for (int i = 0; i < A.r; i++) D(i, i) = f(w[i]);
    return V * D * H(V);
}
inline std::vector<double> svals(const Mat &A) {
    std::vector<double> w; Mat V;
    if (A.r >= A.c) eigh(H(A) * A, w, V); else eigh(A * H(A), w, V);
    for (auto &x : w) x = std::sqrt(std::max(0.0, x));
    std::sort(w.rbegin(), w.rend());
    return w;
}
/* matrix exponential, scaling and squaring with a Taylor series */
inline Mat expm(Mat A) {
    int s = 0; double n = nrm(A);
    while (n > 0.25) { n /= 2; s++; }
    A = cd(std::ldexp(1.0, -s)) * A;
    Mat E = Mat::eye(A.r), T = E;
    for (int k = 1; k < 20; k++) { T = cd(1.0 / k) * (T * A); E = E + T; }
    for (int k = 0; k < s; k++) E = E * E;
    return E;
}

/* ---- conversions ---- */
inline Mat toMat(const Element &e) {
    Mat m(e.Getrow(), e.Getcol() * e.Getnum());
    const double *p = e.ObtainReadData();
    if (m.a.size() == 0) return m;
    if (!p) throw PropFail{"an element that should hold data is empty"};
    if (e.Getiscomplex()) for (size_t i = 0; i < m.a.size(); i++) m.a[i] = cd(p[2 * i], p[2 * i + 1]);
    else for (size_t i = 0; i < m.a.size(); i++) m.a[i] = cd(p[i], 0);
    return m;
}
inline Element fromMat(const Mat &m, bool cplx) {
    Element e(m.r, m.c, 1, cplx);
    double *p = e.ObtainWriteEntireData();
    if (cplx) for (size_t i = 0; i < m.a.size(); i++) { p[2 * i] = m.a[i].real(); p[2 * i + 1] = m.a[i].imag(); }
    else for (size_t i = 0; i < m.a.size(); i++) p[i] = m.a[i].real();
    return e;
}
inline std::vector<double> raw(const Element &e) {
    const double *p = e.ObtainReadData();
    if (!p) return std::vector<double>();
    return std::vector<double>(p, p + e.Getlength());
}
inline Mat randMat(SplitMix &r, int m, int n, bool cplx, double s = 1) {
    Mat A(m, n);
    for (auto &x : A.a) x = cplx ? cd(s * r.normal(), s * r.normal()) : cd(s * r.normal(), 0);
    return A;
}
/* orthonormal columns (n >= p), modified Gram-Schmidt twice */
inline Mat orth(Mat A) {
    for (int pass = 0; pass < 2; pass++)
        for (int j = 0; j < A.c; j++) {
            for (int k = 0; k < j; k++) { cd s = 0; for (int i = 0; i < A.r; i++) s += std::conj(A(i, k)) * A(i, j); for (int i = 0; i < A.r; i++) A(i, j) -= s * A(i, k); }
            double n = 0; for (int i = 0; i < A.r; i++) n += std::norm(A(i, j)); n = std::sqrt(n);
            for (int i = 0; i < A.r; i++) A(i, j) /= n;
        }
    return A;
}
inline void closeM(Gen &g, const Mat &A, const Mat &B, double scale, double tol, const std::string &what) {
    if (A.r != B.r || A.c != B.c) { std::ostringstream o; o << what << ": shape " << A.r << "x" << A.c << " instead of " << B.r << "x" << B.c; g.fail(o.str()); }
    if (!finite(A) || !finite(B)) g.fail(what + ": not finite");
    double d = maxabs(A - B);
    if (!(d <= tol * std::max(scale, 1e-300))) { std::ostringstream o; o << what << ": differs by " << d << " (scale " << scale << ", tolerance " << tol << ")"; g.fail(o.str()); }
}
} // namespace vp
#endif
