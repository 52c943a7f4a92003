/* C25: random numbers. */
#include "pbt.h"
#include "ref.h"
#include "mani.h"
#include "Others/randgen.h"
#include "Manifolds/MultiManifolds.h"
#include <map>
#undef max
#undef min
#undef abs
using namespace vp;
using namespace ROPTLIB;

namespace {
Element shape(Gen &g) {
    int k = g.integer(0, 4); int m = g.integer(1, 7), n = g.integer(1, 5), l = g.chance(1, 4) ? g.integer(1, 3) : 1;
    std::ostringstream o; o << "shape " << k << " " << m << "x" << n << "x" << l << " "; g.addNote(o.str());
    if (k == 0) return Element(m, n, l);
    if (k == 1) return Element(m, n, l, "complex");
    if (k == 2) return Element(m);
    Element a = k == 3 ? Element(m, n) : Element(m, n, "complex"), b(n);
    int c = g.integer(1, 3), d = g.integer(1, 2); return Element(2, &a, c, &b, d);
}
V bits(const Element &e) { const double *q = e.ObtainReadData(); return V(q, q + e.Getlength()); }
bool same(const V &a, const V &b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), 8 * a.size()) == 0; }
/* largest distance of the sample's distribution from F, exceeded with probability < 2e-13 by independent draws (Dvoretzky-Kiefer-Wolfowitz) */
double dkw(int n) { return std::sqrt(std::log(1e13) / (2.0 * n)); }
template <class F> void law(Gen &g, V x, F cdf, const char *what) {
    std::sort(x.begin(), x.end()); double n = x.size(), worst = 0;
    for (size_t i = 0; i < x.size(); i++) { double c = cdf(x[i]); worst = std::max({worst, std::fabs(c - i / n), std::fabs((i + 1) / n - c)}); }
    if (!(worst <= dkw(x.size()) + 1e-8)) { std::ostringstream o; o << what << ": " << x.size() << " draws lie " << worst << " from the law, more than " << dkw(x.size()); g.fail(o.str()); }
}
/* u in [0,1]: products of disjoint pairs at the given lag (Hoeffding, 2e-13) */
void unrelated(Gen &g, const V &u, int lag, const char *what) {
    double s = 0; long n = 0; for (size_t i = 0; i + lag < u.size(); i += 2 * lag) for (int k = 0; k < lag && i + k + lag < u.size(); k++) { s += (u[i + k] - 0.5) * (u[i + k + lag] - 0.5); n++; }
    if (n < 100) return; s /= n; double b = 0.5 * std::sqrt(std::log(1e13) / (2.0 * n));
    if (std::fabs(s) > b) { std::ostringstream o; o << what << ": draws " << lag << " apart are correlated (" << s << " over " << n << " pairs)"; g.fail(o.str()); }
}
double Phi(double t) { return 0.5 * std::erfc(-t / std::sqrt(2.0)); }
} // namespace

VP_CHECK("C25", stream, 200000, 4000000, "at least three draws of two kinds, with another history before the seeding") {
    unsigned seed = g.chance(1, 8) ? (unsigned) g.pick(std::vector<int>{0, 1, 2, 0x7fffffff, -1}) : (unsigned) g.integer(0, 1 << 30);
    struct Op { int k; Element e; CP c; double a, b; }; std::vector<Op> ops; int n = g.integer(1, 8); std::map<int, int> kinds;
    for (int i = 0; i < n; i++) {
        Op o; o.k = g.integer(0, 4); o.a = g.pick(std::vector<double>{0, -1, 2.5}); o.b = g.pick(std::vector<double>{1, 4, 0.25}); kinds[o.k]++;
        if (o.k == 2 || o.k == 3) o.e = shape(g); if (o.k == 4) { Want w; w.maxn = 5; o.c = makeConf(g, w); }
        ops.push_back(o);
    }
    auto run = [&](int junk) {
        std::vector<V> out;
        for (auto &o : ops) {
            for (int k = 0; k < junk; k++) { volatile double *p = new double[3]{1, 2, 3}; (void) p; delete[] p; }
            switch (o.k) {
            case 0: out.push_back(V{genrandreal()}); break;
            case 1: out.push_back(V{genrandnormal()}); break;
            case 2: { Element e(o.e); e.RandUnform(o.a, o.a + o.b); out.push_back(bits(e)); break; }
            case 3: { Element e(o.e); e.RandGaussian(o.a, o.b); out.push_back(bits(e)); break; }
            case 4: { Variable x = o.c->M->RandominManifold(); out.push_back(bits(x)); break; }
            }
        }
        return out;
    };
    int before = g.integer(0, 5); genrandseed(seed); auto A = run(0); for (int k = 0; k < before; k++) { genrandnormal(); if (k % 2) genrandreal(); } genrandseed(seed); auto B = run(2);
    for (size_t i = 0; i < A.size(); i++) { std::ostringstream o; o << "after the same seed, draw " << i << " (kind " << ops[i].k << ") differs"; g.require(same(A[i], B[i]), o.str()); g.require(vfinite(A[i]), "a draw is not finite"); }
    /* the draws go on: no two draws of several entries repeat each other */
    for (size_t i = 0; i < A.size(); i++) for (size_t j = i + 1; j < A.size(); j++) if (ops[i].k >= 2 && ops[i].k < 4 && ops[i].k == ops[j].k && A[i].size() >= 4 && A[i].size() == A[j].size() && ops[i].a == ops[j].a && ops[i].b == ops[j].b) g.require(!same(A[i], B[j]), "two draws of the stream repeat");
    /* another seed gives another stream */
    V p, q; genrandseed(seed); for (int i = 0; i < 8; i++) p.push_back(genrandreal()); genrandseed(seed + 2 + g.integer(0, 1000)); for (int i = 0; i < 8; i++) q.push_back(genrandreal());
    g.require(!same(p, q), "another seed gives the same stream");
    if (n >= 3 && kinds.size() >= 2) g.nontrivial();
}

VP_CHECK("C25", element_fill, 200000, 4000000, "an element of at least four entries that shared its data") {
    Element e = shape(g); int L = e.Getlength(); bool normal = g.boolean(); double a = g.pick(std::vector<double>{0, -3, 1e3, 1e-3}), b = g.pick(std::vector<double>{1, 4, 1e-4, 100});
    genrandseed(g.integer(0, 1 << 30)); std::ostringstream o; o << (normal ? "normal " : "uniform ") << a << " " << b << " "; g.addNote(o.str());
    realdp *p = e.ObtainWriteEntireData(); for (int i = 0; i < L; i++) p[i] = 7e5 + i; V old = bits(e);
    Element first(e); Element tag(2); tag.SetToZeros(); bool shared = g.boolean(), field = g.boolean(); if (field) e.AddToFields("tag", tag); if (!shared) { Element other(1); first = other; }
    std::vector<V> f; for (int t = 0; t < 3; t++) { if (normal) e.RandGaussian(a, b); else e.RandUnform(a, a + b); f.push_back(bits(e)); if (t == 0) { g.require(!e.FieldsExist("tag"), "filling keeps a field of the old value"); if (shared) g.require(same(bits(first), old), "filling an element changes a copy"); } }
    g.require((int) f[0].size() == L, "filling changes the length");
    for (int i = 0; i < L; i++) {
        g.require(!(f[0][i] == f[1][i] && f[1][i] == f[2][i]), "an entry is not filled");
        for (auto &v : f) { g.require(v[i] != old[i] && std::isfinite(v[i]), "an entry is not filled"); if (!normal) g.require(v[i] >= a - 1e-15 * std::fabs(a) && v[i] <= a + b + 1e-15 * (std::fabs(a) + b), "a uniform draw outside its interval"); else g.require(std::fabs(v[i] - a) <= 12 * std::sqrt(b), "a normal draw is twelve standard deviations away"); }
    }
    for (int i = 0; i + 1 < L; i++) for (int j = i + 1; j < L; j++) g.require(!(f[0][i] == f[0][j] && f[1][i] == f[1][j] && f[2][i] == f[2][j]), "two entries are filled with the same numbers");
    if (e.Getnumofelements() > 0) { int at = 0; for (int k = 0; k < e.Getnumofelements(); k++) { Element c = e.GetElement(k); V v = bits(c); for (int i = 0; i < (int) v.size(); i++) g.require(at + i < L && v[i] == f[2][at + i], "a component does not hold the numbers drawn"); at += v.size(); } g.label("product"); }
    if (L >= 4 && shared) g.nontrivial();
}

VP_CHECK("C25", laws, 15000, 400000, "a sample of at least a thousand draws") {
    int how = g.integer(0, 3), N = g.pick(std::vector<int>{300, 1000, 4000, 20000}); double a = g.pick(std::vector<double>{0, -3, 10, 1e-3}), b = g.pick(std::vector<double>{1, 4, 1e-2, 25});
    genrandseed(g.integer(0, 1 << 30)); for (int i = g.integer(0, 3); i > 0; i--) genrandreal();
    std::ostringstream o; o << "kind " << how << " of " << N << " parameters " << a << " " << b << " "; g.addNote(o.str());
    V x(N), u(N);
    if (how == 0) { for (auto &e : x) e = genrandreal(); u = x; for (double e : x) g.require(e >= 0 && e <= 1, "a uniform draw outside [0,1]"); law(g, x, [](double t) { return t; }, "uniform numbers"); }
    else if (how == 1) { for (auto &e : x) e = genrandnormal(); for (int i = 0; i < N; i++) u[i] = Phi(x[i]); law(g, x, Phi, "normal numbers"); }
    else {
        bool z = g.boolean(); int m = g.pick(std::vector<int>{1, 10, 50}); Element e = z ? Element(m, N / m / 2, "complex") : Element(m, N / m);
        if (how == 2) e.RandUnform(a, a + b); else e.RandGaussian(a, b);
        x = bits(e); u.resize(x.size()); auto cdf = [&](double t) { return how == 2 ? std::min(1.0, std::max(0.0, (t - a) / b)) : Phi((t - a) / std::sqrt(b)); };
        law(g, x, cdf, how == 2 ? "uniform fill" : "normal fill"); for (size_t i = 0; i < x.size(); i++) u[i] = cdf(x[i]);
        if (z) { V re, im; for (size_t i = 0; i < x.size(); i++) (i % 2 ? im : re).push_back(x[i]); law(g, re, cdf, "real parts of a fill"); law(g, im, cdf, "imaginary parts of a fill"); }
    }
    for (int lag : {1, 2, 3, 5, 10}) unrelated(g, u, lag, how % 2 ? "normal numbers" : "uniform numbers");
    if (how % 2) { V s; for (double e : u) s.push_back(std::fabs(2 * e - 1)); for (int lag : {1, 2}) unrelated(g, s, lag, "sizes of normal numbers"); } /* the two numbers of a polar pair share their radius */
    if (N >= 1000) g.nontrivial();
}
