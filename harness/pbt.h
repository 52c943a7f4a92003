/* Minimal property-based testing engine: integrated-shrinking generator ("choice tape"), registry of
   checks, fork-isolated execution. Every random choice of a case goes through Gen, so a tape replays it. */
#ifndef VP_PBT_H
#define VP_PBT_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct PropFail { std::string msg; };
struct Discard {};

struct SplitMix {
    uint64_t s;
    explicit SplitMix(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x2545F4914F6CDD1Dull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double unif() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double normal() {
        double u = unif(), v = unif();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586476925 * v);
    }
};

struct SharedCase; /* lives in shared memory: tape, notes, verdict of the case being run */

class Gen {
public:
    /* random mode */
    Gen(uint64_t seed, SharedCase *sc);
    /* replay mode */
    Gen(const std::vector<uint32_t> &tape, SharedCase *sc);

    /* one choice in [0, bound) ; shrinks towards 0 */
    uint32_t choice(uint32_t bound);
    int integer(int lo, int hi) { return lo + (int) choice((uint32_t) (hi - lo + 1)); }
    bool boolean() { return choice(2) == 1; }
    /* true with probability num/den ; shrinks to false */
    bool chance(uint32_t num, uint32_t den) { return choice(den) >= den - num; }
    double real(double lo, double hi) { return lo + (hi - lo) * (choice(1001) / 1000.0); }
    double logreal(double lo, double hi) { return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * (choice(1001) / 1000.0)); }
    /* bulk-data generator seeded by one choice */
    SplitMix data() { uint64_t c = choice(1u << 20); return SplitMix(c + 1 + ((uint64_t) ++ndata << 32)); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[choice((uint32_t) v.size())]; }

    void nontrivial() { isNontrivial = true; }
    void label(const std::string &l);
    template <class T> void note(const char *k, const T &v) { std::ostringstream o; o << k << "=" << v << " "; addNote(o.str()); }
    void addNote(const std::string &s);
    [[noreturn]] void fail(const std::string &m) { throw PropFail{m}; }
    void require(bool c, const std::string &m) { if (!c) throw PropFail{m}; }
    /* |a-b| <= tol * max(scale, 1e-300) and both finite */
    void close(double a, double b, double scale, double tol, const std::string &what);

    bool isNontrivial = false;
    std::map<std::string, long> counts; /* optional extra measurements */
    std::vector<std::pair<double, double>> *trace = nullptr; /* every pair of values compared */
private:
    SharedCase *sc;
    bool replay;
    std::vector<uint32_t> tape;
    size_t pos = 0;
    unsigned ndata = 0;
    SplitMix rng;
};

typedef void (*CheckFn)(Gen &);
struct Check {
    std::string prop, name, rule;
    CheckFn fn;
    long quick, thorough; /* number of cases in each tier */
    double cpu;           /* CPU seconds a case may use */
    int mode = 0;         /* 1 memory errors and leaks only, 2 influence of fresh memory's contents only */
};
std::vector<Check> &registry();
struct Reg {
    Reg(const char *prop, const char *name, CheckFn fn, long q, long t, const char *rule, double cpu = 60) {
        Check c; c.prop = prop; c.name = name; c.rule = rule; c.fn = fn; c.quick = q; c.thorough = t; c.cpu = cpu; registry().push_back(c);
    }
};
#define VP_CHECK(PROP, NAME, Q, T, RULE) \
    static void NAME(vp::Gen &g); \
    static vp::Reg reg_##NAME(PROP, #NAME, NAME, Q, T, RULE); \
    static void NAME(vp::Gen &g)

const int TAPE_MAX = 65536, NOTE_MAX = 8192, MSG_MAX = 4096;
struct SharedCase {
    volatile long check, index; /* case in progress */
    volatile int state;         /* 0 idle, 1 running, 2 pass, 3 fail, 4 discard */
    volatile int nontrivial;
    volatile uint32_t ntape;
    uint32_t tape[TAPE_MAX];
    volatile uint32_t nnote;
    char note[NOTE_MAX];
    char msg[MSG_MAX];
    char labels[1024];
};
} // namespace vp
#endif
