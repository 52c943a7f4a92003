/* Runner of the property-based checks: forks workers, isolates crashes and hangs, shrinks failures to a
   minimal choice tape, replays each failure three times before it is reported. */
#include "pbt.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <new>

#ifdef VP_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t inUse() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t inUse() { return 0; }
#endif
#ifndef VP_NO_NEWFILL
/* Memory handed out by operator new is filled with 0xFF bytes (a NaN pattern for doubles), so that a
   value computed from uninitialised storage is visible in the result instead of depending on the heap. */
static int fillByte = 0xFF;
static void *fillnew(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, fillByte, n);
    return p;
}
void *operator new(size_t n) { return fillnew(n); }
void *operator new[](size_t n) { return fillnew(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

namespace vp {
std::vector<Check> &registry() { static std::vector<Check> r; return r; }

Gen::Gen(uint64_t seed, SharedCase *s) : sc(s), replay(false), rng(seed) {}
Gen::Gen(const std::vector<uint32_t> &t, SharedCase *s) : sc(s), replay(true), tape(t), rng(0) {}
uint32_t Gen::choice(uint32_t bound)
{
    if (bound == 0) bound = 1;
    uint32_t v;
    if (replay) v = pos < tape.size() ? tape[pos] % bound : 0;
    else v = (uint32_t) (rng.next() % bound);
    pos++;
    if (sc && sc->ntape < TAPE_MAX) { sc->tape[sc->ntape] = v; sc->ntape = sc->ntape + 1; }
    return v;
}
void Gen::label(const std::string &l)
{
    counts[l]++;
    if (sc && strlen(sc->labels) + l.size() + 2 < sizeof sc->labels) { strcat(sc->labels, l.c_str()); strcat(sc->labels, ","); }
}
void Gen::addNote(const std::string &s)
{
    if (sc && sc->nnote + s.size() + 1 < NOTE_MAX) { memcpy(sc->note + sc->nnote, s.c_str(), s.size() + 1); sc->nnote = sc->nnote + (uint32_t) s.size(); }
}
void Gen::close(double a, double b, double scale, double tol, const std::string &what)
{
    if (trace) trace->push_back(std::make_pair(a, b));
    if (!(std::isfinite(a) && std::isfinite(b)) || !(std::fabs(a - b) <= tol * scale)) {
        std::ostringstream o; o.precision(10);
        o << what << ": " << a << " vs " << b << " (scale " << scale << ", tol " << tol << ")";
        fail(o.str());
    }
}
}
using namespace vp;

static uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += ' ';
        else o += c;
    }
    return o;
}
static void armcpu(double s)
{
    itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long) s; t.it_value.tv_usec = (long) ((s - (long) s) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}
static double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + 1e-6 * t.tv_usec; }

struct Failure { int check; long index; std::string kind, msg, note; std::vector<uint32_t> tape; };
static uint64_t caseSeed(uint64_t seed, const Check &c, long i) { return fnv(c.prop + "/" + c.name) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t) i * 0xD1342543DE82EF95ull + 77); }

/* The cases of the other checks, judged for the memory they touch. */
static int plainRun(const Check &c, Gen &g)
{
    srand(12345);
    try { c.fn(g); return 2; }
    catch (PropFail &) { return 3; } /* the business of the check itself */
    catch (Discard &) { return 4; }
    catch (std::bad_alloc &) { throw PropFail{"allocation of an impossible size"}; }
    catch (std::exception &) { return 3; }
}
static int memoryCase(const Check &c, Gen &g, SharedCase *sc)
{
    int st = plainRun(c, g); if (st != 2) return st == 3 ? 4 : st;
    std::vector<uint32_t> tape(sc->tape, sc->tape + sc->ntape); if (sc->ntape >= TAPE_MAX) return st;
    uint32_t h = 0; for (uint32_t v : tape) h = h * 31 + v;
    if (c.mode == 1) {
        if (h % 4) return st;
        std::vector<size_t> m; m.reserve(8); int ok = 2;
        for (int r = 0; r < 5 && ok == 2; r++) { { Gen q(tape, nullptr); ok = plainRun(c, q); } m.push_back(inUse()); if (r == 2 && m[2] <= m[1]) return st; }
        if (ok == 2 && m[2] > m[1] && m[3] > m[2] && m[4] > m[3]) { std::ostringstream o; o << "leak: each repetition keeps " << m[4] - m[3] << " more bytes"; throw PropFail{o.str()}; }
        return st;
    }
#ifndef VP_NO_NEWFILL
    std::vector<std::pair<double, double>> t[2]; int ok[2];
    for (int r = 0; r < 2; r++) { fillByte = r ? 0x3F : 0xFF; Gen q(tape, nullptr); q.trace = &t[r]; ok[r] = plainRun(c, q); }
    fillByte = 0xFF;
    if (ok[0] != ok[1]) throw PropFail{"uninitialised: a run's verdict depends on what fresh memory contains"};
    if (t[0].size() != t[1].size()) throw PropFail{"uninitialised: a run's course depends on what fresh memory contains"};
    for (size_t k = 0; k < t[0].size(); k++) {
        auto differ = [](double a, double b) { return std::memcmp(&a, &b, 8) && !(std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) || std::fabs(a - b) < 1e-9); };
        if (differ(t[0][k].first, t[1][k].first) || differ(t[0][k].second, t[1][k].second)) { std::ostringstream o; o << "uninitialised: a result depends on what fresh memory contains: " << t[0][k].first << " vs " << t[1][k].first << ", " << t[0][k].second << " vs " << t[1][k].second; throw PropFail{o.str()}; }
    }
#endif
    return st;
}
/* runs one case in this process; result in sc */
static void runCase(const Check &c, Gen &g, SharedCase *sc)
{
    sc->state = 1; sc->ntape = 0; sc->nnote = 0; sc->note[0] = 0; sc->msg[0] = 0; sc->labels[0] = 0; sc->nontrivial = 0;
    srand(12345);
    armcpu(c.cpu);
    int st = 2;
    try { if (c.mode) st = memoryCase(c, g, sc); else c.fn(g); }
    catch (PropFail &f) { st = 3; snprintf(sc->msg, MSG_MAX, "%s", f.msg.c_str()); }
    catch (Discard &) { st = 4; }
    catch (std::exception &e) { st = 3; snprintf(sc->msg, MSG_MAX, "exception: %s", e.what()); }
    armcpu(0);
    sc->nontrivial = g.isNontrivial ? 1 : 0;
    sc->state = st;
}
static SharedCase *mapShared()
{
    void *p = mmap(nullptr, sizeof(SharedCase), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (SharedCase *) p;
}
static void quiet(const std::string &errfile)
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(e, 2);
    rlimit r; r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
}
static std::string crashMsg(int status, const std::string &errfile)
{
    std::string m;
    std::ifstream f(errfile.c_str()); std::stringstream ss; ss << f.rdbuf(); std::string err = ss.str();
    if (WIFSIGNALED(status)) {
        int s = WTERMSIG(status);
        if (s == SIGPROF) return "hang: the case used up its CPU-time limit";
        m = "crash: signal " + std::to_string(s);
    } else m = "crash: exit status " + std::to_string(WEXITSTATUS(status));
    size_t p = err.find("Assertion");
    if (p == std::string::npos) p = err.find("SUMMARY:");
    if (p == std::string::npos) p = err.find("runtime error");
    if (p != std::string::npos) m += " " + err.substr(p, 300);
    else m += " " + err.substr(0, 300);
    return m;
}
/* run one tape in a child; returns 2 pass 3 fail 4 discard; msg kind */
struct Outcome { int st; std::string msg, note, labels; std::vector<uint32_t> tape; };
static Outcome runIsolated(const Check &c, const std::vector<uint32_t> *tape, uint64_t seed, const std::string &tmp, bool loud = false)
{
    static SharedCase *sc = mapShared();
    std::string ef = tmp + "/replay.err";
    sc->state = 0; sc->ntape = 0; sc->nnote = 0; sc->note[0] = 0; sc->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        if (!loud) quiet(ef);
        if (tape) { Gen g(*tape, sc); runCase(c, g, sc); }
        else { Gen g(seed, sc); runCase(c, g, sc); }
        _exit(0);
    }
    int status; waitpid(pid, &status, 0);
    Outcome o; o.st = sc->state; o.msg = sc->msg; o.note = sc->note; o.labels = sc->labels;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) ) { o.st = 3; o.msg = crashMsg(status, ef); }
    else if (o.st == 1 || o.st == 0) { o.st = 3; o.msg = "crash: process exited inside the case"; }
    o.tape.assign(sc->tape, sc->tape + sc->ntape);
    return o;
}
static std::string kindOf(const std::string &m) { size_t p = m.find(':'); return m.substr(0, p == std::string::npos ? std::min<size_t>(m.size(), 40) : p); }

static Failure shrink(const Check &c, Failure f, const std::string &tmp, int budget, double wall)
{
    double t0 = now(); int used = 0;
    std::string kind = kindOf(f.msg);
    auto attempt = [&](const std::vector<uint32_t> &t) {
        if (used >= budget || now() - t0 > wall) return false;
        used++;
        Outcome o = runIsolated(c, &t, 0, tmp);
        if (o.st == 3 && kindOf(o.msg) == kind) {
            if (o.tape.size() < f.tape.size() || (o.tape.size() == f.tape.size() && o.tape < f.tape)) {
                f.tape = o.tape; f.msg = o.msg; f.note = o.note; return true;
            }
        }
        return false;
    };
    bool any = true;
    while (any && used < budget && now() - t0 < wall) {
        any = false;
        for (size_t len = std::max<size_t>(1, f.tape.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= f.tape.size();) {
                std::vector<uint32_t> t = f.tape;
                t.erase(t.begin() + i, t.begin() + i + len);
                if (attempt(t)) any = true; else i += len;
                if (used >= budget || now() - t0 > wall) break;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < f.tape.size(); i++) {
            if (f.tape[i] == 0) continue;
            std::vector<uint32_t> t = f.tape; t[i] = 0;
            if (attempt(t)) { any = true; continue; }
            uint32_t lo = 0, hi = i < f.tape.size() ? f.tape[i] : 0;
            while (hi - lo > 1 && i < f.tape.size()) {
                uint32_t mid = lo + (hi - lo) / 2;
                t = f.tape; t[i] = mid;
                if (attempt(t)) { any = true; hi = mid; if (i >= f.tape.size() || f.tape[i] > mid) break; } else lo = mid;
                if (used >= budget || now() - t0 > wall) break;
            }
        }
    }
    return f;
}

static std::string tapeStr(const std::vector<uint32_t> &t)
{
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < t.size(); i++) o << (i ? "," : "") << t[i];
    o << "]"; return o.str();
}

int main(int argc, char **argv)
{
    std::string prop, tier = "quick", out, replayFile, only, tmp = "/tmp";
    uint64_t seed = 1; int W = (int) sysconf(_SC_NPROCESSORS_ONLN); double scale = 1; bool list = false; long oneIndex = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--out") out = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10); else if (a == "--jobs") W = atoi(val().c_str());
        else if (a == "--replay") replayFile = val(); else if (a == "--only") only = val(); else if (a == "--tmp") tmp = val();
        else if (a == "--scale") scale = atof(val().c_str()); else if (a == "--list") list = true; else if (a == "--index") oneIndex = atol(val().c_str());
    }
    if (W < 1) W = 1; if (W > 16) W = 16;
    std::vector<Check> &R = registry();
    for (size_t i = 0, n = R.size(); i < n; i++) {
        Check c = R[i]; if (c.prop == "C24") continue;
#ifdef VP_ASAN
        c.mode = 1; c.name = "mem_" + c.prop + "_" + c.name; c.cpu *= 8; c.quick = std::max<long>(std::min<long>(c.quick, 160), c.quick / 200); c.thorough = std::max<long>(std::min<long>(c.thorough, 4000), c.thorough / 40);
#else
        if (c.prop == "C19") continue; /* depends on the clock */
        c.mode = 2; c.name = "fill_" + c.prop + "_" + c.name; c.cpu *= 3; c.quick = std::max<long>(std::min<long>(c.quick, 300), c.quick / 60); c.thorough = std::max<long>(std::min<long>(c.thorough, 4000), c.thorough / 40);
#endif
        c.prop = "C24"; R.push_back(c);
    }
    std::sort(R.begin(), R.end(), [](const Check &a, const Check &b) { return a.prop != b.prop ? a.prop < b.prop : a.name < b.name; });
    if (list) { for (auto &c : R) printf("%s %s quick=%ld thorough=%ld\n", c.prop.c_str(), c.name.c_str(), c.quick, c.thorough); return 0; }
    if (!replayFile.empty()) { /* format: line 1 prop check, line 2 numbers */
        std::ifstream f(replayFile.c_str()); std::string p, n; f >> p >> n; std::vector<uint32_t> t; uint32_t v; while (f >> v) t.push_back(v);
        for (auto &c : R) if (c.prop == p && c.name == n) {
            Outcome o = runIsolated(c, &t, 0, tmp, getenv("VP_LOUD") != nullptr);
            printf("%s\n%s\n%s\n", o.st == 3 ? "FAIL" : o.st == 2 ? "PASS" : "DISCARD", o.msg.c_str(), o.note.c_str());
            return o.st == 3 ? 1 : 0;
        }
        printf("no such check\n"); return 2;
    }
    std::vector<int> sel;
    for (size_t i = 0; i < R.size(); i++) if ((prop.empty() || R[i].prop == prop) && (only.empty() || R[i].name == only)) sel.push_back((int) i);
    if (sel.empty()) { fprintf(stderr, "no checks for %s\n", prop.c_str()); return 2; }
    if (oneIndex >= 0) { Outcome o = runIsolated(R[sel[0]], nullptr, caseSeed(seed, R[sel[0]], oneIndex), tmp, true); printf("st %d %s\n%s\n%s\n", o.st, o.msg.c_str(), o.note.c_str(), tapeStr(o.tape).c_str()); return 0; }
    double t0 = now();
    std::vector<SharedCase *> sh(W); std::vector<pid_t> pids(W, 0); std::vector<size_t> startSel(W, 0); std::vector<long> startIdx(W, -1);
    for (int w = 0; w < W; w++) sh[w] = mapShared();
    auto ncases = [&](const Check &c) { long n = (long) std::ceil((tier == "thorough" ? c.thorough : c.quick) * scale); return n < 1 ? 1 : n; };
    auto spawn = [&](int w) {
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            std::string ef = tmp + "/w" + std::to_string(w) + ".err"; quiet(ef);
            int rec = open((tmp + "/w" + std::to_string(w) + ".rec").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
            for (size_t s = startSel[w]; s < sel.size(); s++) {
                const Check &c = R[sel[s]]; long n = ncases(c);
                for (long i = (s == startSel[w] && startIdx[w] >= 0) ? startIdx[w] : w; i < n; i += W) {
                    sh[w]->check = (long) s; sh[w]->index = i;
                    if (ftruncate(2, 0)) {}
                    Gen g(caseSeed(seed, c, i), sh[w]);
                    runCase(c, g, sh[w]);
                    int st = sh[w]->state;
                    uint64_t h = 1469598103934665603ull;
                    for (uint32_t k = 0; k < sh[w]->ntape; k++) { h ^= sh[w]->tape[k] + 0x9E37; h *= 1099511628211ull; }
                    std::ostringstream o;
                    o << s << "\t" << i << "\t" << st << "\t" << sh[w]->nontrivial << "\t" << h << "\t" << sh[w]->labels << "\t";
                    std::string nt = (st == 3) ? std::string(sh[w]->msg) : std::string(sh[w]->note);
                    for (char &ch : nt) if (ch == '\n' || ch == '\t') ch = ' ';
                    o << ((st == 3 || i < 2 * W) ? nt : "") << "\n";
                    std::string l = o.str();
                    if (write(rec, l.data(), l.size()) < 0) {}
                    sh[w]->state = 0;
                    if (st == 3) break; /* lowest failing index of this worker is enough */
                }
            }
            _exit(0);
        }
        pids[w] = pid;
    };
    for (int w = 0; w < W; w++) { unlink((tmp + "/w" + std::to_string(w) + ".rec").c_str()); spawn(w); }
    int alive = W;
    std::vector<std::vector<std::string>> crashRec(W);
    std::string harnessError;
    while (alive > 0) {
        int status; pid_t p = waitpid(-1, &status, 0);
        int w = -1; for (int k = 0; k < W; k++) if (pids[k] == p) w = k;
        if (w < 0) continue;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh[w]->state == 0) { alive--; continue; }
        std::string m = crashMsg(status, tmp + "/w" + std::to_string(w) + ".err");
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) m = "crash: process exited inside the case";
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) harnessError = "a worker was killed (memory?)";
        size_t s = (size_t) sh[w]->check; long i = sh[w]->index;
        for (char &ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
        std::ostringstream o; o << s << "\t" << i << "\t3\t0\t0\t\t" << m;
        crashRec[w].push_back(o.str());
        startSel[w] = s + 1; startIdx[w] = -1; sh[w]->state = 0;
        if (startSel[w] >= sel.size()) { alive--; continue; }
        spawn(w);
    }
    /* collect */
    struct Agg { long eval = 0, nt = 0, disc = 0; std::set<uint64_t> distinct; std::map<std::string, long> labels; std::map<long, std::string> samples; long failIdx = -1; std::string failMsg; };
    std::vector<Agg> agg(sel.size());
    for (int w = 0; w < W; w++) {
        std::vector<std::string> lines = crashRec[w];
        std::ifstream f((tmp + "/w" + std::to_string(w) + ".rec").c_str()); std::string line;
        while (std::getline(f, line)) lines.push_back(line);
        for (auto &l : lines) {
            std::vector<std::string> p; std::stringstream ss(l); std::string x; while (std::getline(ss, x, '\t')) p.push_back(x);
            while (p.size() < 7) p.push_back("");
            Agg &a = agg[strtoul(p[0].c_str(), 0, 10)]; long i = atol(p[1].c_str()); int st = atoi(p[2].c_str());
            a.eval++;
            if (st == 4) { a.disc++; continue; }
            if (p[3] == "1") { a.nt++; a.distinct.insert(strtoull(p[4].c_str(), 0, 10)); }
            std::stringstream ls(p[5]); while (std::getline(ls, x, ',')) if (!x.empty()) a.labels[x]++;
            if (st == 3) { if (a.failIdx < 0 || i < a.failIdx) { a.failIdx = i; a.failMsg = p[6]; } }
            else if (p[3] == "1" && !p[6].empty()) a.samples[i] = p[6];
        }
        unlink((tmp + "/w" + std::to_string(w) + ".rec").c_str());
        unlink((tmp + "/w" + std::to_string(w) + ".err").c_str());
    }
    std::vector<Failure> fails; std::vector<std::string> flaky;
    for (size_t s = 0; s < sel.size(); s++) if (agg[s].failIdx >= 0) {
        const Check &c = R[sel[s]];
        Failure f; f.check = sel[s]; f.index = agg[s].failIdx;
        Outcome o; bool ok = true;
        for (int r = 0; r < 3; r++) { o = runIsolated(c, nullptr, caseSeed(seed, c, f.index), tmp); if (o.st != 3) ok = false; }
        if (!ok) { flaky.push_back(c.name + " case " + std::to_string(f.index) + ": " + agg[s].failMsg); continue; }
        f.msg = o.msg; f.note = o.note; f.tape = o.tape;
        if (fails.size() < 4) f = shrink(c, f, tmp, 300, 30);
        fails.push_back(f);
    }
    std::ostringstream j;
    j << "{\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"wall\":" << now() - t0 << ",\"harness_error\":\"" << esc(harnessError) << "\",\"checks\":[";
    for (size_t s = 0; s < sel.size(); s++) {
        const Check &c = R[sel[s]]; Agg &a = agg[s];
        j << (s ? "," : "") << "{\"prop\":\"" << c.prop << "\",\"name\":\"" << c.name << "\",\"rule\":\"" << esc(c.rule) << "\",\"evaluations\":" << a.eval << ",\"nontrivial\":" << a.nt << ",\"distinct_nontrivial\":" << a.distinct.size() << ",\"discarded\":" << a.disc << ",\"labels\":{";
        bool first = true; for (auto &kv : a.labels) { j << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; first = false; }
        j << "},\"samples\":["; first = true; int k = 0;
        for (auto &kv : a.samples) { if (k++ >= 3) break; j << (first ? "" : ",") << "\"" << esc(kv.second) << "\""; first = false; }
        j << "]}";
    }
    j << "],\"failures\":[";
    for (size_t k = 0; k < fails.size(); k++) {
        const Check &c = R[fails[k].check];
        j << (k ? "," : "") << "{\"prop\":\"" << c.prop << "\",\"name\":\"" << c.name << "\",\"index\":" << fails[k].index << ",\"msg\":\"" << esc(fails[k].msg) << "\",\"note\":\"" << esc(fails[k].note) << "\",\"tape\":" << tapeStr(fails[k].tape) << "}";
    }
    j << "],\"flaky\":[";
    for (size_t k = 0; k < flaky.size(); k++) j << (k ? "," : "") << "\"" << esc(flaky[k]) << "\"";
    j << "]}\n";
    if (out.empty()) std::cout << j.str(); else { std::ofstream f(out.c_str()); f << j.str(); }
    return 0;
}
