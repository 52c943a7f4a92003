#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and runs the generated-input checks of one property.

  run.py build [asan]                 build only
  run.py check <ID> [--scale K]       run one property (VERIF_SEED, VERIF_TIER or --tier)
  run.py replay <replay file>         re-run one saved minimal failure
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4
ASAN_PROPS = {"C24"}

FLAVOURS = {
    "plain": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,pointer-overflow,enum",
             "-fno-sanitize-recover=undefined", "-DVP_NO_NEWFILL", "-DVP_ASAN"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_sources():
    """the library sources the project's own Makefile lists (its CPPS), tests excluded"""
    mk = os.path.join(BUILD, "list.mk")
    with open(mk, "w") as f:
        f.write("include %s/Makefile\n.PHONY: vplist\nvplist:\n\t@echo SRC $(CPPS)\n\t@echo INC $(INCDIRS)\n" % REPO)
    o = subprocess.run(["make", "-s", "-f", mk, "ROOTPATH=" + REPO, "vplist"], capture_output=True, text=True)
    src, inc = [], []
    for line in o.stdout.splitlines():
        if line.startswith("SRC "):
            src = line.split()[1:]
        if line.startswith("INC "):
            inc = line.split()[1:]
    src = sorted({os.path.normpath(s) for s in src if "/test/" not in s})
    inc = [i for i in inc if "/test" not in i]
    if not src:
        raise RuntimeError("cannot list the sources: " + o.stderr)
    return src, inc


def sha(path, h):
    with open(path, "rb") as f:
        h.update(f.read())


def build(flavour):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src, inc = repo_sources()
        hdr = hashlib.sha256()
        heads = []
        for d, dn, fn in os.walk(REPO):
            dn[:] = sorted(x for x in dn if x not in (".git", "_build", "cwrapper"))
            for n in sorted(fn):
                if n.endswith((".h", ".hpp")):
                    heads.append(os.path.join(d, n))
        for p in heads:
            hdr.update(os.path.relpath(p, REPO).encode())
            sha(p, hdr)
        flags = FLAVOURS[flavour]
        hh = hashlib.sha256(hdr.digest())
        for n in sorted(os.listdir(HARN)):
            if n.endswith(".h"):
                sha(os.path.join(HARN, n), hh)
        obj = os.path.join(BUILD, "obj-" + flavour)
        os.makedirs(obj, exist_ok=True)
        jobs, objs = [], []

        def add(s, base, std, extra):
            h = hashlib.sha256(base)
            h.update(" ".join(flags + [std] + extra).encode())
            sha(s, h)
            o = os.path.join(obj, os.path.basename(s) + "." + h.hexdigest()[:24] + ".o")
            objs.append(o)
            if not os.path.exists(o):
                cmd = ["g++", "-w", std, "-DROPTLIB_WITH_FFTW"] + flags + inc + extra + ["-c", s, "-o", o + ".tmp"]
                jobs.append((cmd, o, s))
        for s in src:
            add(s, hdr.digest(), "-std=c++11", [])
        for n in sorted(os.listdir(HARN)):
            if n.endswith(".cpp"):
                add(os.path.join(HARN, n), hh.digest(), "-std=c++17", ["-I" + HARN])

        def one(j):
            r = subprocess.run(j[0], capture_output=True, text=True)
            if r.returncode == 0:
                os.replace(j[1] + ".tmp", j[1])
            return r.returncode, r.stderr, j[2]
        jobs.sort(key=lambda j: -os.path.getsize(j[2]))
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, jobs))
        bad = [r for r in res if r[0]]
        if bad:
            for r in bad[:5]:
                log("build failed:", r[2], "\n", r[1][:3000])
            raise RuntimeError("build failed")
        key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "vp-%s-%s" % (flavour, key))
        if not os.path.exists(exe):
            r = subprocess.run(["g++"] + flags + objs + ["-llapack", "-lblas", "-lfftw3", "-lm", "-o", exe + ".tmp"],
                               capture_output=True, text=True)
            if r.returncode:
                log(r.stderr[:3000])
                raise RuntimeError("link failed")
            os.replace(exe + ".tmp", exe)
        # forget old builds
        olds = sorted((os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith("vp-" + flavour)), key=os.path.getmtime)
        for p in olds[:-4]:
            if p != exe:
                os.remove(p)
        allo = sorted((os.path.join(obj, n) for n in os.listdir(obj)), key=os.path.getmtime)
        keep = set(objs)
        for p in allo[:-600]:
            if p not in keep:
                os.remove(p)
        return exe
    finally:
        lock.close()


def env():
    e = dict(os.environ)
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=255:abort_on_error=0:exitcode=77:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def check(prop, tier, seed, scale):
    t0 = time.time()
    exes = [build(f) for f in (("asan", "plain") if prop in ASAN_PROPS else ("plain",))]
    log("built in %.1fs: %s" % (time.time() - t0, exes[0]))
    res = None
    for exe in exes:
        tmp = tempfile.mkdtemp(prefix="vp-")
        try:
            out = os.path.join(tmp, "out.json")
            cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--tmp", tmp, "--scale", str(scale), "--jobs", "8"]
            r = subprocess.run(cmd, env=env())
            if r.returncode or not os.path.exists(out):
                log("the runner ended with status", r.returncode)
                return 2
            one = json.load(open(out))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if res is None:
            res = one
        else:
            for k in ("checks", "failures", "flaky"):
                res[k] = res[k] + one[k]
            res["harness_error"] = res["harness_error"] or one["harness_error"]
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "finding"]
    viol, knownhit = [], []
    for f in res["failures"]:
        hit = next((k for k in kf if k["check"] == f["name"] and re.search(k["match"], f["msg"])), None)
        (knownhit if hit else viol).append((f, hit))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lines = []
    for f, _ in viol:
        path = os.path.join(VERIF, "replays", "%s-%s.replay" % (prop, f["name"]))
        with open(path, "w") as g:
            g.write("%s %s\n%s\n# seed %s tier %s case %d\n# %s\n# %s\n" % (
                prop, f["name"], " ".join(map(str, f["tape"])), seed, tier, f["index"], f["msg"], f["note"]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        log("  %s: %s\n     %s" % (f["name"], f["msg"], f["note"]))
    for f, k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    if res["flaky"]:
        log("not reproduced when replayed alone (not reported):", res["flaky"])
    if res["harness_error"]:
        log("harness error:", res["harness_error"])
    ch = res["checks"]
    samples = []
    for c in ch:
        for s in c["samples"][:2]:
            samples.append("%s: %s" % (c["name"], s[:600]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in ch),
            "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in ch),
            "rule": "choice-tape generation, cases distinct by their tape; per check: " + " | ".join("%s: %s" % (c["name"], c["rule"]) for c in ch),
            "samples": samples[:24],
            "per_check": {c["name"]: {k: c[k] for k in ("evaluations", "nontrivial", "distinct_nontrivial", "discarded", "labels")} for c in ch},
            "replayed_alone_without_failing": res["flaky"],
        },
        "assumptions": ["reference BLAS/LAPACK/FFTW of the sandbox are correct", "IEEE double arithmetic; stated tolerances"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    log("%s: %d cases, %d distinct non-trivial, %.1fs, %d failing checks" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], len(viol)))
    if res["harness_error"] and not viol:
        return 2
    for l in lines:
        print(l, flush=True)
    return 1 if viol else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        for f in (a[1:] or ["plain", "asan"]):
            log(build(f))
        return 0
    if a[0] == "replay":
        name = open(a[1]).readline().split()
        exe = build("asan" if name[0] in ASAN_PROPS and not name[1].startswith("fill_") else "plain")
        tmp = tempfile.mkdtemp(prefix="vp-")
        try:
            raw = [l for l in open(a[1]) if not l.startswith("#")]
            p = os.path.join(tmp, "r")
            open(p, "w").write("".join(raw))
            return subprocess.run([exe, "--replay", p, "--tmp", tmp], env=env()).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        scale = float(a[a.index("--scale") + 1]) if "--scale" in a else 1.0
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return check(a[1], tier, seed, scale)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        log("error:", e)
        sys.exit(2)
