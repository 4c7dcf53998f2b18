#!/usr/bin/env python3
"""Driver: python3 check.py <property> | --setup | --list
Builds the harness of the property from /repo's working tree, runs it on all
cores, confirms every failure by replaying it, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
H = os.path.join(ROOT, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks_table import PROPS, BINS, CHECKS  # noqa: E402

ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.utf8",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=2048",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0", TSAN_OPTIONS="exitcode=97")
for k in ("MAKEFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS"): ENV.pop(k, None)

BASE = ["-g1", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer", "-pthread"]
LIBS = ["-lbz2", "-lz", "-llzma", "-lzstd", "-lcurl", "-lpthread"]
# what each part of the repository consists of; whatever C files are there are built
PARTS = {
    "libtty": ["libtty/*.c"], "libstream": ["libstream/*.c"], "sys": ["sys/*.c", "sys/unix/*.c"],
    "common": ["common/*.c"], "rec": ["rec/*.c"], "play": ["play/*.c"], "cat": ["cat/*.c"], "time": ["time/*.c"],
}

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, **kw)

def repo_headers_hash():
    h = hashlib.sha256()
    for r, d, fs in os.walk(REPO):
        d[:] = sorted(x for x in d if x not in (".git", "win32", "tests", "doc", ".libs", "autom4te.cache", ".deps"))
        for f in sorted(fs):
            if f.endswith(".h"):
                p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

_hh = None
def includes():
    inc = ["-I" + os.path.join(REPO, d) for d in ("", "sys", "libtty", "common")]
    if not os.path.exists(os.path.join(REPO, "config.h")):
        inc.append("-I" + os.path.join(ROOT, "support"))
    return inc

_gen = None
def cpp_headers():
    """copies of the public headers a C++ compiler accepts: `typedef struct tty {..} *tty`
    gives the tag and the pointer type one name, which C++ does not allow"""
    global _gen
    if _gen: return _gen
    d = os.path.join(BUILD, "inc-" + repo_headers_hash()[:16])
    if not os.path.isdir(d):
        tmp = "%s.%d" % (d, os.getpid()); os.makedirs(tmp, exist_ok=True)
        for f in glob.glob(os.path.join(REPO, "libtty", "*.h")):
            s = open(f, errors="replace").read()
            for t in set(re.findall(r"\}\s*\*\s*(\w+)\s*;", s)): s = re.sub(r"\bstruct\s+%s\b" % t, "struct %s_s" % t, s)
            open(os.path.join(tmp, os.path.basename(f)), "w").write(s)
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    _gen = d
    return d

def compile_one(src, flags, extra_hash=""):
    """compile src with flags into the cache; returns (object, error)"""
    global _hh
    if _hh is None: _hh = repo_headers_hash()
    h = hashlib.sha256()
    h.update(_hh.encode()); h.update(src.encode()); h.update(open(src, "rb").read()); h.update(repr(flags).encode()); h.update(extra_hash.encode())
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:24] + ".o")
    if os.path.exists(obj): return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d" % os.getpid()
    cc = "g++" if src.endswith(".cpp") else "gcc"
    r = sh([cc, "-c", src, "-o", tmp] + flags)
    if r.returncode: return None, "compiling %s:\n%s" % (src, r.stdout[-4000:])
    os.replace(tmp, obj)
    return obj, None

def build(name):
    b = BINS[name]
    san = b.get("san", ["-fsanitize=address"])
    inc = includes()
    hh = hashlib.sha256()
    for f in sorted(glob.glob(H + "/*.hpp") + glob.glob(H + "/*.h")): hh.update(open(f, "rb").read())
    jobs = []
    cflags = BASE + ["-O1", "-w", "-Wno-error", "-std=gnu17"] + san + inc
    for part in b["parts"]:
        fl = b.get("partflags", {}).get(part, [])
        for pat in PARTS[part]:
            for s in sorted(glob.glob(os.path.join(REPO, pat))):
                rel = os.path.relpath(s, REPO)
                if rel in b.get("skip", []): continue
                xf = b.get("cflags", []) + b.get("fileflags", {}).get(rel, [])
                jobs.append((s, cflags + [x.replace("@H@", H) for x in fl + xf], hh.hexdigest() if fl or xf else "", True))
    for s in b["src"]:
        cxx = s.endswith(".cpp")
        fl = BASE + [b.get("opt", "-O1"), "-w"] + (["-std=gnu++20"] if cxx else ["-std=gnu17"]) + b.get("hsan", san) + (["-I" + cpp_headers()] if cxx else []) + inc + ["-I" + H] + b.get("flags", [])
        jobs.append((os.path.join(H, s), fl, hh.hexdigest(), False))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], j[2]), jobs))
    errs = [e for _, e in res if e]
    if errs: die("build failed: " + errs[0])
    wraps = ["-Wl,--wrap=" + w for w in b.get("wrap", [])]
    key = hashlib.sha256((repr([o for o, _ in res]) + repr(b)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, name + "-" + key)
    if not os.path.exists(exe):
        objs = [o for (o, _), j in zip(res, jobs) if not j[3]]
        lib = [o for (o, _), j in zip(res, jobs) if j[3]]
        if b.get("objcopy"):
            # (in a section of their own the code's variables can be reset)
            new = []
            for o in lib:
                n = exe + "." + os.path.basename(o)
                r = sh(["objcopy"] + b["objcopy"] + [o, n])
                if r.returncode: die(r.stdout)
                new.append(n)
            lib = new
        ar = exe + ".a"
        if os.path.exists(ar): os.unlink(ar)
        r = sh(["ar", "rcs", ar] + lib)
        if r.returncode: die(r.stdout)
        tmp = exe + ".%d" % os.getpid()
        whole = (["-Wl,--whole-archive", ar, "-Wl,--no-whole-archive"] if b.get("whole") else [ar])
        r = sh(["g++", "-o", tmp] + objs + b.get("lsan", san) + wraps + whole + LIBS + b.get("libs", []) + ["-pthread"])
        os.unlink(ar)
        if b.get("objcopy"):
            for o in lib: os.unlink(o)
        if r.returncode: die("link failed: " + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe

class Run:
    def __init__(self):
        self.stats, self.samples, self.fails, self.errors = {}, [], [], []

def run_shard(exe, mode, i, n, limit, extra=()):
    cmd = [exe, "--mode", mode, "--tier", TIER, "--seed", str(SEED), "--shard", "%d/%d" % (i, n)] + list(extra)
    wd = os.path.join(BUILD, "run.%d.%s.%d" % (os.getpid(), mode.replace(":", "_"), i))
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=dict(ENV, TMPDIR=wd, VERIF_WORK=wd), cwd=wd, start_new_session=True)
        try:
            out, err = p.communicate(timeout=limit)
            to = False
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            out, err = p.communicate(); to = True
        return out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), p.returncode, to
    finally:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        shutil.rmtree(wd, ignore_errors=True)

def absorb(run, mode, res, shard=None):
    out, err, rc, to = res
    done = False
    for l in out.split("\n"):
        if l.startswith("STAT "):
            _, k, v = l.split(); run.stats[k] = run.stats.get(k, 0) + int(v)
        elif l.startswith("MAXSTAT "):
            _, k, v = l.split(); run.stats[k] = max(run.stats.get(k, 0), int(v))
        elif l.startswith("SAMPLE "): run.samples.append(l[7:])
        elif l.startswith("FAIL\t"):
            p = l.split("\t"); run.fails.append((mode, p[1], p[2], p[3] if len(p) > 3 else "", shard))
        elif l.startswith("CRASH\t"):
            p = l.split("\t")
            why = p[2] if len(p) > 2 else ""
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*|runtime error: [^\n]*)", err)
            if m: why += ": " + re.sub(r"0x[0-9a-f]+|==\d+==", "", m.group(1))[:200]
            run.fails.append((mode, "crash", p[1], why, shard)); done = True
        elif l == "DONE": done = True
    if not done:
        run.errors.append("%s: shard did not finish (rc %s%s): %s" % (mode, rc, ", time limit" if to else "", err[-600:]))

def known():
    k = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m: k.append(m.groups())
    return k

def main():
    if len(sys.argv) < 2: die("usage: check.py PROPERTY|--setup|--list")
    a = sys.argv[1]
    if a == "--list": print("\n".join(PROPS)); return 0
    if a == "--setup":
        if sh(["gcc", "--version"]).returncode: die("no compiler")
        for n in BINS: build(n)
        print("setup done"); return 0
    if a not in PROPS: die("no check for " + a)
    t0 = time.time()
    jobs = PROPS[a]
    run = Run()
    work = []
    for j in jobs:
        exe = build(j["bin"])
        for m in j["modes"]:
            n = j.get("shards", NPROC)
            for i in range(n): work.append((exe, m, i, n, j.get("limit", 3000 if TIER == "thorough" else 800)))
    tb = time.time() - t0
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        # replay a file written by an earlier run: first line mode, second line spec
        mode, spec = open(sys.argv[3]).read().split("\n")[:2]
        for j in jobs:
            if mode in j["modes"]:
                exe = build(j["bin"]); r = run_replay(exe, mode, spec); print(r[0], r[1]); return 0
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for w, r in zip(work, ex.map(lambda w: run_shard(*w), work)): absorb(run, w[1], r, w)
    # confirm
    conf, unrep, knownhit = [], [], []
    kn = [k for k in known() if k[0] == a]
    os.makedirs(REPLAYS, exist_ok=True)
    exes = {w[1]: w[0] for w in work}
    fresh = []
    for f in run.fails:
        hit = next((k for k in kn if re.fullmatch(k[1], f[1])), None)
        if hit: knownhit.append(hit)
        else: fresh.append(f)
    for f in fresh[:12]:
        mode, sig, spec, msg, shard = f
        if len(conf) >= 3 or conf and time.time() - t0 > 150: continue
        ok = True
        for _ in range(2):
            r = Run(); absorb(r, mode, run_replay(exes[mode], mode, spec))
            if not r.fails: ok = False; break
        if not ok and shard and time.time() - t0 < 400:
            # it may take the cases before it: run the same shard again
            r = Run(); absorb(r, mode, run_shard(*shard)); ok = any(x[2] == spec for x in r.fails)
        (conf if ok else unrep).append(f)
    for k in {x[1]: x for x in knownhit}.values(): print("KNOWN-FINDING: property=%s %s" % (a, k[2]))
    for i, (mode, sig, spec, msg, shard) in enumerate(conf):
        rp = os.path.join(REPLAYS, "%s-%s.txt" % (a, hashlib.sha256((mode + spec).encode()).hexdigest()[:10]))
        open(rp, "w").write(mode + "\n" + spec + "\n" + msg + "\n")
        print("%s %s: %s" % (mode, spec[:300], msg[:400]))
        print("VIOLATION property=%s replay=%s" % (a, rp))
    write_evidence(a, run, conf, unrep, time.time() - t0, tb)
    if conf: return 1
    if unrep:
        for f in unrep: print("not reproduced: %s %s: %s" % (f[0], f[2][:200], f[3][:200]))
        if any(f[1] == "crash" for f in unrep): run.errors.append("a crash could not be reproduced")
    if run.errors:
        for e in run.errors[:3]: print("ERROR: " + e)
        return 2
    s = run.stats
    print("%s held: %s (%.1fs, build %.1fs)" % (a, ", ".join("%s %d" % kv for kv in sorted(s.items())), time.time() - t0, tb))
    return 0

def run_replay(exe, mode, spec):
    f = os.path.join(BUILD, "replay.%d" % os.getpid())
    open(f, "w").write(spec + "\n")
    try: return run_shard(exe, mode, 0, 1, 600, ["--replayfile", f])
    finally: os.unlink(f)

def write_evidence(a, run, conf, unrep, wall, tb):
    technique, level, note = CHECKS[a]
    s = dict(run.stats)
    cov = {}
    if level == "model_checking":
        cov["states"] = s.pop("states", 0); cov["transitions"] = s.pop("transitions", 0)
        cov["traces_validated_against_impl"] = s.pop("traces", cov["transitions"])
    else:
        cov["evaluations"] = s.pop("evals", 0); cov["distinct_nontrivial"] = s.pop("nontrivial", cov["evaluations"])
        cov["rule"] = note
    sm = sorted(set(run.samples)); n = min(8, len(sm))
    cov["samples"] = [sm[i * len(sm) // n] for i in range(n)] or ["(none)"]
    cov["exhaustive"] = not run.errors and not s.get("capped")
    for k, v in s.items(): cov["n_" + k] = v
    if unrep: cov["unreproduced"] = len(unrep)
    ev = {"property": a, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": [note], "wall_s": round(wall, 2), "violations": len(conf)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", a + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    sys.exit(main())
