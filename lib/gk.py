"""Common machinery of all checks: building gkc from /repo's working tree, running it,
running cases in parallel, evidence, violations and known findings."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, random
import traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GKC_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

# undefined-behaviour groups that matter here.  Left out, with the reason: alignment and shift
# (the bundled database engine stores words at unaligned addresses and shifts signed words on
# purpose, everywhere), leaks (the process image is dropped at exit by design).
UB = "bounds,null,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,vla-bound,return,unreachable,bool,enum,nonnull-attribute,returns-nonnull-attribute,builtin"
VARIANTS = {
    "plain": dict(cflags="-O2 -w", ldflags=""),
    "dyn": dict(cflags="-O2 -w", ldflags=""),
    "asan": dict(cflags="-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,%s -fsanitize-recover=undefined" % UB,
                 ldflags="-fsanitize=address,undefined"),
    "tsan": dict(cflags="-O1 -g -w -fsanitize=thread", ldflags="-fsanitize=thread"),
    "cov": dict(cflags="-O0 -w --coverage", ldflags="--coverage"),
}
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1:handle_abort=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0"}


class BuildError(Exception):
    pass


def sources():
    txt = open(os.path.join(REPO, "compile.sh")).read()
    txt = "\n".join(l for l in txt.splitlines() if not l.startswith("#"))
    src = sorted(set(re.findall(r"[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c", txt)))
    if not src:
        raise BuildError("no sources in compile.sh")
    return src


_tree_hash = None


def tree_hash():
    """Hash of every source file of the working tree (not of build products)."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for base, dirs, files in sorted(os.walk(REPO)):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "_build"))
            for f in sorted(files):
                if f.endswith((".c", ".h", ".y", ".l", ".sh")):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash


def _run(cmd, cwd=REPO):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))


def build(variant="plain", bison=False, main=None, extra_src=(), extra_cflags="", name="gkc", defs="", libs=""):
    """Builds a program out of tree and returns its path.
    main: C file used instead of Main/gkc.c (a harness in /verif)."""
    v = VARIANTS[variant]
    cflags = v["cflags"].split() + defs.split() + extra_cflags.split()
    key = hashlib.sha256()
    key.update(("%s|%s|%s|%s|%s|%s" % (tree_hash(), variant, bison, cflags, name, libs)).encode())
    for f in ([main] if main else []) + list(extra_src):
        p = f if os.path.isabs(f) else os.path.join(REPO, f)
        key.update(p.encode() + open(p, "rb").read())
    tag = "%s%s-%s" % (variant, "-bison" if bison else "", key.hexdigest()[:12])
    final = os.path.join(BUILD, "bin", "%s-%s" % (name, tag))
    if os.path.exists(final):
        return final
    obj = os.path.join(BUILD, "obj", "%s%s-%s-%s" % (variant, "-bison" if bison else "", tree_hash(),
                                                     hashlib.sha256(" ".join(cflags).encode()).hexdigest()[:8]))
    os.makedirs(obj, exist_ok=True)
    os.makedirs(os.path.dirname(final), exist_ok=True)
    src = sources()
    inc = []
    jobs = []
    if bison:
        src = [s for s in src if not s.startswith("Builtparser/")]
        src += ["Parser/dbparse.c", "Parser/dbclausify.c", "Parser/jsparse.c"]
        gen = os.path.join(obj, "gen")
        os.makedirs(gen, exist_ok=True)
        for p in ("otter", "prolog"):
            _run(["bison", "-Wnone", "-pwg_yy" + p, "-d", "Parser/db%s.y" % p, "-o", "%s/db%s.tab.c" % (gen, p)])
            _run(["flex", "-Pwg_yy" + p, "-o%s/db%s.yy.c" % (gen, p), "Parser/db%s.l" % p])
            for k in ("tab", "yy"):
                jobs.append(("%s/db%s.%s.c" % (gen, p, k), "%s/gen_%s_%s.o" % (obj, p, k),
                             ["-iquote", gen, "-iquote", "Parser"]))
    if main is not None:
        src = [s for s in src if s != "Main/gkc.c"]
        jobs.append((main, "%s/main_%s.o" % (obj, hashlib.sha256((main + key.hexdigest()).encode()).hexdigest()[:10]), ["-I", REPO]))
    for s in src:
        jobs.append((s, "%s/%s.o" % (obj, s.strip("/").replace("/", "_")), inc + ["-I", REPO]))
    for s in extra_src:
        jobs.append((s, "%s/extra_%s.o" % (obj, hashlib.sha256(s.encode() + open(os.path.join(REPO, s), "rb").read()).hexdigest()[:12]), inc + ["-I", REPO]))

    def cc(j):
        s, o, i = j
        if os.path.exists(o):
            return
        tmp = o + ".%d.tmp" % os.getpid()
        _run(["gcc"] + cflags + i + ["-c", "-o", tmp, s])
        os.replace(tmp, o)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(cc, jobs))
    tmp = final + ".%d.tmp" % os.getpid()
    link = ["gcc"] + v["ldflags"].split() + ["-o", tmp] + [j[1] for j in jobs]
    if main is not None:
        link += ["-Wl,--defsym,wg_show_database=0"]
    if variant == "plain" and main is None:
        link += ["-static"]
    _run(link + ["-lm"] + libs.split())
    os.replace(tmp, final)
    return final


def shared(src, name):
    """Builds a preload library from a C file of /verif/lib and returns its path."""
    p = os.path.join(VERIF, "lib", src)
    out = os.path.join(BUILD, "bin", "%s-%s.so" % (name, hashlib.sha256(open(p, "rb").read()).hexdigest()[:12]))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        _run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, p, "-ldl"])
        os.replace(tmp, out)
    return out


# ---------------------------------------------------------------- running

_scratch = None


def _kill_users(path):
    """Ends the programs of this check run (known by the scratch directory in their command line or as
    working directory) that an early stop left running."""
    for d in os.listdir("/proc"):
        if not d.isdigit() or int(d) == os.getpid():
            continue
        try:
            cmd = open("/proc/%s/cmdline" % d, "rb").read().decode("utf8", "replace")
            if path in cmd or os.readlink("/proc/%s/cwd" % d) == path:
                os.kill(int(d), signal.SIGKILL)
        except OSError:
            pass


def scratch():
    """Scratch directory of this check run, removed at exit; shared by the worker processes."""
    global _scratch
    if _scratch is None:
        _scratch = os.environ.get("VERIF_SCRATCH_DIR")
        if not _scratch:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
            _scratch = tempfile.mkdtemp(prefix="gkv-", dir=base)
            os.environ["VERIF_SCRATCH_DIR"] = _scratch
            pid = os.getpid()

            def clean():
                if os.getpid() == pid:
                    _kill_users(_scratch)
                    shutil.rmtree(_scratch, ignore_errors=True)
            atexit.register(clean)
    return _scratch


class Run:
    __slots__ = ("cmd", "rc", "out", "err", "timeout", "wall")

    def __init__(s, cmd, rc, out, err, timeout, wall):
        s.cmd, s.rc, s.out, s.err, s.timeout, s.wall = cmd, rc, out, err, timeout, wall

    def crashed(s):
        """Name of the way the process died, or None."""
        if s.timeout:
            return None
        if s.rc is not None and s.rc < 0:
            return "signal %d" % -s.rc
        if "AddressSanitizer" in s.err or "AddressSanitizer" in s.out:
            return "asan"
        return None


def run(cmd, timeout=20, stdin=None, env=None, cwd=None, memlimit=None, text=True):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C.UTF-8"
    if env:
        e.update(env)
    t = time.time()

    def pre():
        os.setsid()
        if memlimit:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (memlimit, memlimit))
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or scratch(),
                         start_new_session=True if not memlimit else False, preexec_fn=pre if memlimit else None)
    to = False
    try:
        out, err = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    if text:
        out, err = out.decode("utf8", "replace"), err.decode("utf8", "replace")
    return Run(cmd, p.returncode, out, err, to, time.time() - t)


_cnt = 0


def tmpfile(text, suffix=".txt"):
    global _cnt
    _cnt += 1
    p = os.path.join(scratch(), "f%d_%d%s" % (os.getpid(), _cnt, suffix))
    with open(p, "wb") as f:
        f.write(text.encode() if isinstance(text, str) else text)
    return p


SINGLE = {"strategy": ["negative_pref"], "query_preference": 0}


def gkc(binp, text=None, files=(), args=(), strategy=None, mode="-json", fmt=".txt", parallel=0, mb=60,
        timeout=20, printlevel=10, seconds=None, env=None, keep=False, memlimit=None):
    """Runs gkc on a problem text; returns Run."""
    fs = list(files)
    tmp = None
    if text is not None:
        tmp = tmpfile(text, fmt)
        fs.append(tmp)
    cmd = [binp] + fs + ["-parallel", str(parallel), "-print", str(printlevel)]
    if mb:
        cmd += ["-mbsize", str(mb)]
    if mode:
        cmd += [mode]
    if strategy is not None:
        cmd += ["-strategytext", strategy if isinstance(strategy, str) else json.dumps(strategy)]
    if seconds:
        cmd += ["-seconds", str(seconds)]
    cmd += list(args)
    r = run(cmd, timeout=timeout, env=env, memlimit=memlimit)
    if tmp and not keep:
        os.unlink(tmp)
    return r


# ---------------------------------------------------------------- sanitizer reports

def san_key(txt):
    """Stable keys of the sanitizer reports in a stderr text: kind + function of the first repo frame."""
    keys = []
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", txt)
    if m:
        kind = m.group(1)
        fn = "?"
        for f, where in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", txt[m.start():]):
            if where.startswith(("Db/", "Reasoner/", "Parser/", "Builtparser/", "Main/", "Printer/", "cjson/", "json/")) or REPO in where:
                fn = f
                break
        keys.append("asan:%s:%s" % (kind, fn))
    for m in re.finditer(r"(\S+\.[chly]):\d+:\d+: runtime error: ([^\n]*)((?:\n +#\d+ [^\n]*)*)", txt):
        msg = re.sub(r"-?\d[\d.e+]*", "N", m.group(2))
        fn = re.search(r" in (\S+)", m.group(3) or "")
        keys.append("ubsan:%s:%s" % (fn.group(1) if fn else os.path.basename(m.group(1)), msg[:70]))
    return sorted(set(keys))


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines of known-findings.txt: 'finding: property=<id> key=<key> <description>'."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------- the check driver

class Check:
    """Collects what the monitors saw, and decides the verdict."""

    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.viol = []          # (key, message, replay dict)
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.nontrivial = 0
        self.inconclusive = 0
        self.assumptions = []

    def add(self, res):
        """Merge the result of one case: dict with optional counts, distinct, sample, violations, evals, inconclusive."""
        self.evaluations += res.get("evals", 1)
        self.inconclusive += res.get("inconclusive", 0)
        for k, v in res.get("counts", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        for d in res.get("distinct", ()):
            self.distinct.add(d)
        if res.get("sample") is not None and len(self.samples) < 6:
            self.samples.append(res["sample"])
        for v in res.get("violations", ()):
            self.viol.append(v)

    def finish(self, rule, extra=None, need=None):
        """Writes evidence and replay files, prints verdict, exits.
        need: {counter: minimum} the run must have observed, or the check fails as an error."""
        known = known_findings(self.prop)
        fresh, seen = {}, {}
        for key, msg, rep in self.viol:
            if key in known:
                seen.setdefault(key, []).append(msg)
            else:
                fresh.setdefault(key, []).append((msg, rep))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": rule,
               "samples": self.samples or ["(none)"], "observed": dict(sorted(self.counts.items())),
               "inconclusive": self.inconclusive}
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": []}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        lines = []
        for i, (key, l) in enumerate(sorted(fresh.items())):
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%d.json" % (self.prop, i))
            json.dump({"property": self.prop, "key": key, "message": l[0][0], "occurrences": len(l), "case": l[0][1]},
                      open(rp, "w"), indent=1, default=str)
            ev["violations"].append({"key": key, "message": l[0][0][:500], "replay": rp})
            lines.append("VIOLATION property=%s replay=%s key=%s: %s" % (self.prop, rp, key, l[0][0].replace("\n", " ")[:300]))
        cov["known_findings_seen"] = {k: len(v) for k, v in seen.items()}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for k, d in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)" % (self.prop, k, d, len(seen.get(k, []))))
        for l in lines[:20]:
            print(l)
        print("%s: %d evaluations, %d distinct, %d inconclusive, %d violation keys, %.1f s; %s" % (
            self.prop, self.evaluations, len(self.distinct), self.inconclusive, len(fresh), time.time() - self.t0,
            " ".join("%s=%s" % kv for kv in sorted(self.counts.items()))[:1500]))
        sys.stdout.flush()
        if fresh:
            sys.exit(1)
        for k, n in (need or {}).items():
            have = len(self.distinct) if k == "distinct" else self.counts.get(k, 0)
            if have < n:
                print("ERROR: the run observed %s=%s, fewer than the %s it needs to mean anything" % (k, have, n))
                sys.exit(2)
        sys.exit(0)


def rng(*parts):
    return random.Random(hashlib.sha256(repr((SEED,) + parts).encode()).digest())


def _call(a):
    fn, arg = a
    try:
        return fn(arg)
    except Exception:
        return {"harness_error": traceback.format_exc(), "arg": repr(arg)[:300]}


def cases(check, fn, args, chunksize=1, stop_after=12, jobs=None):
    """Runs fn over args in worker processes and merges the results into the check."""
    args = list(args)
    errors = 0
    scratch()
    nviol = 0
    with mp.Pool(jobs or NPROC) as pool:
        for res in pool.imap_unordered(_call, [(fn, a) for a in args], chunksize):
            if "harness_error" in res:
                errors += 1
                if errors <= 3:
                    print("harness error on %s\n%s" % (res["arg"], res["harness_error"]))
                continue
            check.add(res)
            known = known_findings(check.prop) if res.get("violations") else {}
            nviol += sum(1 for v in res.get("violations", ()) if v[0] not in known)
            if nviol >= stop_after:
                pool.terminate()
                break
    if errors:
        print("ERROR: %d harness errors" % errors)
        if not nviol:
            sys.exit(2)


def main(fn):
    """Runs a check's main function; a build failure or harness failure is an error, never a verdict."""
    try:
        fn()
    except BuildError as e:
        print("ERROR: build failed: %s" % e)
        sys.exit(3)
