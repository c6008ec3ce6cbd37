"""C15: a dumped knowledge base loads back to the same knowledge base; a damaged, truncated or half-written file is refused."""
import sys, os, signal, subprocess, time, resource, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, ground, planted, shm, unsat, c05, c14
from logic import *

B = H = HA = None
BASE = 10000000 + (os.getpid() % 10000) * 100


def small(i):
    """The dump functions on databases of every size, linked from the real code."""
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    d = os.path.join(gk.scratch(), "d%d" % i)
    os.makedirs(d)
    try:
        n, asan = 12, i % 4 == 3
        r = gk.run([HA if asan else H, str(gk.SEED), str(n), d, str(i * n)], timeout=200)
        if r.timeout:
            res["inconclusive"] = 1
            return res
        m = re.search(r"COUNTS (.*)", r.out)
        rep = {"cmd": "dumph %d %d DIR %d" % (gk.SEED, n, i * n), "out": r.out[-2000:], "err": r.err[-2000:]}
        for l in re.findall(r"^VIO (\S+) (.*)", r.out, re.M):
            res["violations"].append((l[0], l[1], rep))
        for k in gk.san_key(r.err):
            if not k.startswith("ubsan"):
                res["violations"].append((k, "memory error in the dump functions", rep))
        if not m and not res["violations"]:
            res["violations"].append(("crash", "the dump functions crashed: %s" % r.rc, rep))
            return res
        if m:
            for x in m.group(1).split():
                k, v = x.split("=")
                res["counts"]["small_" + k] = res["counts"].get("small_" + k, 0) + int(v)
            res["evals"] = n
            res["distinct"] = ["small %d %d" % (i, k) for k in range(n)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def sigx(limit):
    def pre():
        os.setsid()
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return pre


def case(i):
    """Real knowledge bases through the command line."""
    r = gk.rng("C15", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind = r.choice(("provable", "answers", "decided", "big"))
    inc("kind_" + kind)
    if kind == "answers":
        kb, qs = c14.datalog(r)
        qs = [q for q, _ in qs]
        qs = [[q] for q in qs]
    elif kind == "decided":
        cl, consts = c05.problem(r)
        r.shuffle(cl)
        kb, q = c14.split(r, cl)
        qs = [q]
    else:
        cl = list(unsat.problem(r)[1])
        while len(cl) < 2:
            cl = list(unsat.problem(r)[1])
        r.shuffle(cl)
        kb, q = c14.split(r, cl)
        if kind == "big":
            X = ("v", "X")
            kb = kb + [((True, "long_name_%s_%d" % ("x" * r.randint(0, 60), r.randrange(300)), ((("f%d" % r.randrange(99), ("k%d" % r.randrange(999),))), X if r.random() < .3 else ("k%d" % j,))),) for j in range(r.randint(50, 3000))]
        qs = [q]
    names = {}
    kbt, ksuf = c14.write(r, kb, "simple" if kind == "big" else r.choice(("simple", "tptp", "json")), names, "k")
    fk = gk.tmpfile(kbt, ksuf)
    fq = []
    for j, q in enumerate(qs):
        t, suf = c14.write(r, q, r.choice(("simple", "tptp", "json")), {}, "q%d_" % j)
        fq.append((t, gk.tmpfile(t, suf)))
    n1, n2, n3 = [BASE + (i * 3 + k) % 100 for k in range(3)]
    for n in (n1, n2, n3):
        shm.remove(n)
    big = os.path.join(gk.BUILD, "dump-%d-%d" % (os.getpid(), i))
    dmp, dmp2 = big + ".a", big + ".b"
    rep = {"kb": kbt[:5000], "seed": gk.SEED, "case": i}

    def bad(key, msg, **more):
        res["violations"].append((key, msg, dict(rep, **more)))

    def query(n):
        out = []
        for t, f in fq:
            st = {"strategy": [r0], "query_preference": 1}
            if kind == "answers":
                st["max_answers"] = 30
            x = gk.gkc(B, files=[f], args=["-usekb", "-mbnr", str(n)], strategy=st, seconds=2, timeout=30, mb=60)
            v, ans, o = c14.verdict(x)
            out.append((v, sorted(str([str(tuple(l)) for l in a[0] or ()]) for a in ans) if ans else None, x.crashed(), x.timeout))
        return out
    r0 = r.choice(("negative_pref", "knuthbendix_pref"))
    try:
        size = ["-mbsize", str(r.choice((1000, 1000, 1100)))]
        how = r.choice(("read-write", "readwrite"))
        inc("how_" + how)
        if how == "readwrite":
            x = gk.run([B, "-readwritekb", fk, dmp, "-mbnr", str(n1)] + size, timeout=120)
            ok = "written" in x.out
        else:
            x = gk.run([B, "-readkb", fk, "-mbnr", str(n1)] + size, timeout=60)
            if x.rc or shm.info(n1) is None:
                if not x.timeout:
                    bad("not-read", "the knowledge base is not read: %s" % x.out[-300:])
                return res
            s0 = shm.snapshot(n1)
            x = gk.run([B, "-writekb", dmp, "-mbnr", str(n1)], timeout=120)
            d = shm.differ(s0, shm.snapshot(n1))
            if d:
                bad("kb-changed", "writing the knowledge base changed it: %s" % d)
            ok = True
        if x.timeout:
            res["inconclusive"] = 1
            return res
        if x.crashed() or x.rc or not ok or not os.path.exists(dmp):
            bad("not-written", "writing fails: exit %s %s" % (x.rc, x.out[-300:]), cmd=x.cmd)
            return res
        inc("written")
        s1 = shm.snapshot(n1)
        want = query(n1)
        good = os.path.getsize(dmp)
        if r.random() < 0.5:
            gk.run([B, "-deletekb", "-mbnr", str(n1)], timeout=20)      # the number of the original again
            n2 = r.choice((n1, n2))
        elif r.random() < 0.5:
            other = gk.tmpfile("other(k0).\n", ".txt")
            gk.run([B, "-readkb", other, "-mbnr", str(n2)] + size, timeout=60)     # something else is there
            os.unlink(other)
            inc("over_another")
        # loads which must fail: damaged copies, in place and back
        muts = 3 if gk.QUICK else 12
        for k in range(muts):
            m = r.choice(("flip", "flip", "byte", "head", "cut", "longer", "hole"))
            with open(dmp, "r+b") as f:
                off = r.randrange(400) if m == "head" else r.randrange(good)
                if m == "cut":
                    cut = r.choice((0, 1, 8191, 8192, good - 1, r.randrange(good)))
                    if cut > good // 3:      # shorten and put the end back
                        f.seek(cut)
                        tail = f.read()
                        f.truncate(cut)
                        undo = lambda f: (f.seek(cut), f.write(tail))
                        target = dmp
                    else:
                        f.seek(0)
                        head = f.read(cut)
                        with open(dmp2, "wb") as g:
                            g.write(head)
                        undo = lambda f: None
                        target = dmp2
                elif m == "longer":
                    f.seek(0, 2)
                    f.write(bytes(r.randrange(256) for _ in range(r.randint(1, 20))))
                    undo = lambda f: f.truncate(good)
                    target = dmp
                else:
                    ln = r.choice((512, 4096, 65536)) if m == "hole" else 1
                    # somewhere something is: a nonzero page, most of the file is empty
                    if m in ("flip", "hole") and s1:
                        off = r.choice(sorted(s1)) * 4096 + r.randrange(4096)
                        off = min(off, good - ln)
                    f.seek(off)
                    old = f.read(ln)
                    new = bytes([old[0] ^ (1 << r.randrange(8))]) if ln == 1 else bytes(len(old))
                    f.seek(off)
                    f.write(new)
                    if new == old:
                        continue
                    undo = lambda f: (f.seek(off), f.write(old))
                    target = dmp
            had = shm.info(n3)
            x = gk.run([B, "-loadkb", target, "-mbnr", str(n3), "-json"], timeout=120)
            with open(dmp, "r+b") as f:
                undo(f)
            inc("damaged_" + m)
            res["evals"] += 1
            if x.timeout:
                res["inconclusive"] = 1
            elif x.crashed():
                bad("load-crash", "loading a damaged file (%s at %d) crashes" % (m, off), out=x.out[-500:])
            elif x.rc == 0 or "error" not in x.out:
                bad("damaged-loaded", "a damaged file (%s at %d) is loaded: exit %s %s" % (m, off, x.rc, x.out[-200:]))
            elif shm.info(n3) != had:
                bad("damaged-present", "a damaged file (%s) is refused and there is a knowledge base all the same" % m)
            if res["violations"]:
                return res
        # the good one
        x = gk.run([B, "-loadkb", dmp, "-mbnr", str(n2)], timeout=120)
        if x.timeout:
            res["inconclusive"] = 1
            return res
        s2 = shm.snapshot(n2)
        if x.crashed() or x.rc or s2 is None:
            bad("not-loaded", "a written knowledge base is not loaded: exit %s %s" % (x.rc, x.out[-300:]))
            return res
        inc("loaded")
        inc("pages", len(s2))
        diff = [p for p in set(s1) | set(s2) if s1.get(p) != s2.get(p)]
        if len([p for p in diff if p > 64]) or len(diff) > 4:
            bad("content-differs", "%d of %d pages differ after loading, e.g. %s" % (len(diff), len(s1), sorted(diff)[-3:]))
        if shm.info(n2)[0] < good:
            bad("too-small", "the loaded segment is smaller than the file")
        got = query(n2)
        for (t, _), a, b in zip(fq, want, got):
            inc("queries")
            inc("result_" + b[0])
            res["distinct"].append(hash((kbt, t)))
            if a[3] or b[3]:
                res["inconclusive"] = 1
            elif b[2]:
                bad("query-crash", "a query to the loaded knowledge base crashes", query=t)
            elif "time" not in (a[0], b[0]) and a != b:
                bad("answers-differ", "a query to the original: %s, to the loaded one: %s" % (a[:2], b[:2]), query=t)
        # writes which cannot be completed
        for k in range(1 if gk.QUICK else 4):
            m = r.choice(("limit", "limit", "kill", "full", "nodir"))
            inc("incomplete_" + m)
            if m == "full":
                x = gk.run([B, "-writekb", "/dev/full", "-mbnr", str(n2)], timeout=120)
            elif m == "nodir":
                x = gk.run([B, "-writekb", gk.scratch() + "/no/such/file", "-mbnr", str(n2)], timeout=120)
            else:
                lim = max(0, good - r.choice((1, 8, 100, 4000, 5000, r.randrange(good))))
                p = subprocess.Popen([B, "-writekb", dmp2, "-mbnr", str(n2)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, preexec_fn=sigx(lim) if m == "limit" else os.setsid)
                if m == "kill":
                    end = time.time() + 20
                    while time.time() < end and p.poll() is None and not (os.path.exists(dmp2) and os.path.getsize(dmp2) > lim // 8):
                        time.sleep(0.002)
                    p.kill()
                try:
                    out, _ = p.communicate(timeout=120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    res["inconclusive"] = 1
                    continue
                x = gk.Run([], p.returncode, out.decode("utf8", "replace"), "", False, 0)
            whole = m in ("limit", "kill") and os.path.exists(dmp2) and os.path.getsize(dmp2) == good
            res["evals"] += 1
            if x.timeout:
                res["inconclusive"] = 1
            elif x.rc == 0 and not (m == "kill" and whole):
                bad("incomplete-written", "a write which failed (%s) is reported as done: exit 0 %s" % (m, x.out[-200:]))
            elif m != "kill" and (x.rc < 0 or "error" not in x.out):
                bad("incomplete-silent", "a write which failed (%s) ends with exit %s and no error" % (m, x.rc))
            elif m in ("limit", "kill") and os.path.exists(dmp2) and x.rc != 0:
                y = gk.run([B, "-loadkb", dmp2, "-mbnr", str(n3)], timeout=120)
                inc("incomplete_loads")
                if not y.timeout and y.rc == 0 and not whole:
                    bad("incomplete-loaded", "a file of which a part is written is loaded")
            if os.path.exists(dmp2):
                os.unlink(dmp2)
            d = shm.differ(s2, shm.snapshot(n2))
            if d:
                bad("kb-changed", "a failed write changed the knowledge base: %s" % d)
    finally:
        for n in (n1, n2, n3):
            shm.remove(n)
        for f in [fk, dmp, dmp2] + [f for _, f in fq]:
            if os.path.exists(f):
                os.unlink(f)
    if i < 2:
        res["sample"] = {"kb": kbt[:300], "kind": kind, "dump_bytes": good, "pages": len(s2), "queries": len(fq)}
    return res


def any_case(i):
    return small(i - 100000) if i >= 100000 else case(i)


def main():
    global B, H, HA
    c = gk.Check("C15")
    B = gk.build("plain")
    H = gk.build("plain", main=os.path.join(gk.VERIF, "lib", "dumph.c"), name="dumph")
    HA = gk.build("asan", main=os.path.join(gk.VERIF, "lib", "dumph.c"), name="dumph")
    n = 16 if gk.QUICK else 260
    m = 24 if gk.QUICK else 600
    try:
        gk.cases(c, any_case, list(range(n)) + [100000 + k for k in range(m)], jobs=6)
    finally:
        for k in shm.keys():
            if BASE <= k < BASE + 100:
                shm.remove(k)
    c.finish("knowledge bases written to files and loaded, compared page by page and by their answers; files damaged, cut, half-written "
             "must be refused; and the dump functions on small databases with thousands of damaged images; distinct: databases and queries",
             need={"loaded": n * 2 // 3, "queries": n // 2, "small_refused": m * 300, "small_roundtrips": m * 8, "written": n * 2 // 3})


if __name__ == "__main__":
    gk.main(main)
