"""C17: time limits are kept.

The processor and wall time of searches that would never end is measured from outside (wait4), and
compared with the limits that were given: by -seconds, for all runs, and for each run of a list."""
import sys, os, time, signal, subprocess, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, shm, c16
from logic import *

B = None
BASE = 30000000 + (os.getpid() % 10000) * 1000
ALL = ("unit", "negative_pref", "positive_pref", "query_focus", "hardness_pref", "knuthbendix_pref", "hyper", "double", "triple")
# satisfiable problems whose search never ends, with the strategies under which it never ends
ENDLESS = {
    "up": ("p(a).\n-p(X) | p(f(X)).\n-p(X) | p(g(X)).\n", ("unit", "negative_pref", "hyper", "double", "triple")),
    "mutual": ("p(X,Y) | q(f(X),Y).\n-q(X,Y) | p(f(X),g(Y)) .\n-p(X,Y) | p(g(X),f(Y)) | q(Y,Y).\np(a,b).\n", ("negative_pref", "hyper", "triple")),
    "down": ("-p(a).\n-p(f(X)) | p(X).\n-p(g(X)) | p(X).\n", ("unit", "positive_pref", "query_focus", "double", "triple")),
    "comm": ("f(f(X,Y),Z) = f(X,f(Y,Z)).\nf(X,Y)=f(Y,X).\nf(a,b) != f(b,f(a,X)).\n", ("unit", "negative_pref", "positive_pref", "hardness_pref", "double")),
    "group": ("f(e,X)=X.\nf(i(X),X)=e.\nf(f(X,Y),Z)=f(X,f(Y,Z)).\nf(a,b)!=f(b,a).\n", ("unit", "negative_pref", "positive_pref", "hardness_pref", "knuthbendix_pref", "double")),
    "detach": ("-p(i(X,Y)) | -p(X) | p(Y).\np(i(X,i(Y,X))).\np(i(i(X,i(Y,Z)),i(i(X,Y),i(X,Z)))).\n-p(i(a,b)).\n", ALL),
    "count": ("p(1).\n-p(X) | p($sum(X,1)).\n-p(X) | p($product(X,2)).\n", ("unit", "negative_pref", "double")),
}


def nasty(r):
    """Problems with expensive single steps: subsumption, factoring, rewriting, big terms, many partners."""
    v = lambda: "XYZUVW"[r.randrange(6)] + str(r.randrange(3))
    k = r.choice(("subs", "fact", "many", "hyp", "rew", "expo", "long"))
    if k == "subs":
        out = []
        for i in range(40):
            out.append(" | ".join("p(%s,%s)" % (v(), v()) for _ in range(14)))
            out.append(" | ".join("-p(%s,%s)" % (v(), v()) for _ in range(3)) + " | q(%s)" % v())
    elif k == "fact":
        out = [" | ".join("%sp(%s,%s)" % (s, v(), v()) for _ in range(12)) for s in ("", "-") for i in range(20)]
    elif k == "many":
        out = ["p(c%d,c%d)" % (i, r.randrange(1000)) for i in range(6000)] + ["-p(X,Y) | -p(Y,Z) | q(X,Z)", "-q(X,Y) | -q(Z,U) | s(X,Y,Z,U)", "-s(X,Y,Z,U) | -s(X1,Y1,Z1,U1) | t(X,Y,Z1,U1)"]
    elif k == "hyp":
        out = ["p(c%d,c%d)" % (i, r.randrange(300)) for i in range(2000)] + ["-p(X,Y) | -p(Y1,Z) | -p(Z1,U) | -p(U1,V) | q(X,V)"]
    elif k == "rew":
        out = ["a1(X) = f(a0(X),a0(X))"] + ["a%d(X) = f(a%d(X),a%d(X))" % (i + 1, i, i) for i in range(1, 25)] + ["p(a24(c))", "-p(X) | p(f(X,a22(X)))"]
    elif k == "expo":
        out = ["p(f(X,X)) | -p(X)", "p(a)", "-q(X,X,X)", "q(X,f(X,X),Y) | -q(X,X,Y)", "q(a,b,X) | q(X,Y,Z)", "-r(X) | r(g(X,X,X,X))", "r(a)"]
    else:
        out = [" | ".join("p(c%d)" % i for i in range(300))] + ["-p(c%d) | p(d%d) | r(d%d)" % (i, i, i) for i in range(300)]
    return k, ".\n".join(out) + ".\n"


def measure(cmd, kill):
    """(processor time of the process and of the workers it waited for, wall time, exit status, output, killed)"""
    e = dict(os.environ, LC_ALL="C.UTF-8")
    f = os.path.join(gk.scratch(), "out%d" % os.getpid())
    t0 = time.time()
    with open(f, "wb") as o:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, env=e, cwd=gk.scratch(), start_new_session=True)
    dead = []

    def end():
        dead.append(1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    t = threading.Timer(kill, end)
    t.start()
    _, st, ru = os.wait4(p.pid, 0)
    w = time.time() - t0
    t.cancel()
    p.returncode = rc = os.waitstatus_to_exitcode(st)
    left = []
    for _ in range(30):
        left = c16.session(p.pid)
        if not left:
            break
        time.sleep(.1)
    for x in left:
        os.kill(x, signal.SIGKILL)
    out = open(f, errors="replace").read()
    return ru.ru_utime + ru.ru_stime, w, rc, out, bool(dead), left


def dsec(run):
    return run.get("max_dseconds") or run.get("max_seconds", 0) * 10


def case(i):
    r = gk.rng("C17", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 1}
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    kind = ("budget", "reach", "wall", "budget", "total", "nasty", "reach", "budget", "wall", "kb")[i % 10]
    inc("kind_" + kind)
    par, nr = 0, BASE + i % 1000
    name = r.choice(sorted(ENDLESS))
    text, sts = ENDLESS[name]

    def a_run(lo=1, hi=6, anyst=False):
        d = {}
        x = r.randint(lo, hi)
        if r.random() < .15:
            d["max_seconds"] = 1
        else:
            d["max_dseconds"] = x
        if r.random() < .1 and "max_dseconds" in d:
            d["max_seconds"] = r.choice((0, 3))
        d["strategy"] = [r.choice(ALL if anyst else sts)]
        d["query_preference"] = 0
        ks = list(d)
        r.shuffle(ks)
        return {k: d[k] for k in ks}
    args, lo, hi, wlo, whi, want, strat = [], 0, None, 0, None, "no", None
    proof_possible = False
    files_text = text
    if kind in ("budget", "kb"):
        par = r.choice((0, 0, 2, 3, 5))
        runs = [a_run() for _ in range(r.randint(1, 5))]
        strat = {"runs": runs}
        if r.random() < .2:
            # a default for all runs, before the list
            runs2 = [dict(x) for x in runs]
            dflt = r.randint(1, 4)
            for x in runs2:
                if r.random() < .5:
                    x.pop("max_dseconds", 0)
                    x.pop("max_seconds", 0)
            strat = {"max_dseconds": dflt, "runs": runs2}
            runs = [x if "max_dseconds" in x or "max_seconds" not in x else dict(x, max_dseconds=dflt) for x in runs2]
            runs = [x if dsec(x) else dict(x, max_dseconds=dflt) for x in runs]
        if len(runs) == 1 and r.random() < .4 and "max_dseconds" not in strat:
            strat, par = runs[0], 0         # every worker would run it
        s = sum(min([y for y in (x.get("max_dseconds"), x.get("max_seconds", 0) * 10) if y]) for x in runs) / 10.
        lo, hi = s, s + .15 * len(runs) + .4 + .05 * s
        if r.random() < .2:
            args = ["-seconds", str(int(s) + 20)]
    elif kind == "reach":
        # only the last run can find the proof: the others do not use equality
        par = r.choice((0, 0, 2, 3))
        k = r.randint(1, 5)
        name = "up"
        files_text = ENDLESS["up"][0] + "a1 = b1.\nq(a1).\n-q(b1).\n"
        sts = ENDLESS["up"][1]
        runs = [dict(a_run(1, 4), equality=0) for _ in range(k)]
        last = {"strategy": [r.choice(("unit", "negative_pref"))], "query_preference": r.choice((0, 1))}
        if r.random() < .5:
            last["max_seconds"] = r.choice((5, 0))
        strat = {"runs": runs + [last]}
        s = [min([y for y in (x.get("max_dseconds"), x.get("max_seconds", 0) * 10) if y]) / 10. for x in runs]
        if par:
            s = s[k % par::par] if False else [x for j, x in enumerate(s) if j % par == k % par]
        wlo, lo = sum(s), 0 if par else sum(s)
        hi = None if par else sum(s) + .15 * k + .6
        whi = None
        want = "yes"
    elif kind == "total":
        par = r.choice((0, 0, 0, 2))
        key = r.choice(("total_seconds", "total_dseconds"))
        v = r.randint(1, 2)
        runs = [a_run(6, 20) for _ in range(r.randint(6, 9))]
        if r.random() < .3:
            runs[r.randrange(len(runs))].update(max_dseconds=0, max_seconds=0)
        strat = {key: v if key == "total_seconds" else r.randint(10 * v - 9, 10 * v), "runs": runs}
        n = max(1, par)
        lo, hi = v * n * (1 if par == 0 else .9), (v + .5) * n + .15 * len(runs)
    elif kind == "nasty":
        name, files_text = nasty(r)
        st = a_run(1, 6, True)
        strat = {"runs": [st]}
        x = min([y for y in (st.get("max_dseconds"), st.get("max_seconds", 0) * 10) if y]) / 10.
        hi = x + 4
        proof_possible = True
    elif kind == "wall":
        v = r.choice((1, 1, 1, 2))
        args = ["-seconds", str(v)]
        par = r.choice((0, 1, 2, 4, 8))
        w = r.choice(("search", "search", "auto", "big", "clausify", "readkb"))
        wlo, whi = (v - .25 if w == "search" else 0), v + 2
        if w == "search":
            strat = r.choice((None, None, {"strategy": [r.choice(sts)], "query_preference": 0},
                              {"runs": [{"strategy": [r.choice(sts)], "query_preference": 0, "max_seconds": 30} for _ in range(8)]}))
            if strat is None:
                wlo = 0
        elif w != "auto":
            n = r.choice((2000, 150000, 400000))
            files_text = ".\n".join("p(c%d,d%d) | q(c%d,X)" % (j % 5000, j, j) for j in range(n)) + ".\n"
            if w == "clausify":
                args += [r.choice(("-clausify", "-convert"))] + r.choice(([], ["-tptp"]))
            elif w == "readkb":
                args += ["-readkb"]
                par = None
            want = "any"
        else:
            wlo = 0
        name = w
        inc("wall_" + w)
    f = gk.tmpfile(files_text)
    cmd = [B, f, "-mbsize", "1000" if kind == "kb" or name == "readkb" else "300", "-json", "-print", "10"]
    if par is not None:
        cmd += ["-parallel", str(par)]
    if "-readkb" in args:
        args.remove("-readkb")
        cmd = [B, "-readkb", f, "-mbnr", str(nr), "-mbsize", "2000"]
    if strat is not None:
        cmd += ["-strategytext", json.dumps(strat)]
    cmd += args
    try:
        if kind == "kb":
            k = gk.run([B, "-readkb", f, "-mbnr", str(nr), "-mbsize", "1000"], timeout=60)
            q = gk.tmpfile("r(a0).\n-r(X) | r(h(X)).\n-r(a1).\n")
            cmd = [B, q] + cmd[2:] + ["-usekb", "-mbnr", str(nr)]
            lo = 0                              # the search need not follow the knowledge base
        errs = []
        for attempt in range(3):
            shm.remove(nr) if "-readkb" in cmd else None
            cpu, wall, rc, out, dead, left = measure(cmd, 90)
            errs = []
            timed = "time limit" in out
            proved = '"proof found"' in out
            if dead:
                errs.append(("endless", "gkc did not end within 90 s although it had a time limit"))
            elif rc not in (0, 1):
                errs.append(("status", "exit status %s" % rc))
            else:
                if hi is not None and cpu > hi:
                    errs.append(("too-long", "%.2f s of processor time were used, the limits allow %.2f" % (cpu, hi)))
                if cpu < lo * .97 - .03:
                    errs.append(("too-short", "only %.2f s of processor time were used, the runs have %.2f" % (cpu, lo)))
                if whi is not None and wall > whi:
                    errs.append(("too-late", "gkc ended after %.2f s, the limit is %s" % (wall, args)))
                if wall < wlo * .97 - .03:
                    errs.append(("too-early", "gkc ended after %.2f s; not before %.2f" % (wall, wlo)))
                if left:
                    errs.append(("left", "processes are left behind"))
                if want == "yes" and not proved:
                    errs.append(("not-reached", "the proof of the last run is not found: %s" % out[:200]))
                if want == "no" and not proof_possible and (proved or not (timed or "proof not found" in out)):
                    errs.append(("result", "the result is not that there is no proof or no time: %s" % out[:200]))
            if not errs:
                break
            inc("retried")
        for k, m in errs:
            res["violations"].append((k, "%s (%s, %s)" % (m, kind, name), {"cmd": cmd, "text": files_text[:3000], "strategy": strat, "out": out[-1000:],
                                                                          "cpu": cpu, "wall": wall, "cpu_allowed": [lo, hi], "wall_allowed": [wlo, whi], "seed": gk.SEED, "case": i}))
        inc("timed_out_message" if timed else "proved" if proved else "not_found")
        inc("runs_given", len((strat or {}).get("runs", [1])))
        inc("cpu_ms", int(cpu * 1000))
        if kind in ("budget", "total") and hi:
            inc("both_sides_checked")
        res["distinct"].append(hash((kind, name, json.dumps(strat), str(par), str(args))))
        if i < 5:
            res["sample"] = {"kind": kind, "problem": name, "strategy": strat, "args": args, "cpu": round(cpu, 2), "cpu_allowed": [lo, hi], "wall": round(wall, 2)}
    finally:
        os.unlink(f)
        shm.remove(nr)
    return res


def main():
    global B
    c = gk.Check("C17")
    B = gk.build("plain")
    n = 260 if gk.QUICK else 6000
    try:
        gk.cases(c, case, range(n), 2, jobs=6)
    finally:
        for x in shm.keys():
            if BASE <= x < BASE + 1000:
                shm.remove(x)
    c.finish("searches that never end (and some with very expensive steps), under per-run, total and command line limits, with 0-8 workers; processor time from wait4 and wall time compared with the limits; "
             "a deviation counts when it repeats three times; distinct: (problem, strategy, limits, workers)",
             need={"both_sides_checked": n // 5, "kind_reach": n // 8, "proved": n // 10, "timed_out_message": n // 20, "kind_wall": n // 8})


if __name__ == "__main__":
    gk.main(main)
