"""C18: wherever the memory granted with -mbsize runs out, gkc ends in an orderly way, and what it prints is true."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted, shm, unsat, c14
from logic import *

P = PA = B = BA = None
WRAP = "-Wl,--wrap=wg_alloc_gints,--wrap=wg_alloc_fixlen_object,--wrap=malloc,--wrap=calloc,--wrap=realloc"
BASE = 20000000 + (os.getpid() % 10000) * 1000


def judge(res, run, asan, rep, what, quiet=False):
    """Crashes, memory errors and hangs; True if the run has a result to look at."""
    inc = lambda k: res["counts"].__setitem__(k, res["counts"].get(k, 0) + 1)
    res["evals"] += 1
    if run.timeout:
        again = gk.run(run.cmd, timeout=100, env=rep.get("env"))
        if again.timeout:
            res["violations"].append(("hang", "gkc does not end when memory runs out (%s)" % what, rep))
        else:
            res["inconclusive"] = res.get("inconclusive", 0) + 1
        return False
    keys = [k for k in gk.san_key(run.err) if asan]
    for k in keys:
        res["violations"].append((k, "%s when memory runs out (%s)" % (k, what), dict(rep, err=run.err[-3000:])))
    if keys:
        return False
    if run.rc is None or run.rc < 0 or run.rc > 2:
        res["violations"].append(("crash", "exit %s when memory runs out (%s)" % (run.rc, what), dict(rep, err=run.err[-2000:])))
        return False
    if not quiet and not run.out.strip() and not run.err.strip():
        res["violations"].append(("silent", "no output at all when memory runs out (%s)" % what, rep))
        return False
    if "\"error\"" in run.out or "rror" in run.out:
        inc("said_error")
    return True


def check_out(res, run, rep, model, answers, kind, inputs):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    bad = lambda k, m: res["violations"].append((k, m, dict(rep, out=run.out[-4000:])))
    try:
        o = parse_json_output(run.out)
    except Exception:
        inc("unparsed")
        return
    inc("proved" if o.proved else "error" if o.error else "not_proved")
    if o.proved and kind == "false":
        bad("false-proof", "a proof of a satisfiable problem when memory runs out")
    if o.proved and kind in ("answers", "provable"):
        for a, pr in o.answers:
            if kind == "answers" and answers is not None and (a is None or len(a) != 1 or tuple(a[0][2]) not in answers):
                bad("wrong-answer", "the answer %s is not a consequence (memory runs out)" % (a,))
            for sid, just, c in pr:
                if just[0] == "in":
                    inc("steps_in")
                    if not any(variant(c, x) for x in inputs.get(len(c), [])):
                        bad("input-step", "the input step %s is not an input clause (memory runs out)" % c_text(c))
                        return
    if model is not None:
        for c in o.derived[:3000]:
            try:
                h = model.holds(c)
            except KeyError as e:
                bad("alien-symbol", "a derived clause %s has the symbol %s, which the input does not have" % (c_text(c), e))
                return
            inc("derived_checked")
            if h is False:
                bad("false-derived", "a derived clause %s is false in a model of the input" % c_text(c))
                return


def inject(i):
    r = gk.rng("C18", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    kind = r.choice(("false", "false", "false", "false", "provable", "provable", "answers", "answers", "convert", "convert", "readkb"))
    inc("kind_" + kind)
    model = answers = None
    asan = i % 2 == 0
    prog = PA if asan else P
    args, syn, inputs = [], r.choice(("simple", "tptp", "json")), {}
    st = dict(gen.strategy(r), max_dseconds=3)
    if kind in ("false", "convert", "readkb"):
        p = r.choice((planted.clausal, planted.clausal, planted.equational, planted.first_order))(r)
        xs = list(getattr(p, "clauses", None) or p.formulas)
        if isinstance(xs[0][0], str) and syn == "simple":
            syn = "tptp"
        if kind == "false":
            model = p.model if hasattr(p, "clauses") else None
            args = ["-derived"] if model is not None else []
    elif kind == "provable":
        xs = list(unsat.problem(r)[1])
    else:
        cl, qs = c14.datalog(r)
        q, answers = r.choice(qs)
        xs = cl + [q]
        st = {"strategy": [r.choice(("negative_pref", "knuthbendix_pref"))], "query_preference": 1, "max_answers": 60, "max_dseconds": 10}
    for x in xs:
        if not isinstance(x[0], str):
            inputs.setdefault(len(x), []).append(x)
    t, suf = c14.write(r, xs, syn, {}, "f")
    f, cf = gk.tmpfile(t, suf), gk.tmpfile("", ".cnt")
    nr = BASE + i % 1000
    try:
        if kind == "convert":
            args = [r.choice(("-convert", "-clausify"))] + r.choice(([], ["-tptp"]))
            how = lambda env: gk.run([prog, f, "-mbsize", "10", "-json"][:4] + args + (["-json"] if len(args) < 2 else []), timeout=60, env=env)
        elif kind == "readkb":
            how = lambda env: gk.run([prog, "-readkb", f, "-mbnr", str(nr), "-mbsize", "1000"], timeout=60, env=env)
        else:
            how = lambda env: gk.gkc(prog, files=[f], strategy=st, seconds=3, args=args, mb=10, timeout=60, env=env)
        ref = how({"GKV_COUNT": cf})
        nums = open(cf).read().split()
        if ref.timeout or len(nums) < 4 or ref.rc > 2 or ref.rc < 0:
            res["inconclusive"] = 1
            return res
        nd = int(nums[-4])
        inc("allocations", nd)
        for j in range(8):
            a = min(nd, 1 + int(nd ** r.random())) if r.random() < .3 else r.randint(1, nd) if r.random() < .8 else r.randint(max(1, nd - 30), nd)
            env = {"GKV_FAIL": "d:%d:%d:%d" % (a, r.choice((0, 0, 0, 1, 2, 5)), r.choice((0, 0, 0, 64, 128, 400)))}
            if kind == "readkb":
                shm.remove(nr)
            run = how(env)
            rep = {"text": t[:6000], "cmd": run.cmd, "env": env, "allocations": nd, "seed": gk.SEED, "case": i}
            res["distinct"].append(hash((t, json.dumps(st), env["GKV_FAIL"])))
            inc("injected")
            if not judge(res, run, asan, rep, "allocation %d of %d" % (a, nd), quiet=not ref.out.strip()):
                if res["violations"]:
                    return res
                continue
            if kind == "convert":
                if run.rc == 0 and "rror" not in run.out and run.out != ref.out:
                    res["violations"].append(("short-output", "output with parts missing and no error when memory runs out", dict(rep, out=run.out[:3000], ref=ref.out[:3000])))
                    return res
                inc("convert_same" if run.out == ref.out else "convert_error")
            elif kind == "readkb":
                inc("readkb_%s" % ("ok" if run.rc == 0 else "error"))
                q = gk.gkc(B, text="q00(zz00).\n", args=["-usekb", "-mbnr", str(nr)], strategy=dict(st, max_dseconds=5), seconds=1, timeout=40)
                if not q.timeout and (q.crashed() or c14.verdict(q)[0] == "proved"):
                    res["violations"].append(("kb-wrong", "a knowledge base read when memory runs out gives %s" % (q.crashed() or "a false proof"), dict(rep, out=q.out[-2000:])))
                    return res
                if not q.timeout and run.rc != 0 and c14.verdict(q)[0] != "error":
                    res["violations"].append(("kb-left", "-readkb fails when memory runs out and leaves a knowledge base which is used: %s" % run.out[-200:], rep))
                    return res
            else:
                check_out(res, run, rep, model, answers, kind, inputs)
                if res["violations"]:
                    return res
    finally:
        os.unlink(f)
        os.unlink(cf)
        shm.remove(nr)
    if i < 2:
        res["sample"] = {"kind": kind, "text": t[:300], "allocations": nd, "faults": 8}
    return res


def real(i):
    """Inputs and searches which use the granted memory up."""
    r = gk.rng("C18r", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    asan = i % 2 == 0
    kind = r.choice(("input", "input", "input", "search"))
    inc("real_" + kind)
    model, mb = None, r.choice((10, 10, 10, 11, 13, 17))
    if kind == "input":
        n = int(10 ** r.uniform(3.5, 5.2))
        deep, wide = r.choice((0, 3, 30, 300)), r.choice((0, 3, 20))
        names = r.choice((10, 10000))
        out = []
        syn = r.choice(("simple", "tptp", "json", "fof"))
        for k in range(n // (1 + deep // 4 + wide // 4)):
            x = "c%d" % r.randrange(names)
            tm = ("f(" * deep + x + ")" * deep)
            ats = ["p%d(%s,%s)" % (r.randrange(5), tm, "X") for _ in range(1 + r.randint(0, wide))]
            if syn == "simple":
                out.append(" | ".join(ats) + ".")
            elif syn == "tptp":
                out.append("cnf(n%d,axiom,(%s))." % (k, " | ".join(ats)))
            elif syn == "fof":
                out.append("fof(n%d,axiom,![X]:?[Y]:(%s <=> q(X,Y)))." % (k, " & ".join(ats)))
            else:
                tj = x
                for _ in range(deep):
                    tj = ["f", tj]
                out.append(json.dumps([["p%d" % r.randrange(5), tj, "?:X"] for _ in ats]))
        t = "[" + ",\n".join(out) + "]" if syn == "json" else "\n".join(out) + "\n"
        suf = {"simple": ".txt", "json": ".js"}.get(syn, ".p")
        st, args = {"strategy": ["negative_pref"], "query_preference": 0, "max_dseconds": 20}, []
        par = 0
    else:
        # a satisfiable problem with an ever growing search
        p = r.choice((planted.clausal, planted.equational))(r)
        xs = list(p.clauses)
        model = p.model
        t, suf = c14.write(r, xs, "simple", {}, "f")
        st = {"strategy": [r.choice(("negative_pref", "positive_pref", "query_focus", "unit"))], "query_preference": r.choice((0, 1)), "max_dseconds": 30}
        args = ["-derived"] if r.random() < .5 else []
        par = r.choice((0, 0, 2))
        if r.random() < .2:
            st = None
        mb = 10
    f = gk.tmpfile(t, suf)
    try:
        run = gk.gkc(BA if asan else B, files=[f], strategy=st, seconds=4, args=args, mb=mb, timeout=60, parallel=par)
        rep = {"text": t[:6000], "cmd": run.cmd, "seed": gk.SEED, "case": "real %d" % i}
        res["distinct"].append(hash((t, mb)))
        if judge(res, run, asan, rep, "a real run with -mbsize %d" % mb):
            low = run.out.lower() + run.err.lower()
            if any(k in low for k in ("alloc", "memory", "buffer overflow", "db library")):
                inc("real_ran_out")
            check_out(res, run, rep, model, None, "false", {})
    finally:
        os.unlink(f)
    return res


def case(i):
    return inject(i) if i < 10 ** 6 else real(i - 10 ** 6)


def main():
    global P, PA, B, BA
    c = gk.Check("C18")
    m, w = os.path.join(gk.REPO, "Main/gkc.c"), [os.path.join(gk.VERIF, "lib/wrap.c")]
    P = gk.build("plain", main=m, extra_src=w, libs=WRAP, name="gkcw")
    PA = gk.build("asan", main=m, extra_src=w, libs=WRAP, name="gkcw")
    B, BA = gk.build("plain"), gk.build("asan")
    n, k = (220, 48) if gk.QUICK else (9000, 2500)
    try:
        gk.cases(c, case, list(range(n)) + [10 ** 6 + x for x in range(k)], 2)
    finally:
        for x in shm.keys():
            if BASE <= x < BASE + 1000:
                shm.remove(x)
    c.finish("runs in which a chosen allocation in the granted memory fails, at every stage of reading and searching, and runs which use the memory up; "
             "AddressSanitizer on half of them; what is printed is compared with models, answers and inputs; distinct: (problem, strategy, failing allocation)",
             need={"injected": n * 5, "derived_checked": n * 2, "said_error": n, "real_ran_out": k // 12, "proved": n // 12})


if __name__ == "__main__":
    gk.main(main)
