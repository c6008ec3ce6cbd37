"""C14: queries to a shared-memory knowledge base answer like its source files together with the query, and no query,
however it ends, changes a byte of the knowledge base."""
import sys, os, signal, subprocess, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, ground, planted, shm, unsat, c05
from logic import *

B = BA = None
BASE = 700000 + (os.getpid() % 1000) * 1000


def split(r, xs):
    """Knowledge base and query parts, both not empty."""
    n = r.randint(1, len(xs) - 1)
    return xs[:n], xs[n:]


def write(r, items, syn, names, tag):
    """items: clauses or formulas; names: filled with name -> item."""
    isf = [len(x) and isinstance(x[0], str) for x in items]
    out = []
    if syn == "simple":
        return "".join((f_text(x) + "." if f else c_text(x)) + "\n" for x, f in zip(items, isf)), ".txt"
    if syn == "tptp":
        for j, (x, f) in enumerate(zip(items, isf)):
            nm = "%s%d" % (tag, j)
            names[nm] = x
            role = r.choice(("axiom", "axiom", "hypothesis", "negated_conjecture"))
            out.append("fof(%s,%s,%s)." % (nm, role, f_text(x)) if f else c_tptp(x, nm, role))
        return "\n".join(out) + "\n", ".p"
    for j, (x, f) in enumerate(zip(items, isf)):
        nm = "%s%d" % (tag, j)
        lg = f_json(x) if f else c_json(x)
        if r.random() < 0.6:
            names[nm] = x
            out.append({"@name": nm, "@logic": lg})
        else:
            out.append(lg)
    return json.dumps(out), ".js"


def datalog(r):
    """A graph with rules and the true answers of a query."""
    n = r.randint(3, 7)
    es = sorted(set((r.randrange(n), r.randrange(n)) for _ in range(r.randint(2, 10))))
    reach = set(es)
    while True:
        new = {(a, d) for a, b in reach for c, d in es if b == c} - reach
        if not new:
            break
        reach |= new
    X, Y, Z = ("v", "X"), ("v", "Y"), ("v", "Z")
    k = lambda i: ("c%d" % i,)
    f = r.random() < 0.3
    w = (lambda t: ("node", t)) if f else (lambda t: t)
    cl = [((True, "e", (w(k(a)), w(k(b)))),) for a, b in es]
    cl += [((False, "e", (X, Y)), (True, "t", (X, Y))), ((False, "t", (X, Y)), (False, "e", (Y, Z)), (True, "t", (X, Z)))]
    qs = []
    for _ in range(r.randint(2, 4)):
        s = r.randrange(n)
        if r.random() < 0.7:
            qs.append((((False, "t", (w(k(s)), X)), (True, "$ans", (X,))), {(w(k(b)),) for a, b in reach if a == s}))
        else:
            qs.append((((False, "t", (X, Y)), (False, "e", (Y, w(k(s)))), (True, "$ans", (X,))), {(w(k(a)),) for a, b in reach if (b, s) in es}))
    return cl, qs


def verdict(run):
    """(kind, answers) with kind proved / not / time / error:... / none."""
    try:
        o = parse_json_output(run.out)
    except Exception:
        return "none", None, None
    if o.proved:
        return "proved", o.answers, o
    if o.error is not None:
        return "error", None, o
    if o.result and "time limit" in o.result:
        return "time", None, o
    if o.result:
        return "not", None, o
    return "none", None, o


def case(i):
    r = gk.rng("C14", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind = r.choice(("provable", "provable", "decided", "decided", "false", "false", "answers", "answers"))
    inc("kind_" + kind)
    names = {}
    model = None
    strats = [{"strategy": [r.choice(("negative_pref", "knuthbendix_pref"))], "query_preference": r.choice((0, 1, 2)), "max_seconds": 3}]
    qs = []              # (items, truth or None, answers or None)
    if kind == "answers":
        kb, q = datalog(r)
        qs = [([c], "proved" if a else "not", a) for c, a in q]
    elif kind == "decided":
        cl, consts = c05.problem(r)
        r.shuffle(cl)
        kb, q = split(r, cl)
        for x in [q] + [r.sample(q, r.randint(1, len(q))) for _ in range(r.randint(0, 2))]:
            t = ground.ground_sat(kb + x, consts)
            qs.append((x, {"unsat": "proved", "sat": "not"}.get(t), None))
        if not any(l[1] == "=" for c in cl for l in c):
            strats = [{"strategy": [r.choice(("negative_pref", "positive_pref", "hardness_pref", "knuthbendix_pref"))], "query_preference": 0, "max_seconds": 3}]
    elif kind == "provable":
        cl = list(unsat.problem(r)[1])
        r.shuffle(cl)
        if len(cl) < 2:
            return res
        kb, q = split(r, cl)
        qs = [(q, "proved", None)]
        if len(q) > 1 and r.random() < 0.4:
            qs.append((q[1:], "any", None))
        if r.random() < 0.3:
            strats.append(None)
    else:
        p = r.choice((planted.clausal, planted.equational, planted.first_order, planted.first_order))(r)
        xs = list(getattr(p, "clauses", None) or p.formulas)
        if len(xs) < 2:
            xs = xs * 2
        model = p.model if hasattr(p, "clauses") else None
        r.shuffle(xs)
        kb, q = split(r, xs)
        qs = [(q, "false", None)] + [(r.sample(q, r.randint(1, len(q))), "false", None) for _ in range(r.randint(0, 1))]
        strats = [dict(gen.strategy(r), max_dseconds=r.choice((1, 2))) for _ in range(2)]
        if r.random() < 0.1:
            strats.append(None)
    syns = ["simple", "tptp", "json"]
    isf = isinstance(kb[0][0], str)
    if isf:
        syns = ["tptp", "tptp", "json"]
    kbt, ksuf = write(r, kb, r.choice(syns), names, "k")
    nr = BASE + i % 1000
    if shm.info(nr):
        shm.remove(nr)
    fk = gk.tmpfile(kbt, ksuf)
    files = [fk]
    binp = BA if i % 12 == 5 else B
    asan = binp == BA
    inc("build_asan" if asan else "build_plain")
    rep = {"kb": kbt, "seed": gk.SEED, "case": i}

    def bad(key, msg, **more):
        res["violations"].append((key, msg, dict(rep, **more)))

    def nochange(snap, when):
        now = shm.snapshot(nr)
        d = shm.differ(snap, now) if now is not None else "it is gone"
        inc("snapshots")
        if d:
            bad("kb-changed", "the knowledge base changed %s: %s" % (when, d))
        return d
    try:
        size = r.choice(([], ["-mbsize", "1000"], ["-mbsize", "1000"], ["-mbsize", "1000"], ["-mbsize", "1500"], ["-mbsize", "2000"]))
        rk = gk.run([binp, "-readkb", fk, "-mbnr", str(nr)] + size, timeout=60)
        snap = shm.snapshot(nr)
        if rk.timeout or rk.rc or snap is None:
            if rk.timeout:
                res["inconclusive"] = 1
            else:
                bad("not-loaded", "the knowledge base is not loaded: exit %s %s" % (rk.rc, (rk.out + rk.err)[-300:]))
            return res
        inc("loaded")
        inc("pages", len(snap))
        todo = []
        for qi, (items, truth, answers) in enumerate(qs):
            qnames = {}
            qt, qsuf = write(r, items, r.choice(syns), qnames, "q%d_" % qi)
            fq = gk.tmpfile(qt, qsuf)
            files.append(fq)
            for st in strats:
                st = dict(st) if st else st
                args = []
                if answers is not None:
                    st["max_answers"] = 60
                    st.pop("max_seconds", None)
                    st["query_preference"] = 1
                if st is None:
                    par = r.choice((0, 2, 4))
                else:
                    par = 0
                    if r.random() < 0.3:
                        par = r.choice((1, 2, 3))
                        st = {"runs": [st] * r.randint(1, 2)} if answers is None else st
                if model is not None and par == 0:
                    args = ["-derived"]
                todo.append((items, truth, answers, qt, fq, dict(names, **qnames), st, par, args))
        # what a query is before and after: each alone, then all at once
        for k, (items, truth, answers, qt, fq, nms, st, par, args) in enumerate(todo):
            kw = dict(strategy=st, seconds=2 if truth in ("proved", "not") and answers is None else 1, timeout=40, parallel=par)
            if asan and args:
                args = []
            run = gk.gkc(binp, files=[fq], args=args + ["-usekb", "-mbnr", str(nr)], mb=60, **kw)
            res["evals"] += 1
            inc("queries")
            inc("parallel_%d" % par)
            r2 = dict(query=qt, cmd=run.cmd, out=run.out[:3000], err=run.err[-3000:] if asan else "", truth=str(truth))
            nochange(snap, "by a query")
            if run.timeout:
                inc("timeout")
                res["inconclusive"] = res.get("inconclusive", 0) + 1
                continue
            if run.crashed() or (asan and "ERROR: AddressSanitizer" in run.err):
                bad("crash", "a query crashed", **r2)
                continue
            v, ans, o = verdict(run)
            inc("kb_" + v)
            if v in ("error", "none"):
                bad("query-" + v, "a query to the knowledge base ends with %s" % (o.error if v == "error" else "no result"), **r2)
                continue
            rv = v
            if truth != "false" and v != "time":
                ref = gk.gkc(B, files=[fk, fq], mb=60, **kw)
                rv = verdict(ref)[0]
                r2["out_together"] = ref.out[:2000]
            if truth == "false" and v == "proved":
                bad("false-proof", "a proof from a knowledge base and a query with a common model", **r2)
                continue
            if truth == "not" and v == "proved" and answers is None:
                bad("false-proof", "a proof from a satisfiable knowledge base and query", **r2)
                continue
            if truth == "proved" and v == "not" and rv == "proved":
                bad("not-proved", "the files together give a proof, the knowledge base with the query none", **r2)
                continue
            if truth == "proved" and v == "not":
                inc("both_miss")
            if v == "time" or rv == "time":
                inc("time")
                todo[k] += (v,)
                continue
            if truth in ("proved", "not") and {v, rv} == {"proved", "not"} and answers is None:
                bad("differs", "the files together: %s, the knowledge base: %s" % (rv, v), **r2)
                continue
            if answers is not None and v == "proved":
                got = set()
                for a, _ in ans:
                    if a is None or len(a) != 1:
                        bad("answer", "an answer is %s" % (a,), **r2)
                        break
                    got.add(tuple(a[0][2]))
                else:
                    if not got <= answers:
                        bad("wrong-answer", "the answers %s are not consequences" % sorted(got - answers)[:3], **r2)
                    elif got != answers:
                        bad("missing-answer", "the answers %s are missing" % sorted(answers - got)[:3], **r2)
                    else:
                        inc("answer_sets")
                        inc("answers", len(got))
            elif answers:
                bad("missing-answer", "the query has the answers %s and the result is %s" % (sorted(answers)[:3], v), **r2)
            res["distinct"].append(hash((kbt, qt, json.dumps(st))))
            if v == "proved" and not isf:
                pool = {}
                for c in kb + items:
                    pool.setdefault(len(c), []).append(c)
                for a, pr in ans:
                    have = {}
                    for sid, just, c in pr:
                        if just[0] == "in":
                            inc("steps_in")
                            nm = just[1] if len(just) > 1 else None
                            ok = any(variant(c, x) for x in ([nms[nm]] if nm in nms else pool.get(len(c), [])))
                            if not ok:
                                bad("input-step", "step %s is not the clause it names (%r)" % (c_text(c), nm), **r2)
                                break
                        have[sid] = c
            if model is not None and args:
                for c in o.derived:
                    try:
                        h = model.holds(c)
                    except KeyError as e:
                        bad("alien-symbol", "a derived clause %s has the symbol %s, which the input does not have" % (c_text(c), e), **r2)
                        break
                    inc("derived_checked")
                    if h is False:
                        bad("false-derived", "a derived clause %s is false in a common model" % c_text(c), **r2)
                        break
            if res["violations"]:
                break
            todo[k] += (v,)
        # all at once, some killed, and once more alone
        cmds = []
        for t in todo:
            if len(t) == 10:
                items, truth, answers, qt, fq, nms, st, par, args, v = t
                cmds.append(([B, fq, "-usekb", "-mbnr", str(nr), "-parallel", str(par), "-print", "10", "-json", "-mbsize", "60", "-seconds", "2" if truth in ("proved", "not") and answers is None else "1"] + (["-strategytext", json.dumps(st)] if st is not None else []), v, qt))
        if cmds and not res["violations"]:
            ps = []
            for n in range(r.choice((2, 3, 4))):
                cmd, v, qt = r.choice(cmds)
                kill = r.random() < 0.4
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=gk.scratch(), start_new_session=True)
                ps.append((p, cmd, v, qt, kill))
            time.sleep(r.choice((0.001, 0.005, 0.01, 0.03)))
            for p, cmd, v, qt, kill in ps:
                if kill:
                    try:
                        os.killpg(p.pid, r.choice((signal.SIGKILL, signal.SIGTERM)))
                        inc("killed")
                    except OSError:
                        pass
            for p, cmd, v, qt, kill in ps:
                try:
                    out, _ = p.communicate(timeout=40)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
                    res["inconclusive"] = res.get("inconclusive", 0) + 1
                    continue
                if kill:
                    continue
                inc("at_once")
                v2, _, _ = verdict(gk.Run(cmd, p.returncode, out.decode("utf8", "replace"), "", False, 0))
                if {v, v2} == {"proved", "not"} or v2 in ("none", "error"):
                    if kind != "false" and not (v2 == "not" and v == "not"):
                        bad("at-once-differs", "a query alone: %s, beside others: %s" % (v, v2), query=qt, cmd=cmd, out=out.decode("utf8", "replace")[:2000])
            nochange(snap, "by queries at the same time, some of them killed")
            cmd, v, qt = r.choice(cmds)
            run = gk.run(cmd, timeout=40)
            v2 = verdict(run)[0]
            if not run.timeout and ({v, v2} == {"proved", "not"} and kind != "false" or v2 in ("none", "error")):
                bad("later-differs", "a query first: %s, after other queries: %s" % (v, v2), query=qt, cmd=cmd, out=run.out[:2000])
            nochange(snap, "by a later query")
            inc("again")
        end = time.time() + 2
        while shm.info(nr) and shm.info(nr)[1] and time.time() < end:
            time.sleep(0.01)
        rd = gk.run([B, "-deletekb", "-mbnr", str(nr)], timeout=20)
        if not rd.timeout:
            inc("deleted")
            if shm.info(nr) is not None:
                bad("not-deleted", "the segment remains after -deletekb: %s" % rd.out[-200:])
            run = gk.gkc(B, files=[files[-1]], args=["-usekb", "-mbnr", str(nr)], mb=60, timeout=20)
            if verdict(run)[0] != "error":
                bad("deleted-used", "a deleted knowledge base is used", out=run.out[:1000])
    finally:
        shm.remove(nr)
        for f in files:
            os.unlink(f)
    if i < 2:
        res["sample"] = {"kb": kbt[:400], "queries": len(qs), "kind": kind, "pages": len(snap)}
    return res


def main():
    global B, BA
    c = gk.Check("C14")
    B, BA = gk.build("plain"), gk.build("asan")
    n = 260 if gk.QUICK else 12000
    try:
        gk.cases(c, case, range(n), 2)
    finally:
        for k in shm.keys():
            if BASE <= k < BASE + 1000:
                shm.remove(k)
    c.finish("knowledge bases read into shared memory and queried alone, at the same time, killed and again, against the files read together, "
             "independent truths (grounding, planted models, reachability) and snapshots of every page; distinct: (knowledge base, query, strategy)",
             need={"kb_proved": n // 3, "kb_not": n // 6, "snapshots": n * 2, "killed": n // 5, "at_once": n // 3, "answer_sets": n // 12, "deleted": n // 2, "derived_checked": 20 * n})


if __name__ == "__main__":
    gk.main(main)
