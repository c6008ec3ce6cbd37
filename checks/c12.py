"""C12: bounded arithmetic instantiation is sound and within its budgets.

Problems are built true in the standard numbers (predicates interpreted by linear conditions, which z3
checks), so a reported proof is false, every derived clause must be valid in the interpretation, and
every answer must satisfy its query.  Settings of the instantiation bound what the statistics, the
trace and the proofs show."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk
from logic import *
import z3

B = A = None
CMP = {"$less": lambda a, b: a < b, "$lesseq": lambda a, b: a <= b, "$greater": lambda a, b: a > b, "$greatereq": lambda a, b: a >= b}
FUN = {"$sum": lambda a, b: a + b, "$difference": lambda a, b: a - b, "$product": lambda a, b: a * b,
       "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


class Unknown(Exception):
    pass


class Interp:
    """consts: name -> int; preds: name -> function of z3 reals; ans: function of z3 reals or None"""

    def __init__(s, consts, preds):
        s.consts, s.preds, s.ans = consts, preds, None
        s.solver = z3.Solver()
        s.solver.set("timeout", 400)

    def term(s, t, env):
        """(z3 real, kind)"""
        if t[0] == "v":
            return env[t[1]]
        if t[0] == "n":
            if isinstance(t[1], float):
                return z3.RealVal(repr(t[1])) if "e" not in repr(t[1]) else z3.RealVal(str(__import__("fractions").Fraction(t[1]))), "r"
            return z3.RealVal(t[1]), "i"
        if len(t) == 1:
            if t[0] not in s.consts:
                raise Unknown(t[0])
            return z3.RealVal(s.consts[t[0]]), "i"
        if t[0] == "$uminus":
            a, k = s.term(t[1], env)
            return -a, k
        if t[0] not in FUN or len(t) != 3:
            raise Unknown(t[0])
        (a, j), (b, k) = s.term(t[1], env), s.term(t[2], env)
        return FUN[t[0]](a, b), "i" if j == k == "i" else "r"

    def lit(s, l, env, mixed):
        pos, p, args = l
        if p == "$ans":
            v = s.ans([s.term(a, env) for a in args], mixed)
        elif p == "=":
            (a, j), (b, k) = s.term(args[0], env), s.term(args[1], env)
            v = a == b if j == k else z3.BoolVal(False)
        elif p in CMP:
            (a, j), (b, k) = s.term(args[0], env), s.term(args[1], env)
            v = CMP[p](a, b)
            if j != k and not mixed:        # 1 and 1.0 are different; gkc also takes neither as less or equal
                v = z3.And(v, a != b)
        elif p in s.preds:
            v = s.preds[p](*[s.term(a, env)[0] for a in args])
        elif p in ("$is_int", "$is_real", "$is_number"):
            k = s.term(args[0], env)[1]
            v = z3.BoolVal(p == "$is_number" or (p == "$is_int") == (k == "i"))
        else:
            raise Unknown(p)
        return v if pos else z3.Not(v)

    def valid(s, c, mixed):
        """True/False/None: the clause holds for all integer and real values of its variables"""
        vs = sorted(clause_vars(c))
        if len(vs) > 4:
            return None
        for kinds in itertools.product("ir", repeat=len(vs)):
            env = {}
            cons = []
            for v, k in zip(vs, kinds):
                x = z3.Real("x_" + v)
                env[v] = (x, k)
                if k == "i":
                    cons.append(z3.IsInt(x))
            s.solver.push()
            s.solver.add(cons)
            for l in c:
                s.solver.add(z3.Not(s.lit(l, env, mixed)))
            r = s.solver.check()
            s.solver.pop()
            if r == z3.sat:
                return False
            if r != z3.unsat:
                return None
        return True

    def valid_any(s, c):
        """None if undecided, False only if false with both readings of mixed comparisons"""
        a = s.valid(c, False)
        if a is not False:
            return a
        return s.valid(c, True)


def gen(r):
    consts = {"c%d" % i: r.randint(-3, 9) for i in range(r.randint(0, 2))}
    preds = {}
    desc = {}
    for i in range(r.randint(1, 4)):
        n = r.choice((1, 1, 2))
        co = [r.randint(-2, 2) for _ in range(n)]
        b = r.randint(-4, 8)
        op = r.choice(("<", "<=", ">=", "==", "!=", "T"))
        f = {"<": lambda *a, co=co, b=b: sum(x * y for x, y in zip(co, a)) < b, "<=": lambda *a, co=co, b=b: sum(x * y for x, y in zip(co, a)) <= b,
             ">=": lambda *a, co=co, b=b: sum(x * y for x, y in zip(co, a)) >= b, "==": lambda *a, co=co, b=b: sum(x * y for x, y in zip(co, a)) == z3.RealVal(b),
             "!=": lambda *a, co=co, b=b: sum(x * y for x, y in zip(co, a)) != z3.RealVal(b), "T": lambda *a: z3.BoolVal(True)}[op]
        if all(x == 0 for x in co):
            co[0] = 1
        preds["p%d" % i] = f
        desc["p%d" % i] = n
    return Interp(consts, preds), desc


VS = ("X", "Y", "Z")


def rt(r, it, depth, vs, pv=0.5):
    if depth <= 0 or r.random() < 0.35:
        if r.random() < pv:
            return ("v", r.choice(vs))
        if it.consts and r.random() < 0.25:
            return (r.choice(list(it.consts)),)
        return ("n", r.randint(-4, 12))
    f = r.choice(("$sum", "$sum", "$difference", "$product", "$uminus"))
    if f == "$uminus":
        return (f, rt(r, it, depth - 1, vs, pv))
    if f == "$product":
        a, b = ("n", r.randint(-3, 4)), rt(r, it, depth - 1, vs, pv)
        return (f, a, b) if r.random() < 0.7 else (f, b, a)
    return (f, rt(r, it, depth - 1, vs, pv), rt(r, it, depth - 1, vs, pv))


def rl(r, it, desc, vs, pos=None):
    if pos is None:
        pos = r.random() < 0.5
    c = r.random()
    if c < 0.35:
        p = r.choice(sorted(desc))
        return (pos, p, tuple(rt(r, it, r.choice((0, 0, 1)), vs) for _ in range(desc[p])))
    if c < 0.65:
        return (pos, "=", (rt(r, it, r.choice((1, 1, 2)), vs, 0.7), rt(r, it, r.choice((0, 0, 1)), vs, 0.3)))
    return (pos, r.choice(sorted(CMP)), (rt(r, it, r.choice((0, 1, 1, 2)), vs, 0.7), rt(r, it, r.choice((0, 0, 1)), vs, 0.3)))


def case(i):
    r = gk.rng("C12", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    it, desc = gen(r)
    clauses = []
    want = r.randint(2, 6)
    for _ in range(60):
        if len(clauses) >= want:
            break
        vs = VS[:r.choice((1, 1, 2, 2))]
        c = tuple(rl(r, it, desc, vs) for _ in range(r.choice((1, 2, 2, 3))))
        if clause_vars(c) and it.valid(c, False) and it.valid(c, True):
            clauses.append(c)
        elif not clause_vars(c):
            # ground facts: flip false literals
            l = c[0]
            if it.valid((l,), False) is True and it.valid((l,), True) is True:
                clauses.append((l,))
    for p in desc:                       # facts and their negations
        for _ in range(r.randint(0, 3)):
            l = (True, p, tuple(("n", r.randint(-4, 9)) for _ in range(desc[p])))
            if it.valid((l,), False) is False:
                l = (False,) + l[1:]
            if it.valid((l,), False):
                clauses.append((l,))
    query = None
    if r.random() < 0.5:
        vs = VS[:r.choice((1, 1, 2))]
        q = [rl(r, it, desc, vs, r.random() < 0.85) for _ in range(r.choice((1, 1, 2, 2, 3)))]
        qv = sorted(set().union(*[clause_vars((l,)) for l in q]))
        if qv:
            query = tuple((not l[0],) + l[1:] for l in q) + ((True, "$ans", tuple(("v", v) for v in qv)),)

            def ans(args, mixed, q=q, qv=qv):
                env = dict(zip(qv, args))
                return z3.And([it.lit(l, env, mixed) for l in q])
            it.ans = ans
            clauses.append(query)
    if not clauses:
        res["inconclusive"] = 1
        return res
    r.shuffle(clauses)
    mode = r.choice((0, 1, 1, 2, 2, 2, None))
    st = {"strategy": [r.choice(("unit", "unit", "negative_pref", "positive_pref", "knuthbendix_pref"))], "query_preference": r.choice((0, 0, 1))}
    if query:
        st["max_answers"] = r.choice((1, 2, 5, 10))
    if mode is not None:
        st["arith_instantiation"] = mode
    lim = {"max_vars": 2 if mode == 2 else 1, "candidate_limit": 6 if mode == 2 else 4, "probe_limit": 32 if mode == 2 else 16,
           "keep_limit": 4 if mode == 2 else 2, "depth_limit": 2 if mode == 2 else 1, "global_limit": 1000}
    for k in list(lim):
        if r.random() < 0.2:
            lim[k] = {"max_vars": r.choice((1, 2)), "candidate_limit": r.randint(1, 8), "probe_limit": r.randint(1, 40), "keep_limit": r.randint(1, 5),
                      "depth_limit": r.randint(1, 3), "global_limit": r.choice((1, 3, 10, 50))}[k]
            st["arith_inst_" + k] = lim[k]
    if mode != 2:
        lim["max_vars"] = 1
    text = "\n".join(c_text(c) + ("" if c_text(c).endswith(".") else ".") for c in clauses)
    st["max_seconds"] = 1
    rep = {"text": text, "strategy": st, "case": i, "seed": gk.SEED, "consts": it.consts}

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    binp = A if r.random() < 0.08 else B
    run = gk.gkc(binp, text, strategy=st, args=["-derived"], timeout=60, seconds=1)
    rep.update(cmd=run.cmd, out=run.out[:4000], err=run.err[-800:])
    if run.timeout:
        res["inconclusive"] = 1
        return res
    if run.crashed():
        bad("crash", "gkc died: %s" % run.crashed())
        return res
    for kk in gk.san_key(run.err):
        bad("sanitizer:" + kk, kk)
    res["distinct"].append(hash(text + json.dumps(st)))
    inc("mode_%s" % mode)
    if "cannot allocate" in run.out or "overflow" in run.out:
        res["inconclusive"] = 1
        inc("out_of_memory")
        return res
    if '"error"' in run.out:
        bad("error", "input refused: %s" % run.out[:200])
        return res
    k = run.out.find('{"result"')
    if k < 0:
        res["inconclusive"] = 1
        inc("no_result")
        return res
    derived = [l for l in run.out[:k].splitlines() if l.startswith("[") and len(l) < 3000]
    inc("derived_lines", len(derived))
    for d in derived[:60]:
        try:
            c = c_from_json(json.loads(d))
        except (ValueError, KeyError, TypeError, IndexError):
            res["inconclusive"] = res.get("inconclusive", 0) + 1
            continue
        res["evals"] += 1
        try:
            v = it.valid_any(c)
        except Unknown:
            v = None
            inc("unknown_symbol")
        except z3.Z3Exception:
            v = None
        if v is None:
            res["inconclusive"] = res.get("inconclusive", 0) + 1
        elif v:
            inc("derived_valid")
        else:
            rep["clause"] = d
            bad("derived-false", "derived clause %s is false in the standard model of the input" % d)
            return res
    try:
        out = json.loads(run.out[k:])
    except ValueError:
        bad("unreadable", "result is not JSON")
        return res
    proofs = []
    if "answers" in out:
        inc("proved")
        for a in out["answers"]:
            if "proof" in a:
                proofs.append(a["proof"])
            if not query:
                bad("false-proof", "a proof for a problem that is true in the standard numbers")
                return res
            if "answer" not in a:
                bad("false-proof", "a contradiction from axioms true in the standard numbers")
                return res
            inc("answers")
            try:
                c = tuple((True, "$ans", tuple(t_from_json(x) for x in d[1:])) for d in a["answer"])
                v = it.valid_any(c)
            except Unknown:
                v = None
            if v is False:
                bad("false-answer", "answer %s does not satisfy the query" % json.dumps(a["answer"]))
                return res
            if v is None:
                res["inconclusive"] = res.get("inconclusive", 0) + 1
            else:
                inc("answers_right")
    for p in proofs:
        depth = {}
        for s in p:
            rule = s[1]
            depth[s[0]] = 0
            if rule and rule[0] == "arithinst":
                inc("arithinst_steps")
                if mode == 0:
                    bad("used-when-off", "proof uses arithinst although it is switched off")
                if len(rule[2]) > lim["max_vars"]:
                    bad("max-vars", "arithinst step substitutes %d variables, limit %d" % (len(rule[2]), lim["max_vars"]))
                depth[s[0]] = depth.get(rule[1], 0) + 1
                if depth[s[0]] > lim["depth_limit"]:
                    bad("depth-limit", "%d arithinst steps in a row, limit %d" % (depth[s[0]], lim["depth_limit"]))
    # the budgets, in the trace of a detailed run
    if r.random() < 0.5:
        run = gk.gkc(B, text, strategy=st, mode=None, printlevel=50, timeout=60, seconds=1)
        if run.timeout or "arithinst" not in run.out and mode != 0:
            return res
        rep.update(cmd=run.cmd, out=run.out[-3000:])
        m = [re.search(r"arithinst: scanned=(\d+) frontiers=(\d+) candidates=(\d+) probes=(\d+)", run.out), re.search(r"arithinst: kept=(\d+)", run.out)]
        if mode == 0:
            inc("mode0_traces")
            if "derived by arithinst" in run.out or (m[0] and int(m[0].group(4))):
                bad("used-when-off", "arithmetic instances generated although switched off")
            return res
        if all(m):
            inc("budget_traces")
            scanned, probes, kept = int(m[0].group(1)), int(m[0].group(4)), int(m[1].group(1))
            inc("probes", probes)
            if probes > lim["global_limit"]:
                bad("global-limit", "%d probes, limit %d" % (probes, lim["global_limit"]))
            if probes > scanned * lim["probe_limit"]:
                bad("probe-limit", "%d probes of %d clauses, limit %d each" % (probes, scanned, lim["probe_limit"]))
            if kept > scanned * lim["keep_limit"]:
                bad("keep-limit", "%d instances kept of %d clauses, limit %d each" % (kept, scanned, lim["keep_limit"]))
        for g in re.split(r"\n\*?\*? ?\+?\+? ?given", run.out)[1:]:
            n = len(re.findall(r"derived by arithinst", g))
            if n > lim["keep_limit"]:
                bad("keep-limit", "%d instances of one given clause printed, limit %d" % (n, lim["keep_limit"]))
    if i < 3:
        res["sample"] = {"text": text, "strategy": st, "result": out.get("result"), "derived": derived[:4]}
    return res


def main():
    global B, A
    c = gk.Check("C12")
    B, A = gk.build("plain"), gk.build("asan")
    n = 1500 if gk.QUICK else 40000
    gk.cases(c, case, range(n), 2)
    c.assumptions = ["z3 decides the validity of linear clauses", "comparisons of an integer with an equal real are judged leniently"]
    c.finish("random problems true in the standard numbers under a planted linear interpretation; every derived clause, answer and verdict judged by z3, budgets from traces; distinct: (problem, settings)",
             need={"derived_valid": n, "answers_right": n // 30, "arithinst_steps": n // 40, "budget_traces": n // 10})


if __name__ == "__main__":
    gk.main(main)
