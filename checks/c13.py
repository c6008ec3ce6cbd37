"""C13: strings, distinct symbols and lists have their fixed meaning, and nothing more is assumed.

Three kinds of case, each against a Python reference:
 claims: some twenty ground claims with keys in one problem, every answer asked for; values must be the
   computed ones, claims must be answered true or false as they are;
 open: one literal whose truth is not fixed (about ordinary constants and terms) must not be refuted
   alone, in either sign;
 ground: random ground problems over distinct symbols, numbers, lists, constants and functions, decided
   with z3; a proof of a satisfiable one is false, and an unsatisfiable one without lists must be proved."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk
from logic import *
import z3

B = BB = A = None
NIL = ("$nil",)
WORDS = ["a", "b", "ab", "ba", "abc", "bc", "a b", "", "1", "12", "c", "abab", "nil", "true", "X", "p(a)", "$nil", "zq", "10", "Abc", "a.b", "a,b"]
CONSTS = [("a",), ("b",), ("c",), ("d",), ("abc",)]


def lst(xs, tail=NIL):
    for x in reversed(xs):
        tail = ("$list", x, tail)
    return tail


def rword(r):
    if r.random() < 0.7:
        return r.choice(WORDS)
    return "".join(r.choice("abcxyz 01_-") for _ in range(r.choice((1, 2, 3, 5, 8, 20)))).strip()


def rnum(r):
    c = r.random()
    if c < 0.6:
        return ("n", r.randint(0, 12))
    if c < 0.75:
        return ("n", r.choice((10, 100, 2 ** 31, 2 ** 40, 2 ** 60, 2 ** 62 + 1)))
    return ("n", r.choice((0.5, 1.5, 2.25, 10.75, 3.0, 100.125)))


def rvalue(r, depth=2):
    c = r.random()
    if depth and c < 0.35:
        return lst([rvalue(r, depth - 1) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 5)))])
    return ("s", rword(r)) if c < 0.72 else rnum(r)


def mutate(r, v):
    """A value differing from v in one place, or a near copy."""
    if v[0] == "s":
        return r.choice((("s", v[1] + "x"), ("s", v[1][1:] or "y"), ("n", int(v[1]) if v[1].isdigit() and v[1].isascii() else 1), lst([v])))
    if v[0] == "n":
        return r.choice((("n", v[1] + 1), ("s", num_text(v[1])), lst([v])))
    xs = unlist(v)
    c = r.random()
    if xs and c < 0.6:
        k = r.randrange(len(xs))
        xs[k] = mutate(r, xs[k])
    elif xs and c < 0.7:
        xs.pop(r.randrange(len(xs)))
    elif xs and c < 0.8 and len(xs) > 1:
        xs = xs[::-1]
    elif c < 0.9:
        xs.insert(r.randint(0, len(xs)), rvalue(r, 0))
    else:
        return lst([v])
    return lst(xs)


def unlist(v):
    xs = []
    while v[0] == "$list":
        xs.append(v[1])
        v = v[2]
    return xs


def closed(t):
    if t[0] in ("n", "s") or t == NIL:
        return True
    return t[0] == "$list" and len(t) == 3 and closed(t[1]) and closed(t[2]) and (t[2] == NIL or t[2][0] == "$list")


def same(a, b):
    """True/False for values, None where an integer meets an equal real."""
    if any(x[0] not in ("n", "s", "$list") and x != NIL for x in (a, b)):
        return True if a == b else None
    if a[0] == "n" and b[0] == "n":
        if isinstance(a[1], float) != isinstance(b[1], float):
            return None if a[1] == b[1] else False
        return a[1] == b[1]
    if a[0] != b[0]:
        return False
    if a[0] == "s":
        return a[1] == b[1]
    if a == NIL:
        return True
    h, t = same(a[1], b[1]), same(a[2], b[2])
    if h is False or t is False:
        return False
    return None if h is None or t is None else True


class Open(Exception):
    pass


def val(t):
    """The value of a term built with the list and string operations; Open if it has none."""
    if t[0] in ("n", "s") or t == NIL:
        return t
    if t[0] == "$list":
        return ("$list", val(t[1]), val(t[2]))
    if t[0] in ("$first", "$rest"):
        v = val(t[1])
        if v[0] != "$list":
            raise Open
        return v[1 if t[0] == "$first" else 2]
    if t[0] == "$strlen":
        v = val(t[1])
        if v[0] != "s":
            raise Open
        return ("n", len(v[1].encode()))
    return t


def expr(r, depth):
    """A term with a value, using the operations."""
    c = r.random()
    if depth <= 0 or c < 0.2:
        return rvalue(r, 1)
    if c < 0.45:
        n = r.randint(1, 3)
        t = lst([expr(r, depth - 1) if r.random() < 0.5 else rvalue(r, 1) for _ in range(n)])
        for _ in range(r.randint(0, n)):
            t = ("$rest", t)
        try:
            if val(t)[0] == "$list" and r.random() < 0.6:
                t = ("$first", t)
        except Open:
            pass
        return t
    if c < 0.6:
        return ("$strlen", ("s", rword(r)))
    if c < 0.7:
        return ("$list", expr(r, depth - 1), r.choice((NIL, lst([rvalue(r, 1)]), ("$rest", lst([rvalue(r, 0), rvalue(r, 1)])))))
    if c < 0.85:
        return ("$first", ("$list", expr(r, depth - 1), r.choice((NIL, CONSTS[0], lst([rvalue(r, 0)])))))
    return lst([expr(r, depth - 1) for _ in range(r.randint(0, 3))])


def claim(r):
    """(atom predicate, args, truth)"""
    c = r.random()
    if c < 0.35:
        a = rvalue(r)
        x = r.random()
        b = a if x < 0.25 else mutate(r, a) if x < 0.75 else rvalue(r)
        w = same(a, b)
        if w is None:
            return None
        return "=", [a, b], w
    if c < 0.5:                 # open elements, but one position decides
        n = r.randint(1, 4)
        xs, ys = [[r.choice(CONSTS + [("f", CONSTS[0])]) if r.random() < 0.5 else rvalue(r, 0) for _ in range(n)] for _ in range(2)]
        k = r.randrange(n)
        xs[k] = rvalue(r, 0)
        ys[k] = mutate(r, xs[k])
        if same(xs[k], ys[k]) is not False:
            return None
        if r.random() < 0.3:
            return "=", [lst(xs), r.choice((rnum(r), ("s", rword(r))))][::r.choice((1, -1))], False
        return "=", [lst(xs), lst(ys)], False
    if c < 0.62:
        v = expr(r, 2) if r.random() < 0.4 else rvalue(r)
        if r.random() < 0.25:
            v = lst([r.choice(CONSTS), rvalue(r, 0)])
        t = v if v[0] == "$list" else val(v)
        return "$is_list", [v], t == NIL or t[0] == "$list"
    if c < 0.72:
        v = expr(r, 2) if r.random() < 0.4 else rvalue(r)
        if val(v) == NIL:
            return None
        return "$is_distinct", [v], val(v)[0] == "s"
    if c < 0.9:
        b = rword(r)
        if r.random() < 0.6 and b:
            k = r.randrange(len(b))
            a = b[k:k + r.randint(0, 3)]
            if r.random() < 0.3 and a:
                a = a[:-1] + r.choice("abz")
        else:
            a = rword(r)
            k = r.randint(0, 3)
        if r.random() < 0.5:
            return r.choice(("$substr", "$is_substr")), [("s", a), ("s", b)], a in b
        if r.random() < 0.3:
            k = r.randint(0, 6)
        return "$substrat", [("s", a), ("s", b), ("n", k)], b[k:k + len(a)] == a and k + len(a) <= len(b)
    e = expr(r, 2)
    v = val(e)
    b = v if r.random() < 0.5 else mutate(r, v)
    w = same(v, b)
    if w is None:
        return None
    return "=", [e, b][::r.choice((1, 1, -1))], w


def openlit(r):
    k = lambda: r.choice(CONSTS)
    w = lambda: ("s", rword(r))
    return r.choice([
        lambda: ("=", [k(), rvalue(r)]), lambda: ("=", [rvalue(r), k()]), lambda: ("=", r.sample(CONSTS, 2)),
        lambda: ("=", [("f", k()), rvalue(r)]), lambda: ("=", [("f", ("s", "a")), ("f", ("s", "b"))]), lambda: ("=", [("f", ("n", 1)), ("n", 1)]),
        lambda: ("=", [lst([k(), ("n", 1)]), lst([("n", 2), ("n", 1)])]), lambda: ("=", [lst([("a",)]), lst([("b",)])]),
        lambda: ("=", [("s", "a"), ("a",)]), lambda: ("=", [("s", "abc"), ("abc",)]), lambda: ("=", [("f", w()), w()]),
        lambda: ("$is_list", [k()]), lambda: ("$is_distinct", [k()]), lambda: ("$is_distinct", [("f", w())]), lambda: ("$is_list", [("f", rvalue(r))]),
        lambda: (r.choice(("$substr", "$is_substr")), [k(), w()][::r.choice((1, -1))]), lambda: ("$substr", [k(), k()]), lambda: ("$substrat", [k(), w(), ("n", 0)]),
        lambda: ("$substrat", [w(), w(), k()]), lambda: ("=", [("$first", k()), rvalue(r)]), lambda: ("=", [("$rest", k()), rvalue(r)]),
        lambda: ("=", [("$first", NIL), rvalue(r)]), lambda: ("=", [("$strlen", k()), ("n", 1)]), lambda: ("=", [("$list", k(), k()), lst([("n", 1)])]),
        lambda: ("p", [rvalue(r)]), lambda: ("=", [("$first", ("f", k())), k()]), lambda: ("$less", [k(), ("n", 3)]), lambda: ("=", [("g", rvalue(r), k()), rvalue(r)]),
    ])()


# -------------------------------------------------------------- printing

def txt(t, r):
    if t[0] == "$list" and r.random() < 0.7:
        xs, u = [], t
        while u[0] == "$list":
            xs.append(u[1])
            u = u[2]
        if u == NIL:
            return "[%s]" % ",".join(txt(x, r) for x in xs)
    if t == NIL and r.random() < 0.5:
        return "[]"
    if t[0] in ("v", "n", "s") or len(t) == 1:
        return t_text(t)
    return "%s(%s)" % (t[0], ",".join(txt(a, r) for a in t[1:]))


def jsn(t, r):
    if t[0] in ("v", "n", "s") or len(t) == 1:
        return t_json(t)
    if t[0] == "$list" and r.random() < 0.5:
        xs, u = [], t
        while u[0] == "$list":
            xs.append(u[1])
            u = u[2]
        if u == NIL:
            return ["$list", jsn(xs[0], r), jsn(lst(xs[1:]), r)]
    return [t[0]] + [jsn(a, r) for a in t[1:]]


def clause_out(syn, cl, r, n):
    if syn == "json":
        js = [[("" if pos else "-") + p] + [jsn(a, r) for a in args] for pos, p, args in cl]
        return js[0] if len(js) == 1 else js
    ss = []
    for pos, p, args in cl:
        if p == "=":
            ss.append("%s %s %s" % (txt(args[0], r), "=" if pos else "!=", txt(args[1], r)))
        else:
            ss.append(("" if pos else "-" if syn == "text" else "~") + "%s(%s)" % (p, ",".join(txt(a, r) for a in args)))
    s = " | ".join(ss)
    return s + "." if syn == "text" else "cnf(c%d,axiom,(%s))." % (n, s)


def problem_text(syn, cls, r):
    o = [clause_out(syn, c, r, n) for n, c in enumerate(cls)]
    return json.dumps(o) if syn == "json" else "\n".join(o)


SUF = {"json": ".js", "tptp": ".p", "text": ".txt"}


def back(j):
    if isinstance(j, bool) or j is None:
        raise ValueError(j)
    if isinstance(j, (int, float)):
        return ("n", j)
    if isinstance(j, str):
        return ("s", j[2:]) if j.startswith("#:") else (j,)
    return (j[0],) + tuple(back(x) for x in j[1:])


def case_claims(i, r, res, inc):
    syn = r.choice(("text", "tptp", "json"))
    cls, claims, values = [], {}, {}
    k = 0
    while k < 20:
        if r.random() < 0.3:
            e = expr(r, 3)
            pre = [("v", "K"), ("v", "X")]
            cls.append(((True, "pv", (("n", k), e)),))
            values[k] = (e, val(e))
        else:
            c = claim(r)
            if c is None:
                continue
            p, args, w = c
            pre, through = [], False
            if r.random() < 0.3:
                vs = [("v", "X%d" % j) for j in range(len(args))]
                cls.append(((True, "s", (("n", k),) + tuple(args)),))
                pre, args, through = [(False, "s", (("n", k),) + tuple(vs))], vs, True
            cls.append(tuple(pre + [(False, p, tuple(args)), (True, "q", (("n", k),))]))
            cls.append(tuple(pre + [(True, p, tuple(args)), (True, "w", (("n", k),))]))
            claims[k] = (c, through)
        k += 1
    K, X = ("v", "K"), ("v", "X")
    r.shuffle(cls)
    cls += [((False, "pv", (K, X)), (True, "$ans", (K, X))), ((False, "q", (K,)), (True, "$ans", (("tt",), K))), ((False, "w", (K,)), (True, "$ans", (("ff",), K)))]
    text = problem_text(syn, cls, r)
    which = r.choice(("plain",) * 6 + ("bison", "asan"))
    if syn == "json" and which == "bison":
        which = "plain"
    run = gk.gkc({"plain": B, "bison": BB, "asan": A}[which], text, fmt=SUF[syn], strategy={"strategy": ["unit"], "query_preference": 0, "max_answers": 100}, timeout=60, seconds=15)
    rep = {"text": text, "syntax": syn, "cmd": run.cmd, "out": run.out[:30000], "err": run.err[-800:], "case": i, "seed": gk.SEED}

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    if run.timeout or "time limit" in run.out:
        res["inconclusive"] = 1
        return
    for kk in gk.san_key(run.err):
        bad("sanitizer:" + kk, "sanitizer report " + kk)
    try:
        js = json.loads(run.out)
        assert "result" in js
        answers = [a["answer"] for a in js.get("answers", [])]
    except (ValueError, AssertionError, KeyError, TypeError):
        bad("no-result", "no readable result: %s" % (run.out[:200] or "exit %s" % run.rc))
        return
    inc("syntax_" + syn)
    inc("build_" + which)
    got, truth = {}, {}
    for a in answers:
        if len(a) != 1:
            if not any((d[2] in claims and claims[d[2]][0][2] == (d[1] == "tt")) if d[1] in ("tt", "ff") else True for d in a):
                bad("false-disjunction", "the disjunctive answer %s is false" % json.dumps(a))
            continue
        if a[0][1] in ("tt", "ff"):
            truth.setdefault(a[0][2], set()).add(a[0][1])
        else:
            got.setdefault(a[0][1], []).append(a[0][2])
    for k, (e, v) in values.items():
        res["evals"] += 1
        inc("values")
        res["distinct"].append(hash(e))
        if not got.get(k):
            bad("no-value", "the value of %s is not reported" % (e,))
        for g in got.get(k, ()):
            if same(back(g), v) is not True:
                bad("wrong-value:" + e[0], "%s is %s, gkc has %s" % (e, v, g))
    for k, ((p, args, w), through) in claims.items():
        res["evals"] += 1
        res["distinct"].append(hash((p, tuple(args))))
        inc("claim_%s_%s" % (p.strip("$"), w))
        if through:
            inc("through_variables")
        right, wrong = ("tt", "ff") if w else ("ff", "tt")
        if wrong in truth.get(k, ()):
            bad("wrong-truth:" + p, "%s%s is %s, gkc takes it as %s" % (p, args, w, not w))
        elif right not in truth.get(k, ()) and not (through and p == "="):
            bad("no-truth:" + p, "%s%s is %s, gkc does not find out" % (p, args, w))
    if i < 3:
        res["sample"] = {"text": text[:400], "answers": len(answers)}


def case_open(i, r, res, inc):
    while True:
        p, args = openlit(r)
        if not (p == "=" and args[0] == args[1]):
            break
    for pos in (True, False):
        syn = r.choice(("text", "tptp", "json"))
        text = problem_text(syn, [((pos, p, tuple(args)),)], r)
        strat = r.choice(("negative_pref", "positive_pref", "unit", "query_focus"))
        run = gk.gkc(B, text, fmt=SUF[syn], strategy={"strategy": [strat], "max_dseconds": 5, "max_weight": 30, "max_depth": 6}, timeout=60, seconds=3)
        res["evals"] += 1
        inc("open_literals")
        res["distinct"].append(hash((pos, p, tuple(args))))
        o = parse_json_output(run.out)
        if o.proved:
            res["violations"].append(("open-decided:" + p, "%s%s%s is not fixed but gkc refutes it" % ("" if pos else "-", p, args),
                                      {"text": text, "cmd": run.cmd, "out": run.out[:3000], "case": i, "seed": gk.SEED}))
            return


# ------------------------------------------------------------ ground problems with z3

VAL = z3.Datatype("Val")
VAL.declare("num", ("n", z3.IntSort()))
VAL.declare("str", ("sid", z3.IntSort()))
VAL.declare("nil")
VAL.declare("cons", ("hd", VAL), ("tl", VAL))
VAL.declare("oth", ("o", z3.IntSort()))
VAL = VAL.create()


def z3_ground(cls):
    strs, nums, funs = {}, {}, {}

    def tm(t):
        if t[0] == "n":
            return VAL.num(z3.IntVal(nums.setdefault(t[1], len(nums))))
        if t[0] == "s":
            return VAL.str(z3.IntVal(strs.setdefault(t[1], len(strs))))
        if t == NIL:
            return VAL.nil
        if t[0] == "$list":
            return VAL.cons(tm(t[1]), tm(t[2]))
        k = (t[0], len(t))
        if k not in funs:
            funs[k] = z3.Function(t[0] + str(len(t)), *([VAL] * len(t))) if len(t) > 1 else z3.Const(t[0] + "0", VAL)
        return funs[k](*[tm(a) for a in t[1:]]) if len(t) > 1 else funs[k]
    s = z3.Solver()
    s.set("timeout", 4000)
    for c in cls:
        ls = []
        for pos, p, args in c:
            if p == "=":
                a = tm(args[0]) == tm(args[1])
            else:
                k = ("P", p, len(args))
                if k not in funs:
                    funs[k] = z3.Function("P" + p, *([VAL] * len(args) + [z3.BoolSort()]))
                a = funs[k](*[tm(x) for x in args])
            ls.append(a if pos else z3.Not(a))
        s.add(z3.Or(*ls))
    return str(s.check())


def gterm(r, words, lists, d=2):
    c = r.random()
    if d and c < 0.3:
        return (r.choice("fg"), gterm(r, words, lists, d - 1)) if r.random() < 0.7 else ("h", gterm(r, words, lists, d - 1), gterm(r, words, lists, d - 1))
    if lists and d and c < 0.45:
        return lst([gterm(r, words, lists, d - 1) for _ in range(r.randint(0, 2))])
    if c < 0.75:
        return r.choice(words)
    return r.choice(CONSTS[:3])


def case_ground(i, r, res, inc):
    lists = r.random() < 0.4
    words = r.sample([("s", "a"), ("s", "b"), ("s", "1"), ("n", 1), ("n", 2), ("n", 7.5)], r.randint(2, 4))
    cls = []
    for _ in range(r.choice((4, 6, 8, 10, 12))):
        c = []
        for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
            if r.random() < 0.65:
                a = (gterm(r, words, lists), gterm(r, words, lists))
                if a[0] == a[1]:
                    continue
                c.append((r.random() < 0.65, "=", a))
            else:
                c.append((r.random() < 0.5, r.choice("pq"), (gterm(r, words, lists),)))
        if c:
            cls.append(tuple(c))
    truth = z3_ground(cls)
    inc("ground_" + truth)
    if truth == "unknown":
        res["inconclusive"] = 1
        return
    syn = r.choice(("text", "tptp", "json"))
    text = problem_text(syn, cls, r)
    strat = r.choice(("negative_pref", "positive_pref", "knuthbendix_pref"))
    run = gk.gkc(B, text, fmt=SUF[syn], strategy={"strategy": [strat], "query_preference": 0, "max_seconds": 10 if truth == "unsat" and not lists else 1}, timeout=60, seconds=15)
    res["evals"] += 1
    res["distinct"].append(hash(text))
    o = parse_json_output(run.out)
    rep = {"text": text, "cmd": run.cmd, "truth": truth, "out": run.out[:3000], "case": i, "seed": gk.SEED}
    if run.timeout:
        res["inconclusive"] = 1
    elif o.proved:
        inc("ground_proved")
        if truth == "sat":
            res["violations"].append(("unsound", "a satisfiable problem is refuted", rep))
    elif truth == "unsat" and not lists:
        if "time limit" in run.out:
            res["inconclusive"] = 1
        elif all(l[1] != "=" or True for c in cls for l in c):
            res["violations"].append(("incomplete", "an unsatisfiable problem is not refuted: %s" % run.out[:80], rep))


def case(i):
    r = gk.rng("C13", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    (case_claims, case_open, case_ground, case_claims, case_ground)[i % 5](i, r, res, inc)
    return res


def main():
    global B, BB, A
    c = gk.Check("C13")
    B, A = gk.build("plain"), gk.build("asan")
    BB = gk.build("plain", bison=True)
    n = 9000 if gk.QUICK else 80000
    gk.cases(c, case, range(n), 4)
    c.finish("ground claims and values with distinct symbols, strings and lists answered by gkc and compared with a reference evaluator, open literals tried in both signs, random ground problems decided with z3; distinct: claims and problems",
             need={"values": n, "through_variables": n // 2, "open_literals": n // 10, "ground_sat": n // 30, "ground_unsat": n // 30, "ground_proved": n // 40, "claim_is_list_True": n // 20, "claim_is_list_False": n // 20, "claim_substrat_True": n // 50, "claim_=_True": n // 5, "claim_=_False": n // 5})


if __name__ == "__main__":
    gk.main(main)
