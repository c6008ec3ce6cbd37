"""C11: ground arithmetic, comparisons and type tests have the right values.

Every case puts some twenty arithmetic claims, each with its own key k, into one problem and asks
for all answers.  Values are reported as $ans(k,<value>), claims as $ans(q,k) (true) or $ans(r,k)
(false).  The oracle computes with Python's exact integers and IEEE doubles."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk
from logic import *

B = BB = A = None
IMIN, IMAX = -2 ** 63, 2 ** 63 - 1
ENV = {"ca": 7, "cb": -3}
INFIX = {"$sum": "+", "$difference": "-", "$product": "*"}
BIN = ["$sum", "$difference", "$product"]
QUO = ["$quotient_e", "$quotient_t", "$quotient_f", "$remainder_e", "$remainder_t", "$remainder_f"]
UN = ["$uminus", "$to_int", "$to_real", "$floor", "$ceiling", "$truncate", "$round"]
COMP = ["$less", "$lesseq", "$greater", "$greatereq", "=", "!="]


class Skip(Exception):
    pass


def fits(v):
    """Value (number, kind) or None for undefined; kind: i(nt), r(eal), a(mbiguous)."""
    if v is None:
        return False
    if v[1] == "r":
        return math.isfinite(v[0])
    return IMIN <= v[0] <= IMAX


def ev(t, flags=None):
    """Value of a tree: ("n", num) | (const,) | (op, args..).  flags collects 'unfit' when some subterm is not evaluated."""
    v = ev1(t, flags)
    if flags is not None and not fits(v):
        flags.add("unfit")
    if v is not None and v[1] == "r" and not math.isfinite(v[0]):
        return None
    return v


def ev1(t, flags):
    if t[0] == "n":
        return (t[1], "r" if isinstance(t[1], float) else "i")
    if len(t) == 1:
        if flags is not None:
            flags.add("sym")
        return (ENV[t[0]], "i")
    op = {"+": "$sum", "-": "$difference", "*": "$product", "/": "$quotient"}.get(t[0], t[0])
    args = [ev(a, flags) for a in t[1:]]
    if any(a is None for a in args):
        return None
    if len(args) == 1:
        (x, k), = args
        if op == "$uminus":
            return (-x, k)
        if op == "$to_real":
            if k == "r":
                return (x, "r")
            if abs(x) > 10 ** 300:
                raise Skip
            return (float(x), "r" if k == "i" else "r")
        if k != "r":
            return (x, k)
        if op in ("$to_int", "$floor"):
            return (math.floor(x), "i" if op == "$to_int" else "a")
        if op == "$ceiling":
            return (math.ceil(x), "a")
        if op == "$truncate":
            return (math.trunc(x), "a")
        if op == "$round":
            if abs(x) < 2 ** 52 and abs(x - math.trunc(x)) == 0.5:
                raise Skip            # TPTP and C differ on ties
            return (math.floor(x + 0.5) if abs(x) < 2 ** 51 else int(x), "a")
        raise ValueError(op)
    (x, j), (y, k) = args
    if j == "r" or k == "r":
        if abs(x) > 10 ** 300 or abs(y) > 10 ** 300:
            raise Skip
        if (j == "a" and abs(x) > 2 ** 53) or (k == "a" and abs(y) > 2 ** 53):
            raise Skip
        x, y, kind = float(x), float(y), "r"
    else:
        kind = "a" if "a" in (j, k) else "i"
    if op == "$sum":
        z = x + y
    elif op == "$difference":
        z = x - y
    elif op == "$product":
        z = x * y
    else:
        if y == 0:
            return None
        if op == "$quotient":
            if kind == "r":
                z = x / y
            elif x % y == 0:
                z = x // y
            else:
                raise Skip            # TPTP leaves integers; gkc truncates
        elif kind == "r":
            q = x / y
            if not math.isfinite(q):
                return None
            if op.startswith("$quotient"):
                d = {"e": "f" if y > 0 else "c", "t": "t", "f": "f"}[op[-1]]
                return ({"f": math.floor, "c": math.ceil, "t": math.trunc}[d](q), "a")
            if abs(q) > 1e9:
                raise Skip            # the rounding of the quotient would decide
            z = math.fmod(x, y)
            if op == "$remainder_e" and z < 0:
                z += abs(y)
            if op == "$remainder_f" and z and (z < 0) != (y < 0):
                z += y
        else:
            fl = x // y
            tr = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            q = {"f": fl, "t": tr, "e": fl if y > 0 else -((x) // (-y))}[op[-1]]
            z = q if op.startswith("$quotient") else x - q * y
    if kind == "a" and abs(z) > 2 ** 53:
        raise Skip
    return (z, kind)


def compare(op, u, v):
    """True/False, or Skip when the outcome depends on the numeric type."""
    (x, j), (y, k) = u, v
    if x == y and not (j == k and j != "a"):
        raise Skip
    if "r" in (j, k) and (j != "r" or k != "r"):
        if abs(x - y) < 1e-6 * max(1, abs(x)):
            raise Skip
    return {"$less": x < y, "$lesseq": x <= y, "$greater": x > y, "$greatereq": x >= y, "=": x == y, "!=": x != y}[op]


def rnum(r, kind):
    if kind == "i":
        c = r.random()
        if c < 0.6:
            n = r.randint(-12, 12)
        elif c < 0.75:
            n = r.randint(-10 ** 6, 10 ** 6)
        else:
            n = r.choice((2 ** 27, 2 ** 28, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 60, 2 ** 61, 2 ** 62, 2 ** 63 - 3)) + r.randint(-2, 2)
            n = r.choice((1, -1)) * n
        return n
    c = r.random()
    if c < 0.5:
        return r.randint(-40, 40) / 4 + 0.0
    if c < 0.8:
        return round(r.uniform(-100, 100), r.randint(0, 6))
    if c < 0.9:
        return r.choice((0.1, 0.5, 1e-5, 123456.789, 0.0, 1.0, -0.25, 1234567890.5))
    return round(r.uniform(-1e12, 1e12), 3)


def tree(r, depth, kind):
    if depth <= 0 or r.random() < 0.12:
        if r.random() < 0.04 and kind == "i":
            return (r.choice(("ca", "cb")),)
        k = kind if r.random() < 0.9 else r.choice("ir")
        return ("n", rnum(r, k) + 0)
    c = r.random()
    if c < 0.5:
        return (r.choice(BIN), tree(r, depth - 1, kind), tree(r, depth - 1, kind))
    if c < 0.78:
        return (r.choice(QUO), tree(r, depth - 1, kind), tree(r, depth - 1, kind))
    if c < 0.84:
        return ("$quotient", tree(r, depth - 1, kind), tree(r, depth - 1, kind))
    return (r.choice(UN), tree(r, depth - 1, "r" if r.random() < 0.5 else kind))


def leaves(t):
    if t[0] == "n":
        return [t]
    return [x for a in t[1:] for x in leaves(a)]


def ntxt(x):
    if isinstance(x, float):
        s = format(x, "f")
        if float(s) != x:
            s = "%.17f" % x
        assert float(s) == x, x
        return s
    return str(x)


def txt(t, r, vs, infix):
    """vs: list of variable names replacing numeric leaves, or None."""
    if t[0] == "n":
        return vs.pop(0) if vs is not None else ntxt(t[1])
    if len(t) == 1:
        return t[0]
    if infix and t[0] in INFIX and r.random() < 0.6 and vs is None:
        a = txt(t[1], r, vs, infix)
        if t[1][0] == "n" and t[1][1] >= 0 or a.startswith("("):
            b = txt(t[2], r, vs, infix)
            return "(%s %s %s)" % (a, INFIX[t[0]], b)
        return "%s(%s,%s)" % (t[0], a, txt(t[2], r, vs, infix))
    return "%s(%s)" % (t[0], ",".join(txt(a, r, vs, infix) for a in t[1:]))


def jsn(t, r, vs):
    if t[0] == "n":
        return vs.pop(0) if vs is not None else t[1]
    if len(t) == 1:
        return t[0]
    a = [jsn(x, r, vs) for x in t[1:]]
    if t[0] in INFIX and r.random() < 0.4:
        return [a[0], INFIX[t[0]], a[1]] if r.random() < 0.5 and not isinstance(a[0], str) else [INFIX[t[0]]] + a
    return [t[0]] + a


def from_json(j):
    if isinstance(j, bool) or j is None:
        raise ValueError(j)
    if isinstance(j, (int, float)):
        return ("n", j)
    if isinstance(j, str):
        return (j,)
    return (j[0],) + tuple(from_json(x) for x in j[1:])


def case(i):
    r = gk.rng("C11", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    syn = r.choice(("text", "tptp", "json"))
    out = []              # lines or json clauses
    claims = {}

    def clause(lits):
        """lits: list of (sign, kind 'atom'|'eq', text or json builder)"""
        if syn == "json":
            js = []
            for pos, a in lits:
                a = list(a)
                if a[0] in ("=", "!="):
                    if not pos:
                        a[0] = "!=" if a[0] == "=" else "="
                    js.append(a if r.random() < 0.5 else [a[1], a[0], a[2]])
                else:
                    js.append(a if pos else ["-" + a[0]] + a[1:])
            out.append(js[0] if len(js) == 1 else [x for k, l in enumerate(js) for x in (["|"] if k else []) + [l]])
        else:
            neg = "-" if syn == "text" else "~"
            ss = []
            for pos, a in lits:
                if a[0] in ("=", "!="):
                    op = a[0]
                    if not pos:
                        op = "!=" if op == "=" else "="
                    if a[1].startswith("-"):      # a leading minus would negate the whole literal
                        a[1] = "$uminus(%s)" % a[1][1:]
                    ss.append("%s %s %s" % (a[1], op, a[2]))
                else:
                    ss.append(("" if pos else neg) + "%s(%s)" % (a[0], ",".join(str(x) for x in a[1:])))
            s = " | ".join(ss)
            out.append(s + "." if syn == "text" else "cnf(c%d,axiom,%s)." % (len(out), s))

    def term(t, vs=None):
        return jsn(t, r, vs) if syn == "json" else txt(t, r, vs, True)

    def var(n):
        return ("?:" if syn == "json" else "") + n
    k = 0
    while k < 22:
        kind = r.choice("iiirr")
        form = r.choice(("value", "value", "value", "comp", "comp", "type"))
        depth = r.choice((1, 1, 2, 2, 3, 4))
        try:
            if form == "value":
                ts = [tree(r, depth, kind)]
            elif form == "comp":
                ts = [tree(r, depth - 1, kind), tree(r, r.choice((0, depth - 1)), kind)]
                if r.random() < 0.3:       # make them equal or nearly so
                    v = ev(ts[0])
                    if v is not None and fits(v) and v[1] == "i":
                        ts[1] = ("n", max(IMIN + 1, min(IMAX, v[0] + r.choice((0, 0, 1, -1)))))
                    elif v is not None and v[1] == "r" and abs(v[0]) < 1e15 and float("%.17f" % v[0]) == v[0]:
                        ts[1] = ("n", v[0])
            else:
                ts = [tree(r, r.choice((0, 0, 1, 2)), kind)]
            flags = set()
            vals = [ev(t, flags) for t in ts]
            if any(t[0] == "n" and isinstance(t[1], float) and not math.isfinite(t[1]) for t in ts):
                continue
            if any(v is not None and v[1] == "r" and v[0] == 0 and math.copysign(1, v[0]) < 0 for v in vals):
                continue
            if form == "comp":
                op = r.choice(COMP)
                want = None
                if not flags:
                    want = compare(op, *vals)
                elif op in ("=", "!="):
                    continue          # would be an equation of the problem, not a claim
            elif form == "type":
                op = r.choice(("$is_int", "$is_real", "$is_number"))
                want = None
                if not flags:
                    if vals[0][1] == "a" and op != "$is_number":
                        continue
                    want = op == "$is_number" or (op == "$is_int") == (vals[0][1] == "i")
        except (Skip, OverflowError):
            continue
        k += 1
        lv = [x for t in ts for x in leaves(t)]
        usevars = r.random() < 0.4 and len(lv) <= 8 and lv
        vs = None
        pre = []
        if usevars:
            vs = [var("X%d" % j) for j in range(len(lv))]
            clause([(True, ["s", k] + [term(x) for x in lv])])
            pre = [(False, ["s", k] + list(vs))]
            inc("through_variables")
        if form == "value":
            clause(pre + [(True, ["p", k, term(ts[0], vs)])])
            claims[k] = ("value", ts[0], vals[0], flags)
        else:
            if form == "comp":
                lv2 = list(vs) if vs else None
                a = [op] + [term(t, lv2) for t in ts]
            else:
                a = [op, term(ts[0], list(vs) if vs else None)]
            clause(pre + [(False, a), (True, ["q", k])])
            clause(pre + [(True, a), (True, ["r", k])])
            claims[k] = (form, (op, ts), want, flags, bool(usevars and op in ("=", "!=")))
    clause([(False, ["p", var("K"), var("X")]), (True, ["$ans", var("K"), var("X")])])
    clause([(False, ["q", var("K")]), (True, ["$ans", "tt", var("K")])])
    clause([(False, ["r", var("K")]), (True, ["$ans", "ff", var("K")])])
    text = json.dumps(out) if syn == "json" else "\n".join(out)
    which = r.choice(("plain",) * 6 + ("bison", "asan"))
    if syn == "json" and which == "bison":
        which = "plain"
    run = gk.gkc({"plain": B, "bison": BB, "asan": A}[which], text, fmt={"json": ".js", "tptp": ".p", "text": ".txt"}[syn],
                 strategy={"strategy": ["unit"], "query_preference": 0, "max_answers": 100}, timeout=40, seconds=15)
    rep = {"text": text, "syntax": syn, "cmd": run.cmd, "out": run.out[:30000], "err": run.err[-800:], "case": i, "seed": gk.SEED}

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    if run.timeout or "time limit" in run.out:
        res["inconclusive"] = 1
        return res
    for kk in gk.san_key(run.err):
        bad("sanitizer:" + kk, "sanitizer report " + kk)
    try:
        js = json.loads(run.out)
        assert "result" in js
        answers = [a["answer"] for a in js.get("answers", [])]
    except (ValueError, AssertionError, KeyError, TypeError):
        bad("no-result", "no readable result: %s" % (run.out[:200] or "exit %s" % run.rc))
        return res
    inc("syntax_" + syn)
    inc("build_" + which)
    vals, truths = {}, {}
    for a in answers:
        if len(a) == 1 and a[0][1] in ("tt", "ff"):
            truths.setdefault(a[0][2], set()).add(a[0][1])
        elif len(a) == 1:
            vals.setdefault(a[0][1], []).append(a[0][2])
        else:                       # a disjunction: one of its parts must be true
            ok = False
            for d in a:
                if d[1] in ("tt", "ff"):
                    c = claims[d[2]]
                    ok = ok or c[2] is None or c[2] == (d[1] == "tt")
                else:
                    ok = True
            if not ok:
                bad("false-disjunction", "the disjunctive answer %s is false" % json.dumps(a))
    for k, c in claims.items():
        res["evals"] += 1
        unk = c[3]
        res["distinct"].append(hash(str(c[1])))
        if c[0] == "value":
            inc("values")
            got = vals.get(k, [])
            if len(got) == 0:
                bad("no-value", "the value of %s is not reported" % (c[1],))
                continue
            for g in got:
                t = from_json(g)
                if not unk:
                    inc("evaluated")
                    want = c[2][0]
                    if t[0] != "n":
                        bad("not-evaluated", "%s is left as %s, its value %s is representable" % (c[1], g, want))
                    elif t[1] != want and not (isinstance(want, float) and isinstance(t[1], float) and abs(t[1] - want) <= 1e-9 * abs(want)):
                        bad("wrong-value:" + (c[1][0] if c[1][0] != "n" else "literal"), "%s is %s, gkc has %s" % (c[1], want, g))
                    elif isinstance(t[1], float) != isinstance(want, float) and c[2][1] in "ir":
                        if c[2][1] == "i" or not t[1] == want:
                            bad("wrong-type", "%s is %s of kind %s, gkc has %s" % (c[1], want, c[2][1], g))
                else:
                    inc("kept_" + "_".join(sorted(unk)))
                    try:
                        v = ev(t)
                    except (Skip, OverflowError, KeyError, ValueError):
                        res["inconclusive"] = res.get("inconclusive", 0) + 1
                        continue
                    if (v is None) != (c[2] is None) or (v is not None and v[0] != c[2][0] and not
                            ("r" in (v[1], c[2][1]) and abs(v[0] - c[2][0]) <= 1e-9 * abs(v[0]))):
                        bad("wrong-rewriting", "%s has value %s, gkc turned it into %s with value %s" % (c[1], c[2], g, v))
        else:
            inc(c[0])
            got = truths.get(k, set())
            want = c[2]
            if want is None:
                inc("claim_unknown")
                if c[0] == "comp" and c[1][0] in ("=", "!=") or c[0] == "comp" and "sym" in unk:
                    pass
                continue
            inc("claim_true" if want else "claim_false")
            right, wrong = ("tt", "ff") if want else ("ff", "tt")
            if wrong in got:
                bad("wrong-truth:" + c[1][0], "%s is %s, gkc takes it as %s" % (c[1], want, not want))
            elif right not in got and not c[4]:
                bad("no-truth:" + c[1][0], "%s is %s, gkc does not find out" % (c[1], want))
    if i < 3:
        res["sample"] = {"text": text[:500], "answers": len(answers)}
    return res


def main():
    global B, BB, A
    c = gk.Check("C11")
    B, A = gk.build("plain"), gk.build("asan")
    BB = gk.build("plain", bison=True)
    n = 7000 if gk.QUICK else 60000
    gk.cases(c, case, range(n), 4)
    c.finish("random arithmetic terms, comparisons and type tests (integers to the limits of 64 bits, doubles; given directly or through variables) evaluated by gkc and compared with exact integer and IEEE double evaluation; distinct: claims",
             need={"evaluated": n * 5, "claim_true": n, "claim_false": n, "through_variables": n, "kept_unfit": n // 10, "build_bison": n // 30, "build_asan": n // 20})


if __name__ == "__main__":
    gk.main(main)
