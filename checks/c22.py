"""C22: unification, cutting and subsumption.

A reference unifier (triangular substitutions, occurs check) decides which unit clauses contradict each
other, what the resolvent of two literals is, and whether a clause can be refuted by units at once;
near misses of subsumption must not lose a clause that a refutation needs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk
from logic import *

B = A = None
FUNS = [("f", 1), ("g", 2), ("h", 3), ("k", 1), ("m", 5)]


def walk(t, s):
    while t[0] == "v" and t[1] in s:
        t = s[t[1]]
    return t


def occurs(v, t, s, seen):
    t = walk(t, s)
    if id(t) in seen:
        return False
    seen[id(t)] = t
    if t[0] == "v":
        return t[1] == v
    if t[0] in ("n", "s"):
        return False
    return any(occurs(v, a, s, seen) for a in t[1:])


def unify(eqs):
    """Most general unifier of pairs of terms (triangular), or None."""
    s = {}
    todo = list(eqs)
    done = set()
    while todo:
        a, b = todo.pop()
        a, b = walk(a, s), walk(b, s)
        if a is b or a == b:
            continue
        if a[0] == "v":
            if occurs(a[1], b, s, {}):
                return None
            s[a[1]] = b
        elif b[0] == "v":
            if occurs(b[1], a, s, {}):
                return None
            s[b[1]] = a
        elif a[0] in ("n", "s") or b[0] in ("n", "s"):
            if not (a[0] == b[0] and a[1] == b[1] and type(a[1]) == type(b[1])):
                return None
        elif a[0] != b[0] or len(a) != len(b):
            return None
        else:
            k = (id(a), id(b))
            if k in done:
                continue
            done.add(k)
            todo.extend(zip(a[1:], b[1:]))
    return s


def apply(t, s, n=None):
    n = n if n is not None else [0]
    t = walk(t, s)
    n[0] += 1
    if n[0] > 300:
        raise OverflowError
    if t[0] in ("v", "n", "s"):
        return t
    return (t[0],) + tuple(apply(a, s, n) for a in t[1:])


def matches(p, t, s):
    """One-sided: s extended with p s = t, or None"""
    if p[0] == "v":
        if p[1] in s:
            return s if s[p[1]] == t else None
        s = dict(s)
        s[p[1]] = t
        return s
    if t[0] == "v" or p[0] != t[0] or len(p) != len(t):
        return None
    if p[0] in ("n", "s"):
        return s if p == t and type(p[1]) == type(t[1]) else None
    for a, b in zip(p[1:], t[1:]):
        s = matches(a, b, s)
        if s is None:
            return None
    return s


def subsumes(c, d):
    def go(i, s):
        if i == len(c):
            return True
        for m in d:
            if m[:2] == c[i][:2] and len(m[2]) == len(c[i][2]):
                r = matches(("t",) + c[i][2], ("t",) + m[2], s)
                if r is not None and go(i + 1, r):
                    return True
        return False
    return go(0, {})


def rename(t, pre):
    if t[0] == "v":
        return ("v", pre + t[1])
    if t[0] in ("n", "s"):
        return t
    return (t[0],) + tuple(rename(a, pre) for a in t[1:])


def rt(r, depth, vs, pv=0.45, kinds=0):
    if depth <= 0 or r.random() < 0.2 or (vs and r.random() < pv):
        if vs and r.random() < 0.7:
            return ("v", r.choice(vs))
        if kinds and r.random() < 0.35:
            return ("n", r.choice((0, 1, 2, 7))) if r.random() < 0.6 else ("s", r.choice(("a", "b", "1")))
        return (r.choice("abc"),)
    f, n = r.choice(FUNS[:3] if r.random() < 0.85 else FUNS)
    return (f,) + tuple(rt(r, depth - 1, vs, pv, kinds) for _ in range(n))


def positions(t, p=()):
    yield p, t
    if t[0] not in ("v", "n", "s"):
        for i, a in enumerate(t[1:]):
            yield from positions(a, p + (i + 1,))


def put(t, p, n):
    if not p:
        return n
    return t[:p[0]] + (put(t[p[0]], p[1:], n),) + t[p[0] + 1:]


def generalise(r, t, vs):
    """t with some subterms replaced by variables, equal subterms sometimes by the same"""
    names = {}
    for _ in range(r.randint(1, 5)):
        ps = [x for x in positions(t) if x[0]]
        p, u = r.choice(ps)
        if u[0] == "v" and r.random() < 0.7:
            continue
        v = names.get(u) if r.random() < 0.6 else None
        if v is None:
            v = ("v", r.choice(vs))
            names[u] = v
        t = put(t, p, v)
    return t


def twist(r, t, vs):
    """a small change: the result often just fails to unify or to match"""
    ps = [x for x in positions(t) if x[0]]
    p, u = r.choice(ps)
    k = r.random()
    if k < 0.35:
        return put(t, p, rt(r, 1, vs, 0.2))
    if k < 0.65:
        q, w = r.choice(ps)
        return put(t, p, w)
    if k < 0.85:
        return put(t, p, ("v", r.choice(vs)))
    return put(t, p, ("f", u))


def pair(r, arity, kinds=0):
    """two argument tuples (as terms headed by t) with own variables"""
    vs = ["X", "Y", "Z", "U", "V", "W", "X1", "Y1"][:r.choice((1, 2, 3, 3, 4, 6, 8))]
    ws = ["A" + v for v in vs]
    d = r.choice((1, 2, 2, 3, 4))
    s = ("t",) + tuple(rt(r, d, vs, r.choice((0.2, 0.45, 0.6)), kinds) for _ in range(arity))
    k = r.random()
    if k < 0.2:
        t = ("t",) + tuple(rt(r, d, ws, 0.45, kinds) for _ in range(arity))
    elif k < 0.3:          # occurs-check chains through several variables
        n = r.randint(1, 5)
        xs = ["X%d" % i for i in range(n + 1)]
        a = tuple(("v", x) for x in xs) + (("a",),) * max(0, arity - n - 1)
        b = tuple(("f", ("v", "A" + xs[i + 1])) for i in range(n)) + (("f", ("v", "A" + xs[0])) if r.random() < 0.6 else ("v", "A" + r.choice(xs)),)
        b = tuple(b) + (("a",),) * max(0, arity - n - 1)
        a2 = a + tuple(("v", x) for x in xs)
        b2 = b + tuple(("v", "A" + x) for x in xs)
        s, t = ("t",) + a2, ("t",) + b2
    else:
        t = rename(generalise(r, s, vs), "A")
        s2 = generalise(r, s, vs) if r.random() < 0.5 else s
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            if r.random() < 0.5:
                s2 = twist(r, s2, vs)
            else:
                t = twist(r, t, ws)
        s = s2
    return s, t


def lit(pos, p, t):
    return (pos, p, t[1:])


def case(i):
    r = gk.rng("C22", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind = ("resolvents", "clash", "clash", "subsume")[i % 4]
    binp = A if r.random() < 0.04 else B
    rep = {"case": i, "seed": gk.SEED, "kind": kind}

    def bad(key, msg):
        res["violations"].append((key, msg, dict(rep)))

    def go(cls, strategy, args=()):
        txt = "\n".join(c_text(c) for c in cls)
        run = gk.gkc(binp, txt, strategy=strategy, args=args, timeout=60, mb=60)
        rep.update(text=txt, cmd=run.cmd, out=run.out[:3000], err=run.err[-600:], strategy=strategy)
        if run.timeout:
            res["inconclusive"] = res.get("inconclusive", 0) + 1
            return None
        if run.crashed():
            bad("crash", "gkc died: %s" % run.crashed())
            return None
        for kk in gk.san_key(run.err):
            bad("sanitizer:" + kk, kk)
        res["distinct"].append(hash(txt + json.dumps(strategy)))
        return run

    if kind == "resolvents":
        cls, want = [], {}
        for j in range(r.randint(4, 14)):
            s, t = pair(r, r.choice((1, 2, 2, 3, 4)), r.random() < 0.2)
            neg = r.random() < 0.5
            vs = sorted(term_vars(s, set()) | term_vars(t, set()))
            m = unify([(s, t)])
            head = ("res%d" % j,)
            tv = sorted(term_vars(t, set()))
            try:
                full = None if m is None else tuple(apply(("v", v), m, [0]) for v in tv)
            except OverflowError:
                full = "big"
            if full == "big":
                continue
            cls.append((lit(neg, "p%d" % j, s),))
            cls.append((lit(not neg, "p%d" % j, t), (True, "res%d" % j, tuple(("v", v) for v in tv))))
            want["res%d" % j] = (m, full, matches(s, t, {}) is not None)
        if not cls:
            return res
        order = list(range(len(cls)))
        r.shuffle(order)
        st = {"strategy": [r.choice(("unit", "negative_pref"))], "query_preference": 0, "print": 1}
        if any(l[0] and l[1].startswith("p") for c in cls for l in c if len(c) == 2):
            st["strategy"] = ["unit"]
        run = go([cls[k] for k in order], st, ["-derived"])
        if run is None:
            return res
        got = {}
        for l in run.out.splitlines():
            if l.startswith("["):
                c = c_from_json(json.loads(l))
                if len(c) == 1:
                    got.setdefault(c[0][1], []).append(c)
        for n, (m, full, inst) in want.items():
            res["evals"] += 1
            g = got.get(n, [])
            if m is None:
                inc("apart")
                if g:
                    bad("wrong-resolvent", "literals that do not unify gave %s" % (g[0],))
                    return res
                continue
            inc("unifiable")
            w = ((True, n, full),)
            for x in g:
                if not variant(x, w):
                    # an answer must be the most general resolvent
                    bad("wrong-resolvent", "resolvent %s, expected %s" % (c_text(x), c_text(w)))
                    return res
            if not g and not inst:
                bad("no-resolvent", "unifiable literals gave no resolvent, expected %s" % c_text(w))
                return res
            inc("resolvent_right" if g else "cut_at_input")
        return res

    sts = ("negative_pref", "positive_pref", "knuthbendix_pref", "hyper", "hardness_pref", "unit")
    if kind == "clash":
        # one clause of n literals refuted by n unit clauses at once
        n = r.choice((1, 1, 1, 2, 2, 3, 4))
        d, units, eqs = [], [], []
        same = r.random() < 0.3
        for j in range(n):
            s, t = pair(r, r.choice((1, 2, 3)), r.random() < 0.3)
            sign = r.random() < 0.5
            p = "p" if same else "p%d" % j
            d.append(lit(sign, p, s))
            u = rename(t, "B%d" % j)
            units.append((lit(not sign, p, u),))
            eqs.append((s, u))
        if same:
            # every literal may use every unit
            sat = False
            import itertools
            cand = [[u for u in units if u[0][0] != l[0] and len(u[0][2]) == len(l[2])] for l in d]
            if any(len(c) == 0 for c in cand):
                sat = True
            # units among themselves
            selfclash = any(unify([(("t",) + a[0][2], rename(("t",) + b[0][2], "C"))]) is not None for a in units for b in units if a[0][0] and not b[0][0] and len(a[0][2]) == len(b[0][2]))
            if selfclash:
                ok = True
            elif sat:
                ok = False
            else:
                ok = any(unify([(("t",) + l[2], rename(("t",) + u[0][2], "C%d" % q)) for q, (l, u) in enumerate(zip(d, us))]) is not None for us in itertools.product(*cand))
                if not ok and any(x[0] != y[0] and len(x[2]) == len(y[2]) for x in d for y in d):
                    return res       # the clause may resolve with itself
        else:
            ok = unify(eqs) is not None
        cls = [tuple(d)] + units
        extra = r.random()
        if extra < 0.3:
            cls.append(((True, "noise", (("v", "X"), ("a",))),))
        r.shuffle(cls)
        st = {"strategy": [r.choice(sts)], "query_preference": r.choice((0, 1))}
        if st["strategy"] == ["unit"] and n > 1 and not all(len(c) <= 2 for c in cls):
            st["strategy"] = ["negative_pref"]
        if ok and r.random() < 0.1:
            st = None
        run = go(cls, st)
        if run is None:
            return res
        res["evals"] += 1
        proved = '"proof found"' in run.out
        inc("clash_%s_%d" % ("yes" if ok else "no", n))
        if proved and not ok:
            bad("false-clash", "a proof although the units cannot refute the clause at once")
        elif ok and not proved:
            bad("missed-clash", "no proof although unit clauses refute the clause (%s)" % json.dumps(st))
        return res

    # near misses of subsumption
    n = r.choice((1, 2, 2, 3, 3, 4))
    vs = ["X", "Y", "Z", "U"]
    preds = [("p", 2), ("q", 1), ("p", 2), ("r", 3)]
    d = []
    for j in range(n):
        p, ar = r.choice(preds)
        d.append((r.random() < 0.6, p, tuple(rt(r, r.choice((0, 1, 2)), vs, 0.5) for _ in range(ar))))
    d = tuple(dict.fromkeys(d))
    if any((not l[0],) + l[1:] in d for l in d):
        return res
    cs = []
    for _ in range(r.choice((1, 1, 2, 4))):
        sub = [l for l in d if r.random() < 0.75] or [r.choice(d)]
        big = ("t",) + tuple(("l%d" % q,) + l[2] for q, l in enumerate(sub))
        gen_ = generalise(r, big, vs)
        if any(x[0] == "v" for x in gen_[1:]):
            gen_ = big
        for _ in range(r.choice((0, 1, 1, 2))):
            g2 = twist(r, gen_, vs)
            if all(x[0] == y[0] and len(x) == len(y) for x, y in zip(g2[1:], gen_[1:])):
                gen_ = g2
        c = [(l[0] if r.random() < 0.95 else not l[0], l[1], x[1:]) for l, x in zip(sub, gen_[1:])]
        if r.random() < 0.15:
            c.append((True, "extra", (("v", "X"),)))
        if r.random() < 0.15:
            c.append((c[0][0], c[0][1], tuple(rt(r, 1, vs, 0.5) for _ in c[0][2])))
        r.shuffle(c)
        cs.append(tuple(c))
    sk = {v: ("sk" + v.lower(),) for v in vs}
    neg = [(subst_lit((not l[0],) + l[1:], sk),) for l in d]
    inc("subsumed" if any(subsumes(c, d) for c in cs) else "not_subsumed")
    main = [d]
    if r.random() < 0.5:
        main = [d + ((False, "t", (("v", "T1"), ("c2",))),), ((True, "t", (("c1",), ("v", "T2"))),), ]
        inc("derived_clause")
    else:
        inc("input_clause")
    if r.random() < 0.3:
        cs = [c + ((False, "t2", (("v", "T1"), ("c2",))),) for c in cs]
        main.append(((True, "t2", (("c1",), ("v", "T2"))),))
        inc("derived_subsumer")
    cls = cs + main + neg
    if r.random() < 0.7:
        r.shuffle(cls)
    st = {"strategy": [r.choice(("negative_pref", "positive_pref", "knuthbendix_pref", "hyper", "hardness_pref"))], "query_preference": 0}
    run = go(cls, st)
    if run is None:
        return res
    res["evals"] += 1
    if '"proof found"' not in run.out:
        if "cannot allocate" in run.out or "error" in run.out:
            res["inconclusive"] = res.get("inconclusive", 0) + 1
        else:
            bad("lost-clause", "no proof although a clause and the units refuting it are in the problem (%s)" % json.dumps(st))
    return res


def main():
    global B, A
    c = gk.Check("C22")
    B, A = gk.build("plain"), gk.build("asan")
    n = 12000 if gk.QUICK else 400000
    gk.cases(c, case, range(n), 8)
    c.assumptions = ["the reference unifier of this check", "resolvents of over 300 symbols are not compared"]
    c.finish("pairs of random, generalised and slightly changed literals: resolvents compared with the most general one of a reference unifier; contradiction of one clause and units at once; near misses of subsumption that must not lose the refutation; distinct: (problem, strategy)",
             need={"unifiable": n // 2, "apart": n // 4, "resolvent_right": n // 5, "clash_yes_1": n // 20, "clash_no_1": n // 20, "not_subsumed": n // 10, "derived_clause": n // 20})


if __name__ == "__main__":
    gk.main(main)
