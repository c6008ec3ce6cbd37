"""Problems that are unsatisfiable by construction."""
import z3, gen, ground
from logic import *


def ground_clause(r, sig, eqp, maxlen=3):
    preds, funs, consts = sig
    return tuple(gen.rlit(r, sig, eqp, 3, [], 0) for _ in range(r.choice((1, 1, 2, 2, 2, 3)[:2 * maxlen])))


def core(clauses):
    """A minimal unsatisfiable subset of ground clauses, or None when they are satisfiable."""
    def unsat(cs):
        e = ground.Enc(3000)
        for c in cs:
            e.s.add(e.clause(c, {}))
        e.distinct_special()
        return e.s.check() == z3.unsat
    if not unsat(clauses):
        return None
    cs = list(clauses)
    i = 0
    while i < len(cs):
        d = cs[:i] + cs[i + 1:]
        if unsat(d):
            cs = d
        else:
            # shorten nothing: keep the clause
            i += 1
    return cs


def subterms(t, acc):
    if t[0] in ("v", "n", "s"):
        return acc
    acc.add(t)
    for a in t[1:]:
        subterms(a, acc)
    return acc


def replace(t, s, v, r, p):
    if t == s and r.random() < p:
        return v
    if t[0] in ("v", "n", "s"):
        return t
    return (t[0],) + tuple(replace(a, s, v, r, p) for a in t[1:])


def generalise(r, c, times):
    """A clause that has c as an instance."""
    for k in range(times):
        st = set()
        for l in c:
            for a in l[2]:
                subterms(a, st)
        st = sorted(st, key=repr)
        if not st:
            return c
        s = r.choice(st)
        v = ("v", gen.VARS[k % 4] if k < 4 else "V%d" % k)
        p = r.choice((1, 1, 0.6))
        c = tuple((l[0], l[1], tuple(replace(a, s, v, r, p) for a in l[2])) for l in c)
        # no equation with a bare variable side: gkc does not paramodulate from variables
    return c


def barevar(c):
    return any(l[1] == "=" and (isvar(l[2][0]) or isvar(l[2][1])) for l in c)


def lifted(r, eqp=None, noise=None, funs=True):
    """An unsatisfiable clause set with variables and functions: (clauses, number of core clauses)."""
    while True:
        sig = gen.signature(r, maxpred=3, maxfun=2 if funs else 0)
        if not funs:
            sig = (sig[0], [], sig[2])
        eqp_ = r.choice((0, 0, 0.3, 0.6)) if eqp is None else eqp
        n = r.choice((10, 14, 20))
        cs = [c for c in (ground_clause(r, sig, eqp_) for _ in range(n)) if not gen.tautology(c)]
        k = core(cs)
        if k is None or len(k) < 3:
            continue
        out = []
        for c in k:
            d = generalise(r, c, r.choice((0, 1, 1, 2, 2, 3)))
            out.append(c if barevar(d) or len(clause_vars(d)) > 4 else d)
        nn = r.choice((0, 0, 1, 2, 4)) if noise is None else noise
        for _ in range(nn):
            c = gen.rclause(r, sig, eqp_, 3)
            if not barevar(c) and not gen.tautology(c):
                out.append(c)
        r.shuffle(out)
        return out, len(k)


def chain_eq(r):
    """A goal that follows by a chain of equations under function symbols."""
    n = r.randint(3, 9)
    consts = [("k%d" % i,) for i in range(n + 1)]
    order = consts[:]
    r.shuffle(order)
    cl = []
    for a, b in zip(order, order[1:]):
        cl.append(((True, "=", (a, b) if r.random() < 0.5 else (b, a)),))
    f = lambda t: t
    d = r.randint(0, 3)
    x, y = order[0], order[-1]
    for i in range(d):
        g = r.choice(("f", "h"))
        if g == "f":
            x, y = ("f", x), ("f", y)
        else:
            z = r.choice(consts)
            x, y = ("h", x, z), ("h", y, r.choice(consts))
    if r.random() < 0.5:
        cl.append(((True, "p", (x,)),))
        goal = (False, "p", (y,))
    else:
        goal = (False, "=", (x, y))
    r.shuffle(cl)
    cl.append((goal,))
    return cl, len(cl)


def chain_rules(r):
    """A chain of rules over a growing or shrinking term, Horn or with case splits."""
    n = r.randint(2, 7)
    X, Y = ("v", "X"), ("v", "Y")
    cl = []
    cl.append(((True, "q0", (("a",), ("b",))),))
    kind = r.choice(("plain", "grow", "swap", "split"))
    for i in range(n):
        h = ("q%d" % (i + 1))
        t = (X, Y)
        if kind == "grow" and r.random() < 0.5:
            t = (("f", X), Y)
        if kind == "swap" and r.random() < 0.5:
            t = (Y, X)
        c = [(False, "q%d" % i, (X, Y)), (True, h, t)]
        if kind == "split" and r.random() < 0.6:
            c.append((True, "s%d" % i, (X,)))
            cl.append(((False, "s%d" % i, (X,)), (True, h, (X, Y))))
        if r.random() < 0.3:
            c.append((False, "side", (r.choice((X, Y)), )))
        r.shuffle(c)
        cl.append(tuple(c))
    cl.append(((True, "side", (("v", "Z"),)),))
    # transitive closure goal
    cl.append(((False, "q%d" % n, (("v", "U"), ("v", "W"))),))
    r.shuffle(cl)
    return cl, len(cl)


def transitive(r):
    n = r.randint(3, 8)
    nodes = [("n%d" % i,) for i in range(n)]
    perm = nodes[:]
    r.shuffle(perm)
    X, Y, Z = ("v", "X"), ("v", "Y"), ("v", "Z")
    cl = [((True, "e", (a, b)),) for a, b in zip(perm, perm[1:])]
    cl += [((False, "e", (X, Y)), (True, "t", (X, Y))),
           r.choice([((False, "e", (X, Y)), (False, "t", (Y, Z)), (True, "t", (X, Z))),
                     ((False, "t", (X, Y)), (False, "t", (Y, Z)), (True, "t", (X, Z))),
                     ((False, "t", (X, Y)), (False, "e", (Y, Z)), (True, "t", (X, Z)))])]
    r.shuffle(cl)
    cl.append(((False, "t", (perm[0], perm[-1])),))
    return cl, len(cl)


def group(r):
    """Small theorems of groups, semilattices and peano addition written with equations."""
    X, Y, Z = ("v", "X"), ("v", "Y"), ("v", "Z")
    f = lambda a, b: ("f", a, b)
    e, g, s, a, b, z = ("e",), (lambda t: ("g", t)), (lambda t: ("suc", t)), ("a",), ("b",), ("z",)
    add = lambda x, y: ("add", x, y)
    eq = lambda x, y: ((True, "=", (x, y)),)
    ne = lambda x, y: ((False, "=", (x, y)),)
    k = r.choice(("right_inv", "right_unit", "cancel", "semi", "peano", "peano", "invol"))
    grp = [eq(f(e, X), X), eq(f(g(X), X), e), eq(f(f(X, Y), Z), f(X, f(Y, Z)))]
    if k == "right_inv":
        cl = grp + [ne(f(a, g(a)), e)]
    elif k == "right_unit":
        cl = grp + [ne(f(a, e), a)]
    elif k == "cancel":
        cl = grp + [eq(f(a, b), f(a, ("c",))), ne(b, ("c",))]
    elif k == "invol":
        cl = grp + [ne(g(g(a)), a)]
    elif k == "semi":
        cl = [eq(f(X, Y), f(Y, X)), eq(f(f(X, Y), Z), f(X, f(Y, Z))), eq(f(X, X), X), ne(f(a, f(b, a)), f(b, a))]
    else:
        num = lambda n: z if n == 0 else s(num(n - 1))
        m, n = r.randint(0, 6), r.randint(0, 6)
        cl = [eq(add(z, Y), Y), eq(add(s(X), Y), s(add(X, Y)))]
        if r.random() < 0.5:
            cl += [ne(add(num(m), num(n)), num(m + n))]
        else:
            cl += [((False, "=", (add(X, num(n)), num(m + n))),)]
    r.shuffle(cl)
    return cl, len(cl)


def problem(r):
    """(kind, clauses)"""
    k = r.choice(("lifted", "lifted", "lifted", "chain_eq", "chain_rules", "transitive", "group"))
    cl, _ = {"lifted": lifted, "chain_eq": chain_eq, "chain_rules": chain_rules, "transitive": transitive, "group": group}[k](r)
    return k, cl
