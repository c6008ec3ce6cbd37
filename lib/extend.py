"""Does a finite structure extend to a model of clauses over new symbols?  Decided by flattening the new functions,
evaluating everything known with numpy, and handing the propositional rest to a SAT solver (z3)."""
import z3
from logic import *


def flatten_clause(c, newf):
    """Replaces the terms headed by new functions by fresh variables: (clause, [(f, args, var)])."""
    defs = []

    def go(t):
        if t[0] in ("v", "n", "s"):
            return t
        a = tuple(go(x) for x in t[1:])
        if (t[0], len(a)) in newf:
            for f, b, v in defs:
                if f == t[0] and b == a:
                    return v
            v = ("v", "_w%d" % len(defs))
            defs.append((t[0], a, v))
            return v
        return (t[0],) + a
    out = tuple((l[0], l[1], tuple(go(x) for x in l[2])) for l in c)
    return out, defs


def symbols(cs):
    preds, funs = set(), set()
    for c in cs:
        for l in c:
            f_syms(("lit", l), (preds, funs))
    return preds, funs


def extends(m, clauses, cap=60000, timeout=8000):
    """True / False / None (too big).  New symbols are those m does not interpret."""
    preds, funs = symbols(clauses)
    newf = {f for f in funs if f not in m.func}
    newp = {p for p in preds if p not in m.pred and p[0] not in ("$true", "$false")}
    ids = {}

    def atom(k):
        return ids.setdefault(k, len(ids) + 1)
    cnf = set()
    d = m.d
    total = 0
    for c in clauses:
        fc, defs = flatten_clause(c, newf)
        vs = sorted(clause_vars(fc) | {v[1] for _, _, v in defs} | {x for _, a, _ in defs for x in clause_vars(((True, "p", a),))})
        k = len(vs)
        total += d ** k
        if total > cap:
            return None
        env = {v: i for i, v in enumerate(vs)}
        sat = np.zeros((d,) * k, dtype=bool)
        rest = []
        for l in fc:
            if l[1] == "=" or (l[1], len(l[2])) not in newp:
                sat = sat | np.broadcast_to(m._lit(l, env, k), (d,) * k)
            else:
                rest.append((l[0], (l[1], len(l[2])), [np.broadcast_to(m._term(a, env, k), (d,) * k) for a in l[2]]))
        for f, a, v in defs:
            rest.append((False, (f, len(a), "f"), [np.broadcast_to(m._term(x, env, k), (d,) * k) for x in a + (v,)]))
        for idx in zip(*np.nonzero(~sat)) if k else ([()] if not sat else []):
            cl = frozenset((1 if pos else -1) * atom((p,) + tuple(int(x[idx]) for x in args)) for pos, p, args in rest)
            if not cl:
                return False
            if not any(-x in cl for x in cl):
                cnf.add(cl)
    for key in list(ids):
        p = key[0]
        if len(p) == 3:
            atom_ = key[:-1]
            cnf.add(frozenset(atom(atom_ + (v,)) for v in range(d)))
    if not cnf:
        return True
    s = z3.Solver()
    s.set("timeout", timeout)
    s.from_string("p cnf %d %d\n%s\n" % (len(ids), len(cnf), "\n".join(" ".join(map(str, sorted(c))) + " 0" for c in cnf)))
    r = s.check()
    return True if r == z3.sat else False if r == z3.unsat else None
