"""Ground truth by z3: function-free problems by full grounding, finite premises by entailment."""
import itertools
import z3
from logic import *


class Enc:
    """Encodes terms over one uninterpreted sort; numbers and distinct symbols are pairwise different constants."""

    def __init__(self, timeout=5000):
        self.U = z3.DeclareSort("U")
        self.f, self.p, self.special = {}, {}, {}
        self.s = z3.Solver()
        self.s.set("timeout", timeout)

    def term(self, t, env):
        if t[0] == "v":
            return env[t[1]]
        if t[0] in ("n", "s"):
            if t not in self.special:
                self.special[t] = z3.Const("sp%d" % len(self.special), self.U)
            return self.special[t]
        k = (t[0], len(t) - 1)
        if k not in self.f:
            self.f[k] = z3.Const("%s/0" % t[0], self.U) if len(t) == 1 else \
                z3.Function("%s/%d" % k, *([self.U] * len(t)))
        if len(t) == 1:
            return self.f[k]
        return self.f[k](*[self.term(a, env) for a in t[1:]])

    def lit(self, l, env):
        pos, p, a = l
        if p == "$true":
            e = z3.BoolVal(True)
        elif p == "$false":
            e = z3.BoolVal(False)
        elif p == "=" and len(a) == 2:
            e = self.term(a[0], env) == self.term(a[1], env)
        else:
            k = (p, len(a))
            if k not in self.p:
                self.p[k] = z3.Bool("P%s/0" % p) if not a else z3.Function("P%s/%d" % k, *([self.U] * len(a) + [z3.BoolSort()]))
            e = self.p[k](*[self.term(x, env) for x in a]) if a else self.p[k]
        return e if pos else z3.Not(e)

    def clause(self, c, env):
        return z3.Or([self.lit(l, env) for l in c])

    def universal(self, c):
        vs = sorted(clause_vars(c))
        env = {v: z3.Const("X" + v, self.U) for v in vs}
        b = self.clause(c, env)
        return z3.ForAll(list(env.values()), b) if vs else b

    def distinct_special(self):
        if len(self.special) > 1:
            self.s.add(z3.Distinct(*self.special.values()))


def ground_sat(clauses, consts, timeout=5000):
    """'sat' / 'unsat' / 'unknown' of function-free clauses over the given constants (at least one)."""
    e = Enc(timeout)
    for c in clauses:
        vs = sorted(clause_vars(c))
        for vals in itertools.product(consts, repeat=len(vs)):
            sb = {v: e.term((x,), {}) for v, x in zip(vs, vals)}
            e.s.add(e.clause(c, sb))
    e.distinct_special()
    return str(e.s.check())


def entails(premises, goal, timeout=3000, insts=()):
    """'yes' / 'no' / 'unknown': does the universal closure of goal follow from those of premises?"""
    e = Enc(timeout)
    for p in premises:
        e.s.add(e.universal(p))
    env = {v: z3.Const("sk_" + v, e.U) for v in clause_vars(goal)}
    for l in goal:
        e.s.add(z3.Not(e.lit(l, env)))
    e.distinct_special()
    return {"unsat": "yes", "sat": "no"}.get(str(e.s.check()), "unknown")


_dom = {}


def countermodel(premises, goal, sizes=(1, 2, 3), timeout=3000, maxinst=3000):
    """Is there a model of the premises with at most 3 elements where an instance of goal is false?  True / False (none found)."""
    for d in sizes:
        e = Enc(timeout)
        if sum(d ** len(clause_vars(p)) for p in premises) > maxinst:
            return False
        if d not in _dom:
            _dom[d] = z3.EnumSort("D%d" % d, ["d%d_%d" % (d, i) for i in range(d)])
        e.U, dom = _dom[d]
        for p in premises:
            vs = sorted(clause_vars(p))
            for vals in itertools.product(dom, repeat=len(vs)):
                e.s.add(e.clause(p, dict(zip(vs, vals))))
        env = {v: z3.Const("sk_" + v, e.U) for v in clause_vars(goal)}
        for l in goal:
            e.s.add(z3.Not(e.lit(l, env)))
        e.distinct_special()
        if e.s.check() == z3.sat:
            return True
    return False


def follows(premises, goal, timeout=2000):
    """'yes' / 'no' / 'unknown'"""
    a = entails(premises, goal, timeout)
    if a == "unknown" and countermodel(premises, goal):
        return "no"
    return a
