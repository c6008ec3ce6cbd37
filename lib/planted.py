"""Problems with a planted finite model, in every input syntax."""
import gk, gen
from logic import *


class Problem:
    pass


def clausal(r, maxcl=18, nsym=None):
    p = Problem()
    p.sig = gen.signature(r)
    d = r.choice((1, 2, 2, 2, 3, 3))
    p.model = Structure.random(r, d, p.sig[1] + p.sig[2], p.sig[0])
    eqp = r.choice((0, 0, 0.2, 0.5, 0.9))
    p.clauses = []
    for _ in range(r.randint(4, maxcl)):
        c = gen.planted_clause(r, p.sig, p.model, eqp, depth=r.choice((2, 2, 3)))
        if c:
            p.clauses.append(c)
    p.eq = any(l[1] == "=" for c in p.clauses for l in c)
    return p


def equational(r):
    """A small algebra: unit equations (and some disequations) true in a random or structured algebra."""
    p = Problem()
    d = r.choice((2, 3, 4))
    kind = r.choice(("random", "zn", "semilattice", "leftzero"))
    funs = [("f", 2), ("g", 1)]
    consts = [("e", 0), ("a", 0), ("b", 0)]
    m = Structure.random(r, d, funs + consts, [("p", 1)])
    if kind == "zn":
        m.func[("f", 2)] = np.array([[(i + j) % d for j in range(d)] for i in range(d)])
        m.func[("g", 1)] = np.array([(-i) % d for i in range(d)])
        m.func[("e", 0)] = np.array(0)
    elif kind == "semilattice":
        m.func[("f", 2)] = np.array([[min(i, j) for j in range(d)] for i in range(d)])
    elif kind == "leftzero":
        m.func[("f", 2)] = np.array([[i for j in range(d)] for i in range(d)])
    p.sig = ([("p", 1)], funs, consts)
    p.model = m
    p.clauses = []
    X, Y, Z = V("X"), V("Y"), V("Z")
    f = lambda a, b: ("f", a, b)
    cand = [((True, "=", (f(f(X, Y), Z), f(X, f(Y, Z)))),), ((True, "=", (f(X, Y), f(Y, X))),),
            ((True, "=", (f(("e",), X), X)),), ((True, "=", (f(("g", X), X), ("e",))),), ((True, "=", (f(X, X), X)),),
            ((True, "=", (f(X, X), ("e",))),), ((True, "=", (("g", ("g", X)), X)),), ((True, "=", (f(X, Y), X)),),
            ((False, "=", (("a",), ("b",))),), ((False, "=", (f(("a",), ("b",)), f(("b",), ("a",)))),)]
    for c in cand:
        if m.holds(c) and r.random() < 0.7:
            p.clauses.append(c)
    n = r.randint(2, 8)
    tries = 0
    while n and tries < 60:
        tries += 1
        c = gen.planted_clause(r, p.sig, m, 0.9, maxlen=r.choice((1, 1, 2)))
        if c:
            p.clauses.append(c)
            n -= 1
    p.eq = True
    return p


def rformula(r, sig, m, depth, vars_, eqp):
    """A random formula over the variables vars_."""
    if depth == 0 or r.random() < 0.15:
        return ("lit", gen.rlit(r, sig, eqp, 2, vars_, 0.7 if vars_ else 0))
    k = r.choice(("not", "and", "or", "or", "imp", "eqv", "xor", "all", "all", "ex", "ex", "rimp"))
    sub = lambda: rformula(r, sig, m, depth - 1, vars_, eqp)
    if k == "not":
        return ("not", sub())
    if k in ("and", "or"):
        return (k,) + tuple(sub() for _ in range(r.choice((2, 2, 3))))
    if k in ("imp", "eqv", "xor", "rimp"):
        return (k, sub(), sub())
    names = ["A", "B", "C", "D", "E", "F"]
    free = [n for n in names if n not in vars_]
    if r.random() < 0.15 and vars_:
        v = [r.choice(vars_)]                       # shadowing
    else:
        v = free[:r.choice((1, 1, 2))]
    if not v:
        return ("lit", gen.rlit(r, sig, eqp, 2, vars_, 0.7))
    return (k, v, rformula(r, sig, m, depth - 1, vars_ + [x for x in v if x not in vars_], eqp))


def chain(r, sig, k, vars_=()):
    """k quantifiers, each around a small formula of the variables so far and the next."""
    vars_ = list(vars_)

    def lit():
        p, n = r.choice(sig[0])
        if n and vars_ and r.random() < 0.85:      # the last variable and a choice of the others
            a = [("v", vars_[-1])] + [("v", r.choice(vars_)) for _ in range(n - 1)]
            if n == len(vars_) and r.random() < 0.5:
                a = [("v", v) for v in vars_]
            r.shuffle(a)
            if sig[1] and r.random() < 0.1:
                f, m = r.choice(sig[1])
                a[0] = (f,) + tuple(("v", r.choice(vars_)) for _ in range(m))
            return ("lit", (r.random() < 0.6, p, tuple(a)))
        return ("lit", gen.rlit(r, sig, 0, 2, vars_, 0.9 if vars_ else 0))
    if k == 0:
        return (lambda n: lit() if n == 1 else (r.choice(("and", "or", "or")),) + tuple(lit() for _ in range(n)))(r.choice((1, 1, 2)))
    v = ["A", "B", "C", "D", "E", "F"][len(vars_):][:r.choice((1, 1, 1, 2))]
    if not v:
        return lit()
    vars_ += v
    q = r.choice(("all", "ex"))
    body = chain(r, sig, k - 1, vars_)
    x = r.random()
    if x < 0.55:
        parts = [lit(), body]
        if r.random() < 0.2:
            parts.append(chain(r, sig, r.choice((0, 1)), vars_))
        r.shuffle(parts)
        body = (r.choice(("and", "and", "or", "or", "imp", "eqv")),) + tuple(parts[:2]) if len(parts) == 2 else (r.choice(("and", "or")),) + tuple(parts)
    elif x < 0.65:
        body = ("not", body)
    return (q, v, body)


def chained(r):
    """One formula of nested quantifiers; the structure is not planted."""
    p = Problem()
    p.sig = [("p%d" % i, r.randint(1, 4)) for i in range(r.randint(1, 3))], [("f", 1)] if r.random() < 0.3 else [], [("a", 0), ("b", 0)]
    p.formulas = [chain(r, p.sig, r.choice((2, 3, 4, 4, 5)))]
    p.model = Structure.random(r, 2, p.sig[1] + p.sig[2], p.sig[0])
    return p


def first_order(r, n=None, depth=None):
    """Closed formulas true in a planted structure."""
    p = Problem()
    p.sig = gen.signature(r, maxpred=3, maxfun=2)
    d = r.choice((1, 2, 2, 3))
    p.model = Structure.random(r, d, p.sig[1] + p.sig[2], p.sig[0])
    eqp = r.choice((0, 0, 0.3))
    p.formulas = []
    for _ in range(n or r.randint(2, 7)):
        if r.random() < 0.15:
            f = chain(r, p.sig, r.choice((2, 3, 4)))
        else:
            f = rformula(r, p.sig, p.model, depth or r.choice((2, 3, 3, 4)), [], eqp)
        if not p.model.formula(f):
            f = ("not", f)
        p.formulas.append(f)
    p.eq = eqp > 0
    return p


def text_of(r, p, syntax, conjecture=None):
    """(text, suffix) of the problem in one of the syntaxes; conjecture: a formula to be proved."""
    out = []
    if hasattr(p, "clauses"):
        if syntax == "simple":
            out = [c_text(c) for c in p.clauses]
            if conjecture is not None:
                out.append("fof(goal,conjecture,%s)." % f_text(conjecture))
            return "\n".join(out) + "\n", ".txt"
        if syntax == "tptp":
            for i, c in enumerate(p.clauses):
                out.append(c_tptp(c, "c%d" % i, "axiom" if conjecture is not None else r.choice(("axiom", "axiom", "hypothesis", "negated_conjecture", "plain"))))
            if conjecture is not None:
                out.append("fof(goal,conjecture,%s)." % f_text(conjecture))
            return "\n".join(out) + "\n", ".p"
        js = []
        for i, c in enumerate(p.clauses):
            j = c_json(c)
            if r.random() < 0.5:
                j = {"@name": "c%d" % i, "@logic": j}
            js.append(j)
    else:
        if syntax == "simple":
            out = [f_text(f) + "." for f in p.formulas]
            if conjecture is not None:
                out.append("fof(goal,conjecture,%s)." % f_text(conjecture))
            return "\n".join(out) + "\n", ".txt"
        if syntax == "tptp":
            out = ["fof(f%d,axiom,%s)." % (i, f_text(f)) for i, f in enumerate(p.formulas)]
            if conjecture is not None:
                out.append("fof(goal,conjecture,%s)." % f_text(conjecture))
            return "\n".join(out) + "\n", ".p"
        js = []
        for i, f in enumerate(p.formulas):
            j = f_json(f)
            if r.random() < 0.5:
                j = {"@name": "f%d" % i, "@logic": j}
            js.append(j)
    if conjecture is not None:
        js.append({"@question": f_json(conjecture)})
    return json.dumps(js), ".js"
