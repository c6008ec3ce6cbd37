"""Terms, clauses, formulas; printers to the three input syntaxes; readers of gkc's outputs;
evaluation in finite structures (numpy, all assignments at once).

term   : ("v", name) | ("n", number) | ("s", distinct symbol) | (fname, arg, ...)   (constants are 1-tuples)
literal: (positive?, pred, args tuple)            equality is the predicate "="
clause : tuple of literals
formula: ("lit", literal) ("not", f) ("and", f, ...) ("or", f, ...) ("imp", a, b) ("eqv", a, b)
         ("all", [names], f) ("ex", [names], f)
"""
import itertools, json, re, sys
import numpy as np

sys.setrecursionlimit(60000)
RESERVED = ("v", "n", "s")


def V(n):
    return ("v", n)


def isvar(t):
    return t[0] == "v"


def term_vars(t, acc):
    if t[0] == "v":
        acc.add(t[1])
    elif t[0] not in ("n", "s"):
        for a in t[1:]:
            term_vars(a, acc)
    return acc


def clause_vars(c):
    acc = set()
    for l in c:
        for a in l[2]:
            term_vars(a, acc)
    return acc


def term_depth(t):
    if t[0] in ("v", "n", "s") or len(t) == 1:
        return 1
    return 1 + max(term_depth(a) for a in t[1:])


def subst(t, s):
    if t[0] == "v":
        return s.get(t[1], t)
    if t[0] in ("n", "s"):
        return t
    return (t[0],) + tuple(subst(a, s) for a in t[1:])


def subst_lit(l, s):
    return (l[0], l[1], tuple(subst(a, s) for a in l[2]))


def fsyms(t, acc):
    if t[0] not in RESERVED:
        acc.add((t[0], len(t) - 1))
        for a in t[1:]:
            fsyms(a, acc)
    return acc


# ------------------------------------------------------------ printing inputs

def num_text(n):
    return repr(n) if isinstance(n, float) else str(n)


def t_text(t):
    if t[0] == "v":
        return t[1]
    if t[0] == "n":
        return num_text(t[1])
    if t[0] == "s":
        return '"%s"' % t[1]
    if len(t) == 1:
        return t[0]
    return "%s(%s)" % (t[0], ",".join(t_text(a) for a in t[1:]))


def l_text(l, tptp=False):
    pos, p, args = l
    if p == "=":
        if t_text(args[0]).startswith("-"):      # a leading minus would negate the literal
            args = args[::-1] if not t_text(args[1]).startswith("-") else (("$uminus", ("n", -args[0][1])), args[1])
        return "%s%s%s" % (t_text(args[0]), " = " if pos else " != ", t_text(args[1]))
    a = p if not args else "%s(%s)" % (p, ",".join(t_text(x) for x in args))
    return a if pos else ("~" if tptp else "-") + a


def c_text(c):
    return " | ".join(l_text(l) for l in c) + "."


def c_tptp(c, name="c", role="axiom"):
    return "cnf(%s,%s,(%s))." % (name, role, " | ".join(l_text(l, True) for l in c))


def t_json(t):
    if t[0] == "v":
        return "?:" + t[1]
    if t[0] == "n":
        return t[1]
    if t[0] == "s":
        return "#:" + t[1]
    if len(t) == 1:
        return t[0]
    return [t[0]] + [t_json(a) for a in t[1:]]


def l_json(l):
    pos, p, args = l
    return [("" if pos else "-") + p] + [t_json(a) for a in args]


def c_json(c):
    if len(c) == 1:
        return l_json(c[0])
    return [l_json(l) for l in c]


def f_text(f, tptp=True):
    k = f[0]
    if k == "lit":
        return l_text(f[1], tptp)
    if k == "not":
        return "~(%s)" % f_text(f[1])
    if k in ("and", "or"):
        return "(%s)" % ((" & " if k == "and" else " | ").join(f_text(g) for g in f[1:]))
    if k == "imp":
        return "(%s => %s)" % (f_text(f[1]), f_text(f[2]))
    if k == "rimp":
        return "(%s <= %s)" % (f_text(f[2]), f_text(f[1]))
    if k == "eqv":
        return "(%s <=> %s)" % (f_text(f[1]), f_text(f[2]))
    if k == "xor":
        return "(%s <~> %s)" % (f_text(f[1]), f_text(f[2]))
    if k == "all":
        return "(! [%s] : %s)" % (",".join(f[1]), f_text(f[2]))
    if k == "ex":
        return "(? [%s] : %s)" % (",".join(f[1]), f_text(f[2]))
    raise ValueError(k)


def f_json(f, bound=frozenset()):
    """JSON-LD-LOGIC form; bound variables are written as their plain names."""
    def tj(t):
        if t[0] == "v":
            return t[1] if t[1] in bound else "?:" + t[1]
        if t[0] in ("n", "s"):
            return t_json(t)
        return t[0] if len(t) == 1 else [t[0]] + [tj(a) for a in t[1:]]
    k = f[0]
    if k == "lit":
        pos, p, args = f[1]
        return [("" if pos else "-") + p] + [tj(a) for a in args]
    if k == "not":
        return ["not", f_json(f[1], bound)]
    if k in ("and", "or"):
        return [k] + [f_json(g, bound) for g in f[1:]]
    if k == "imp":
        return [f_json(f[1], bound), "=>", f_json(f[2], bound)]
    if k == "rimp":
        return [f_json(f[2], bound), "<=", f_json(f[1], bound)]
    if k == "eqv":
        return [f_json(f[1], bound), "<=>", f_json(f[2], bound)]
    if k == "xor":
        return [f_json(f[1], bound), "<~>", f_json(f[2], bound)]
    if k in ("all", "ex"):
        return ["forall" if k == "all" else "exists", list(f[1]), f_json(f[2], bound | set(f[1]))]
    raise ValueError(k)


# ------------------------------------------------------------ reading outputs

def t_from_json(j):
    if isinstance(j, str):
        if j.startswith("?:"):
            return ("v", j[2:])
        if j.startswith("#:"):
            return ("s", j[2:])
        return (j,)
    if isinstance(j, bool):
        return ("$true",) if j else ("$false",)
    if isinstance(j, (int, float)):
        return ("n", j)
    if isinstance(j, list):
        h = j[0]
        if not isinstance(h, str):
            raise ValueError("term head %r" % (h,))
        return (h,) + tuple(t_from_json(a) for a in j[1:])
    raise ValueError("term %r" % (j,))


def l_from_json(j):
    if isinstance(j, str):
        j = [j]
    h = j[0]
    if not isinstance(h, str):
        raise ValueError("literal head %r" % (h,))
    if h in ("$pr", "-$pr") and len(j) == 2 and isinstance(j[1], str):
        return (h == "$pr", j[1], ())     # a propositional symbol inside a non-propositional clause
    if h.startswith("-") and len(h) > 1:
        return (False, h[1:], tuple(t_from_json(a) for a in j[1:]))
    return (True, h, tuple(t_from_json(a) for a in j[1:]))


def c_from_json(j):
    if j is False or j == []:
        return ()
    if j is True:
        return ((True, "$true", ()),)
    return tuple(l_from_json(l) for l in j)


class Result:
    """A parsed -json result."""

    def __init__(self):
        self.result = None       # text of the result field
        self.error = None
        self.answers = []        # list of (answer literals or None, [(id, rule, clause)])
        self.derived = []        # clauses printed by -derived
        self.junk = []           # lines that are neither
        self.results = 0
        self.raw = None

    @property
    def proved(self):
        return self.result is not None and self.result.startswith("proof found")


def parse_json_output(out):
    r = Result()
    r.raw = out
    dec = json.JSONDecoder()
    i, n = 0, len(out)
    while i < n:
        while i < n and out[i].isspace():
            i += 1
        if i >= n:
            break
        try:
            obj, j = dec.raw_decode(out, i)
        except ValueError:
            j = out.find("\n", i)
            j = n if j < 0 else j
            r.junk.append(out[i:j])
            i = j
            continue
        i = j
        if isinstance(obj, dict):
            if "result" in obj:
                r.results += 1
                r.result = obj["result"]
                for a in obj.get("answers", []):
                    ans = c_from_json(a["answer"]) if "answer" in a else None
                    pr = []
                    for st in a.get("proof", []):
                        pr.append((st[0], st[1], c_from_json(st[2])))
                    r.answers.append((ans, pr))
            elif "error" in obj:
                r.error = obj["error"]
            else:
                r.junk.append(json.dumps(obj))
        elif isinstance(obj, list) or obj is False:
            try:
                r.derived.append(c_from_json(obj))
            except (TypeError, ValueError, IndexError, AttributeError):
                r.junk.append(json.dumps(obj))
        else:
            r.junk.append(json.dumps(obj))
    return r


# ------------------------------------------------------------ finite structures

class Structure:
    """Domain {0..d-1}; func[(f,n)] int array of shape (d,)*n; pred[(p,n)] bool array."""

    def __init__(self, d):
        self.d, self.func, self.pred = d, {}, {}
        self.sym = {}        # distinct symbols and numbers -> element

    @staticmethod
    def random(r, d, funcs, preds):
        m = Structure(d)
        for f, n in funcs:
            m.func[(f, n)] = np.array([r.randrange(d) for _ in range(d ** n)], dtype=np.int64).reshape((d,) * n)
        for p, n in preds:
            bias = r.choice((0.3, 0.5, 0.7))
            m.pred[(p, n)] = np.array([r.random() < bias for _ in range(d ** n)], dtype=bool).reshape((d,) * n)
        return m

    def _term(self, t, env, k):
        if t[0] == "v":
            i = env[t[1]]
            sh = [1] * k
            sh[i] = self.d
            return np.arange(self.d).reshape(sh)
        if t[0] in ("n", "s"):
            return np.array(self.sym[t])
        tab = self.func[(t[0], len(t) - 1)]
        if len(t) == 1:
            return tab
        args = np.broadcast_arrays(*[self._term(a, env, k) for a in t[1:]])
        return tab[tuple(args)]

    def _lit(self, l, env, k):
        pos, p, args = l
        if p == "=":
            v = self._term(args[0], env, k) == self._term(args[1], env, k)
        elif p == "$true":
            v = np.array(True)
        elif p == "$false":
            v = np.array(False)
        else:
            tab = self.pred[(p, len(args))]
            if args:
                a = np.broadcast_arrays(*[self._term(x, env, k) for x in args])
                v = tab[tuple(a)]
            else:
                v = tab
        return v if pos else ~np.asarray(v)

    def holds(self, c):
        """Is the universal closure of clause c true?  KeyError: a symbol without interpretation."""
        vs = sorted(clause_vars(c))
        env = {v: i for i, v in enumerate(vs)}
        k = len(vs)
        if self.d ** k > 2000000:
            return None
        acc = np.array(False)
        for l in c:
            acc = acc | self._lit(l, env, k)
        return bool(np.all(acc))

    def formula(self, f, env=None):
        """Truth of a closed formula (free variables: assignment env name -> element)."""
        env = env or {}
        k = f[0]
        if k == "lit":
            pos, p, args = f[1]
            va = [self.val(a, env) for a in args]
            if p == "=":
                v = va[0] == va[1]
            else:
                v = bool(self.pred[(p, len(args))][tuple(va)])
            return v if pos else not v
        if k == "not":
            return not self.formula(f[1], env)
        if k == "and":
            return all(self.formula(g, env) for g in f[1:])
        if k == "or":
            return any(self.formula(g, env) for g in f[1:])
        if k in ("imp", "rimp"):
            return (not self.formula(f[1], env)) or self.formula(f[2], env)
        if k == "eqv":
            return self.formula(f[1], env) == self.formula(f[2], env)
        if k == "xor":
            return self.formula(f[1], env) != self.formula(f[2], env)
        if k in ("all", "ex"):
            it = (self.formula(f[2], dict(env, **dict(zip(f[1], vals))))
                  for vals in itertools.product(range(self.d), repeat=len(f[1])))
            return all(it) if k == "all" else any(it)
        raise ValueError(k)

    def val(self, t, env):
        if t[0] == "v":
            return env[t[1]]
        if t[0] in ("n", "s"):
            return self.sym[t]
        return int(self.func[(t[0], len(t) - 1)][tuple(self.val(a, env) for a in t[1:])])


# ------------------------------------------------------------ reading clauses in text or TPTP syntax

class ParseError(Exception):
    pass


_TOK = re.compile(r"""\s*(?:(?P<q>'(?:[^'\\]|\\.)*')|(?P<s>"(?:[^"\\]|\\.)*")|(?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![A-Za-z_]))"""
                  r"""|(?P<id>[?#$]?:?[A-Za-z_0-9$][A-Za-z_0-9$]*)|(?P<op>!=|[-~|(),\[\]=.+*/<>]))""")


def tokens(s):
    i, out = 0, []
    s = s.strip()
    while i < len(s):
        m = _TOK.match(s, i)
        if not m or m.end() == i:
            raise ParseError("cannot read %r at %d" % (s[:200], i))
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class TextClause:
    """Recursive descent over one clause in the simple or TPTP output syntax."""

    def __init__(self, s):
        self.t, self.i = tokens(s), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", "")

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise ParseError("expected %s, got %s in %r" % (v, x, self.t))
        self.i += 1
        return x

    def term(self):
        k, v = self.take()
        if k == "num":
            f = float(v) if any(c in v for c in ".eE") else int(v)
            return ("n", f)
        if k == "s":
            return ("s", re.sub(r"\\(.)", r"\1", v[1:-1]))
        if k == "q":
            h = re.sub(r"\\(.)", r"\1", v[1:-1])
        elif k == "id":
            h = v
            if v.startswith("?:"):
                return ("v", v[2:])
            if v[0].isupper() or v[0] == "_":
                if self.peek()[1] != "(":
                    return ("v", v)
        else:
            raise ParseError("term starts with %r in %r" % (v, self.t))
        if self.peek()[1] == "(":
            self.take()
            if self.peek()[1] == ")":       # an atom without arguments, read from a one-element JSON list
                self.take()
                return (h,)
            a = [self.term()]
            while self.peek()[1] == ",":
                self.take()
                a.append(self.term())
            self.take(")")
            return (h,) + tuple(a)
        return (h,)

    def lit(self):
        pos = True
        while self.peek()[1] in ("-", "~"):
            self.take()
            pos = not pos
        if self.peek()[1] == "(":
            self.take()
            l = self.lit()
            self.take(")")
            return (l[0] if pos else not l[0], l[1], l[2])
        if self.peek()[1] == "=" and self.t[self.i + 1][1] == "(":      # prefix form of equality
            self.take()
            self.take("(")
            a = self.term()
            self.take(",")
            b = self.term()
            self.take(")")
            return (pos, "=", (a, b))
        t = self.term()
        if self.peek()[1] in ("=", "!="):
            o = self.take()[1]
            u = self.term()
            return ((o == "=") == pos, "=", (t, u))
        if t[0] in RESERVED:
            raise ParseError("literal %r" % (t,))
        if t == ("$false",) or t == ("false",):
            return (not pos, "$true", ())
        if t == ("$pr",):
            raise ParseError("$pr")
        if t[0] == "$pr" and len(t) == 2:
            return (pos, t[1][0], ())
        return (pos, t[0], tuple(t[1:]))

    def clause(self):
        if len(self.t) == 1 and self.t[0][1] in ("false", "$false"):
            return ()
        par = self.peek()[1] == "("
        ls = [self.lit()]
        while self.peek()[1] == "|":
            self.take()
            ls.append(self.lit())
        if self.peek()[1] == ".":
            self.take()
        if self.peek()[0] != "end":
            raise ParseError("rest of clause %r" % (self.t[self.i:],))
        return tuple(ls)


def c_from_text(s):
    s = s.strip()
    while s.startswith("(") and s.endswith(")"):      # TPTP puts the clause in parentheses
        d = 0
        for i, ch in enumerate(s):
            d += ch == "("
            d -= ch == ")"
            if d == 0:
                break
        if i == len(s) - 1:
            s = s[1:-1].strip()
        else:
            break
    if s.rstrip(".").strip() in ("false", "$false"):
        return ()
    return TextClause(s).clause()


# ------------------------------------------------------------ clauses up to renaming

def norm_num(x):
    return x


def canon(c):
    """A canonical-enough key: match with variant() to be sure."""
    def sh(t):
        if t[0] == "v":
            return "_"
        if t[0] in ("n", "s"):
            return repr(t)
        return t[0] + "(" + ",".join(sh(a) for a in t[1:]) + ")"
    return tuple(sorted((l[0], l[1], tuple(sorted(sh(a) for a in l[2])) if l[1] == "=" else tuple(sh(a) for a in l[2])) for l in set(c)))


def _match(a, b, s, inv):
    if a[0] == "v":
        if b[0] != "v":
            return None
        if a[1] in s or b[1] in inv:
            return (s, inv) if s.get(a[1]) == b[1] and inv.get(b[1]) == a[1] else None
        s, inv = dict(s), dict(inv)
        s[a[1]] = b[1]
        inv[b[1]] = a[1]
        return s, inv
    if b[0] == "v" or a[0] != b[0] or len(a) != len(b):
        return None
    if a[0] in ("n", "s"):
        return (s, inv) if a == b and type(a[1]) == type(b[1]) else None
    for x, y in zip(a[1:], b[1:]):
        r = _match(x, y, s, inv)
        if r is None:
            return None
        s, inv = r
    return s, inv


def variant(c, d, eqsym=True):
    """Are clauses c and d equal up to variable names, literal order and repetition, and sides of equations?"""
    c, d = list(dict.fromkeys(c)), list(dict.fromkeys(d))
    if len(c) != len(d):
        return False

    def go(i, used, s, inv):
        if i == len(c):
            return True
        l = c[i]
        for j, m in enumerate(d):
            if j in used or m[0] != l[0] or m[1] != l[1] or len(m[2]) != len(l[2]):
                continue
            for args in ([m[2], m[2][::-1]] if l[1] == "=" and eqsym else [m[2]]):
                r = (s, inv)
                for x, y in zip(l[2], args):
                    r = _match(x, y, *r)
                    if r is None:
                        break
                if r is not None and go(i + 1, used | {j}, *r):
                    return True
        return False
    return go(0, frozenset(), {}, {})


def variant_sets(cs, ds):
    """The clauses of cs without a variant in ds."""
    by = {}
    for d in ds:
        by.setdefault(canon(d), []).append(d)
    return [c for c in cs if not any(variant(c, d) for d in by.get(canon(c), ()))]


# ------------------------------------------------------------ reading formulas in TPTP syntax and JSON

_FTOK = re.compile(r"""\s*(?:(?P<q>'(?:[^'\\]|\\.)*')|(?P<s>"(?:[^"\\]|\\.)*")|(?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![A-Za-z_]))"""
                   r"""|(?P<id>\?:[A-Za-z_0-9$]+|[#$]?:?[A-Za-z_0-9$][A-Za-z_0-9$]*)|(?P<op><=>|<~>|=>|<=|!=|[-~|&!?:(),\[\]=.+*/<>]))""")


class TextFormula(TextClause):
    """TPTP formulas: connectives, quantifiers, literals with equality."""

    def __init__(self, s):
        i, self.t, self.i = 0, [], 0
        s = s.strip()
        while i < len(s):
            m = _FTOK.match(s, i)
            if not m or m.end() == i:
                raise ParseError("cannot read formula %r at %d" % (s[:200], i))
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()

    def unary(self):
        v = self.peek()[1]
        if v in ("~", "-"):
            self.take()
            return ("not", self.unary())
        if v in ("!", "?") and self.t[self.i + 1][1] == "[":
            self.take()
            self.take("[")
            vs = [self.take()[1]]
            while self.peek()[1] == ",":
                self.take()
                vs.append(self.take()[1])
            self.take("]")
            self.take(":")
            return ("all" if v == "!" else "ex", vs, self.unary())
        if v == "(":
            self.take()
            f = self.binary()
            self.take(")")
            return f
        return ("lit", self.lit())

    def binary(self):
        f = self.unary()
        o = self.peek()[1]
        if o in ("&", "|"):
            a = [f]
            while self.peek()[1] == o:
                self.take()
                a.append(self.unary())
            return ("and" if o == "&" else "or",) + tuple(a)
        if o in ("=>", "<=", "<=>", "<~>"):
            self.take()
            g = self.unary()
            return {"=>": ("imp", f, g), "<=": ("imp", g, f), "<=>": ("eqv", f, g), "<~>": ("xor", f, g)}[o]
        return f


def f_from_text(s):
    p = TextFormula(s)
    f = p.binary()
    if p.peek()[1] == ".":
        p.take()
    if p.peek()[0] != "end":
        raise ParseError("rest of formula %r" % (p.t[p.i:],))
    return f


def f_free(f, bound=frozenset()):
    """Free variables of a formula."""
    if f[0] == "lit":
        return {v for v in clause_vars((f[1],)) if v not in bound}
    if f[0] in ("all", "ex"):
        return f_free(f[2], bound | set(f[1]))
    out = set()
    for g in f[1:]:
        out |= f_free(g, bound)
    return out


def f_closed(f):
    v = sorted(f_free(f))
    return ("all", v, f) if v else f


def f_syms(f, acc=None):
    """Signature of a formula: ({(pred, n)}, {(fun, n)})."""
    acc = acc if acc is not None else (set(), set())
    if f[0] == "lit":
        _, p, a = f[1]
        if p != "=":
            acc[0].add((p, len(a)))
        st = list(a)
        while st:
            t = st.pop()
            if t[0] not in ("v", "n", "s"):
                acc[1].add((t[0], len(t) - 1))
                st.extend(t[1:])
    elif f[0] in ("all", "ex"):
        f_syms(f[2], acc)
    else:
        for g in f[1:]:
            f_syms(g, acc)
    return acc


def f_from_json(j, bound=frozenset()):
    """Formulas of -convert -json output and of JSON-LD-LOGIC input."""
    def tj(t):
        if isinstance(t, str) and t in bound:
            return ("v", t)
        if isinstance(t, list):
            return (t[0],) + tuple(tj(a) for a in t[1:])
        return t_from_json(t)
    if isinstance(j, bool):
        return ("lit", (j, "$true", ()))
    if isinstance(j, str):
        return ("lit", l_from_json(j))
    if j and j[0] in ("not", "~") and len(j) == 2:
        return ("not", f_from_json(j[1], bound))
    if j and j[0] in ("and", "or", "&", "|") and len(j) > 2:
        return ("and" if j[0] in ("and", "&") else "or",) + tuple(f_from_json(g, bound) for g in j[1:])
    if j and j[0] in ("forall", "exists", "all") and len(j) == 3:
        vs = j[1] if isinstance(j[1], list) else [j[1]]
        return ("ex" if j[0] == "exists" else "all", list(vs), f_from_json(j[2], bound | set(vs)))
    if len(j) >= 3 and len(j) % 2 and j[1] in ("&", "|", "and", "or") and all(x == j[1] for x in j[1::2]):
        return ("and" if j[1] in ("&", "and") else "or",) + tuple(f_from_json(g, bound) for g in j[::2])
    if len(j) == 3 and j[1] in ("=>", "<=", "<=>", "<~>"):
        a, b = f_from_json(j[0], bound), f_from_json(j[2], bound)
        return {"=>": ("imp", a, b), "<=": ("imp", b, a), "<=>": ("eqv", a, b), "<~>": ("xor", a, b)}[j[1]]
    if j and isinstance(j[0], list):
        return ("or",) + tuple(f_from_json(g, bound) for g in j) if len(j) > 1 else f_from_json(j[0], bound)
    if len(j) == 3 and j[1] in ("=", "!="):
        return ("lit", (j[1] == "=", "=", (tj(j[0]), tj(j[2]))))
    h = j[0]
    pos = True
    while h[0] in "-~":
        pos, h = not pos, h[1:]
    return ("lit", (pos, h, tuple(tj(a) for a in j[1:])))
