"""Problems of every kind gkc reads, for the checks that judge how a run behaves and not what it says."""
import glob, os, random
import gk, gen, planted, unsat
from logic import *

ARF2 = ["$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f", "$remainder", "$remainder_e", "$remainder_t", "$remainder_f"]
ARF1 = ["$uminus", "$floor", "$ceiling", "$truncate", "$round", "$to_int", "$to_real"]
CMP = ["$less", "$lesseq", "$greater", "$greatereq", "="]
TESTS = ["$is_int", "$is_real", "$is_number", "$is_list", "$is_atom", "$is_distinct", "$is_map"]
NUMS = [0, 1, 2, 3, 7, -1, -5, 100, 2**31 - 1, -2**31, 2**31, 2**62, 2**63 - 1, -2**63 + 1, 0.5, 1.0, 3.25, 1000000.125, -0.5]


def arterm(r, d, vs):
    k = r.random()
    if d <= 0 or k < 0.3:
        k = r.random()
        if vs and k < 0.4:
            return r.choice(vs)
        if k < 0.75:
            n = r.choice(NUMS) if r.random() < 0.4 else r.randint(-9, 30)
            return repr(n) if n >= 0 else "$uminus(%r)" % -n
        if k < 0.85:
            return '"%s"' % r.choice(("abc", "b", "x y", "", "abcabc"))
        return r.choice(("a", "b", "$nil"))
    k = r.random()
    s = lambda: arterm(r, d - 1, vs)
    if k < 0.5:
        return "%s(%s,%s)" % (r.choice(ARF2), s(), s())
    if k < 0.7:
        return "%s(%s)" % (r.choice(ARF1), s())
    if k < 0.8:
        return "$list(%s,%s)" % (s(), s())
    if k < 0.87:
        return "%s(%s)" % (r.choice(("$first", "$rest", "$strlen")), s())
    if k < 0.93:
        return "[" + ",".join(s() for _ in range(r.randint(0, 3))) + "]"
    if k < 0.96:
        return "$substrat(%s,%s,%s)" % (s(), s(), s())
    return "f(%s)" % s()


def arith(r):
    out = []
    vs = ["X", "Y", "Z"]
    for _ in range(r.randint(2, 9)):
        lits = []
        for _ in range(r.choice((1, 1, 2, 2, 3))):
            d = r.choice((0, 1, 1, 2, 3))
            neg = r.choice(("", "-"))
            k = r.random()
            if k < 0.35:
                lits.append("%sp%d(%s)" % (neg, r.randint(0, 2), arterm(r, d, vs)))
            elif k < 0.5:
                lits.append("%s%s(%s)" % (neg, r.choice(TESTS), arterm(r, d, vs)))
            elif k < 0.55:
                lits.append("%s%s(%s,%s)" % (neg, r.choice(("$is_substr", "$substr")), arterm(r, d, vs), arterm(r, d, vs)))
            else:
                c = r.choice(CMP)
                a, b = arterm(r, d, vs), arterm(r, d, vs)
                lits.append("%sf(%s) = %s" % (neg, a, b) if c == "=" and r.random() < 0.3 else "%s%s(%s,%s)" % (neg, c, a, b))
        if r.random() < 0.25:
            lits.append("$ans(X)")
        out.append(" | ".join(lits) + ".")
    return "\n".join(out) + "\n", ".txt"


def horn(r):
    out = ["e(c%d,c%d)." % (r.randint(0, 8), r.randint(0, 8)) for _ in range(r.randint(3, 25))]
    out += ["-e(X,Y) | t(X,Y).", r.choice(("-t(X,Y) | -e(Y,Z) | t(X,Z).", "-t(X,Y) | -t(Y,Z) | t(X,Z)."))]
    if r.random() < 0.4:
        out.append("t(X,Y) | s(X,Y).")
    if r.random() < 0.3:
        out.append("-s(X,Y) | X = Y.")
    out.append("-t(X,Y) | $ans(X,Y)." if r.random() < 0.7 else "-t(X,c%d) | -t(c1,X) | $ans(X)." % r.randint(0, 8))
    r.shuffle(out)
    return "\n".join(out) + "\n", ".txt"


def wide(r):
    """Unusually big things: long clauses, many variables, wide or deep terms, long names, many clauses."""
    k = r.randrange(9)
    n = r.choice((10, 40, 64, 100, 130, 200, 257, 400))
    if k == 0:
        v = ["V%d" % i for i in range(n)]
        t = "p(%s)." % ",".join(v) if n <= 100 else " | ".join("p(%s)" % x for x in v) + "."
        return t + "\n-p(%s).\n" % ",".join("a" if r.random() < 0.5 else "X" for _ in range(n if n <= 100 else 1)), ".txt"
    if k == 1:
        return " | ".join("%sp%d(%s)" % (r.choice("- "), i % r.choice((3, n)), r.choice(("X", "a", "f(Y)", "f(f(Z))"))) for i in range(n)).replace("- ", "-") + ".\n" + "".join("p%d(a).\n-p%d(f(X)).\n" % (i, i) for i in range(3)), ".txt"
    if k == 2:
        d = n * r.choice((1, 3, 10))
        return "p(%sX%s).\n-p(%sa%s) | q(X).\n-q(Y).\n" % ("f(" * d, ")" * d, "f(" * (d + r.randint(-1, 1)), ")" * (d + 0) if False else ")" * d) if False else \
               "p(%sX%s).\n-p(%sa%s) | q(X).\n-q(Y).\n" % ("f(" * d, ")" * d, "f(" * d, ")" * d), ".txt"
    if k == 3:
        a = r.choice((5, 20, 60, 120))
        return "p(f(%s)).\n-p(f(%s)) | q(X0,X1).\n-q(a,Y).\n" % (",".join("X%d" % i for i in range(a)), ",".join("Y%d" % (i // 2) for i in range(a))), ".txt"
    if k == 4:
        ln = r.choice((100, 255, 256, 300, 1000, 1023, 1024, 3000))
        nm = "a" * ln
        q = r.random() < 0.5
        s = "'%s b'" % nm if q else nm
        return "p(%s).\n-p(X) | q(X,%s).\n-q(X,X) | $ans(X).\n" % (s, s), ".txt"
    if k == 5:
        return "".join("e(c%d,c%d).\n" % (i, (i * 7 + 3) % (n * 5)) for i in range(n * 5)) + "-e(X,Y) | -e(Y,Z) | g(X,Z).\n-g(c1,X) | $ans(X).\n", ".txt"
    if k == 6:      # many variables in rules that are combined
        m = r.randint(3, 30)
        a = ["A%d" % i for i in range(m)]
        b = ["B%d" % i for i in range(m)]
        return "p(%s).\n-p(%s) | -p(%s) | q(%s).\n-q(%s).\n" % (",".join(a), ",".join(a), ",".join(b), ",".join(a + b), ",".join(b + a)), ".txt"
    if k == 7:      # resolvents of growing length
        m = r.randint(4, 24)
        return "".join("%s | s%d(X%d) | r%d(X,Y%d).\n" % (("-k%d(X)" % i) if i else "q(X)", i, i, i, i) if not i else "-k%d(X) | k%d(X) | r%d(X,Y).\n" % (i - 1, i, i) for i in range(m)) + "-q(X) | k0(X).\n-k%d(a).\n" % (m - 1) + "".join("-r%d(a,b).\n" % i for i in range(0, m, 2)), ".txt"
    lit = lambda: "%sx%d" % (r.choice(("", "-")), r.randint(0, n // 6 + 2))
    return "".join(" | ".join(lit() for _ in range(3)) + ".\n" for _ in range(n)), ".txt"


def jsonld(r):
    def val(d):
        k = r.random()
        if d <= 0 or k < 0.4:
            return r.choice(("a", "b", 1, 2.5, True, None, "#:d", "?:X", "", "x y", "http://a.b/c#d"))
        if k < 0.6:
            return [val(d - 1) for _ in range(r.randint(0, 3))]
        return obj(d - 1)

    def obj(d):
        o = {}
        for _ in range(r.randint(0, 4)):
            o[r.choice(("@id", "@type", "name", "age", "friend", "@name", "p q", "@list"))] = val(d)
        return o
    items = []
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < 0.5:
            items.append(obj(3))
        elif k < 0.75:
            items.append([r.choice(("-name", "name", "friend", "-age", "=", "$less")), val(1), val(1)])
        elif k < 0.85:
            items.append({"@logic": ["if", ["name", "?:X", "?:Y"], "then", ["friend", "?:X", "?:Y"]], "@name": "r1"})
        elif k < 0.95:
            items.append({"@question": [r.choice(("name", "friend", "age")), r.choice(("a", "?:X")), "?:Z"]})
        else:
            items.append([["-name", "?:X", "?:Y"], ["$ans", "?:X"]])
    return json.dumps(items), ".js"


_ex = None


def example(r):
    global _ex
    if _ex is None:
        _ex = [(open(f, errors="replace").read(), f[f.rindex("."):]) for f in sorted(glob.glob(os.path.join(gk.REPO, "Examples", "*.*")))
               if os.path.getsize(f) < 3000 and not f.endswith(".md") and not os.path.basename(f) in ("strat.txt", "querystrat.txt", "runs.txt")]
    return r.choice(_ex)


def problem(r):
    """(kind, text, suffix)"""
    k = r.choice(("clausal", "clausal", "fo", "fo", "equational", "unsat", "unsat", "arith", "arith", "horn", "wide", "wide", "jsonld", "example"))
    syn = r.choice(("simple", "simple", "tptp", "json"))
    if k == "clausal":
        t = planted.text_of(r, planted.clausal(r), syn)
    elif k == "fo":
        p = planted.first_order(r)
        c = None
        if r.random() < 0.5 and syn != "json":
            c = planted.rformula(r, p.sig, p.model, 3, [], 0.2)
        t = planted.text_of(r, p, syn, c)
    elif k == "equational":
        t = planted.text_of(r, planted.equational(r), syn)
    elif k == "unsat":
        p = planted.Problem()
        p.clauses = unsat.problem(r)[1]
        t = planted.text_of(r, p, syn)
    else:
        t = {"arith": arith, "horn": horn, "wide": wide, "jsonld": jsonld, "example": example}[k](r)
    return (k,) + tuple(t)
