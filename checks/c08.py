"""C08: one problem in the simple, TPTP and JSON syntaxes, by every way of giving it to gkc and through
both parsers, is read as the clauses it states; what -convert and -clausify write is read as the same clauses again."""
import sys, os, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted
from logic import *

B = BB = None
PLAIN = ("a", "b", "c", "f", "g", "h", "p", "q", "r1", "foo_bar", "sum", "p0", "aB9", "list", "ans", "x_1", "axiom", "plain", "file")
ODD = ("A b", "Upper", "UX", "_under", "a-b", "x.y", "http://x.org/a#b", "a,b", "(a)", "p(a)", "12", "1.5", "a\"b", "a'b", "it's", "[1]", "{x}", "été", "漢字", "a|b", "x = y", "a%b", "a:b", "/*", "a//b", "long" * 30, "and so", "0x", "é", "a<b", "true x", "q?", "!x", "e@f")
VARS = ("X", "Y", "Z", "X1", "Abc", "Var_2")


def name(r):
    return r.choice(ODD) if r.random() < 0.25 else r.choice(PLAIN)


def number(r):
    k = r.random()
    if k < 0.6:
        return r.choice((0, 1, 2, 7, 10, 255, 256, 1000, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 10 ** 15, r.randint(0, 10 ** 6))) * r.choice((1, 1, 1, -1))
    return r.choice((0.5, 1.25, 2.0, 10.75, 3.125, 0.001, 123.456, 99999.5, 1.1)) * r.choice((1, 1, -1))


def term(r, sg, d):
    k = r.random()
    if k < 0.3:
        return ("v", r.choice(VARS))
    if k < 0.4:
        return ("n", number(r))
    if k < 0.47:
        return ("s", r.choice(ODD + VARS) if r.random() < 0.4 else r.choice(PLAIN))
    if k < 0.52 and d:
        t = ("$nil",)
        for _ in range(r.randint(1, 3)):
            t = ("$list", term(r, sg, d - 1), t)
        return t
    if k < 0.58 and d:
        return (r.choice(("$sum", "$product", "$difference", "$quotient")), term(r, sg, d - 1), term(r, sg, d - 1))
    if k < 0.82 and d:
        f = r.choice(sg["f"])
        return (f[0],) + tuple(term(r, sg, d - 1) for _ in range(f[1]))
    return (r.choice(sg["c"]),)


def negative(t):
    """two negative numbers: an equality between them cannot be written without a leading minus"""
    return t[0] == "n" and t[1] < 0


def clauses(r):
    names = []
    while len(names) < 9:
        x = name(r)
        if x not in names:
            names.append(x)
    sg = {"c": names[:3], "f": [(names[3], 1), (names[4], 2), (names[r.choice((5, 3))], r.choice((1, 2, 3)))],
          "p": [(names[6], 1), (names[7], 2), (names[8], 0), (names[r.choice((6, 7, 3))], r.choice((1, 3)))]}
    cs = []
    for _ in range(r.choice((1, 2, 3, 4, 6, 10))):
        c = []
        for _ in range(r.choice((1, 1, 2, 2, 3, 4, 7))):
            if r.random() < 0.2:
                l = (r.random() < 0.5, "=", (term(r, sg, 2), term(r, sg, 2)))
            else:
                p = r.choice(sg["p"])
                l = (r.random() < 0.5, p[0], tuple(term(r, sg, 3) for _ in range(p[1])))
            if l not in c and (not l[0], l[1], l[2]) not in c and not (l[1] == "=" and (l[2][0] == l[2][1] or all(negative(x) for x in l[2]))):
                c.append(l)
        if c:
            cs.append(tuple(c))
    return cs or clauses(r)


# ------------------------------------------------------------------ writers

def q(s, r=None):
    if re.fullmatch("[a-z][a-zA-Z0-9_]*", s) and not (r and r.random() < 0.1):
        return s
    return "'" + s.replace("'", "\\'") + "'"


def arg(t, r):
    if t[0] == "v":
        return t[1]
    if t[0] == "n":
        return num_text(t[1])
    if t[0] == "s":
        return '"' + t[1].replace('"', '\\"') + '"'
    if t[0] == "$list" and len(t) == 3:
        xs = []
        while t[0] == "$list":
            xs.append(arg(t[1], r))
            t = t[2]
        return "[" + r.choice((",", ", ")).join(xs) + ("" if t == ("$nil",) else "|" + arg(t, r)) + "]"
    h = t[0] if t[0].startswith("$") else q(t[0], r)
    return h if len(t) == 1 else h + "(" + r.choice((",", ", ", ",\n ")).join(arg(a, r) for a in t[1:]) + ")"


def lit(l, r, neg):
    pos, p, args = l
    if p == "=":
        a, b = arg(args[0], r), arg(args[1], r)
        if a.startswith("-"):                # a leading minus negates the literal
            a, b = b, a
        if a.startswith("-"):
            return ("" if pos else neg) + "=(" + a + "," + b + ")"
        return a + (" = " if pos else " != ") + b
    h = q(p, r)
    return ("" if pos else r.choice(neg)) + (h if not args else h + "(" + ",".join(arg(a, r) for a in args) + ")")


def jt(t, bound=()):
    if t[0] == "v":
        return t[1] if t[1] in bound else "?:" + t[1]
    if t[0] == "n":
        return t[1]
    if t[0] == "s":
        return "#:" + t[1]
    return t[0] if len(t) == 1 else [t[0]] + [jt(a, bound) for a in t[1:]]


def jl(l, r):
    pos, p, args = l
    a = [jt(x) for x in args]
    if p == "=" and r.random() < 0.6:
        return [a[0], "=" if pos else "!=", a[1]]
    if not a:
        return p if pos else r.choice(("-" + p, ["not", p], ["~", p]))
    if not pos and r.random() < 0.15:
        return [r.choice(("not", "~")), [p] + a]
    return [("" if pos else "-") + p] + a


def cj(c, r):
    ls = [jl(l, r) for l in c]
    if len(ls) == 1:
        return ls[0]
    if r.random() < 0.5 and all(isinstance(x, list) for x in ls):
        return ls
    out = ls[0]
    if r.random() < 0.5:
        return [x for l in ls for x in (l, "|")][:-1]
    return ["or"] + ls


ROLES = {"axiom": "axiom", "hypothesis": "assumption", "negated_conjecture": "negated_conjecture", "plain": "axiom", "lemma": "axiom", "assumption": "assumption"}


def noise(r):
    return r.choice(("", "", "", "% a comment p(a).\n", "/* p(X).\n q */\n", "\n", "  \t\n", "# x\n" if 0 else ""))


def write(r, items, syn):
    """items: (name, role, clause); the text in the syntax."""
    if syn == "json":
        out = []
        for n, role, c in items:
            j = cj(c, r)
            if n:
                j = {"@name": n, "@logic": j}
                if role != "axiom" or r.random() < 0.3:
                    j["@role"] = role
            out.append(j)
        return json.dumps(out, ensure_ascii=r.random() < 0.5, indent=r.choice((None, None, 1)))
    s = []
    for n, role, c in items:
        neg = "~" if syn != "simple" else "-~"
        b = r.choice((" | ", "|", "\n | ") if syn != "simple" else (" | ", "|", "\n| ")).join(lit(l, r, neg) for l in c)
        if syn == "simple":
            s.append(b + ".")
        elif syn == "cnf":
            s.append("cnf(%s,%s,%s)." % (q(n), role, "(" + b + ")" if r.random() < 0.7 or len(c) > 1 else b))
        else:
            vs = sorted(clause_vars(c))
            r.shuffle(vs)
            if vs and r.random() < 0.8:
                b = "! [%s] : (%s)" % (",".join(vs), b)
            s.append("fof(%s,%s,%s)." % (q(n), role, "(" + b + ")"))
    return "".join(noise(r) + x + r.choice(("\n", "\n", " ", "\n\n")) for x in s) + "\n"


# ------------------------------------------------------------------ reading

class Refused(Exception):
    pass


def read(run):
    """[(name, role, clause)] of the output of -clausify -json."""
    if run.timeout or run.rc < 0:
        raise Refused("timeout" if run.timeout else "signal %d" % -run.rc)
    try:
        d = json.loads(run.out)
    except ValueError:
        raise Refused(run.out[:200] + run.err[:100])
    if isinstance(d, dict):
        raise Refused(str(d))
    d = [x if isinstance(x, dict) else {"@logic": x} for x in d]
    return [(re.sub(r"^(\$inc_)+", "", x.get("@name") or ""), x.get("@role", "axiom"), c_from_json(x["@logic"])) for x in d]


def differ(want, got, named):
    """Clauses compared as multisets, per name and role when named."""
    if len(want) != len(got):
        return "%d and %d clauses" % (len(want), len(got))
    left = list(got)
    for n, role, c in want:
        for k, (m, ro, d) in enumerate(left):
            if named and (n != m or role != ro):
                continue
            if len(c) == len(d) and variant(c, d):
                del left[k]
                break
        else:
            return "%s %s: no counterpart of %s" % (n if named else "", role if named else "", c_text(c)[:300])
    return None


def case(i):
    r = gk.rng("C08", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    d = os.path.join(gk.scratch(), "c08-%d-%d" % (os.getpid(), i))
    os.mkdir(d)
    try:
        (clausal if i % 4 else formulas)(r, d, res, inc, i)
    finally:
        shutil.rmtree(d)
    return res


def call(binp, d, args):
    return gk.run([binp] + args + ["-mbsize", "40"], timeout=20, cwd=d, env={"TPTP": d})


def put(d, fn, text):
    with open(os.path.join(d, fn), "w", encoding="utf8") as f:
        f.write(text)
    return fn


def give(r, d, k, items, syn):
    """Writes the problem for gkc and returns (way, command line arguments, names are kept)."""
    if syn == "mixed":
        args = []
        cut = r.randint(1, len(items) - 1)
        for j, part in enumerate((items[:cut], items[cut:])):
            s = r.choice(("cnf", "json", "fof", "cnf"))
            args.append(put(d, "m%d_%d%s" % (k, j, {"json": ".js"}.get(s, ".p")), write(r, part, s)))
        return "mixed", args
    text = write(r, items, syn)
    suf = {"json": ".js", "simple": ".txt"}.get(syn, ".p")
    w = r.random()
    if w < 0.5 or len(items) < 2:
        if w < 0.2 and len(text) < 20000:
            if syn == "json":
                return "jstext", ["-jstext", text]
            return "text", ["-text", text]
        return "file", [put(d, "p%d%s" % (k, suf), text)]
    cut = r.randint(1, len(items) - 1)
    a, b = items[:cut], items[cut:]
    if w < 0.75 or syn == "simple":
        return "files", [put(d, "a%d%s" % (k, suf), write(r, a, syn)), put(d, "b%d%s" % (k, suf), write(r, b, syn))]
    inc = put(d, "i%d%s" % (k, suf), write(r, a, syn))
    if syn == "json":
        j = json.loads(write(r, b, syn))
        j.insert(r.randint(0, len(j)), {"@include": inc})
        return "include", [put(d, "o%d.js" % k, json.dumps(j))]
    t = write(r, b, syn)
    t = "include('%s').\n" % inc + t if r.random() < 0.5 else t + "\ninclude('%s').\n" % inc
    return "include", [put(d, "o%d%s" % (k, suf), t)]


def clausal(r, d, res, inc, i):
    cs = clauses(r)
    items, seen = [], set()
    for k, c in enumerate(cs):
        items.append(("n%d" % k if r.random() < 0.8 else r.choice(ODD) + str(k), r.choice(("axiom", "axiom", "hypothesis", "negated_conjecture", "assumption")), c))
    want = [(n, ROLES[ro], c) for n, ro, c in items]
    res["distinct"].append(hash(str(cs)))
    syns = r.sample(("simple", "cnf", "fof", "json") + (("mixed",) if len(items) > 1 else ()), r.choice((2, 3)))
    for k, syn in enumerate(syns):
        way, args = give(r, d, k, items, syn)
        bis = r.random() < 0.3
        binp = BB if bis else B
        run = call(binp, d, args + ["-clausify", "-json"])
        files = {a: open(os.path.join(d, a), encoding="utf8").read()[:6000] for a in os.listdir(d)}
        rep = {"files": files, "cmd": run.cmd, "out": run.out[:5000], "err": run.err[-300:], "case": i, "seed": gk.SEED, "source": [c_text(c) for c in cs]}
        try:
            got = read(run)
        except Refused as e:
            res["violations"].append(("refused-%s%s" % (syn, "-bison" if bis else ""), "a problem is not read: %s" % e, rep))
            continue
        res["evals"] += 1
        inc("syntax_" + syn)
        inc("way_" + way)
        inc("build_" + ("bison" if bis else "plain"))
        inc("clauses", len(got))
        bad = differ(want, got, syn != "simple")
        if bad:
            res["violations"].append(("clauses-%s%s" % (syn, "-bison" if bis else ""), "read by %s: %s" % (way, bad), rep))
        elif k == 0:
            again(r, d, k, args, got, binp, res, inc, rep, way in ("file", "text", "jstext"))


def again(r, d, k, args, ref, binp, res, inc, rep, one=True):
    """Writes the problem by gkc itself and reads that; one: it is in one file."""
    ways = [["-clausify"], ["-clausify", "-tptp"], ["-clausify", "-json"]]
    if one:
        ways.append(["-convert", "-tptp"])
        if "-jstext" not in args and not args[0].endswith(".js"):       # there is no conversion of JSON to JSON
            ways += [["-convert", "-json"]] * 2
    for opts in r.sample(ways, 2):
        how = "".join(opts)
        w = call(binp, d, args + opts)
        if w.timeout:
            res["inconclusive"] = 1
            continue
        fn = put(d, "w%s%s" % (how, ".js" if "-json" in opts else ".p" if "-tptp" in opts else ".txt"), w.out)
        run = call(r.choice((B, BB)), d, [fn, "-clausify", "-json"])
        rep = dict(rep, written=w.out[:6000], cmd_write=w.cmd, cmd_read=run.cmd, out_read=run.out[:5000])
        try:
            got = read(run)
        except Refused as e:
            res["violations"].append(("written%s-refused" % how, "the output of %s is not read: %s" % (how, e), rep))
            continue
        res["evals"] += 1
        inc("again" + how)
        bad = differ(ref, got, False) and same_formulas(ref, got)
        if bad:
            res["violations"].append(("written%s" % how, "the output of %s is read as other clauses: %s" % (how, bad), rep))


FRESH = re.compile(r"\$(sk|df)\d+")


def same_formulas(ref, got):
    """The same clauses in the same order, up to the numbers of Skolem functions and definitions."""
    if len(ref) != len(got):
        return "%d and %d clauses" % (len(ref), len(got))
    there, back = {}, {}
    for (_, _, c), (_, _, d) in zip(ref, got):
        if not match(list(c), list(d), there, back, {}, {}):
            return "%s and %s" % (c_text(c)[:300], c_text(d)[:300])
    return None


def match(c, d, there, back, vt, vb):
    """Matches the clauses c and d, adding to the maps of fresh symbols when it succeeds."""
    if not c:
        return not d
    l = c[0]
    for k, m in enumerate(d):
        if l[0] != m[0] or len(l[2]) != len(m[2]):
            continue
        for args in ((m[2], m[2][::-1]) if l[1] == "=" else (m[2],)):
            t, b, v, w = dict(there), dict(back), dict(vt), dict(vb)
            if sym(l[1], m[1], t, b) and all(mterm(x, y, t, b, v, w) for x, y in zip(l[2], args)) and match(c[1:], d[:k] + d[k + 1:], t, b, v, w):
                there.update(t)
                back.update(b)
                return True
    return False


def sym(x, y, t, b):
    if FRESH.fullmatch(x) and FRESH.fullmatch(y) and x[:3] == y[:3]:
        return t.setdefault(x, y) == y and b.setdefault(y, x) == x
    return x == y


def mterm(x, y, t, b, v, w):
    if x[0] in ("n", "s") or y[0] in ("n", "s"):
        return x == y
    if x[0] == "v" or y[0] == "v":
        return x[0] == y[0] and v.setdefault(x[1], y[1]) == y[1] and w.setdefault(y[1], x[1]) == x[1]
    return len(x) == len(y) and sym(x[0], y[0], t, b) and all(mterm(p, q_, t, b, v, w) for p, q_ in zip(x[1:], y[1:]))


def rename(f, m):
    def t(x):
        return x if x[0] in ("v", "n", "s") else (m(x[0]),) + tuple(t(a) for a in x[1:])
    if f[0] == "lit":
        pos, p, args = f[1]
        return ("lit", (pos, p if p == "=" else m(p), tuple(t(a) for a in args)))
    if f[0] in ("all", "ex"):
        return (f[0], f[1], rename(f[2], m))
    return (f[0],) + tuple(rename(g, m) for g in f[1:])


def junctions(r, sig, d, ops):
    """A formula over literals without variables."""
    if not d or r.random() < 0.15:
        return ("lit", gen.rlit(r, sig, 0.2, 2, []))
    k = r.choice(ops)
    return (k,) + tuple(junctions(r, sig, d - 1, ops) for _ in range(1 if k == "not" else 2 if k != "or" and k != "and" or r.random() < 0.7 else 3))


def formulas(r, d, res, inc, i):
    n = r.choice((1, 1, 2, 3))
    if r.random() < 0.3:
        fs = planted.chained(r).formulas
    elif r.random() < 0.35:
        sig = gen.signature(r)
        fs = [junctions(r, sig, r.choice((1, 2, 3, 4)), r.choice((("not", "or"), ("not", "or", "or", "and"), ("not", "or", "and", "imp", "eqv")))) for _ in range(n)]
    else:
        fs = planted.first_order(r, n=n, depth=r.choice((2, 3, 4)) if n < 3 else 2).formulas
    if r.random() < 0.5:
        odd = r.sample(ODD, 12)
        names = {}
        for f in fs:
            ps, fns = f_syms(f)
            for s in sorted(set(s for s, _ in ps | fns)):
                if s not in names:
                    names[s] = odd.pop() if odd and r.random() < 0.5 else s
        fs = [rename(f, lambda s: names.get(s, s)) for f in fs]
    conj = r.random() < 0.4
    ref = None
    res["distinct"].append(hash(str(fs)))
    syns = ["tptp", "json"] + (["simple"] if not conj else [])
    r.shuffle(syns)
    for k, syn in enumerate(syns):
        roles = ["axiom"] * len(fs)
        if conj:
            roles[-1] = "conjecture"
        if syn == "json":
            t = json.dumps([{"@name": "n%d" % j, "@role": ro, "@logic": f_json(f)} if ro != "axiom" or r.random() < 0.5 else f_json(f) for j, (f, ro) in enumerate(zip(fs, roles))])
        else:
            qs = [f_text(rename(f, lambda s: q(s))) for f in fs]
            t = "\n".join(x + "." if syn == "simple" else "fof(n%d,%s,%s)." % (j, ro, x) for j, (x, ro) in enumerate(zip(qs, roles)))
        args = [put(d, "f%d%s" % (k, {"json": ".js", "tptp": ".p"}.get(syn, ".txt")), t)]
        if r.random() < 0.2 and len(t) < 20000:
            args = ["-jstext" if syn == "json" else "-text", t]
        bis = r.random() < 0.3
        binp = BB if bis else B
        run = call(binp, d, args + ["-clausify", "-json"])
        rep = {"texts": [t[:6000]], "cmd": run.cmd[:2000] if isinstance(run.cmd, str) else run.cmd, "out": run.out[:5000], "case": i, "seed": gk.SEED}
        if run.timeout:
            res["inconclusive"] = 1
            return
        try:
            got = read(run)
        except Refused as e:
            res["violations"].append(("refused-formula-%s%s" % (syn, "-bison" if bis else ""), "formulas are not read: %s" % e, rep))
            return
        res["evals"] += 1
        inc("formulas_" + syn)
        inc("clauses", len(got))
        if ref is None:
            ref, first = got, (syn, rep)
            again(r, d, k, args, got, binp, res, inc, rep)
        else:
            bad = same_formulas(ref, got)
            if bad:
                res["violations"].append(("formulas", "%s and %s clauses differ: %s" % (first[0], syn, bad), dict(rep, other=first[1])))
                return


def main():
    global B, BB
    c = gk.Check("C08")
    B, BB = gk.build(), gk.build(bison=True)
    n = 2600 if gk.QUICK else 60000
    gk.cases(c, case, range(n), 8)
    c.finish("clauses stated by generated problems compared with the clauses read from the three syntaxes, by files, several files, includes and command line texts, by both parsers, and from what -convert and -clausify wrote; distinct: problems",
             need={"syntax_simple": n // 8, "syntax_cnf": n // 8, "syntax_fof": n // 8, "syntax_json": n // 8, "way_text": n // 30, "way_include": n // 30, "way_files": n // 30, "build_bison": n // 5,
                   "again-convert-json": n // 8, "again-convert-tptp": n // 8, "again-clausify": n // 8, "again-clausify-tptp": n // 8, "formulas_json": n // 6, "formulas_tptp": n // 6})


if __name__ == "__main__":
    gk.main(main)
