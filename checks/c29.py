"""C29: strategy settings do what they say.

Monitors over the search trace (-print 22, -derived) and proofs: limits bound every kept clause and
discard no other, strategy names restrict the inferences, the number of answers bounds the answers,
runs are done in order and do not see each other's settings, and strategies written in different ways
mean the same."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted, unsat, anyprob, c14
from logic import *

B = None
MAXOUT = 3000000


def go(f, strategy, args=(), pl=10, par=0, timeout=6):
    """Runs gkc; its output is cut at MAXOUT bytes."""
    st = strategy if isinstance(strategy, str) else json.dumps(strategy)
    cmd = [B, f, "-parallel", str(par), "-mbsize", "100", "-print", str(pl), "-strategytext", st] + list(args)
    r = gk.run(["bash", "-c", 'o=$1; shift; "$@" 2>&1 | head -c $o; exit ${PIPESTATUS[0]}', "x", str(MAXOUT)] + cmd, timeout=timeout)
    r.cmd = cmd
    return r


# ---------------------------------------------------------------- sizes of clauses

def is_ans(l):
    return l[1] in ("$ans", "$answer")


def measure(c):
    """size, depth, length and the weight as a function of (var, repeat, depth, length) settings"""
    size = depth = length = 0
    consts = firsts = repeats = 0
    seen = set()

    def term(t, d):
        nonlocal size, depth, consts, firsts, repeats
        if isvar(t):
            size += 1
            if t in seen:
                repeats += 1
            else:
                seen.add(t)
                firsts += 1
        elif isinstance(t, tuple) and len(t) > 1:
            d += 1
            depth = max(depth, d)
            size += 1
            consts += 1
            for a in t[1:]:
                term(a, d)
        else:
            size += 1
            consts += 1
    for l in c:
        if is_ans(l):
            continue
        length += 1
        size += 1
        consts += 1
        depth = max(depth, 1)
        if not l[2]:                     # a propositional atom is held as $pr(name)
            size += 1
            consts += 1
        for a in l[2]:
            term(a, 1)
    return size, depth, length, (consts, firsts, repeats)


def weight(c, st):
    size, depth, length, (k, f, p) = measure(c)
    w = 10 * k + f * st.get("var_weight", 5) + p * st.get("repeat_var_weight", 7)
    return w + (length - 1) * st.get("length_penalty", 1) + (depth - 1) * st.get("depth_penalty", 0)


def over(c, st):
    """The limits of st which the clause breaks; None if not known."""
    size, depth, length, _ = measure(c)
    out = []
    if st.get("max_size") and size > st["max_size"]:
        out.append("max_size")
    if st.get("max_depth") and depth > st["max_depth"]:
        out.append("max_depth")
    if st.get("max_length") and length > st["max_length"]:
        out.append("max_length")
    if st.get("max_weight") and not isinstance(st["strategy"], str):
        if any("weight" in x or "horn" in x for x in st["strategy"]):
            return out or None           # these names change how clauses are weighed
        if len(c) == 1 and c[0][1] == "=" and c[0][0]:
            return out or None           # rewrite rules are made lighter
        if weight(c, st) > st["max_weight"]:
            out.append("max_weight")
    return out


def problem(r, eq=None):
    """(clauses, text) of a problem of any kind, as clauses"""
    k = r.random()
    if k < .3:
        xs = list(planted.clausal(r).clauses)
    elif k < .6 or eq:
        xs = list(planted.equational(r).clauses)
    else:
        xs = list(unsat.problem(r)[1])
        if any(isinstance(x[0], str) for x in xs if x):
            xs = list(planted.clausal(r).clauses)
    return [x for x in xs if x]


def growing(r):
    v = lambda: r.choice(("X", "Y", "Z"))
    out = ["p(X,Y) | q(f(X),Y).", "-q(X,Y) | p(f(X),g(Y)).", "-p(X,Y) | p(g(X),f(Y)) | q(Y,Y).", "p(a,b).", "-p(X,X) | r(h(X,Y),X,X) | -q(X,Y).",
           "-r(X,Y,Z) | p(X,h(Y,Z)) | p(Z,X).", "q(X,h(X,X)) | -r(X,Y,Y).", "r(a,X,f(X)).", "-q(f(X),X) | -p(X,g(X)) | r(X,X,Y).", "s.", "-s | t(X) | p(X,X).", "-t(g(X)) | q(X,a)."]
    return "\n".join(r.sample(out, r.randint(5, len(out)))) + "\n"


def units(r):
    """Unit clauses only: equations, disequations, facts. (A clause of more literals is sorted in place when it
    is first taken up, and ties turn around each time: what a run does to such clauses depends by design on the
    runs before it, by the order of the literals.)"""
    V = ["X", "Y", "Z"]

    def t(d, vs):
        k = r.random()
        if d == 0 or k < .3:
            return r.choice(("a", "b", "c"))
        if k < .55:
            return r.choice(vs)
        if k < .75:
            return "%s(%s)" % (r.choice("fg"), t(d - 1, vs))
        return "h(%s,%s)" % (t(d - 1, vs), t(d - 1, vs))
    out = []
    for _ in range(r.randint(3, 9)):
        k = r.random()
        if k < .5:
            l = "h(%s,%s)" % (t(1, V), t(2, V)) if r.random() < .5 else "%s(%s)" % (r.choice("fg"), t(2, V))
            vs = [v for v in V if v in l] or ["a"]
            out.append("%s = %s." % (l, t(2, vs)))
        elif k < .7:
            out.append("p(%s,%s)." % (t(2, V), t(2, V)))
        elif k < .85:
            out.append("-p(%s,%s)." % (t(2, V), t(2, V)))
        else:
            out.append("%s != %s." % ("f(%s)" % t(1, V), t(2, V)))
    return "\n".join(out) + "\n"


def limits(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    if r.random() < .7:
        t = growing(r)
    else:
        t = "\n".join(c_text(c) + "." if not c_text(c).endswith(".") else c_text(c) for c in problem(r)) + "\n"
    st = {"strategy": [r.choice(("negative_pref", "positive_pref", "unit", "knuthbendix_pref", "query_focus", "double", "hardness_pref"))] + r.choice(([], [], ["posunitpara"], ["prohibit_nested_para"])),
          "query_preference": r.choice((0, 0, 1, 2, 3, 4)), "total_seconds": 1, "arith_instantiation": 0}
    for k, vs in (("max_length", (1, 2, 3, 4, 5)), ("max_depth", (1, 2, 3, 4, 5)), ("max_size", (4, 6, 9, 13, 20)), ("max_weight", (25, 40, 60, 100, 160))):
        if r.random() < .5:
            st[k] = r.choice(vs)
    for k, vs in (("var_weight", (0, 1, 5, 20)), ("repeat_var_weight", (0, 1, 7, 20)), ("length_penalty", (0, 1, 5, 50)), ("depth_penalty", (0, 1, 5, 50))):
        if r.random() < .3:
            st[k] = r.choice(vs)
    runs = [st]
    if r.random() < .4:
        # several runs, each with its own limits
        runs = [dict(bounded(r), arith_instantiation=0, max_dseconds=3, sine=0) for _ in range(r.randint(1, 3))]
        runs.insert(r.randrange(len(runs) + 1), dict(st, max_dseconds=3))
        st = runs[0]
    f = gk.tmpfile(t)
    try:
        run = go(f, {"runs": runs} if len(runs) > 1 or r.random() < .5 else st, pl=22)
    finally:
        os.unlink(f)
    if run.timeout:
        res["inconclusive"] = 1
        return
    lines = [l for l in run.out.split("\n") if l.strip()]
    rep = {"text": t, "strategy": st, "cmd": run.cmd}
    if len(run.out) >= MAXOUT:
        lines = lines[:-2]
    n = kept = cut = 0
    rep["runs"] = runs
    for a, l in enumerate(lines[:-1]):
        h = re.match(r"\*\*\*\* run (\d+) ", l)
        if h:
            st, cut = runs[int(h.group(1)) - 1], a
            inc("limit_runs")
        m = re.match(r"\+ derived by (\w+|=|r=): (.*)", l)
        if not m or a > cut + 4000:
            continue
        rule, body = m.group(1), m.group(2)
        nxt = lines[a + 1]
        dropped = nxt.startswith("w discarded overweight")
        try:
            c = c_from_text(body)
        except Exception:
            inc("unparsed")
            continue
        o = over(c, st)
        if o is None:
            inc("weight_not_known")
            continue
        n += 1
        if dropped and not o:
            res["violations"].append(("dropped", "a clause within all limits is discarded as overweight: %s (%s)" % (body, measure(c)[:3]), rep))
            return
        if o and not dropped and rule in ("mp", "=", "fmp"):
            res["violations"].append(("kept", "a clause over the limits %s is kept: %s (%s)" % (o, body, measure(c)[:3]), rep))
            return
        inc("limit_dropped" if dropped else "limit_kept")
    inc("trace_clauses", n)
    res["distinct"].append(hash((t, json.dumps(st))))


# ---------------------------------------------------------------- names that restrict the inferences

def restrict(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    bad = lambda k, m: res["violations"].append((k, m, rep))
    ar = r.random() < .15
    u = None
    if ar:
        t = anyprob.arith(r)
        t = t[0] if isinstance(t, tuple) else t
    else:
        xs = list(unsat.problem(r)[1])
        xs = [x for x in xs if x]
        t, suf = c14.write(r, xs, "simple" if not any(isinstance(x[0], str) for x in xs) else "tptp", {}, "f")
    suf = ".txt" if ar else suf
    base = r.choice(("unit", "double", "triple", "pure_unit", "negative_pref", "positive_pref", "query_focus"))
    names = [base] + [x for x in ("posunitpara", "prohibit_nested_para") if r.random() < .4]
    r.shuffle(names)
    st = {"strategy": names, "query_preference": r.choice((0, 1, 2)), "max_dseconds": 15}
    for k in ("equality", "rewrite", "arith_instantiation"):
        if r.random() < .3:
            st[k] = 0
    for k, vs in (("max_length", (2, 3, 4, 5)), ("max_depth", (2, 3, 4, 6)), ("max_size", (6, 9, 13, 20))):
        if r.random() < .3:
            st[k] = r.choice(vs)
    f = gk.tmpfile(t, suf)
    try:
        run = go(f, st, ["-json"])
    finally:
        os.unlink(f)
    if run.timeout:
        res["inconclusive"] = 1
        return
    rep = {"text": t, "strategy": st, "cmd": run.cmd, "out": run.out[:4000]}
    o = parse_json_output(run.out)
    inc("restrict_proved" if o.proved else "restrict_not")
    ln = lambda c: sum(1 for l in c if not is_ans(l))
    poseq = lambda c: len([l for l in c if not is_ans(l)]) == 1 and [l for l in c if not is_ans(l)][0][0] and [l for l in c if not is_ans(l)][0][1] == "="
    for ans, pr in o.answers:
        by = {}
        for sid, just, c in pr:
            rule = just[0]
            ps = [parent(p) for p in just[1:] if not isinstance(p, str)]
            ps = [by[p] for p in ps if p in by]
            by[sid] = (rule, c)
            if rule == "in":
                continue
            inc("steps_" + ("eq" if rule in ("=", "r=") else rule))
            if rule == "mp" and len(ps) >= 2:
                short = min(ln(p[1]) for p in ps[:2])
                lim = 1 if "pure_unit" in names or "unit" in names else 2 if "double" in names else 3 if "triple" in names else 99
                # near the end of the given time the limits get stricter by design, never looser
                if short > lim:
                    bad("res-" + base, "a resolution step of parents with %s literals, with the strategy %s" % ([ln(p[1]) for p in ps[:2]], names))
                    return
            if rule in ("=",) and st.get("equality") == 0:
                bad("equality-off", "a paramodulation step although equality is 0")
                return
            if rule == "arithinst" and st.get("arith_instantiation") == 0:
                bad("arithinst-off", "a numeric instantiation step although arith_instantiation is 0")
                return
            if rule == "=" and "posunitpara" in names and not any(poseq(p[1]) for p in ps):
                bad("posunitpara", "a paramodulation step without a positive unit equality: %s" % (c_text(c),))
                return
            if rule in ("mp", "=") and ln(c) and len(ps) >= 2 and len(just) == 3:
                size, depth, length, _ = measure(c)
                for k, v in (("max_size", size), ("max_depth", depth), ("max_length", length)):
                    if st.get(k) and v > st[k]:
                        bad("proof-" + k, "a proof step %s has %s %d, the limit is %d" % (c_text(c), k[4:], v, st[k]))
                        return
            inc("steps_judged")
    res["distinct"].append(hash((t, json.dumps(st))))


def parent(p):
    while isinstance(p, list):
        p = p[0] if p else None
    return p


# ---------------------------------------------------------------- answers

def answers(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    cl, qs = c14.datalog(r)
    q, want = r.choice(qs)
    t, suf = c14.write(r, cl + [q], r.choice(("simple", "tptp", "json")), {}, "f")
    m = r.choice((1, 1, 2, 3, 5, 60))
    st = {"strategy": [r.choice(("negative_pref", "knuthbendix_pref"))], "query_preference": r.choice((0, 1)), "max_answers": m, "max_dseconds": 10}
    if r.random() < .3:
        # the number given before the runs, or after them
        x = dict(st)
        del x["max_answers"]
        st = {"max_answers": m, "runs": [x]} if r.random() < .5 else {"runs": [dict(x, max_answers=m + 1)], "max_answers": m}
    f = gk.tmpfile(t, suf)
    try:
        run = go(f, st, ["-json"])
    finally:
        os.unlink(f)
    if run.timeout:
        res["inconclusive"] = 1
        return
    o = parse_json_output(run.out)
    if "time limit" in run.out:
        res["inconclusive"] = 1
        return
    got = set(tuple(a[0][2]) for a, pr in o.answers if a and len(a) == 1)
    rep = {"text": t, "strategy": st, "cmd": run.cmd, "out": run.out[:2000], "want": sorted(map(str, want))}
    if len(o.answers) > m:
        res["violations"].append(("answers-many", "%d answers, max_answers is %d" % (len(o.answers), m), rep))
    elif len(o.answers) < min(m, len(want)) and run.wall < .8:
        res["violations"].append(("answers-few", "%d answers, max_answers is %d and there are %d" % (len(o.answers), m, len(want)), rep))
    elif len(got) < len(o.answers):
        inc("answers_repeated")
    inc("answers_runs")
    inc("answers_limited" if m < len(want) else "answers_all")
    res["distinct"].append(hash((t, json.dumps(st))))


# ---------------------------------------------------------------- strategies that mean the same

def bounded(r):
    """A strategy whose search ends by itself in about a second."""
    st = gen.strategy(r)
    for x in ("instgen", "propgen", "max_answers"):
        st.pop(x, 0)
    st.update(max_weight=r.choice((25, 40, 60)), max_depth=r.choice((1, 2, 3)), max_length=r.choice((1, 2, 3)))
    if r.random() < .3:
        st["max_size"] = r.choice((5, 9, 14))
    if r.random() < .2:
        st["equality"] = 0
    return st


def same(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    kind = r.choice(("after", "after", "after", "order", "default", "override", "later", "list", "string", "alias", "file", "unknown", "worker", "worker", "zero"))
    if kind in ("after", "worker"):
        t = units(r)
        suf = ".txt"
    elif r.random() < .15:
        t = growing(r)
        suf = ".txt"
    else:
        xs = problem(r, r.random() < .4)
        roles = {}
        t, suf = c14.write(r, xs, r.choice(("simple", "tptp", "json")), roles, "f")
    s = bounded(r)
    js = ["-json"] if r.random() < .6 else []
    ref = {"runs": [s]}
    other, skip_head = None, 0
    front = None
    env_par = 0
    if kind == "after":
        # earlier runs, which find nothing, must not matter
        k = r.randint(1, 4)
        front = [dict(bounded(r)) for _ in range(k)]
        if r.random() < .3:
            front[r.randrange(k)].update(max_weight=5, strategy=[r.choice(("pure_unit", "hyper", "query_focus"))])
        other = {"runs": front + [s]}
    elif kind == "worker":
        front = [dict(bounded(r)) for _ in range(r.randint(1, 5))]
        other = {"runs": front + [s]}
        env_par = r.randint(2, 4)
    elif kind == "order":
        ks = [x for x in s if x not in ("weight_select_ratio", "given_queue_ratio")]
        r.shuffle(ks)
        other = {"runs": [dict({x: s[x] for x in ks}, **{x: s[x] for x in s if x not in ks})]}
    elif kind == "default":
        a, b = {}, {}
        for x in s:
            (a if r.random() < .5 else b)[x] = s[x]
        other = dict(a, runs=[b])
    elif kind == "override":
        a = {x: v for x, v in bounded(r).items() if x in s and x != "strategy"}
        other = dict(a, runs=[s])
    elif kind == "later":
        a = {x: v for x, v in bounded(r).items() if x in s and x != "strategy"}
        other = {"runs": [dict(s, **a)]}
        other.update({x: s[x] for x in a})
    elif kind == "list":
        other = s
    elif kind == "string":
        s["strategy"] = s["strategy"][:1]
        ref = {"runs": [s]}
        other = {"runs": [dict(s, strategy=s["strategy"][0])]}
    elif kind == "alias":
        s.pop("weight_select_ratio", 0)
        v = r.choice((1, 2, 7, 30))
        ref = {"runs": [dict(s, weight_select_ratio=v)]}
        other = {"runs": [dict(s, given_queue_ratio=v)]}
    elif kind == "zero":
        # the documented default values
        s2 = dict(s)
        for x, v in (("length_penalty", 1), ("depth_penalty", 0), ("var_weight", 5), ("repeat_var_weight", 7), ("equality", 1), ("rewrite", 1), ("sine", 0),
                     ("reverse_clauselist", 0), ("max_size", 0), ("max_seconds", 0), ("max_dseconds", 0), ("max_answers", 1), ("instgen", 0), ("propgen", 0), ("arith_instantiation", 1), ("total_seconds", 0)):
            if x not in s2 and r.random() < .6:
                s2[x] = v
        other = {"runs": [s2]}
    elif kind == "unknown":
        x = r.choice(("foo", "max_deepth", "Max_depth", "strategies", "print_", "seconds"))
        s2 = dict(s)
        y = None
        if r.random() < .5:
            y = r.choice(("foo", "negativepref", "Unit", "unit_pref"))
            s2["strategy"] = s2["strategy"] + [y]
            x = None
        else:
            s2[x] = r.choice((1, 0, "a"))
        other = {"runs": [s2]}
    f = gk.tmpfile(t, suf)
    try:
        lim = ["-derived"] + js
        a = go(f, ref, lim)
        if kind == "file":
            g = gk.tmpfile(json.dumps(ref, indent=r.choice((None, 2))), ".js")
            cmd = [B, f, "-parallel", "0", "-mbsize", "100", "-print", "10", "-strategy", g] + lim
            b = gk.run(["bash", "-c", 'o=$1; shift; "$@" 2>&1 | head -c $o; exit ${PIPESTATUS[0]}', "x", str(MAXOUT)] + cmd, timeout=6)
            b.cmd = cmd
            os.unlink(g)
        elif kind == "worker":
            # only the result is compared: the workers' derived clauses are mixed up
            a = go(f, ref, js)
            fr = [go(f, {"runs": [x]}, js) for x in front]
            b = go(f, other, js, par=env_par)
        else:
            b = go(f, other, lim)
        if a.timeout or b.timeout or len(a.out) >= MAXOUT or len(b.out) >= MAXOUT:
            res["inconclusive"] = 1
            return
        proved = "proof found" in a.out
        rep = {"text": t, "reference": ref, "other": other, "cmds": [a.cmd, b.cmd], "a": a.out[-2500:], "b": b.out[-2500:]}
        bad = lambda k, m: res["violations"].append((k, m, rep))
        x, y = a.out.strip(), b.out.strip()
        if kind == "worker":
            if any(q.timeout for q in fr):
                res["inconclusive"] = 1
                return
            outs = [q.out.strip() for q in fr] + [x]
            wins = [q for q in outs if "proof found" in q]
            inc("worker_wins", len(wins))
            if wins and y not in wins:
                bad("same-worker", "with %d workers the result is not that of any of the runs alone" % env_par)
            if not wins and "proof found" in y:
                bad("same-worker", "with %d workers a proof is found which none of the runs finds alone" % env_par)
        elif kind == "after":
            # what the earlier runs alone print, then exactly what the run alone prints
            h = go(f, {"runs": front}, lim)
            if h.timeout or len(h.out) >= MAXOUT:
                res["inconclusive"] = 1
                return
            if "proof found" in h.out:
                if y != h.out.strip():
                    bad("same-after", "a run after the one which found the proof changes the output")
                inc("front_proved")
            else:
                if not y.endswith(x):
                    bad("same-after", "the output of a run depends on the runs before it")
                inc("front_failed")
        elif kind == "unknown":
            w = x_name = None
            name = [k for k in json.loads(json.dumps(other["runs"][0])) if k not in s]
            name = name[0] if name else other["runs"][0]["strategy"][-1]
            if name not in b.out or "nknown" not in b.out:
                bad("unknown-silent", "the unknown setting %s is not reported" % name)
            elif not y.endswith(x) and y.split("\n")[-3:] != x.split("\n")[-3:]:
                bad("unknown-effect", "an unknown setting changes the search")
        elif x != y:
            bad("same-" + kind, "two strategies which mean the same (%s) give different outputs" % kind)
        inc("same_" + kind)
        inc("same_proved" if proved else "same_not")
        inc("lines_compared", x.count("\n") + 1)
        res["distinct"].append(hash((t, json.dumps(ref), json.dumps(other))))
        if i < 6:
            res["sample"] = {"kind": kind, "reference": ref, "other": other, "lines": x.count("\n") + 1}
    finally:
        os.unlink(f)


# ---------------------------------------------------------------- order of runs, wrong strategies

def order(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    k = r.randint(1, 8)
    runs = []
    for j in range(k):
        x = bounded(r)
        x["max_weight"] = 1000 + j          # tells the runs apart
        x["max_length"], x["max_depth"] = 1, 1
        runs.append(x)
    win = r.choice((None, r.randrange(k)))
    t = "p(a,c1) | q(b).\n-p(X,Y) | r(X).\n-q(b) | r(b) | p(b,b).\n"
    if win is not None:
        t += "e1 = e2.\ns(e1).\n-s(e2).\n"
        for j, x in enumerate(runs):
            x["equality"] = 0
        runs[win] = {"max_weight": 1000 + win, "strategy": ["unit"], "query_preference": 0}
    st = {"runs": runs}
    f = gk.tmpfile(t)
    try:
        run = go(f, st, pl=12)
    finally:
        os.unlink(f)
    if run.timeout:
        res["inconclusive"] = 1
        return
    rep = {"text": t, "strategy": st, "cmd": run.cmd, "out": run.out[-3000:]}
    nos = [int(x) for x in re.findall(r"\*\*\*\* run (\d+) starts", run.out)]
    seen = [int(x) for x in re.findall(r'^\{[^\n]*"max_weight":\s*(\d+)', run.out, re.M)]
    want = list(range(1, (k if win is None else win + 1) + 1))
    if nos != want:
        res["violations"].append(("order", "the runs started are %s, not %s" % (nos, want), rep))
    elif seen != [999 + j for j in want]:
        res["violations"].append(("order-text", "the runs started have the strategies %s" % seen, rep))
    elif (win is not None) != ("proof found" in run.out):
        res["violations"].append(("order-result", "the result of the runs is wrong", rep))
    inc("order_runs", k)
    res["distinct"].append(hash(json.dumps(st)))


def malformed(r, res, i):
    inc = lambda k, n=1: res["counts"].__setitem__(k, res["counts"].get(k, 0) + n)
    s = json.dumps({"runs": [bounded(r)]} if r.random() < .5 else bounded(r))
    k = r.choice(("cut", "cut", "garbage", "type", "quote"))
    if k == "cut":
        s = s[:r.randrange(0, len(s))]
    elif k == "garbage":
        j = r.randrange(1, len(s))
        s = s[:j] + r.choice(("}", "]", "{", "[", "'")) + s[j:]
    elif k == "type":
        s = r.choice(("[1,2]", "[]", "3", "null", '"unit"', "true", "[" + s + "]"))
    else:
        s = s.replace('"', "'")
    try:
        v = json.loads(s)
        ok = isinstance(v, dict)
    except ValueError:
        ok = False
    if ok:
        return
    f = gk.tmpfile("p(a).\n-p(X) | q(X).\n-q(a).\n")
    par = r.choice((0, 0, 3))
    try:
        run = go(f, s, r.choice(([], ["-json"])), par=par)
    finally:
        os.unlink(f)
    if run.timeout:
        res["inconclusive"] = 1
        return
    low = run.out.lower()
    rep = {"strategy": s, "cmd": run.cmd, "out": run.out[:1000], "rc": run.rc}
    if run.rc < 0 or run.rc > 128:
        res["violations"].append(("malformed-crash", "exit status %s for a malformed strategy" % run.rc, rep))
    elif "error" not in low and "warning" not in low:
        if s.lstrip().startswith(("{", "[")) or k == "type":
            res["violations"].append(("malformed-silent", "a malformed strategy is not reported: %s" % s[:100], rep))
    elif "proof found" in low:
        res["violations"].append(("malformed-used", "a malformed strategy is used: %s" % s[:100], rep))
    inc("malformed")
    res["distinct"].append(hash(s))


KINDS = (same, limits, same, restrict, answers, same, limits, same, order, restrict, same, malformed)


def case(i):
    r = gk.rng("C29", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 1}
    k = KINDS[i % len(KINDS)]
    res["counts"]["kind_" + k.__name__] = 1
    k(r, res, i)
    res["violations"] = [(a, b, dict(c, seed=gk.SEED, case=i)) for a, b, c in res["violations"]]
    return res


def main():
    global B
    c = gk.Check("C29")
    B = gk.build("plain")
    n = 1200 if gk.QUICK else 40000
    gk.cases(c, case, range(n), 6)
    c.finish("search traces, proofs and outputs under generated strategies: limits judged on every derived clause of the trace, inference restrictions on every proof step, answers counted, "
             "and outputs with all derived clauses compared between strategies that must mean the same; distinct: (problem, strategy)",
             need={"trace_clauses": n, "limit_dropped": n // 6, "limit_kept": n // 2, "limit_runs": n // 8, "steps_judged": n // 5, "lines_compared": n * 3, "order_runs": n // 6, "front_failed": n // 40, "answers_limited": n // 100})


if __name__ == "__main__":
    gk.main(main)
