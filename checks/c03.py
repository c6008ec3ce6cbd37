"""C03: every printed proof is a checkable derivation, the same in all three output formats."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, unsat, ground, planted
from logic import *

B = None


def text_proofs(out):
    """[(answer, [(id, premises-or-name, clause)])] of the simple text format."""
    res = []
    for part in re.split(r"^proof:$", out, flags=re.M)[1:]:
        steps = []
        for m in re.finditer(r"^ ?(\d+): \[([^\]]*)\] (.*)$", part, re.M):
            f = [x.strip() for x in m.group(2).split(",")]
            steps.append((int(m.group(1)), f, c_from_text(m.group(3))))
        res.append(steps)
    return res


def tptp_proofs(out):
    res = []
    for part in re.findall(r"% SZS output start CNFRefutation[^\n]*\n(.*?)% SZS output end CNFRefutation", out, re.S):
        steps, fofs = [], []
        for m in re.finditer(r"^(cnf|fof)\(('[^'\n]*'), (\w+), ([^\n]*?)(,\n  (?:inference\((\w+),\[[^\]\n]*\],\[([^\n]*)\]\)|input))?\)\. ?$", part, re.M):
            name = m.group(2).strip("'")
            if m.group(1) == "fof":
                fofs.append((name, m.group(3), m.group(4), m.group(6), m.group(7)))
            else:
                src = [x.strip().strip("'") for x in (m.group(7) or "").split(",") if x.strip()]
                steps.append((name, m.group(6), src, m.group(4)))
        heads = len(re.findall(r"^(?:cnf|fof)\(", part, re.M))
        res.append((steps, fofs, heads))
    return res


def premises(just):
    out = []
    for a in just[1:]:
        if isinstance(a, bool):
            continue
        if isinstance(a, int):
            out.append(a)
        elif isinstance(a, list) and a and isinstance(a[0], int):
            out.append(a[0])
    return out


def formulas_problem(r):
    """First-order axioms with a conjecture they entail: one of the axioms weakened, or an unsatisfiable set split."""
    p = planted.first_order(r, n=r.randint(1, 3), depth=r.choice((2, 3)))
    fs = p.formulas
    k = r.choice(("self", "disj", "conj", "cases"))
    if k == "self":
        goal = r.choice(fs)
    elif k == "disj":
        goal = ("or", r.choice(fs), planted.rformula(r, p.sig, p.model, 2, [], 0))
    elif k == "conj" and len(fs) > 1:
        goal = ("and",) + tuple(r.sample(fs, 2))
    else:
        f = r.choice(fs)
        goal = ("eqv", ("not", f), ("not", ("not", ("not", f))))
    return fs, goal


def case(i):
    r = gk.rng("C03", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 1}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    fof = r.random() < 0.3
    names = {}
    if fof:
        fs, goal = formulas_problem(r)
        txt = "\n".join(["fof(f%d,axiom,%s)." % (j, f_text(f)) for j, f in enumerate(fs)] + ["fof(goal,conjecture,%s)." % f_text(goal)])
        suf, kind = ".p", "fof"
        cr = gk.gkc(B, txt, fmt=suf, args=["-clausify"], timeout=20)
        try:
            inputs = [(d.get("@name"), c_from_json(d["@logic"])) for d in json.loads(cr.out)]
        except (ValueError, KeyError, TypeError):
            res["inconclusive"] = 1
            inc("clausify_unreadable")
            return res
        original = {"f%d" % j: f for j, f in enumerate(fs)}
        original["goal"] = goal
    else:
        kind, cl = unsat.problem(r)
        ans = None
        if r.random() < 0.3:        # turn a negative clause into a query with an answer literal
            neg = [j for j, c in enumerate(cl) if all(not l[0] for l in c)]
            if neg:
                j = r.choice(neg)
                vs = sorted(clause_vars(cl[j]))
                cl[j] = cl[j] + ((True, "$ans", tuple(("v", v) for v in vs)),)
                ans = True
        syn = r.choice(("simple", "tptp", "json"))
        if syn == "simple":
            txt, suf = "\n".join(c_text(c) for c in cl), ".txt"
        elif syn == "tptp":
            txt, suf = "\n".join(c_tptp(c, "c%d" % j, r.choice(("axiom", "axiom", "hypothesis", "negated_conjecture"))) for j, c in enumerate(cl)), ".p"
            names = {"c%d" % j: c for j, c in enumerate(cl)}
        else:
            js = []
            for j, c in enumerate(cl):
                if r.random() < 0.6:
                    js.append({"@name": "c%d" % j, "@logic": c_json(c)})
                    names["c%d" % j] = c
                else:
                    js.append(c_json(c))
            txt, suf = json.dumps(js), ".js"
        inputs = [(None, c) for c in cl]
    strat = None
    k = r.random()
    if k < 0.5:
        strat = gen.strategy(r)
        strat["max_seconds"] = 3
    jr = gk.gkc(B, txt, fmt=suf, strategy=strat, seconds=2, timeout=60)
    inc("kind_" + kind)
    if not parse_json_output(jr.out).proved:
        inc("not_proved")
        return res
    runs = {m: gk.gkc(B, txt, fmt=suf, strategy=strat, mode=a, seconds=4, timeout=60) for m, a in (("text", None), ("tptp", "-tptp"))}
    runs["json"] = jr
    rep = {"text": txt, "suffix": suf, "strategy": strat, "cmd": runs["json"].cmd, "seed": gk.SEED, "case": i,
           "out": runs["json"].out[:4000], "out_text": runs["text"].out[:4000], "out_tptp": runs["tptp"].out[:6000]}

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    o = parse_json_output(runs["json"].out)
    if o.junk:
        bad("unreadable-json", "the JSON output has text that is not JSON: %r" % o.junk[0][:100])
        return res
    for a, pr in o.answers:
        inc("proofs")
        have = {}
        if not pr:
            bad("empty-proof", "a reported proof has no steps")
            continue
        for n, (sid, just, c) in enumerate(pr):
            if sid != n + 1:
                bad("step-number", "step %r comes at position %d" % (sid, n + 1))
            if just[0] == "in":
                inc("step_in")
                nm = just[1] if len(just) > 1 else None
                if fof:
                    pool = [x for m, x in inputs if m == nm]
                elif nm in names:
                    pool = [names[nm]]
                elif suf == ".p":
                    bad("input-name", "input step %d names %r, which is not an input" % (sid, nm))
                    pool = []
                else:
                    pool = [x for _, x in inputs]
                if not any(variant(c, x) for x in pool):
                    bad("input-step", "input step %d %s is not the input clause it names (%r)" % (sid, c_text(c), nm))
            else:
                ps = premises(just)
                inc("step_" + just[0])
                if not ps or any(q not in have for q in ps):
                    bad("premise", "step %d cites a premise that is not an earlier step: %r" % (sid, just))
                    have[sid] = c
                    continue
                t = "yes" if any(variant(c, have[q]) for q in ps) else ground.follows([have[q] for q in ps], c, 1500)
                inc("entailed_" + t)
                if t == "no":
                    bad("not-entailed", "step %d %s does not follow from its premises %s" % (sid, c_text(c) or "false", [c_text(have[q]) for q in ps]))
                elif t == "unknown":
                    res["inconclusive"] = res.get("inconclusive", 0) + 1
                else:
                    res["distinct"].append(hash((c, tuple(have[q] for q in ps))))
            have[sid] = c
        last = pr[-1][2]
        if a is None:
            if last != ():
                bad("last-step", "the proof ends with %s, not with a contradiction" % c_text(last))
        else:
            inc("answers")
            if not variant(last, a):
                bad("last-step", "the proof ends with %s, not with its answer %s" % (c_text(last), c_text(a)))
    # the same proof in the other formats
    # (a run that used up a time slice need not take the same path twice)
    slow = max(x.wall for x in runs.values()) > (1 if strat else 0.09)
    if slow:
        inc("slow_not_compared")
    lim = ("text", "tptp") if slow else ()
    if "text" not in lim:
        try:
            tp = text_proofs(runs["text"].out)
        except ParseError as e:
            bad("unreadable-text", "text proof: %s" % e)
            tp = None
        if tp is not None:
            if len(tp) != len(o.answers):
                bad("text-differs", "%d proofs in text, %d in JSON" % (len(tp), len(o.answers)))
            for (a, pr), st in zip(o.answers, tp):
                if [x[0] for x in st] != [x[0] for x in pr]:
                    bad("text-differs", "the text proof has steps %s, the JSON proof %s" % ([x[0] for x in st], [x[0] for x in pr]))
                    continue
                for (n, f, c), (m, just, d) in zip(st, pr):
                    inc("text_steps")
                    if not variant(c, d):
                        bad("text-differs", "step %d is %s in text and %s in JSON" % (n, c_text(c), c_text(d)))
                    tpv = [int(x.split(".")[0]) for x in f[1:] if re.match(r"\d+(\.\w+)*$", x)] if f[0] != "in" else []
                    if f[0] != just[0] or (f[0] != "in" and tpv != premises(just)):
                        bad("text-differs", "step %d is justified by %s in text and by %s in JSON" % (n, f, just))
                    if f[0] == "in" and len(just) > 1 and not just[1].startswith("frm_") and just[1] not in f:
                        bad("text-differs", "step %d comes from %s in text and from %s in JSON" % (n, f, just))
    if "tptp" not in lim:
        tp = tptp_proofs(runs["tptp"].out)
        if len(tp) != len(o.answers):
            bad("tptp-differs", "%d readable proofs in TPTP, %d in JSON" % (len(tp), len(o.answers)))
        for (a, pr), (st, fofs, heads) in zip(o.answers, tp):
            if len(st) + len(fofs) != heads:
                bad("unreadable-tptp", "%d TPTP proof lines, %d readable" % (heads, len(st) + len(fofs)))
                continue
            if [x[0] for x in st] != [str(x[0]) for x in pr]:
                bad("tptp-differs", "the TPTP proof has steps %s, the JSON proof %s" % ([x[0] for x in st], [x[0] for x in pr]))
                continue
            for (n, rule, src, ctext), (m, just, d) in zip(st, pr):
                inc("tptp_steps")
                try:
                    c = c_from_text(ctext)
                except ParseError as e:
                    bad("unreadable-tptp", "TPTP step %s: %s" % (n, e))
                    continue
                if not variant(c, d):
                    bad("tptp-differs", "step %s is %s in TPTP and %s in JSON" % (n, ctext, c_text(d)))
                if just[0] == "in":
                    if len(just) > 1 and not just[1].startswith("frm_") and src not in ([just[1]], [just[1] + "_$sk"]):
                        bad("tptp-differs", "input step %s comes from %s in TPTP and %s in JSON" % (n, src, just))
                elif src != [str(x) for x in premises(just)]:
                    bad("tptp-differs", "step %s cites %s in TPTP and %s in JSON" % (n, src, premises(just)))
            if fof:
                for name, role, ft, rule, src in fofs:
                    if rule is not None:
                        continue
                    try:
                        f = f_from_text(ft)
                    except ParseError as e:
                        bad("unreadable-tptp", "TPTP input formula: %s" % e)
                        continue
                    g = original.get(name)
                    if g is None:
                        bad("tptp-input", "the TPTP proof has an input formula %s that is not in the input" % name)
                        continue
                    preds, funs = f_syms(g)
                    p2, f2 = f_syms(f)
                    if (p2 - preds) or (f2 - funs):
                        bad("tptp-input", "input formula %s is printed with other symbols: %s" % (name, ft))
                        continue
                    for _ in range(12):
                        m = Structure.random(r, r.choice((1, 2, 2, 3)), sorted(funs), sorted(preds))
                        if m.formula(f_closed(f)) != m.formula(f_closed(g)):
                            bad("tptp-input", "input formula %s is printed with another meaning: %s" % (name, ft))
                            break
                    inc("tptp_inputs")
    if i < 8 and o.answers:
        res["sample"] = {"text": txt[:300], "proof": [[s[0], s[1], c_text(s[2]) or "false"] for s in o.answers[0][1]][:12]}
    return res


def main():
    global B
    c = gk.Check("C03")
    B = gk.build("plain")
    n = 1500 if gk.QUICK else 40000
    gk.cases(c, case, range(n), 4)
    c.finish("proofs of random unsatisfiable problems, entailed conjectures and queries, every step checked by z3 against the premises it cites, in three output formats; "
             "distinct: derivation steps (clause and premises) confirmed by z3",
             need={"proofs": n // 2, "distinct": n, "step_in": n, "text_steps": n, "tptp_steps": n})


if __name__ == "__main__":
    gk.main(main)
