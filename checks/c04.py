"""C04: answers are true, distinct, complete on function-free Horn programs, and no more than asked for."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, ground, itertools, unsat
from logic import *

B = None
BASES = ["negative_pref", "positive_pref", "hyper", "hardness_pref", "auto", "unit", "query_focus"]
COMPLETE = ("negative_pref", "positive_pref", "hyper", "auto")


def horn_program(r):
    """Range-restricted function-free Horn rules and facts: (facts, rules, constants)."""
    preds = [("r%d" % i, r.choice((1, 1, 2, 2, 3))) for i in range(r.randint(2, 4))]
    consts = ["k%d" % i for i in range(r.randint(2, 5))]
    facts = set()
    for _ in range(r.randint(2, 9)):
        p, n = r.choice(preds)
        facts.add((p, tuple(r.choice(consts) for _ in range(n))))
    rules = []
    for _ in range(r.randint(1, 4)):
        vs = ["X", "Y", "Z"][:r.randint(1, 3)]
        body = []
        for _ in range(r.randint(1, 3)):
            p, n = r.choice(preds)
            body.append((p, tuple(r.choice(vs) if r.random() < 0.85 else r.choice(consts) for _ in range(n))))
        bv = sorted({a for _, t in body for a in t if a in vs})
        p, n = r.choice(preds)
        head = (p, tuple(r.choice(bv) if bv and r.random() < 0.85 else r.choice(consts) for _ in range(n)))
        if head not in body:
            rules.append((body, head))
    return preds, facts, rules, consts


def match(body, model, env):
    if not body:
        yield env
        return
    p, ts = body[0]
    for q, vals in model:
        if q != p or len(vals) != len(ts):
            continue
        e = dict(env)
        for t, v in zip(ts, vals):
            if t in ("X", "Y", "Z", "U"):
                if e.setdefault(t, v) != v:
                    break
            elif t != v:
                break
        else:
            yield from match(body[1:], model, e)


def least_model(facts, rules):
    m = set(facts)
    while True:
        new = {(h[0], tuple(env.get(t, t) for t in h[1])) for b, h in rules for env in match(b, m, {})} - m
        if not new:
            return m
        m |= new


def tm(t):
    return ("v", t) if t in ("X", "Y", "Z", "U") else (t,)


def atom(a, pos):
    return (pos, a[0], tuple(tm(t) for t in a[1]))


def write(r, cl, query, qvars, kind=None):
    """(text, suffix); the query is a list of atoms with the answer variables qvars."""
    k = kind or r.choice(("clause", "json_clause", "question", "tptp"))
    qc = tuple(atom(a, False) for a in query) + ((True, "$ans", tuple(("v", v) for v in qvars)),)
    if k == "question":
        if len(query) == 1:
            q = l_json(atom(query[0], True))
        else:
            q = []
            for a in query:
                q += [l_json(atom(a, True)), "&"]
            q = q[:-1]
        js = [c_json(c) for c in cl] + [{"@question": q}]
        return json.dumps(js), ".js", k
    allc = cl + [qc]
    if r.random() < 0.5:
        r.shuffle(allc)
    if k == "clause":
        return "\n".join(c_text(c) for c in allc), ".txt", k
    if k == "tptp":
        return "\n".join(c_tptp(c, "c%d" % j, r.choice(("axiom", "hypothesis"))) for j, c in enumerate(allc)), ".p", k
    return json.dumps([c_json(c) for c in allc]), ".js", k


def horn(r, i, res):
    preds, facts, rules, consts = horn_program(r)
    m = least_model(facts, rules)
    vs = ["X", "Y", "Z"][:r.randint(1, 2)]
    query = []
    for _ in range(r.choice((1, 1, 2))):
        p, n = r.choice(preds)
        query.append((p, tuple(r.choice(vs) if r.random() < 0.85 else r.choice(consts) for _ in range(n))))
    qv = []
    for _, ts in query:
        for t in ts:
            if t in vs and t not in qv:
                qv.append(t)
    if not qv:          # an answer literal needs an argument
        p, n = r.choice(preds)
        query, qv = [(p, tuple(["X", "Y", "Z"][:n]))], ["X", "Y", "Z"][:n]
    truth = {tuple(e[v] for v in qv) for e in match(query, m, {})}
    cl = [(atom(f, True),) for f in sorted(facts)] + [tuple([atom(a, False) for a in b] + [atom(h, True)]) for b, h in rules]
    r.shuffle(cl)
    txt, suf, kind = write(r, cl, query, qv)
    base = r.choice(BASES)
    n = r.choice((len(truth) + 1, len(truth) + 3, max(1, len(truth)), max(1, len(truth) // 2), 1))
    strat = {"max_answers": n}
    if base != "auto":
        strat.update({"strategy": [base], "query_preference": r.choice((0, 0, 1, 2) if base == "negative_pref" else (0,))})
    if base != "auto" and r.random() < 0.7:
        strat["max_seconds"] = 2
    run = gk.gkc(B, txt, fmt=suf, strategy=strat, seconds=4, timeout=60)
    o = parse_json_output(run.out)
    rep = {"text": txt, "suffix": suf, "strategy": strat, "cmd": run.cmd, "out": run.out[:3000], "err": run.err[-800:], "truth": sorted(truth), "seed": gk.SEED, "case": i}
    cnt = res["counts"]

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    if run.timeout or (o.result and "time limit" in o.result):
        res["inconclusive"] = 1
        cnt["horn_time"] = cnt.get("horn_time", 0) + 1
        return
    if o.result is None:
        bad("no-result", "no result: %s" % (o.error or run.rc))
        return
    got = []
    for a, _ in o.answers:
        if a is None:
            bad("no-answer", "a proof without an answer, though the query has one")
            continue
        if len(a) != 1 or a[0][1] != "$ans" or any(isvar(t) for t in a[0][2]):
            # a disjunction or a general answer over a least Herbrand model: judged by its members
            cnt["general"] = cnt.get("general", 0) + 1
            if not any(x[0] and x[1] == "$ans" for x in a):
                bad("answer-form", "answer %s" % c_text(a))
            continue
        got.append(tuple(t[0] for t in a[0][2]))
    cnt["answers"] = cnt.get("answers", 0) + len(got)
    if qv:
        wrong = [g for g in got if g not in truth]
        if wrong:
            bad("wrong-answer", "answer %s is false: the program has only %s" % (wrong[0], sorted(truth)))
        if len(set(got)) != len(got):
            bad("repeated-answer", "answers are repeated: %s" % sorted(got))
        if len(o.answers) > n:
            bad("too-many-answers", "%d answers, %d asked" % (len(o.answers), n))
        if base in COMPLETE and len(set(got)) < min(n, len(truth)) and len(got) == len(o.answers):
            bad("missing-answer-" + base, "%d of %d answers asked for %d (%s)" % (len(set(got)), len(truth), n, o.result))
        if truth and not o.proved and base in COMPLETE:
            bad("no-answer-" + base, "a query with answers has none: %s" % o.result)
        if not truth and o.proved:
            bad("false-answer", "a query without answers is answered")
    res["distinct"].append(hash((txt, n, base)))
    cnt["horn_" + base] = cnt.get("horn_" + base, 0) + 1
    cnt["query_" + kind] = cnt.get("query_" + kind, 0) + 1
    if len(truth) > 1:
        cnt["several"] = cnt.get("several", 0) + 1
    if i < 4:
        res["sample"] = {"text": txt[:400], "strategy": strat, "truth": sorted(truth), "got": got}


def disjunctive(r, i, res):
    """Clausal axioms with disjunctions, equality and functions: every answer must follow."""
    preds, _, consts = gen.signature(r)
    funs = r.random() < 0.4
    sig = (preds, [("f", 1)] if funs else [], consts)
    eqp = r.choice((0, 0, 0.25))
    cl = []
    while len(cl) < r.choice((5, 8, 11)):
        c = gen.rclause(r, sig, eqp, 3, 2)
        if not gen.tautology(c) and not unsat.barevar(c):
            cl.append(c)
    if not funs and ground.ground_sat(cl, [c for c, _ in consts]) != "sat":
        return              # any answer would be true
    p, n = r.choice([x for x in preds if x[1]])
    qv = ["X", "Y", "Z"][:n]
    query = [(p, tuple(qv))]
    txt, suf, kind = write(r, cl, query, qv)
    strat = gen.strategy(r)
    strat["max_answers"] = r.choice((1, 2, 3, 5))
    strat["max_seconds"] = 1
    run = gk.gkc(B, txt, fmt=suf, strategy=strat, seconds=2, timeout=60)
    o = parse_json_output(run.out)
    cnt = res["counts"]
    rep = {"text": txt, "suffix": suf, "strategy": strat, "cmd": run.cmd, "out": run.out[:3000], "seed": gk.SEED, "case": i}
    if o.result is None or not o.proved:
        cnt["disj_none"] = cnt.get("disj_none", 0) + 1
        return
    if len(o.answers) > strat["max_answers"]:
        res["violations"].append(("too-many-answers", "%d answers, %d asked" % (len(o.answers), strat["max_answers"]), rep))
    seen = []
    for a, pr in o.answers:
        if a is None:
            v = ground.follows(cl, (), 2000)
            cnt["disj_contradiction"] = cnt.get("disj_contradiction", 0) + 1
            goal = ()
        else:
            goal = tuple((True, p, l[2]) for l in a if l[1] == "$ans")
            if any(l[1] != "$ans" or not l[0] or len(l[2]) != n for l in a):
                res["violations"].append(("answer-form", "answer %s" % c_text(a), rep))
                continue
            v = ground.follows(cl, goal, 2000)
            if a in seen and not clause_vars(a):
                res["violations"].append(("repeated-answer", "answer %s is repeated" % c_text(a), rep))
            seen.append(a)
            cnt["disj_len%d" % min(len(goal), 4)] = cnt.get("disj_len%d" % min(len(goal), 4), 0) + 1
        cnt["disj_" + v] = cnt.get("disj_" + v, 0) + 1
        if v == "no":
            res["violations"].append(("false-answer", "answer %s does not follow from the axioms" % (c_text(goal) or "false"), rep))
        elif v == "unknown":
            res["inconclusive"] = res.get("inconclusive", 0) + 1
        else:
            res["distinct"].append(hash((txt, goal)))


def case(i):
    r = gk.rng("C04", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 1}
    (horn if r.random() < 0.6 else disjunctive)(r, i, res)
    return res


def main():
    global B
    c = gk.Check("C04")
    B = gk.build("plain")
    n = 6000 if gk.QUICK else 60000
    gk.cases(c, case, range(n), 4)
    c.finish("queries over random function-free Horn programs, compared with their least model, and over random clause sets, every answer checked by z3; distinct: judged queries and answers",
             need={"distinct": n // 3, "several": n // 10, "disj_yes": n // 20})


if __name__ == "__main__":
    gk.main(main)
