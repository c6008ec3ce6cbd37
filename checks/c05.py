"""C05: on function-free problems a complete strategy (and the automatic portfolio) finds a proof whenever there is one."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, ground
from logic import *

B = None
BASES = ["negative_pref", "positive_pref", "hyper", "hardness_pref", "knuthbendix_pref"]


def problem(r):
    preds, funs, consts = gen.signature(r)
    sig = (preds, [], consts)
    eqp = r.choice((0, 0, 0.3))
    n = r.choice((6, 9, 12, 16, 20))
    cl = []
    while len(cl) < n:
        c = gen.rclause(r, sig, eqp, 4)
        if any(l[1] == "=" and (isvar(l[2][0]) or isvar(l[2][1])) for l in c):
            continue
        if not gen.tautology(c):
            cl.append(c)
    return cl, [c for c, _ in consts]


def present(r, cl):
    """The same problem, written differently: order, names, duplicates, syntax."""
    cl = list(cl)
    r.shuffle(cl)
    out = []
    ren = {v: v for v in gen.VARS}
    for c in cl:
        c = list(c)
        if r.random() < 0.5:
            r.shuffle(c)
        if r.random() < 0.3:
            names = r.sample(["X", "Y", "Z", "U", "W", "Abc", "X1", "X20"], 4)
            s = {v: ("v", n) for v, n in zip(gen.VARS, names)}
            c = [subst_lit(l, s) for l in c]
        if r.random() < 0.3:
            c = [(l[0], l[1], (l[2][1], l[2][0])) if l[1] == "=" else l for l in c]
        if r.random() < 0.1:
            c.append(r.choice(c))
        out.append(tuple(c))
        if r.random() < 0.1:
            out.append(tuple(c))
    k = r.choice(("simple", "tptp", "json"))
    if k == "simple":
        return "\n".join(c_text(c) for c in out), ".txt"
    if k == "tptp":
        return "\n".join(c_tptp(c, "c%d" % i, r.choice(("axiom", "hypothesis", "negated_conjecture"))) for i, c in enumerate(out)), ".p"
    return json.dumps([c_json(c) for c in out]), ".js"


def case(i):
    r = gk.rng("C05", i)
    cl, consts = problem(r)
    truth = ground.ground_sat(cl, consts)
    res = {"counts": {"truth_" + truth: 1}, "violations": [], "distinct": [], "evals": 0}
    if truth == "unknown":
        res["inconclusive"] = 1
        return res
    todo = [(b, {"strategy": [b], "query_preference": r.choice((0, 0, 1, 2) if b == "negative_pref" else (0,)), "max_seconds": 20}) for b in r.sample(BASES, 2)]
    if truth == "unsat":
        todo.append(("auto", None))
    if any(l[1] == "=" for c in cl for l in c):
        todo = [t for t in todo if t[0] not in ("hyper", "hardness_pref")]     # hyper: see fixed_case
    for name, strat in todo:
        txt, suf = present(r, cl)
        if strat and r.random() < 0.2:
            strat["rewrite"] = 0
        if strat and r.random() < 0.1:
            strat["reverse_clauselist"] = 1
        run = gk.gkc(B, txt, fmt=suf, strategy=strat, seconds=20, timeout=90)
        o = parse_json_output(run.out)
        res["evals"] += 1
        rep = {"text": txt, "suffix": suf, "cmd": run.cmd, "truth_by_grounding": truth, "out": run.out[:2000], "seed": gk.SEED, "case": i}
        if truth == "unsat":
            if o.proved:
                res["counts"]["proved_" + name] = 1
                res["distinct"].append(hash((txt, name)))
            elif o.result and "time limit" in o.result:
                res["inconclusive"] = res.get("inconclusive", 0) + 1
            elif run.timeout:
                res["inconclusive"] = res.get("inconclusive", 0) + 1
            else:
                res["violations"].append(("incomplete-" + name, "unsatisfiable function-free problem not proved (%s): %s" % (name, (o.result or o.error or "no result, exit %s" % run.rc)), rep))
        else:
            if o.proved:
                res["violations"].append(("false-proof-" + name, "satisfiable function-free problem proved", rep))
            elif o.result and not run.timeout:
                res["counts"]["saturated"] = res["counts"].get("saturated", 0) + 1
    if i < 3:
        res["sample"] = {"clauses": [c_text(c) for c in cl], "truth": truth, "tried": [n for n, _ in todo]}
    return res


HYPER_EQ = """cnf(c0,axiom,(~p2(c1,Y) | ~p2(c1,Y))).
cnf(c1,axiom,(p2(c1,Y))).
cnf(c2,negated_conjecture,(~p0(c1,X) | ~p0(c0,c0))).
cnf(c3,hypothesis,(p2(X,X) | ~p2(c0,X))).
cnf(c4,hypothesis,(c0 = c1)).
cnf(c5,negated_conjecture,(p2(c1,c1) | ~p1(c0,c1) | ~p2(c1,U) | ~p1(U,c0) | p2(c1,c1))).
"""


def fixed_case(_):
    """Known finding: hyper with equality may rewrite an equation by itself to c0=c0, paramodulate it into partial
    hyperresolvents for ever and starve the rest."""
    run = gk.gkc(B, HYPER_EQ, fmt=".p", strategy={"strategy": ["hyper"], "query_preference": 0, "max_seconds": 5}, timeout=60)
    o = parse_json_output(run.out)
    res = {"counts": {"fixed_hyper_equality": 1}, "violations": []}
    if not o.proved and not run.timeout:
        res["violations"].append(("hyper-equality-loop", "hyper misses a proof on the listed problem with a unit equation", {"text": HYPER_EQ}))
    return res


def main():
    global B
    c = gk.Check("C05")
    B = gk.build("plain")
    n = 1200 if gk.QUICK else 40000
    gk.cases(c, fixed_case, [0])
    gk.cases(c, case, range(n), 4)
    c.finish("random function-free clause sets, with and without equality, decided by grounding them over their constants with z3; non-trivial: an unsatisfiable one that gkc proved",
             need={"distinct": n // 2, "proved_auto": n // 4, "truth_sat": 50})


if __name__ == "__main__":
    gk.main(main)
