"""C06: problems unsatisfiable by construction, with functions and equality, are proved."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, unsat
from logic import *

B = None
BASES = ["negative_pref", "positive_pref", "hardness_pref", "hyper"]
LIMIT = 10


def write(r, cl):
    k = r.choice(("simple", "tptp", "json"))
    if k == "simple":
        return "\n".join(c_text(c) for c in cl), ".txt"
    if k == "tptp":
        return "\n".join(c_tptp(c, "c%d" % i, r.choice(("axiom", "axiom", "negated_conjecture"))) for i, c in enumerate(cl)), ".p"
    return json.dumps([c_json(c) for c in cl]), ".js"


def case(i):
    r = gk.rng("C06", i)
    kind, cl = unsat.problem(r)
    txt, suf = write(r, cl)
    res = {"counts": {"kind_" + kind: 1}, "violations": [], "distinct": [], "evals": 0}
    todo = [("auto", None)]
    b = r.choice(BASES)
    if not (b in ("hyper", "hardness_pref") and any(l[1] == "=" for c in cl for l in c)):
        todo.append((b, {"strategy": [b], "query_preference": r.choice((0, 0, 1, 2) if b == "negative_pref" else (0,)), "max_seconds": LIMIT}))
    for name, strat in todo:
        run = gk.gkc(B, txt, fmt=suf, strategy=strat, seconds=LIMIT, timeout=90)
        o = parse_json_output(run.out)
        res["evals"] += 1
        key = "%s_%s" % (kind, name)
        if o.proved:
            res["counts"]["proved_" + key] = 1
            res["distinct"].append(hash((txt, name)))
        elif run.timeout or (o.result and "time limit" in o.result):
            res["inconclusive"] = res.get("inconclusive", 0) + 1
            res["counts"]["time_" + key] = 1
        else:
            res["violations"].append(("not-proved-" + key, "problem unsatisfiable by construction not proved: %s" % (o.result or o.error or "no result, exit %s" % run.rc),
                                      {"text": txt, "suffix": suf, "cmd": run.cmd, "out": run.out[:2000], "err": run.err[-1000:], "seed": gk.SEED, "case": i}))
    if i < 3:
        res["sample"] = {"kind": kind, "clauses": [c_text(c) for c in cl]}
    return res


def main():
    global B
    c = gk.Check("C06")
    B = gk.build("plain")
    n = 4000 if gk.QUICK else 30000
    gk.cases(c, case, range(n), 2)
    c.finish("clause sets unsatisfiable by construction (generalised ground cores, equation and rule chains, transitive closures, algebra), proved by the portfolio and single strategies",
             need={"distinct": n})


if __name__ == "__main__":
    gk.main(main)
