"""C01: no proof is reported for a satisfiable input / an unproved conjecture."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted
from logic import *

B = None


def verdicts(out, mode):
    """All the places in an output that claim a proof."""
    t = out
    return ("proof found" in t.replace("proof not found", "")) or "SZS status Theorem" in t or "SZS status Unsatisfiable" in t \
        or "SZS output start" in t or "ContradictoryAxioms" in t


def case(i):
    r = gk.rng("C01", i)
    kind = r.choice(("clausal", "clausal", "clausal", "equational", "fof", "fof"))
    p = {"clausal": planted.clausal, "equational": planted.equational, "fof": planted.first_order}[kind](r)
    conj = None
    if r.random() < 0.4:
        # a conjecture false in the planted model: not a theorem of the axioms
        f = planted.rformula(r, p.sig, p.model, r.choice((0, 1, 2)), [], 0.2 if p.eq else 0)
        if p.model.formula(f):
            f = ("not", f)
        conj = f
    syntax = r.choice(("simple", "tptp", "json"))
    txt, suf = planted.text_of(r, p, syntax, conj)
    mode = r.choice(("-json", "-tptp", None))
    x = r.random()
    par = 0
    if x < 0.12:
        strat, secs, how = None, 1, "auto"
        if r.random() < 0.5:
            par = r.choice((2, 4))
    elif x < 0.3:
        strat = {"runs": [dict(gen.limits(r, gen.strategy(r)), max_dseconds=1) for _ in range(r.randint(2, 4))]}
        secs, how = None, "runs"
        if r.random() < 0.3:
            par = r.choice((2, 3))
    else:
        strat, secs, how = gen.strategy(r), None, "single"
        if r.random() < 0.7:
            strat = gen.limits(r, strat)
        strat["max_dseconds"] = r.choice((1, 2, 4))
    run = gk.gkc(B, txt, fmt=suf, strategy=strat, mode=mode, parallel=par, seconds=secs, timeout=60)
    res = {"counts": {"kind_" + kind: 1, "syntax_" + syntax: 1, "how_" + how: 1, "conjecture": int(conj is not None)}, "violations": []}
    rep = {"text": txt, "suffix": suf, "cmd": run.cmd, "strategy": strat, "out": run.out[-3000:], "domain": p.model.d,
           "model": str(p.model.func) + str(p.model.pred), "seed": gk.SEED, "case": i}
    if verdicts(run.out, mode):
        res["violations"].append(("false-proof", "a proof is reported for a %s problem that has a model of size %d" % (kind, p.model.d), rep))
    elif run.timeout:
        res["inconclusive"] = 1
    elif run.crashed() or '"error"' in run.out:
        res["inconclusive"] = 1
        res["counts"]["crash_or_error"] = 1
    else:
        if "not found" in run.out or "SZS status" in run.out:
            res["counts"]["verdict_no_proof"] = 1
            res["distinct"] = [hash(txt)]
        else:
            res["inconclusive"] = 1
            res["counts"]["no_verdict"] = 1
    if i < 3:
        res["sample"] = {"text": txt[:600], "strategy": strat, "model_size": p.model.d, "output": run.out[:200]}
    return res


def main():
    global B
    c = gk.Check("C01")
    B = gk.build("plain")
    n = 2000 if gk.QUICK else 60000
    gk.cases(c, case, range(n), 4)
    c.finish("random problems true in a planted finite structure (so satisfiable; conjectures false in it), in three syntaxes, under random strategies, "
             "the automatic portfolio and parallel workers; non-trivial: gkc read it and answered; distinct by problem text",
             need={"distinct": n // 2, "conjecture": n // 10, "kind_fof": 50, "kind_equational": 50})


if __name__ == "__main__":
    gk.main(main)
