"""C02: every clause derived anywhere in a search is true in every model of the input."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted
from logic import *

B = None
MAXEVAL = 1500


def case(i):
    r = gk.rng("C02", i)
    kind = r.choice(("clausal", "clausal", "equational"))
    p = {"clausal": planted.clausal, "equational": planted.equational}[kind](r)
    syntax = r.choice(("simple", "tptp", "json"))
    txt, suf = planted.text_of(r, p, syntax)
    strat = gen.strategy(r)
    if r.random() < 0.7:
        strat = gen.limits(r, strat)
    strat["max_dseconds"] = r.choice((1, 2, 3))
    run = gk.gkc(B, txt, fmt=suf, strategy=strat, args=["-derived"], timeout=60)
    res = {"counts": {"kind_" + kind: 1}, "violations": [], "distinct": []}
    if run.timeout or run.crashed():
        res["inconclusive"] = 1
        res["counts"]["crash_or_timeout"] = 1
        return res
    try:
        o = parse_json_output(run.out)
    except ValueError:
        res["inconclusive"] = 1
        res["counts"]["unreadable"] = 1
        return res
    seen = set()
    cls = o.derived
    for ans, proof in o.answers:
        cls = cls + [st[2] for st in proof]
    res["counts"]["derived"] = len(cls)
    rep = {"text": txt, "suffix": suf, "cmd": run.cmd, "strategy": strat, "seed": gk.SEED, "case": i,
           "model": str(p.model.func) + str(p.model.pred)}
    for c in cls:
        if c in seen:
            continue
        seen.add(c)
        if len(seen) > MAXEVAL:
            break
        try:
            h = p.model.holds(c)
        except KeyError as e:
            # a symbol the input does not have: nothing in these problems introduces one
            res["violations"].append(("alien-symbol", "derived clause %s has a symbol %s absent from the input" % (c_text(c), e), dict(rep, clause=c_text(c))))
            break
        if h is None:
            res["counts"]["too_big"] = res["counts"].get("too_big", 0) + 1
        elif h:
            res["counts"]["true"] = res["counts"].get("true", 0) + 1
            vs = len(clause_vars(c))
            k = "len%d_vars%d_depth%d" % (min(len(c), 6), min(vs, 6), min(6, max([term_depth(a) for l in c for a in l[2]] or [0])))
            res["distinct"].append(hash((i, c)))
            res["counts"]["shape_" + k] = res["counts"].get("shape_" + k, 0) + 1
        else:
            res["violations"].append(("false-derived", "derived clause %s is false in a model of the input" % c_text(c), dict(rep, clause=c_text(c))))
            break
    if i < 2:
        res["sample"] = {"text": txt[:500], "strategy": strat, "derived": [c_text(c) for c in cls[:8]]}
    return res


def main():
    global B
    c = gk.Check("C02")
    B = gk.build("plain")
    n = 1000 if gk.QUICK else 30000
    gk.cases(c, case, range(n), 2)
    shapes = {k: c.counts.pop(k) for k in list(c.counts) if k.startswith("shape_")}
    c.counts["shapes"] = len(shapes)
    c.finish("every clause printed by -derived, and every proof step, of random searches over problems with a planted finite model, evaluated in that model "
             "over all assignments; distinct: (problem, clause) pairs evaluated", extra={"shapes": shapes},
             need={"true": 100 * n, "shapes": 20})


if __name__ == "__main__":
    gk.main(main)
