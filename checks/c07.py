"""C07: a finite structure is a model of the formulas exactly when it extends to a model of the clauses made from them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, planted, extend
from logic import *

B = BB = None


def case(i):
    r = gk.rng("C07", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    n = r.choice((1, 1, 1, 2, 3))
    if r.random() < 0.4:
        p = planted.chained(r)
        inc("chained")
    else:
        p = planted.first_order(r, n=n, depth=r.choice((2, 3, 3, 4, 4, 5, 6) if n == 1 else (2, 3)))
    fs = p.formulas
    if r.random() < 0.3:            # implicit universal closure
        fs = [f[2] if f[0] == "all" and not set(f[1]) & f_free(f) else f for f in fs]
    goal = None
    syn = r.choice(("tptp", "tptp", "json", "simple"))
    if r.random() < 0.4 and syn != "simple":
        goal = planted.rformula(r, p.sig, p.model, r.choice((2, 3)), [], 0.2)
    if syn == "tptp":
        txt = "\n".join(["fof(f%d,%s,%s)." % (j, r.choice(("axiom", "hypothesis", "lemma")), f_text(f)) for j, f in enumerate(fs)] +
                        (["fof(g,conjecture,%s)." % f_text(goal)] if goal else []))
        suf = ".p"
    elif syn == "json":
        js = [{"@name": "f%d" % j, "@logic": f_json(f)} if r.random() < 0.5 else f_json(f) for j, f in enumerate(fs)]
        if goal:
            js.append({"@name": "g", "@role": "conjecture", "@logic": f_json(goal)})
        txt, suf = json.dumps(js), ".js"
    else:
        txt, suf = "\n".join(f_text(f) + "." for f in fs), ".txt"
    which = "bison" if r.random() < 0.15 else "plain"
    run = gk.gkc(BB if which == "bison" else B, txt, fmt=suf, args=["-clausify"], timeout=60, mb=100)
    rep = {"text": txt, "suffix": suf, "cmd": run.cmd, "out": run.out[:3000], "err": run.err[-500:], "seed": gk.SEED, "case": i}

    def bad(key, msg):
        res["violations"].append((key + ("-bison" if which == "bison" else ""), msg, rep))
    if run.timeout:
        res["inconclusive"] = 1
        inc("clausify_timeout")
        return res
    try:
        js = json.loads(run.out)
        cls = []
        for d in js:
            cls.append(c_from_json(d["@logic"] if isinstance(d, dict) else d))
    except (ValueError, KeyError, TypeError, IndexError):
        bad("unreadable", "clausification output is not readable: %s" % (run.out[:150] or "exit %s" % run.rc))
        return res
    inc("syntax_" + syn)
    inc("build_" + which)
    inc("clauses", len(cls))
    closed = [f_closed(f) for f in fs] + ([("not", f_closed(goal))] if goal else [])
    preds, funs = set(), set()
    for f in closed:
        f_syms(f, (preds, funs))
    cp, cf = extend.symbols(cls)
    alien = [x for x in (cp - preds) | (cf - funs) if not x[0].startswith("$")]
    if alien:
        bad("alien-symbol", "the clauses have symbols %s that the formulas do not have" % alien)
        return res
    if any(x[0].startswith("$df") for x in cp):
        inc("with_definitions")
    if any(x[0].startswith("$sk") for x in cf):
        inc("with_skolem")
    for k in range(10):
        res["evals"] += 1
        d = r.choice((1, 2, 2, 2, 3))
        if k == 0 and d != 1 and p.model.d <= 3 and set(p.model.func) >= funs and set(p.model.pred) >= preds:
            m = p.model
        else:
            m = Structure.random(r, d, sorted(funs), sorted(preds))
        truth = all(m.formula(f) for f in closed)
        e = extend.extends(m, cls)
        if e is None:
            res["inconclusive"] = res.get("inconclusive", 0) + 1
            inc("too_big")
            continue
        inc("structure_%s" % ("model" if truth else "countermodel"))
        res["distinct"].append(hash((txt, str(m.func) + str(m.pred))))
        if e != truth:
            rep["structure"] = str(m.func) + str(m.pred)
            if truth:
                bad("model-lost", "a model of the formulas does not extend to a model of the clauses")
            else:
                bad("model-gained", "a structure that is not a model of the formulas extends to a model of the clauses")
            break
    if i < 3:
        res["sample"] = {"text": txt[:400], "clauses": [c_text(c) for c in cls[:6]]}
    return res


def main():
    global B, BB
    c = gk.Check("C07")
    B = gk.build("plain")
    BB = gk.build("plain", bison=True)
    n = 2500 if gk.QUICK else 60000
    gk.cases(c, case, range(n), 4)
    c.finish("random formulas clausified by gkc, and random finite structures of up to 3 elements: truth of the formulas against the existence of an extension satisfying the clauses (SAT); distinct: (problem, structure) pairs decided",
             need={"structure_model": n, "structure_countermodel": n, "with_definitions": n // 20, "with_skolem": n // 10, "build_bison": n // 20})


if __name__ == "__main__":
    gk.main(main)
