"""C19: no memory errors or undefined behaviour while searching.

gkc built with AddressSanitizer and UndefinedBehaviorSanitizer searches with random strategies on
problems of every kind and of unusual sizes; every report and every death by a signal is a violation."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, anyprob
from logic import *

A = AB = None


def strategy(r):
    s = gen.strategy(r)
    if r.random() < 0.75:
        s = gen.limits(r, s)
    for k, v in (("max_weight", (20, 60)), ("max_size", (20, 60)), ("equality", (0, 1)), ("reasonable_keeping_time", (1,)), ("max_dseconds", (5,))):
        if r.random() < 0.08:
            s[k] = r.choice(v)
    if r.random() < 0.3:
        s["arith_instantiation"] = r.choice((0, 1, 2))
    s["max_seconds"] = 1
    if r.random() < 0.15:
        runs = []
        for _ in range(r.randint(1, 3)):
            runs.append(dict(gen.limits(r, gen.strategy(r)), max_dseconds=3))
        s = {"runs": runs}
    return s


def case(i):
    r = gk.rng("C19", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind, text, suf = anyprob.problem(r)
    st = strategy(r)
    mode = r.choice(("-json", "-json", None, "-tptp"))
    args = []
    if r.random() < 0.4:
        args.append("-derived")
    if r.random() < 0.04 and kind != "jsonld":
        args.append(r.choice(("-clausify", "-convert")))
    pl = r.choice((10, 10, 10, 10, 15, 20, 30, 50))
    binp = AB if AB and r.random() < 0.15 and suf != ".js" else A
    run = gk.gkc(binp, text, strategy=st, mode=mode, fmt=suf, args=args, printlevel=pl, mb=r.choice((60, 60, 60, 200)), seconds=4, timeout=60)
    res["evals"] = 1
    inc("kind_" + kind)
    for n in (st["runs"] if "runs" in st else [st]):
        for x in n.get("strategy", ()):
            inc("strat_" + x)
    res["distinct"].append(hash((text, json.dumps(st), mode)))
    rep = {"case": i, "seed": gk.SEED, "kind": kind, "text": text[:20000], "suffix": suf, "strategy": st, "cmd": run.cmd, "out": run.out[-1500:], "err": run.err[-6000:]}
    if run.timeout:
        res["inconclusive"] = 1
        return res
    inc("proved" if "proof found" in run.out or "SZS output start" in run.out else "time" if "time limit" in run.out else "error" if '"error"' in run.out else "not_proved")
    inc("given_lines", run.out.count("derived"))
    keys = gk.san_key(run.err) or gk.san_key(run.out)
    for k in keys:
        res["violations"].append((k, "sanitizer report %s" % k, rep))
    if not keys and run.crashed():
        res["violations"].append(("crash:%s" % run.crashed(), "gkc died: %s" % run.crashed(), rep))
    if i < 4:
        res["sample"] = {"kind": kind, "text": text[:300], "strategy": st}
    return res


def main():
    global A, AB
    c = gk.Check("C19")
    A = gk.build("asan")
    AB = gk.build("asan", bison=True) if not gk.QUICK else None
    n = 1500 if gk.QUICK else 150000
    gk.cases(c, case, range(n), 4)
    c.assumptions = ["AddressSanitizer sees the heap blocks of the search, not the records inside the database area", "uninitialised reads are seen only through C21 and the thorough runs of valgrind"]
    c.finish("searches on problems of %d kinds with random strategies, limits and output modes under the address and undefined-behaviour sanitizers; distinct: (problem, strategy, output)" % 10,
             need={"proved": n // 12, "not_proved": n // 6, "kind_wide": n // 20, "kind_arith": n // 20, "kind_jsonld": n // 40})


if __name__ == "__main__":
    gk.main(main)
