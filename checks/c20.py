"""C20: no input makes a parser, the strategy reader or the command line misbehave.

Problem texts, strategies and command lines are mutated (bytes, tokens, cuts, splices, long and deep
pieces) and given to gkc built with AddressSanitizer and UndefinedBehaviorSanitizer.  Monitored: no
sanitizer report, no death by a signal, an end within the time given, and a result or an error."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, anyprob
from logic import *

A = AB = None
TOKENS = [b"(", b")", b"[", b"]", b"{", b"}", b",", b".", b"|", b"&", b"~", b"-", b"=", b"!=", b"=>", b"<=", b"<=>", b"<~>", b"~|", b"~&", b"!", b"?", b":", b"![X]:", b"?[X,Y]:", b"'", b'"', b"\\", b"\\'", b"%", b"#", b"/*", b"*/", b"//",
          b"fof(", b"cnf(", b"fof(a,axiom,", b"cnf(a,negated_conjecture,", b"conjecture", b"include('x.ax').", b"include(", b"X", b"Y", b"_", b"$", b"$ans(X)", b"$sum(1,2)", b"$less(", b"$list(", b"$nil", b"$true", b"$false", b"1", b"-1", b"1.5", b"1e5", b"99999999999999999999", b"1.", b".5", b"0x1f",
          b"?:X", b"#:a", b"@logic", b"@name", b"@role", b"@question", b"@graph", b"@context", b'"and"', b'"if"', b'"forall"', b'"not"', b'"-p"', b"null", b"true", b"\\u0000", b"\\ud800", b"\\u00e4", b"\xc3\xa4", b"\xff", b"\x00", b"\n", b"\r\n", b"\t", b" ", b"<", b">", b"+", b"*", b"/", b"^", b"@", b";", b"`",
          b"p(a).", b"-p(X) | q(X).", b"p => q.", b"all X ", b"exists Y ", b"forall", b"inference(", b"file('x',y)", b"p(X,Y,Z,a,b,c,f(X))"]


def blob(r):
    """A long or deep piece."""
    n = r.choice((10, 50, 100, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 2100, 4096, 5000, 9999, 10000, 10001, 20000, 70000))
    d = r.choice((5, 20, 50, 100, 200, 400, 800))
    return r.choice([
        lambda: b"a" * n, lambda: b"'" + b"b" * n + b"'", lambda: b'"' + b"c" * n + b'"', lambda: b"X" * n, lambda: b"9" * n, lambda: b"1." + b"3" * n,
        lambda: b"(" * d + b"a" + b")" * d, lambda: b"f(" * d + b"a" + b")" * d, lambda: b"[" * d + b"]" * d, lambda: b"[" * d, lambda: b"(" * d, lambda: b"~" * d + b"p", lambda: b"-" * d + b"p",
        lambda: b"![X]: (" * (d // 4) + b"p(X)" + b")" * (d // 4), lambda: b"p & " * d + b"p", lambda: b"p | " * d + b"q", lambda: b"p => " * d + b"q",
        lambda: b"(p <=> " * min(d, 12) + b"q" + b")" * min(d, 12), lambda: b" " * n, lambda: b"\n" * n, lambda: b"%" + b"x" * n + b"\n", lambda: b"/*" + b"*" * n + b"*/", lambda: b"'" + b"\\'" * (n // 2) + b"'",
        lambda: b"p(" + b",".join(b"a%d" % i for i in range(min(n, 3000))) + b")", lambda: b"p(" + b",".join(b"X%d" % i for i in range(min(n, 600))) + b")", lambda: b'{"a":' * d + b"1" + b"}" * d, lambda: b'["p",' * d + b"1" + b"]" * d,
        lambda: b",".join([b"1"] * min(n, 5000)), lambda: b"[1" + b",2" * min(n, 2000) + b"]",
    ])()


def mutate(r, s, other):
    s = bytearray(s)
    for _ in range(r.choice((1, 1, 2, 3, 5, 10))):
        k = r.random()
        p = r.randint(0, len(s)) if s else 0
        q = min(len(s), p + r.choice((0, 1, 1, 2, 3, 5, 10, 40)))
        if k < 0.12:
            s[p:q] = bytes(r.randrange(256) for _ in range(r.choice((1, 1, 2, 4))))
        elif k < 0.2 and s:
            j = r.randrange(len(s))
            s[j] ^= 1 << r.randrange(8)
        elif k < 0.32:
            del s[p:q]
        elif k < 0.62:
            s[p:p if r.random() < 0.6 else q] = r.choice(TOKENS)
        elif k < 0.7:
            x = r.randint(0, len(s))
            y = min(len(s), x + r.choice((1, 3, 10, 30, 100)))
            s[p:p] = s[x:y]
        elif k < 0.76:
            x = r.randint(0, len(other))
            s[p:q] = other[x:x + r.choice((3, 10, 50, 200))]
        elif k < 0.82:
            del s[p:]
        elif k < 0.92:
            s[p:q] = blob(r)
        elif k < 0.96 and s:
            w = re.findall(rb"\w+", bytes(s))
            if w:
                a, b = r.choice(w), r.choice(w)
                s = bytearray(bytes(s).replace(a, b, r.choice((1, 100))))
        elif s:
            c = bytes([r.choice(b"()[]{},.|'\"")])
            s = bytearray(bytes(s).replace(c, r.choice(TOKENS), 1))
    return bytes(s[:200000])


BASE_STRATS = [json.dumps(x) for x in (
    {"strategy": ["negative_pref"], "query_preference": 0, "max_seconds": 1},
    {"print": 1, "print_level": 15, "max_size": 30, "max_depth": 4, "max_length": 5, "max_weight": 50, "max_dseconds": 3, "equality": 1, "rewrite": 0, "strategy": ["unit", "query_focus"], "query_preference": 1},
    {"runs": [{"max_dseconds": 1, "strategy": ["hyper"], "query_preference": 0}, {"max_dseconds": 1, "strategy": ["unit"], "query_preference": 2}]},
    {"total_seconds": 2, "max_answers": 3, "arith_instantiation": 1, "runs": [{"max_seconds": 1, "strategy": ["hardness_pref", "knuthbendix_pref"], "weight_select_ratio": 5, "max_distinct_vars": 3}]})]
OPTS = ["-tptp", "-json", "-convert", "-clausify", "-derived", "-version", "-help", "-prove", "-print", "-seconds", "-parallel", "-mbsize", "-strategy", "-strategytext", "-text", "-jstext", "-mbnr", "-usekb"]
VALS = ["0", "1", "10", "12", "15", "30", "50", "-1", "1x", "x", "", "99999999999999999999", "2", "1.5", "p(a).", "p(a). -p(X).", "[[\"p\",\"a\"]]", "{}", "[]", "{\"strategy\":[\"unit\"]}", "in.txt", "in.js", "in.p", "nofile", "strat.txt", ".", "in.txt.gz", "-", "--", "a" * 300 + ".txt", "d/in.txt", "=", "p(X", "'", "{\"runs\":[{}]}"]
LEGAL = {"-parallel": ("0", "1", "2"), "-seconds": ("1",), "-mbsize": ("20", "60"), "-mbnr": ("987654",)}


def finish(i, r, res, run, rep, inc, again):
    res["evals"] = 1
    rep.update(cmd=run.cmd, out=run.out[-1500:], err=run.err[-6000:], case=i, seed=gk.SEED)
    if run.timeout:
        for _ in range(2):
            run = again(240)
            if not run.timeout:
                res["inconclusive"] = 1
                return
        res["violations"].append(("no-end:" + rep["kind"], "gkc does not end", rep))
        return
    keys = gk.san_key(run.err) or gk.san_key(run.out)
    for k in keys:
        res["violations"].append((k, "sanitizer report %s" % k, rep))
    if not keys and run.crashed():
        res["violations"].append(("crash:%s" % run.crashed(), "gkc died: %s" % run.crashed(), rep))
    if not keys and not run.crashed() and not (run.out + run.err).strip():
        res["silent"] = 1
        inc("silent")
        if rep["kind"] != "options" and "-convert" not in run.cmd:    # -convert prints nothing without an output format
            res["violations"].append(("silent", "gkc prints neither a result nor an error", rep))
    inc("proof" if "proof found" in run.out else "error" if "rror" in run.out + run.err else "no_proof" if "not found" in run.out else "other")


def case(i):
    r = gk.rng("C20", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    k = r.random()
    binp = AB if AB and r.random() < 0.3 else A
    if k < 0.62:
        kind, text, suf = anyprob.problem(r)
        other = anyprob.problem(r)[1].encode()
        b = text.encode()
        if len(b) > 3000:
            x = r.randint(0, len(b) - 3000)
            b = b[x:x + 3000] if r.random() < 0.5 else b[:3000]
        if r.random() < 0.93:
            b = mutate(r, b, other)
        if r.random() < 0.08:
            suf = r.choice((".js", ".txt", ".p"))
        if r.random() < 0.04:
            b = r.choice((blob(r), b"", b"\n", r.choice(TOKENS), bytes(r.randrange(256) for _ in range(r.randint(1, 60)))))
        inc("problem" + suf)
        act = r.random()
        args = ["-clausify"] if act < 0.15 else ["-convert"] if act < 0.25 else ["-derived"] if act < 0.3 else []
        mode = r.choice(("-json", "-tptp", None))
        pl = r.choice((10, 10, 15, 30, 50))
        via = r.random()
        if via < 0.1 and b"\x00" not in b and len(b) < 60000 and suf != ".p":
            path, fl = None, ["-jstext" if suf == ".js" else "-text", b.decode("latin1")]
            cmd = [os.fsencode(x) for x in [binp, "-parallel", "0", "-print", str(pl), "-mbsize", "40", "-seconds", "4", fl[0]]] + [b] + [x.encode() for x in ([mode] if mode else []) + args + ["-strategytext", BASE_STRATS[0]]]
            inc("as_text")
            do = lambda t: gk.run(cmd, timeout=t)
            run = do(60)
        else:
            do = lambda t: gk.gkc(binp, b, mode=mode, fmt=suf, args=args, printlevel=pl, mb=40, seconds=4, timeout=t, strategy=BASE_STRATS[0])
            run = do(60)
        run.cmd = [x.decode("latin1") if isinstance(x, bytes) else x for x in run.cmd]
        res["distinct"].append(hash(b))
        finish(i, r, res, run, {"kind": "problem", "text": b.decode("latin1")[:60000], "suffix": suf}, inc, do)
    elif k < 0.85:
        s = r.choice(BASE_STRATS) if r.random() < 0.6 else json.dumps(dict(gen.limits(r, gen.strategy(r)), max_seconds=1))
        if r.random() < 0.5:
            b = mutate(r, s.encode(), r.choice(BASE_STRATS).encode())
        else:                                # well-formed JSON with odd values
            o = json.loads(s)

            def odd(d):
                ks = list(d)
                for kk in r.sample(ks, min(len(ks), r.randint(1, 3))):
                    v = d[kk]
                    if isinstance(v, dict):
                        odd(v)
                    else:
                        d[kk] = r.choice((None, True, "x", -1, 0, 1.5, 10 ** 12, [], {}, [[]], "unit", [1], ["unit", 5], ["foo"], {"a": 1}, 2 ** 31, [{}], [{"strategy": 1}]))
                if r.random() < 0.3:
                    d[r.choice(("foo", "", "strategy", "runs", "queries", "Strategy", "max_seconds", "given_queue_ratio", "pick_given_queue_ratio", "lit_weight", "k" * 300))] = r.choice((1, "a", [], {}, None))
            odd(o)
            b = json.dumps(o).encode()
        inc("strategy")
        kind, text, suf = anyprob.problem(r)
        text = text[:3000] if suf != ".js" else text
        res["distinct"].append(hash(b))
        if r.random() < 0.3 or b"\x00" in b or len(b) > 60000:
            inc("strategy_file")
            f = gk.tmpfile(b, ".txt")
            do = lambda t: gk.gkc(binp, text, fmt=suf, args=["-strategy", f], mode=r.choice(("-json", None)), mb=40, seconds=4, timeout=t)
        else:
            p = gk.tmpfile(text, suf)
            do = lambda t: gk.run([binp.encode(), p.encode(), b"-parallel", b"0", b"-print", b"10", b"-mbsize", b"40", b"-seconds", b"4", b"-json", b"-strategytext", b], timeout=t)
        run = do(60)
        run.cmd = [x.decode("latin1") if isinstance(x, bytes) else x for x in run.cmd]
        finish(i, r, res, run, {"kind": "strategy", "strategy": b.decode("latin1")[:60000], "text": text, "suffix": suf}, inc, do)
    else:
        inc("options")
        d = gk.tmpfile("", ".dir")
        os.unlink(d)
        os.mkdir(d)
        for n, t in (("in.txt", "p(a). -p(X) | q(X). -q(a)."), ("in.js", '[["p","a"],["-p","?:X"]]'), ("in.p", "fof(a,axiom,p(a)). fof(b,conjecture,p(a))."), ("strat.txt", BASE_STRATS[1])):
            open(os.path.join(d, n), "w").write(t)
        args = []
        for _ in range(r.randint(0, 6)):
            o = r.choice(OPTS)
            x = r.random()
            if x < 0.25:
                args.append(r.choice(("in.txt", "in.js", "in.p")))
            elif x < 0.7:
                args.append(o)
                if o in LEGAL and r.random() < 0.5:
                    args.append(r.choice(LEGAL[o]))
                elif o not in ("-parallel", "-mbsize") and r.random() < 0.75:
                    args.append(r.choice(VALS))
                elif o in ("-parallel", "-mbsize") and r.random() < 0.6:
                    args.append(r.choice(("1x", "x", "", "-1", "0", "1", "a")))
            elif x < 0.85:
                args.append(r.choice(VALS))
            else:
                args.append(r.choice((o + "x", o[:-1], o.upper(), "-" + o, o[1:])))
        if r.random() < 0.5:
            args.append("in.txt")
        base = ["-seconds", "4"] if r.random() < 0.7 else []
        if "-mbsize" not in args:
            base += ["-mbsize", "40"]
        res["distinct"].append(hash(tuple(args)))
        args = base + args if r.random() < 0.5 else args + base
        do = lambda t: gk.run([binp] + args, timeout=t, cwd=d)
        run = do(60)
        finish(i, r, res, run, {"kind": "options", "args": args}, inc, do)
        extra = set(os.listdir(d)) - {"in.txt", "in.js", "in.p", "strat.txt"}
        if extra:
            res["violations"].append(("writes-file", "gkc wrote the files %s" % sorted(extra), {"args": args, "case": i, "seed": gk.SEED}))
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        os.rmdir(d)
    if i < 4:
        res["sample"] = {"cmd": [str(x)[:100] for x in run.cmd], "out": run.out[:200]}
    return res


def main():
    global A, AB
    c = gk.Check("C20")
    A, AB = gk.build("asan"), gk.build("asan", bison=True)
    n = 4000 if gk.QUICK else 200000
    gk.cases(c, case, range(n), 4)
    c.finish("mutated problems (three syntaxes, built-in and generated parser), strategies and command lines under the address and undefined-behaviour sanitizers; distinct: inputs",
             need={"error": n // 6, "no_proof": n // 20, "proof": n // 50, "strategy": n // 6, "options": n // 10, "as_text": n // 40})


if __name__ == "__main__":
    gk.main(main)
