"""C10: machine-readable output is one well-formed result.

The output of -json runs is read by a strict reader (one document, no duplicate keys, documented fields
and shapes only), the symbols in it are compared with the symbols that were put in, and the same search
in the text and TPTP formats must report the same outcome, answers and proofs."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, anyprob
from logic import *

B = BB = None
RESULTS = ("proof found", "proof not found", "time limit, proof not found")
RULES = {"in", "mp", "simp", "merge", "=", "r=", "arithinst"}
CH = "abcXYZ019 _\"'/\t\n\r\x01\x1f\x7f%#$?:,.()[]{}|&~!<>=@^;*+-`éß漢😀\u00a0\u2028"


class Bad(Exception):
    pass


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Bad("the key %r twice" % k)
        d[k] = v
    return d


def noconst(s):
    raise Bad("the constant %s" % s)


def strict(raw):
    try:
        s = raw.decode("utf8")
    except UnicodeDecodeError as e:
        raise Bad("not utf-8: %s" % e)
    try:
        return json.loads(s, object_pairs_hook=nodup, parse_constant=noconst)
    except ValueError as e:
        raise Bad("not one json document: %s" % e)


def shape(d):
    """Checks the documented fields; returns (result or None, answers)."""
    if not isinstance(d, dict):
        raise Bad("not an object")
    if "error" in d:
        if set(d) != {"error"} or not isinstance(d["error"], str) or not d["error"]:
            raise Bad("bad error object %s" % sorted(d))
        return None, []
    if not set(d) <= {"result", "answers"} or d.get("result") not in RESULTS:
        raise Bad("bad fields %s, result %r" % (sorted(d), d.get("result")))
    if (d["result"] == "proof found") != bool(d.get("answers")):
        raise Bad("result %r with %d answers" % (d["result"], len(d.get("answers", []))))
    for a in d.get("answers", []):
        if not isinstance(a, dict) or not set(a) <= {"answer", "proof", "confidence"} or "proof" not in a:
            raise Bad("bad answer object")
        if "answer" in a:
            literals(a["answer"])
            if not all(l[0] == "$ans" for l in a["answer"]):
                raise Bad("an answer that is not $ans literals")
        if not isinstance(a["proof"], list) or not a["proof"]:
            raise Bad("bad proof")
        ids = []
        for s in a["proof"]:
            if not (isinstance(s, list) and len(s) == 3 and isinstance(s[0], int) and isinstance(s[1], list) and s[1] and s[1][0] in RULES):
                raise Bad("bad proof step %s" % json.dumps(s)[:200])
            if s[0] in ids:
                raise Bad("step %d twice" % s[0])
            if s[1][0] != "in":
                refs = premises(s[1])
                if not refs or any(x not in ids for x in refs):
                    raise Bad("step %d refers to %s" % (s[0], refs))
            elif not all(isinstance(x, str) for x in s[1][1:]):
                raise Bad("bad source in step %s" % json.dumps(s)[:200])
            ids.append(s[0])
            literals(s[2])
    return d["result"], d.get("answers", [])


def premises(rule):
    return [x if isinstance(x, int) else x[0] for x in rule[1:] if isinstance(x, int) or isinstance(x, list) and x and isinstance(x[0], int)]


def literals(c):
    if c is False or c is True:
        return
    if not isinstance(c, list):
        raise Bad("bad clause %r" % (c,))
    for l in c:
        if isinstance(l, str):
            if len(c) < 1:
                raise Bad("bad literal %r" % (l,))
        elif not (isinstance(l, list) and l and isinstance(l[0], str)):
            raise Bad("bad literal %r" % (l,))


def strings(j, acc):
    if isinstance(j, str):
        acc.append(j)
    elif isinstance(j, list):
        for x in j:
            strings(x, acc)
    return acc


# ------------------------------------------------------------------ the text forms

STEP = re.compile(r"^ *(\d+): \[([a-z=]+)((?:, [^\]\n]*|,[^\n]*?)?)\] (.*)$", re.M)


def text_answers(out, tptp):
    """(result, [(answer text or None, [(id, rule, refs, clause text)])])"""
    m = re.findall(r"^result: ([^\n]*?)\.?$", out, re.M)
    res = m[0] if m else None      # asked for more answers than there are, the text ends with a second result line
    answers = []
    cur = None
    if not tptp:
        for line in out.split("\n"):
            if line.startswith("answer: "):
                cur = [line[8:], []]
                answers.append(cur)
            elif line == "proof:":
                if cur is None or cur[1]:
                    cur = [None, []]
                    answers.append(cur)
            else:
                m = re.match(r" *(\d+): \[([a-z=]+)(, [0-9][^\]]*|,[^\n]*?)?\] (.*)$", line)
                if m and cur:
                    refs = [int(x) for x in re.findall(r"(?<![\d.])(\d+)(?![\d.])", re.sub(r"\d+\.\d+(\.\w+)*", lambda k: k.group(0).split(".")[0], m.group(3) or ""))] if m.group(2) != "in" else []
                    cur[1].append((int(m.group(1)), m.group(2), refs[:1] if m.group(2) == "arithinst" else refs, m.group(4)))
        return res, answers
    for line in re.sub(r",\n  inference", ", inference", out).split("\n"):
        if line.startswith("answer: "):
            cur = [line[8:], []]
            answers.append(cur)
        elif line.startswith("% SZS output start"):
            if cur is None or cur[1]:
                cur = [None, []]
                answers.append(cur)
        elif line.startswith("cnf(") and cur:
            m = re.match(r"cnf\('(\d+)', ?\w+, ?\((.*?)\)(, inference\((\w+),\[[a-z_,]*\],\[(.*)\]\))?\)\.$", line)
            if m:
                cur[1].append((int(m.group(1)), m.group(4), [int(x) for x in re.findall(r"'(\d+)'", m.group(5) or "")] if m.group(4) != "cnf_transformation" else [], m.group(2)))
    return res, answers


def plain(j):
    """Only symbols that the reader of text clauses in lib/logic.py knows."""
    return all(re.fullmatch(r"-?(\?:)?(#:)?[A-Za-z_$][A-Za-z0-9_$]*|=|-=|-?[+*/<>]", s) or re.fullmatch(r"#:[A-Za-z0-9 _]*", s) for s in strings(j, [])) and not any(s in ("and", "or", "not") for s in strings(j, []))


def compare(js, txt, tptp):
    """A difference between the two reports, or None; second value: clauses compared."""
    res, ans = js
    tres, tans = txt
    if tptp and tres is None and res != "proof found":     # then only an SZS status is printed
        tres = res
    if res != tres and not (tres or "").startswith(res + " for "):
        return "result %r and %r" % (res, tres), 0
    if len(ans) != len(tans):
        return "%d and %d answers" % (len(ans), len(tans)), 0
    n = 0
    for a, t in zip(ans, tans):
        if ("answer" in a) != (t[0] is not None):
            return "an answer in one of them only", n
        pairs = []
        if "answer" in a:
            pairs.append((a["answer"], t[0]))
        # steps with line breaks in names do not come apart into lines
        flat = all("\n" not in s and "\r" not in s for s in strings(a["proof"], []))
        if flat:
            if len(a["proof"]) != len(t[1]):
                return "%d and %d proof steps" % (len(a["proof"]), len(t[1])), n
            for s, u in zip(a["proof"], t[1]):
                if s[0] != u[0] or not tptp and s[1][0] != u[1]:
                    return "steps %s and %s" % (json.dumps(s)[:200], u), n
                if s[1][0] != "in":
                    refs = premises(s[1])
                    if s[1][0] == "arithinst":      # the text formats do not list the instantiating terms
                        refs = [x for x in refs if x in u[2]]
                    if sorted(set(refs)) != sorted(set(u[2])):
                        return "premises %s and %s" % (json.dumps(s)[:200], u), n
                pairs.append((s[2], u[3]))
        for j, u in pairs:
            if not plain(j):
                continue
            try:
                c = c_from_text(u)
            except ParseError:
                continue
            n += 1
            if not variant(c_from_json(j), c):
                return "clauses %s and %s" % (json.dumps(j)[:300], u[:300]), n
    return None, n


# ------------------------------------------------------------------ problems with unusual names

def odd(r, text):
    while True:
        k = r.random()
        n = r.choice((1, 1, 2, 3, 5, 10, 40))
        if k < 0.08:
            n = r.choice((60, 100, 200, 255, 256, 500))
        if k < 0.3:
            s = "".join(r.choice("abc\"'") for _ in range(n))
        elif k < 0.45:
            s = r.choice(("http://x.org/a#b", "ns:name", "_:b1", "a b", "Upper", "_under", "12", "1.5", "x'", "'x", "\"", "'", "{}", "[1]", "null", "true", "false", "%s%d%n", "\\n", "a\\", "\\\"", "\\\\", "\\u0041", "</a>", "&amp;", "a.b.", "a,b", "p(a)", "in", "mp", "answers", "result", "x:y:z", "été", "😀"))
        elif k < 0.6:
            s = r.choice("\x01\x02\x08\x0b\x0c\x1b\x7f\x80é漢😀\u2028\ufffd") * n
        else:
            s = "".join(r.choice(CH) for _ in range(n))
        if text and ("\\" in s or "\n" in s or "\r" in s or any(ord(c) < 32 for c in s)):
            continue
        if s[:1] in ("-", "~", "$", "@", "?", "#", "_", "=", "!", "") or s in ("and", "or", "not", "if", "exists", "forall", "all", "nor", "xor", "implies") or s.startswith(("null", "true", "false")) and len(s) < 6:
            continue
        if s in ("+", "*", "/", "<", ">", "<=", ">=", "=>", "<=>", "&", "|", "!=", "^", "%", "<~>", "~&", "~|", "."):
            continue
        return s


def oddproblem(r):
    """(text, suffix, expected answers as lists of json terms, formula names, all symbols)"""
    fmt = r.choice(("json", "json", "simple", "fof"))
    text = fmt != "json"
    names = [odd(r, text) for _ in range(8)]
    p, q = r.sample(["P0" + names[0] if r.random() < 0.3 else names[0], "q1"], 2) if r.random() < 0.7 else ("p0", "q1")
    if p == q:
        q += "x"
    ar = r.randint(1, 3)

    def term(d):
        k = r.random()
        if k < 0.15:
            return r.choice((0, 1, 7, 12345, 2.5))
        if k < 0.3:
            return "#:" + r.choice(names)
        if k < 0.55 and d:
            return [r.choice(("f", "g", names[5] + "f"))] + [term(d - 1) for _ in range(r.randint(1, 2))]
        return r.choice(names)
    rows, fnames = [], []
    for _ in range(r.randint(1, 4)):
        x = [term(2) for _ in range(ar)]
        if x not in rows:
            rows.append(x)
    vs = ["?:V%d" % i for i in range(ar)]
    cl = [[[p] + x] for x in rows] + [[["-" + p] + vs, [q] + vs], [["-" + q] + vs, ["$ans"] + vs]]
    out = []

    def quote(s):
        return "'" + s.replace("'", "\\'") + "'"

    def tt(t):
        if isinstance(t, (int, float)):
            return repr(t)
        if isinstance(t, list):
            return quote(t[0]) + "(" + ",".join(tt(x) for x in t[1:]) + ")" if not re.fullmatch("[a-z][a-z0-9]*", t[0]) else t[0] + "(" + ",".join(tt(x) for x in t[1:]) + ")"
        if t.startswith("?:"):
            return t[2:]
        if t.startswith("#:"):
            return '"' + t[2:].replace('"', '\\"') + '"'
        return quote(t)
    for c in cl:
        nm = odd(r, text)
        fnames.append(nm)
        if fmt == "json":
            j = [x for l in c for x in (l, "|")][:-1] if len(c) > 1 else c[0]
            out.append({"@name": nm, "@logic": j} if r.random() < 0.6 else j)
        else:
            ls = []
            for l in c:
                neg = l[0].startswith("-")
                h = l[0][1:] if neg else l[0]
                ls.append(("~" if fmt == "fof" and neg else "-" if neg else "") + (h if h == "$ans" or re.fullmatch("[a-z][a-z0-9]*", h) else quote(h)) + "(" + ",".join(tt(x) for x in l[1:]) + ")")
            b = " | ".join(ls)
            out.append("%s.\n" % b if fmt == "simple" else "cnf(%s,axiom,(%s)).\n" % (quote(nm), b))
    allnames = set(names) | {p, q, "f", "g", names[5] + "f"}
    if fmt == "json":
        return json.dumps(out, ensure_ascii=r.random() < 0.5), ".js", rows, fnames, allnames
    return "".join(out), ".txt" if fmt == "simple" else ".p", rows, fnames, allnames


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) < 1e-5
    return type(a) is type(b) and a == b


def check_names(d, rows, fnames, allnames, want):
    """What is wrong with the symbols in the answers and proofs."""
    got = []
    for a in d.get("answers", []):
        if "answer" not in a:
            return "no answer field"
        for l in a["answer"]:
            if not any(same(l[1:], x) for x in rows):
                return "the answer %s is not among the facts" % json.dumps(l)[:300]
            got.append(json.dumps(l))
        for s in a["proof"]:
            if s[1][0] == "in":
                for x in s[1][1:]:
                    if x not in fnames and not re.fullmatch(r"frm_\d+|axiom|goal|conjecture|negated_conjecture|in\.\w+", x):
                        return "the source name %r was not read" % x
            for l in s[2] if isinstance(s[2], list) else []:
                for x in strings(l if isinstance(l, list) else [l], []):
                    if x.startswith("?:"):
                        continue
                    y = x[2:] if x.startswith("#:") else x
                    if y not in allnames and y.lstrip("-") not in allnames and y not in ("$ans", "-$ans", "$pr", "-$pr"):
                        return "the symbol %r was not read" % x
    if len(set(got)) < min(want, len(rows)):
        return "%d different answers of %d wanted" % (len(set(got)), min(want, len(rows)))
    return None


def case(i):
    r = gk.rng("C10", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    k = r.random()
    binp = BB if r.random() < 0.15 else B
    names = None
    want = 1
    par = "0"
    if k < 0.45:
        kind = "odd"
        text, suf, rows, fnames, allnames = oddproblem(r)
        want = r.choice((1, 1, 2, 5))
        st = {"strategy": [r.choice(("negative_pref", "unit", "hyper", "double"))], "query_preference": 0, "max_answers": want}
        names = True
    elif k < 0.88:
        kind, text, suf = anyprob.problem(r)
        st = gen.strategy(r)
        if r.random() < 0.5:
            st.update(max_size=r.choice((10, 30)), max_depth=r.choice((3, 5)))
    else:
        kind, text, suf = anyprob.problem(r)
        kind = "broken"
        b = text
        x = r.randint(0, len(b))
        text = b[:x] + r.choice(("", "", "'", '"', "(", "]", "\\", ")", "é\"", "\x01", "[{", "..", "'a\"b'(", "\t\"")) + b[x + r.choice((0, 0, 1, 5)):]
        st = gen.strategy(r)
        par = r.choice(("0", "0", "2"))
    f = gk.tmpfile(text, suf)
    base = [binp, f, "-parallel", par, "-print", "10", "-mbsize", "40", "-strategytext", json.dumps(st)]
    run = gk.run(base + ["-json"], timeout=2.5, text=False)
    rep = {"kind": kind, "input": text[:20000], "suffix": suf, "strategy": st, "cmd": run.cmd, "out": run.out[-6000:].decode("utf8", "replace"), "err": run.err[-500:].decode("utf8", "replace"), "case": i, "seed": gk.SEED}
    if run.timeout or run.rc < 0:
        res["inconclusive"] = 1
        inc("timeout")
        os.unlink(f)
        return res
    res["evals"] = 1
    res["distinct"].append(hash((text, json.dumps(st))))
    inc(kind)
    if run.out.startswith(b'{"error": "cannot allocate memory') and b"}\n\n{" in run.out:
        inc("out_of_memory")            # the search ran out of memory and says so before the result
        run.out = run.out[run.out.index(b"}\n\n{") + 3:]
        names = False
    try:
        d = strict(run.out)
        result, answers = shape(d)
    except Bad as e:
        res["violations"].append(("json:" + re.sub(r"[^a-z]+", "-", str(e).lower())[:60], "json output: %s" % e, rep))
        os.unlink(f)
        return res
    inc("error" if result is None else "result")
    if result == "proof found":
        inc("proofs", len(answers))
        inc("steps", sum(len(a["proof"]) for a in answers))
    if names and result is None:
        res["violations"].append(("names-error", "an error for names which can be read: %s" % d["error"], rep))
    elif names:
        bad = check_names(d, rows, fnames, allnames, want)
        inc("named_answers", len(answers))
        if bad:
            res["violations"].append(("names", bad, rep))
    if par == "0" and not res["violations"]:
        for m in r.sample(["", "-tptp"], r.choice((1, 2))):
            t = gk.run(base + ([m] if m else []), timeout=6)
            if t.timeout:
                res["inconclusive"] = 1
                continue
            res["evals"] += 1
            if result is None:
                ok = "result:" not in t.out and ("rror" in t.out or "rror" in t.err)
                inc("error_compared")
                bad = None if ok else "an error in json, and %r" % t.out[:200]
            else:
                bad, n = compare((result, answers), text_answers(t.out, m), bool(m))
                inc("compared" + m.replace("-", "_"))
                inc("clauses_compared", n)
                if names and not bad and answers:
                    inc("names_in_text")
                    for row in rows if want >= len(rows) else []:
                        for x in strings(row, []):
                            y = x[2:].replace('"', '\\"') if x.startswith("#:") else x.replace("'", "\\'")
                            if y not in t.out:
                                bad = "the symbol %r is not in the output" % x
            if bad:
                res["violations"].append(("formats" + m, "json and %s output differ: %s" % (m or "text", bad), dict(rep, other=t.out[-6000:])))
    os.unlink(f)
    if i < 6:
        res["sample"] = {"kind": kind, "input": text[:200], "out": run.out[:300].decode("utf8", "replace")}
    return res


def main():
    global B, BB
    c = gk.Check("C10")
    B, BB = gk.build(), gk.build(bison=True)
    n = 3200 if gk.QUICK else 150000
    gk.cases(c, case, range(n), 4)
    c.finish("json outputs read by a strict reader of the documented shape, symbols compared with the input, and outcomes, answers and proofs compared with the text and TPTP outputs; distinct: problems with settings",
             need={"odd": n // 4, "error": n // 40, "proofs": n // 6, "named_answers": n // 5, "compared": n // 5, "compared_tptp": n // 5, "clauses_compared": n // 4, "names_in_text": n // 10})


if __name__ == "__main__":
    gk.main(main)
