"""C21: a sequential run is reproducible.

The same command on the same input runs several times, each in another world: other environment, other
address layout, other contents of fresh memory, other directory, another speed of the clock, another
build.  The first run's output is the oracle for the others, byte for byte apart from reported times;
of a search that does not end, the outputs are compared as far as they go."""
import sys, os, re, signal, subprocess, select, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, gen, anyprob
from logic import *

B = A = SHIM = FILL = None
TIMES = re.compile(rb"(seconds:? *|in |time:? *)\d+\.\d+")
LIMIT = 300000


def bounded(cmd, env, cwd, timeout):
    """(output up to LIMIT bytes, ended, exit status)"""
    e = {k: v for k, v in os.environ.items() if not k.startswith("GKSHIM")}
    e.update(gk.SAN_ENV)
    e.update(env)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
    out, end, ended = [], time.time() + timeout, False
    n = 0
    fd = p.stdout.fileno()
    while n < LIMIT:
        left = end - time.time()
        if left <= 0 or not select.select([fd], [], [], left)[0]:
            break
        b = os.read(fd, 65536)
        if not b:
            ended = True
            break
        out.append(b)
        n += len(b)
    if not ended:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    p.wait()
    p.stdout.close()
    return b"".join(out), ended, p.returncode


def world(r, k, clocks):
    """(environment, command prefix, binary)"""
    env = {}
    pre = []
    binp = B
    if k == 0:
        env["PADDING"] = "x" * r.randint(0, 30000)
        env["GKFILL"] = str(r.randint(1, 255))
        for v in ("LANG", "LC_ALL", "TZ", "HOME", "USER", "TERM", "LOGNAME"):
            env[v] = r.choice(("C", "de_DE.UTF-8", "x", "", "Asia/Tokyo"))
    elif k == 1:
        pre = ["setarch", "-R"]
        env["GKFILL"] = "255"
    elif k == 2:
        env["MALLOC_TOP_PAD_"] = str(r.choice((0, 4096, 1 << 20)))
        env["MALLOC_MMAP_THRESHOLD_"] = str(r.choice((4096, 1 << 30)))
        env["GKFILL"] = "127"
    else:
        binp = A
    env["LD_PRELOAD"] = SHIM if binp == A else SHIM + ":" + FILL
    env["GKSHIM_CLOCK"], env["GKSHIM_CLOCK0"] = clocks(r)
    if binp == A:
        env["ASAN_OPTIONS"] = gk.SAN_ENV.get("ASAN_OPTIONS", "") + ":verify_asan_link_order=0"
    return env, pre, binp


def case(i):
    r = gk.rng("C21", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind, text, suf = anyprob.problem(r)
    k = r.random()
    if k < 0.6:
        st = gen.strategy(r)
    elif k < 0.7:
        st = {"runs": [gen.strategy(r) for _ in range(r.randint(2, 4))]}
    elif k < 0.8:
        st = dict(gen.strategy(r), max_seconds=r.choice((1, 5, 100)), max_size=r.choice((10, 30)), max_depth=r.choice((2, 4)))
    elif k < 0.9:
        st = {"max_answers": r.choice((1, 2, 5))}
    else:
        st = None
    for x in (st, *(st.get("runs", ()) if st else ())):
        if x and r.random() < 0.3:
            x.update({k: v for k, v in (("max_size", r.choice((8, 20))), ("max_length", r.choice((3, 5))), ("max_depth", r.choice((2, 3))), ("max_weight", r.choice((20, 60)))) if r.random() < 0.5})
    limited = st is None or "strategy" not in st or "max_seconds" in json.dumps(st)
    # a search with a time limit is the same only as long as the clock says the same
    clocks = (lambda r: ("0", "0")) if limited else (lambda r: (r.choice(("0", "100", "100", "700", "20")), str(r.choice((0, 0, 50000, 3000000)))))
    mode = r.choice(([], ["-json"], ["-tptp"]))
    level = r.choice((10, 12, 15, 15, 20, 30, 50))
    args = ["-parallel", "0", "-mbsize", r.choice(("20", "40")), "-print", str(level)] + mode
    if r.random() < 0.5:
        args.append("-derived")
    if r.random() < 0.08:
        args += [r.choice(("-clausify", "-convert"))]
        mode = mode or ["-json"]
    if st:
        args += ["-strategytext", json.dumps(st)]
    name = "in" + suf
    dirs = []
    outs = []
    order = [0, 1, 2] + ([3] if r.random() < 0.25 else [])
    r.shuffle(order)
    for j, w in enumerate([-1] + order[:3 if level < 30 else 2]):
        d = os.path.join(gk.scratch(), "w%d_%d" % (os.getpid(), j) + "d" * r.choice((0, 1, 30)))
        os.mkdir(d)
        dirs.append(d)
        with open(os.path.join(d, name), "wb") as f:
            f.write(text.encode())
        env, pre, binp = world(r, w, clocks) if w >= 0 else ({"LD_PRELOAD": SHIM, "GKSHIM_CLOCK": "0", "GKSHIM_CLOCK0": "0"}, [], B)
        o, ended, rc = bounded(pre + [binp, name] + args, env, d, 0.8 if binp == B else 3)
        outs.append((TIMES.sub(rb"\1T", o), ended, rc, w, env))
    a, aend, arc, _, _ = outs[0]
    for b, bend, brc, w, env in outs[1:]:
        if w == 3 and brc not in (0, 1) and bend:
            inc("other")
            continue                       # what the sanitizers report is judged elsewhere
        res["evals"] += 1
        n = min(len(a), len(b))
        if aend and bend:
            same = a == b and arc == brc
            inc("ended")
        else:
            # of outputs that were cut off the last piece may end within a time
            n = min(len(a) if aend else max(0, len(a) - 40), len(b) if bend else max(0, len(b) - 40))
            m = n
            if not (aend or bend):
                same = a[:m] == b[:m]
            else:                          # only one of them came to an end: it must at least contain the other
                e, c = (a, b) if aend else (b, a)
                c = c[:max(0, len(c) - 40)]
                same = e[:len(c)] == c
            inc("prefix")
            if n > 2000:
                inc("long_prefix")
        inc("bytes", n)
        inc("world%d" % w)
        if not same:
            j = next((x for x in range(n) if a[x] != b[x]), n)
            s = max(0, j - 150)
            res["violations"].append(("differs", "two runs of the same search differ", {
                "input": text[:20000], "args": args, "env": {k: v[:40] for k, v in env.items()}, "world": w, "rc": [arc, brc], "ended": [aend, bend], "at": j,
                "first": a[s:j + 150].decode("utf8", "replace"), "other": b[s:j + 150].decode("utf8", "replace"), "case": i, "seed": gk.SEED}))
            break
    inc("proof" if b"proof found" in a else "no_proof")
    inc("level%d" % level)
    inc(kind)
    if limited:
        inc("limited")
    if b"-derived" and b"\n" in a:
        inc("lines", a.count(b"\n"))
    res["distinct"].append(hash((text, tuple(args))))
    for d in dirs:
        os.unlink(os.path.join(d, name))
        os.rmdir(d)
    if i < 4:
        res["sample"] = {"args": args, "out": a[:300].decode("utf8", "replace")}
    return res


def main():
    global A, B, SHIM, FILL
    c = gk.Check("C21")
    B, A, SHIM, FILL = gk.build("dyn"), gk.build("asan"), gk.shared("shim.c", "shim"), gk.shared("fill.c", "fill")
    n = 700 if gk.QUICK else 30000
    gk.cases(c, case, range(n), 2)
    c.finish("sequential searches repeated under other environments, address layouts, memory fills, directories, clocks and builds; compared byte for byte without times; distinct: commands with inputs",
             need={"ended": n // 2, "proof": n // 5, "long_prefix": n // 20, "world0": n // 4, "world1": n // 4, "world2": n // 4, "world3": n // 20, "limited": n // 10})


if __name__ == "__main__":
    gk.main(main)
