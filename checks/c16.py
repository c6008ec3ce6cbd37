"""C16: a parallel search prints one result and leaves nothing behind.

Searches with several worker processes under hostile schedules: workers that finish at the same
moment (no waiting for output slots, a slow reader of the output), a time limit that fires at a random
millisecond, workers and parents that are killed, run lists in which most runs cannot succeed."""
import sys, os, threading, fcntl, signal, time, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gk, planted, unsat
from logic import *

B = D = SHIM = None
UNSAT_LONG = "p(a).\n-p(X) | p(f(X)).\n-p(X) | r(X,Y) | -s(Y).\ns(b1).\ns(b2).\n-p(%sa%s).\n"
FOREVER = "p(a).\n-p(X) | p(f(X)) | p(g(X)).\n-p(X) | -p(g(f(X))) | p(g(g(X))).\nq(a,b).\n-q(X,Y) | q(f(X),g(Y)).\n"


def children(pid):
    try:
        return [int(x) for x in open("/proc/%d/task/%d/children" % (pid, pid)).read().split()]
    except OSError:
        return []


def session(sid):
    """Live (not zombie) processes of a session."""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read()
            except OSError:
                continue
            f = f[f.rindex(")") + 2:].split()
            if f[3] == str(sid) and f[0] not in "ZX":
                out.append(int(d))
    return out


def shm_of(pids):
    out = []
    try:
        for l in open("/proc/sysvipc/shm").read().splitlines()[1:]:
            f = l.split()
            if int(f[4]) in pids or int(f[5]) in pids:
                out.append(f[1])
    except OSError:
        pass
    return out


class Result:
    pass


def launch(cmd, env, timeout, slow=0, act=None):
    """act(pid, elapsed-function) runs beside the process.  Result: out, rc, wall, hang, left (surviving
    processes), workers (most seen)."""
    e = dict(os.environ)
    e.update(gk.SAN_ENV)
    e.update(env)
    r, w = os.pipe()
    if slow:
        try:
            fcntl.fcntl(w, 1031, 4096)
        except OSError:
            pass
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.STDOUT, env=e, start_new_session=True, cwd=gk.scratch())
    os.close(w)
    buf = []

    def rd():
        while True:
            if slow:
                time.sleep(0.002)
            try:
                b = os.read(r, 512 if slow else 65536)
            except OSError:
                break
            if not b:
                break
            buf.append(b)
    th = threading.Thread(target=rd, daemon=True)
    th.start()
    s = Result()
    s.seen = set()
    s.hang = False
    ta = threading.Thread(target=act, args=(p.pid, s), daemon=True) if act else None
    if ta:
        ta.start()
    end = t0 + timeout
    while p.poll() is None:
        s.seen.update(children(p.pid))
        if time.time() > end:
            s.hang = True
            break
        time.sleep(0.003)
    s.wall = time.time() - t0
    s.rc = p.poll()
    s.left = []
    if not s.hang:
        stop = time.time() + 3
        while True:
            s.left = session(p.pid)
            if not s.left or time.time() > stop:
                break
            time.sleep(0.01)
    s.busy = 0
    if s.hang:
        s.live = session(p.pid)
    for q in session(p.pid):
        try:
            os.kill(q, 9)
        except OSError:
            pass
    p.wait()
    if ta:
        ta.join(5)
    th.join(5)
    os.close(r)
    s.out = b"".join(buf).decode("utf8", "replace")
    s.shm = shm_of(s.seen | {p.pid})
    return s


def outcomes(out, mode):
    """The list of results in an output: proved / not / time / error / junk."""
    res = []
    if mode == "-json":
        d = json.JSONDecoder()
        i = 0
        while True:
            while i < len(out) and out[i].isspace():
                i += 1
            if i >= len(out):
                return res
            try:
                o, i = d.raw_decode(out, i)
            except ValueError:
                res.append("junk")
                return res
            if "error" in o:
                res.append("error")
            elif "answers" in o:
                res.append("proved")
            elif "time limit" in o.get("result", ""):
                res.append("time")
            else:
                res.append("not")
    for l in out.splitlines():
        if l.startswith("result: proof found"):
            res.append("proved")
        elif l.startswith("result: proof not found") or l.startswith("% SZS status Timeout"):
            res.append("not")
        elif "time limit, proof not found" in l:
            res.append("time")
        elif '"error"' in l or l.startswith("error"):
            res.append("error")
    return res


GOOD = [{"strategy": ["negative_pref"], "query_preference": 0}, {"strategy": ["positive_pref"], "query_preference": 0},
        {"strategy": ["knuthbendix_pref"], "query_preference": 0}, {"strategy": ["negative_pref"], "query_preference": 0, "weight_select_ratio": 100}]
USELESS = [{"strategy": ["unit"], "max_size": 2}, {"strategy": ["negative_pref"], "max_depth": 2}, {"strategy": ["positive_pref"], "max_size": 2},
           {"strategy": ["negative_pref"], "query_preference": 0, "max_length": 1, "max_depth": 2}]


def case(i):
    r = gk.rng("C16", i)
    res = {"counts": {}, "violations": [], "distinct": [], "evals": 0}
    cnt = res["counts"]

    def inc(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    kind = ("together", "together", "runs", "alarm", "alarm", "kill", "killall", "parent", "together", "auto")[i % 10]
    nw = r.choice((2, 2, 3, 4, 4, 6, 8))
    mode = r.choice(("-json", "-json", None, "-tptp"))
    env = {}
    strat = None
    timeout = 30
    act = None
    slow = 0
    want = None            # set of acceptable outcomes
    args = []
    n = r.randint(5, 40)
    long = UNSAT_LONG % ("f(" * n, ")" * n)
    if kind == "together":
        env = {"GKSHIM_SLOT": "1"}
        slow = r.random() < 0.5
        what = r.choice(("unsat", "unsat", "answers", "sat"))
        strat = {"runs": [r.choice(GOOD) for _ in range(nw)]} if r.random() < 0.5 else {"runs": [GOOD[0]] * nw}
        if what == "sat":
            text = "\n".join(c_text(c) for c in planted.clausal(r, 8).clauses[:8]) + "\nzz(a)."
            text = re.sub("(?m)^.* = .*$|^.* != .*$", "", text)
            for x in strat["runs"]:
                x = dict(x)
            strat["runs"] = [dict(x, max_dseconds=2) for x in strat["runs"]]
            want = {"not"}
        elif what == "answers":
            k = r.randint(1, 5)
            text = "".join("fact(c%d).\n" % j for j in range(6)) + "-fact(X) | good(X).\n-good(X) | $ans(X).\n"
            strat["max_answers"] = k
            want = {"proved"}
        else:
            text = long
            want = {"proved"}
    elif kind == "auto":
        text, want = r.choice(((long, {"proved"}), ("p(a).\n-q(b).\n", {"not"})))
        env = {"GKSHIM_SLOT": "1"} if r.random() < 0.5 else {}
    elif kind == "runs":
        # most runs cannot succeed; the outcome must be that of the single runs
        n = r.randint(10, 60)
        text = UNSAT_LONG % ("f(" * n, ")" * n)
        runs = [r.choice(USELESS) for _ in range(r.randint(2, 7))]
        if r.random() < 0.7:
            runs[r.randrange(len(runs))] = r.choice(GOOD)
        strat = {"runs": runs}
        single = set()
        for x in runs:
            o = gk.gkc(B, text, strategy=x, timeout=20)
            single.update(outcomes(o.out, "-json"))
        if not single <= {"proved", "not"}:
            res["inconclusive"] = 1
            return res
        want = {"proved"} if "proved" in single else {"not"}
        inc("runs_" + min(want))
        env = {"GKSHIM_SLOT": "1"} if r.random() < 0.5 else {}
    elif kind == "alarm":
        ms = r.randint(1, 60) if r.random() < 0.8 else r.randint(60, 400)
        env = {"GKSHIM_ALARM_MS": str(ms)}
        args = ["-seconds", "5"]
        slow = r.random() < 0.5
        if r.random() < 0.7:
            env["GKSHIM_SLOT"] = "1"
        if r.random() < 0.4:
            nw = 0
        text = r.choice((long, long, FOREVER))
        strat = {"runs": [dict(r.choice(GOOD), max_seconds=6) for _ in range(max(nw, 1))]}
        want = {"time", "not"} if text is FOREVER else {"proved", "time"}
        timeout = 20
    elif kind in ("kill", "killall"):
        text = FOREVER if kind == "killall" or r.random() < 0.6 else long
        strat = {"runs": [dict(GOOD[0], max_seconds=2) for _ in range(nw)]}
        sig = r.choice((signal.SIGKILL, signal.SIGSEGV, signal.SIGABRT, signal.SIGTERM))
        at = r.uniform(0.005, 0.15)
        vict = nw if kind == "killall" else 1
        timeout = 20

        def act(pid, s, rr=r.random()):
            time.sleep(at)
            end = time.time() + 0.5
            while True:
                ch = children(pid)
                if len(ch) >= nw or time.time() > end:
                    break
                time.sleep(0.002)
            s.killed = 0
            for q in ch[:] if vict >= nw else ch[int(rr * len(ch)):][:1]:
                try:
                    os.kill(q, sig)
                    s.killed += 1
                except OSError:
                    pass
        want = {"not", "time"} if text is FOREVER else {"proved"}
    else:                  # the parent is killed
        text = FOREVER
        strat = {"runs": [dict(GOOD[0], max_seconds=20) for _ in range(nw)]}
        at = r.uniform(0.02, 0.2)
        psig = r.choice((signal.SIGKILL, signal.SIGTERM, signal.SIGUSR1))     # not SIGINT: a job in the background ignores it

        def act(pid, s):
            time.sleep(at)
            try:
                os.kill(pid, psig)
            except OSError:
                pass
        want = None
    if kind in ("together", "alarm", "auto", "runs"):
        env["LD_PRELOAD"] = SHIM
    f = gk.tmpfile(text)
    cmd = [D, f, "-parallel", str(nw), "-print", "10", "-mbsize", "1000" if text is FOREVER else "60"] + ([mode] if mode else []) + args
    if strat:
        cmd += ["-strategytext", json.dumps(strat)]
    s = launch(cmd, env, timeout, slow, act)
    os.unlink(f)
    res["evals"] = 1
    inc("kind_" + kind)
    inc("workers_seen", len(s.seen))
    res["distinct"].append((kind, nw, str(mode), hash(text), json.dumps(strat), env.get("GKSHIM_ALARM_MS")))
    rep = {"case": i, "seed": gk.SEED, "kind": kind, "text": text, "cmd": cmd, "env": {k: v for k, v in env.items()}, "out": s.out[-3000:], "rc": s.rc, "wall": s.wall, "want": sorted(want or ())}

    def bad(key, msg):
        res["violations"].append((key, msg, rep))
    if s.hang:
        rep["live"] = s.live
        bad("hang:" + ("dead-worker" if kind.startswith("kill") else kind), "the search did not end within %d s" % timeout)
        return res
    if s.left:
        bad("left-behind", "%d worker processes live on" % len(s.left))
    if s.shm:
        bad("shared-memory", "shared memory segments of the processes remain: %s" % s.shm)
    if kind == "parent":
        inc("parents_killed")
        return res
    if s.rc is not None and s.rc < 0:
        bad("crash", "gkc died by signal %d" % -s.rc)
        return res
    got = outcomes(s.out, mode)
    inc("out_" + "+".join(sorted(set(got))) if got else "out_none")
    if kind in ("kill", "killall"):
        inc("workers_killed", getattr(s, "killed", 0))
        if s.wall > 2 * 2 + 6:
            res["inconclusive"] = 1
        if kind == "killall" and getattr(s, "killed", 0) >= nw and s.wall > 8:
            bad("hang:dead-worker", "all workers were killed and the search went on for %.1f s" % s.wall)
    if kind in ("kill",) and "proved" in want and getattr(s, "killed", 0) and not got:
        # the claimant itself may have been the victim while it printed
        res["inconclusive"] = 1
        return res
    if kind in ("kill",) and got != ["proved"] and "proved" in want and getattr(s, "killed", 0):
        # a worker killed while it prints its proof leaves a torn one
        if '"proof found"' in s.out or "proof found" in s.out or "SZS status" in s.out:
            res["inconclusive"] = 1
            return res
    if len(got) != 1:
        bad("results", "%d results (%s) in one output" % (len(got), got))
        return res
    if got[0] not in want:
        bad("outcome", "outcome %s, expected %s" % (got[0], sorted(want)))
    if i < 20:
        res["sample"] = {"kind": kind, "workers": nw, "mode": mode, "outcome": got, "wall": round(s.wall, 3)}
    return res


def main():
    global B, D, SHIM
    c = gk.Check("C16")
    B, D = gk.build("plain"), gk.build("dyn")
    SHIM = gk.shared("shim.c", "shim")
    n = 400 if gk.QUICK else 12000
    gk.cases(c, case, range(n), 1)
    c.assumptions = ["a torn result of a worker killed while printing is not judged"]
    c.finish("searches with 2-8 workers under forced simultaneous finishes, time limits at random milliseconds, killed workers and parents, and run lists of mostly useless runs; distinct: (kind, workers, output, problem, runs, alarm)",
             need={"kind_together": n // 5, "kind_alarm": n // 8, "workers_killed": n // 10, "workers_seen": n, "out_time": n // 50, "out_proved": n // 5, "out_not": n // 10})


if __name__ == "__main__":
    gk.main(main)
