"""Problem generators: random signatures, structures, clauses true in a planted structure,
formulas, strategies."""
from logic import *

VARS = ["X", "Y", "Z", "U"]


def signature(r, equality=None, maxpred=4, maxfun=3):
    preds = [("p%d" % i, r.choice((0, 1, 1, 2, 2, 3) if i else (1, 2))) for i in range(r.randint(2, maxpred))]
    funs = [("f%d" % i, r.choice((1, 1, 2))) for i in range(r.randint(0, maxfun))]
    consts = [("c%d" % i, 0) for i in range(r.randint(1, 4))]
    return preds, funs, consts


def rterm(r, funs, consts, depth, vars_, pvar=0.5):
    x = r.random()
    if vars_ and x < pvar:
        return ("v", r.choice(vars_))
    if depth > 1 and funs and x < pvar + 0.3:
        f, n = r.choice(funs)
        return (f,) + tuple(rterm(r, funs, consts, depth - 1, vars_, pvar) for _ in range(n))
    return (r.choice(consts)[0],)


def rlit(r, sig, eqp, depth=3, vars_=VARS, pvar=0.5):
    preds, funs, consts = sig
    if r.random() < eqp:
        return (r.random() < 0.6, "=", (rterm(r, funs, consts, depth, vars_, pvar), rterm(r, funs, consts, depth, vars_, pvar)))
    p, n = r.choice(preds)
    return (r.random() < 0.5, p, tuple(rterm(r, funs, consts, depth, vars_, pvar) for _ in range(n)))


def rclause(r, sig, eqp, maxlen=4, depth=3, pvar=0.5):
    vs = VARS[:r.choice((0, 1, 2, 2, 3, 3, 4))]
    n = r.choice((1, 1, 2, 2, 2, 3, 3, 4)[:2 * maxlen])
    return tuple(rlit(r, sig, eqp, depth, vs, pvar) for _ in range(n))


def tautology(c):
    s = set(c)
    for l in c:
        if (not l[0], l[1], l[2]) in s:
            return True
        if l[1] == "=" and l[0] and l[2][0] == l[2][1]:
            return True
    return False


def planted_clause(r, sig, m, eqp, tight=0.8, maxlen=4, depth=3):
    """A clause true in structure m; usually such that no literal can be dropped."""
    for _ in range(200):
        c = rclause(r, sig, eqp, maxlen, depth)
        if tautology(c):
            continue
        h = m.holds(c)
        if h is None:
            continue
        if not h:
            # repair by flipping signs
            c = tuple((not l[0], l[1], l[2]) if r.random() < 0.5 else l for l in c)
            if tautology(c) or not m.holds(c):
                continue
        if r.random() < tight:
            i = 0
            while len(c) > 1 and i < len(c):
                d = c[:i] + c[i + 1:]
                if m.holds(d):
                    c = d
                else:
                    i += 1
        return c
    return None


STRAT_NAMES = ["negative_pref", "positive_pref", "hyper", "unit", "double", "triple", "pure_unit", "hardness_pref",
               "query_focus", "knuthbendix_pref", "prohibit_nested_para", "prohibit_unordered_para",
               "prohibit_deep_para", "posunitpara", "max_ground_weight", "max_weight", "hornpref",
               "posweightdoublepref", "negweightdoublepref"]


def strategy(r, exotic=True):
    base = r.choice(["negative_pref", "positive_pref", "hyper", "unit", "double", "triple", "hardness_pref",
                     "query_focus", "knuthbendix_pref", "pure_unit"])
    names = [base] + [n for n in STRAT_NAMES if n != base and r.random() < 0.12]
    s = {"strategy": names, "query_preference": r.choice((0, 0, 1, 2, 3, 4))}
    if r.random() < 0.2:
        s["rewrite"] = 0
    if r.random() < 0.2:
        s["sine"] = r.choice((1, 2))
    if r.random() < 0.2:
        s["weight_select_ratio"] = r.choice((1, 2, 5, 20))
    if r.random() < 0.15:
        s["depth_penalty"] = r.choice((0, 1, 5, 50))
    if r.random() < 0.15:
        s["length_penalty"] = r.choice((0, 1, 5, 50))
    if r.random() < 0.1:
        s["var_weight"] = r.choice((0, 1, 20))
    if r.random() < 0.1:
        s["repeat_var_weight"] = r.choice((0, 1, 20))
    if r.random() < 0.1:
        s["reverse_clauselist"] = 1
    if r.random() < 0.2:
        s["max_answers"] = r.choice((1, 2, 5))
    return s


def limits(r, s):
    """Bounds that make a search end on its own, whatever the machine's speed."""
    s = dict(s)
    s["max_weight"] = r.choice((30, 60, 100))
    s["max_depth"] = r.choice((3, 4, 5))
    s["max_length"] = r.choice((3, 4, 5))
    return s
