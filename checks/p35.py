"""P35: transformations compose: an expression in memory means what its text says, through any sequence of them."""
from fractions import Fraction as F
import rexpr as X
from p09 import ev
from common import Check, rpc

RULE = ("random expressions taken through random sequences of 1 to 6 transformations (subst by text, by expressions and by negative "
        "literals that only eval makes, expand, collect_terms, paren, use_number_type, a trip through text), once in memory and once "
        "with a trip through text after every step; each printed intermediate result of both runs is parsed with Rust's precedences "
        "and valued exactly, with uninterpreted methods, at random rational points, against the original with the substitutions made "
        "in the arithmetic; distinct = (expression, sequence), non-trivial = two transformations or more")

VARS = "xyzw"
NUMS = ["1", "2", "0", "3.5", "10", "0.25", "7", "1.0", "0.5", "1.5e1"]


def leaf(r):
    return ("name", r.choice(VARS)) if r.random() < 0.65 else ("num", r.choice(NUMS))


def method(r, sub):
    return ("call", r.choice(["f", "g"]), sub(), [sub()] if r.random() < 0.3 else [])


def terms(e):
    while e[0] == "paren":
        e = e[1]
    if e[0] == "bin" and e[1] in "+-":
        return terms(e[2]) + terms(e[3])
    if e[0] == "bin" and e[1] == "*":
        return terms(e[2]) * terms(e[3])
    if e[0] == "un":
        return terms(e[2])
    if e[0] == "call":
        return max([1, terms(e[2])] + [terms(a) for a in e[3]])
    if e[0] == "bin":
        return max(terms(e[2]), terms(e[3]), 1) if e[1] in "/%" else 1
    return 1


def replace(e, m):
    k = e[0]
    if k == "name":
        return m.get(e[1], e)
    if k == "un":
        return ("un", e[1], replace(e[2], m))
    if k == "bin":
        return ("bin", e[1], replace(e[2], m), replace(e[3], m))
    if k == "call":
        return ("call", e[1], replace(e[2], m), [replace(a, m) for a in e[3]])
    if k == "paren":
        return ("paren", replace(e[1], m))
    return e


def sequence(r, e):
    """Steps for the harness, and the tree that has the value after each of them."""
    steps, trees, cur = [], [], e
    for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 6])):
        k = r.choice(["subst", "subst", "substeval", "expand", "paren", "collect", "unt", "reparse"])
        if k in ("subst", "substeval"):
            names = r.sample(VARS, r.randrange(1, 3))
            m, f = {}, [k] + (["12"] if k == "substeval" else [])
            for n in names:
                if k == "subst":
                    v = X.rand_tree(r, r.randrange(0, 3), leaf, ops="+-*", method=method if r.random() < 0.2 else None)
                    f += [n, X.show(v, r, extra=0.2)]
                    m[n] = v
                else:
                    v = r.choice(["0 - 2", "1 - 3.5", "0 - 0.25", "2 + 1", "-7", "1 - 1"])
                    f += [n, v]
                    m[n] = X.parse(v)
            cur2 = replace(cur, m)
            if X.size(cur2) > 90 or terms(cur2) > 120:
                continue
            cur = cur2
            steps.append("\1".join(f))
        elif k in ("expand", "collect") and terms(cur) > 60:
            continue
        elif k == "collect":
            steps.append("collect\1" + r.choice(VARS))
        elif k == "unt":
            steps.append("unt\1decimal\1" + r.choice(["32", "64"]))
        else:
            steps.append(k)
        trees.append(cur)
    return steps, trees


def main():
    c = Check("P35", RULE)
    rng = c.rng
    reqs, meta = [], []
    while len(reqs) < c.n(16000, 160000):
        e = X.rand_tree(rng, rng.randrange(1, 6), leaf, ops=rng.choice(["+-*", "+-*", "+-*/", "+-*/%"]), method=method if rng.random() < 0.4 else None)
        if terms(e) > 40 or X.size(e) > 40:
            continue
        steps, trees = sequence(rng, e)
        if not steps:
            continue
        txt = X.show(e, rng, extra=rng.choice([0, 0.1, 0.3]))
        reqs.append(["chain", txt] + steps)
        meta.append((txt, steps, trees, 1))
        reqs.append(["chain", txt] + [s for t in steps for s in (t, "reparse")])
        meta.append((txt, steps, trees, 2))
    rs = rpc(reqs)
    envs = [{k: F(rng.randrange(-999, 1000), rng.randrange(1, 99)) + F(1, 7919) for k in VARS} for _ in range(2)]
    calls = X.opaque(c.seed)
    kinds = set()
    for q, (txt, steps, trees, stride), r in zip(reqs, meta, rs):
        key = txt + " | " + "; ".join(s.replace("\1", " ") for s in steps) + (" (through text)" if stride == 2 else "")
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "%s failed: %s" % (key, r.text), {"request": q})
            continue
        out = r.fields[::stride] if stride == 1 else r.fields[1::2]
        if len(out) != len(steps):
            c.violation(key, "%s gave %d results, not %d" % (key, len(out), len(steps)), {"request": q})
            continue
        seq = " ".join(s.split("\1")[0] for s in steps)
        if seq not in kinds:
            kinds.add(seq)
            c.count("different sequences of transformations")
        c.count("sequences through text" if stride == 2 else "sequences in memory")
        c.seen(key if len(steps) > 1 else None, {"request": key, "got": out[-1][:160]})
        bad = False
        for i, (s, t, g) in enumerate(zip(steps, trees, out)):
            try:
                p = X.parse(g)
            except X.ParseError as x:
                c.violation(key, "%s: step %d (%s) printed %s: %s" % (key, i + 1, s, g[:200], x), {"request": q, "response": out})
                break
            for env in envs:
                try:
                    a = ev(t, env, calls)
                except X.Undefined:
                    continue
                try:
                    b = ev(p, env, calls)
                except X.Undefined:
                    b = None
                c.count("results valued")
                if a != b:
                    c.violation(key, "%s: after step %d (%s) %s has value %s, the original with its substitutions %s, at %s"
                                % (key, i + 1, s.replace("\1", " "), g[:300], b if b is None else float(b), float(a), {k: str(v) for k, v in env.items()}),
                                {"request": q, "response": out})
                    bad = True
                    break
            if bad:
                break
    c.minimum = 3000
    return c.finish()
