"""P09: expand (and collect_terms) keep the value; expand leaves no product of a sum."""
from fractions import Fraction as F
import rexpr as X
from common import Check, rpc

RULE = ("random trees of + - * / %, unary minus, methods and nested parentheses, expanded; the printed result is parsed with Rust's "
        "precedences and evaluated exactly at random rational points with uninterpreted methods, and its products are searched for "
        "sums; distinct = expression, non-trivial = a product over a sum")


def leaf(r):
    return ("name", r.choice(["x", "y", "z", "w"])) if r.random() < 0.7 else ("num", r.choice(["1", "2", "0", "3.5", "10", "0.25", "7"]))


def method(r, sub):
    return ("call", r.choice(["f", "g"]), sub(), [sub()] if r.random() < 0.3 else [])


def rem(a, b):
    q = abs(a) // abs(b)
    q = q if (a < 0) == (b < 0) else -q
    return a - b * q


def ev(e, env, calls):
    k = e[0]
    if k == "bin" and e[1] == "%":
        b = ev(e[3], env, calls)
        if b == 0:
            raise X.Undefined()
        return rem(ev(e[2], env, calls), b)
    if k == "bin":
        a, b = ev(e[2], env, calls), ev(e[3], env, calls)
        if e[1] == "/" and b == 0:
            raise X.Undefined()
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[e[1]]()
    if k == "un":
        return -ev(e[2], env, calls)
    if k == "paren":
        return ev(e[1], env, calls)
    if k == "call":
        return calls(e[1], ev(e[2], env, calls), [ev(a, env, calls) for a in e[3]])
    return X.evaluate(e, env, calls)


def unp(e):
    while e[0] == "paren":
        e = e[1]
    return e


def sum_in_product(e):
    """A product with an operand that is a sum, in the additive and multiplicative skeleton."""
    e = unp(e)
    if e[0] == "un":
        x = unp(e[2])
        return (x[0] == "bin" and x[1] in "+-") or sum_in_product(x)
    if e[0] == "bin" and e[1] in "+-":
        return sum_in_product(e[2]) or sum_in_product(e[3])
    if e[0] == "bin" and e[1] == "*":
        for s in (unp(e[2]), unp(e[3])):
            if s[0] == "bin" and s[1] in "+-":
                return True
            if s[0] == "bin" and s[1] == "*" and sum_in_product(s):
                return True
    return False


def terms(e):
    e = unp(e)
    if e[0] == "bin" and e[1] in "+-":
        return terms(e[2]) + terms(e[3])
    if e[0] == "bin" and e[1] == "*":
        return terms(e[2]) * terms(e[3])
    if e[0] == "un":
        return terms(e[2])
    return 1


def main():
    c = Check("P09", RULE)
    rng = c.rng
    reqs, meta = [], []
    while len(reqs) < c.n(25000, 400000):
        e = X.rand_tree(rng, rng.randrange(1, 7), leaf, ops=rng.choice(["+-*", "+-*", "+-*/", "+-*/%"]), method=method if rng.random() < 0.4 else None)
        if terms(e) > 60 or X.size(e) > 60:
            continue
        txt = X.show(e, rng, extra=rng.choice([0, 0.1, 0.3]))
        which = "expand" if rng.random() < 0.85 else "collect\1x"
        reqs.append(["chain", txt, which])
        meta.append((X.parse(txt), which))
    rs = rpc(reqs)
    envs = [{k: F(rng.randrange(-999, 1000), rng.randrange(1, 99)) + F(1, 7919) for k in "xyzw"} for _ in range(3)]
    calls = X.opaque(c.seed)
    for q, (e, which), r in zip(reqs, meta, rs):
        key = which.replace("\1", " ") + " " + q[1]
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "%s failed: %s" % (key, r.text), {"request": q})
            continue
        nontrivial = sum_in_product(e)
        c.seen(key if nontrivial else None, {"request": key, "got": r.text[:160]})
        c.count(which.split("\1")[0] + (" of a product over a sum" if nontrivial else ""))
        try:
            g = X.parse(r.text)
        except X.ParseError as x:
            c.violation(key, "%s printed %s: %s" % (key, r.text, x), {"request": q})
            continue
        for env in envs:
            try:
                a = ev(e, env, calls)
            except X.Undefined:
                continue
            try:
                b = ev(g, env, calls)
            except X.Undefined:
                b = None
            if a != b:
                c.violation(key, "%s gave %s: value %s became %s at %s" % (key, r.text[:300], float(a), b if b is None else float(b), {k: str(v) for k, v in env.items()}),
                            {"request": q, "response": r.text})
                break
        if which == "expand" and sum_in_product(g):
            c.violation(key, "%s left a product over a sum: %s" % (key, r.text[:300]), {"request": q, "response": r.text})
    c.minimum = 1500
    return c.finish()
