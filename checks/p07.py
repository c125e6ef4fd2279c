"""P07: + - * / on Expressions mean what they say, folded or not."""
from fractions import Fraction as F
import rexpr as X
from common import Check, rpc

RULE = ("random sequences of + - * / on stacks of numeric, negative and symbolic Expressions; the printed result is parsed with Rust's "
        "precedences and compared, exactly, with the intended value at random rational points; distinct = operation sequence, "
        "non-trivial = two or more operators")


def main():
    c = Check("P07", RULE)
    rng = c.rng
    reqs, meta = [], []

    def tree(d):
        if d == 0 or rng.random() < 0.2:
            r = rng.random()
            if r < 0.45:
                return ("leaf", X.rand_number(rng))
            if r < 0.6:
                return ("neg", X.rand_number(rng))
            if r < 0.85:
                return ("leaf", rng.choice("abxyz"))
            return ("leaf", X.show(X.rand_tree(rng, rng.randrange(1, 3), lambda r: ("name", r.choice("abxyz")) if r.random() < 0.6 else ("num", X.rand_number(r)),
                                               ops="+-*"), rng))
        return ("op", rng.choice("+-*/" if rng.random() < 0.7 else "+-"), tree(d - 1), tree(rng.randrange(0, d)))

    def program(t, out):
        if t[0] == "leaf":
            out.append(t[1])
        elif t[0] == "neg":
            out += ["-(" + t[1] + ")", "eval:60"]
        else:
            program(t[2], out)
            program(t[3], out)
            out.append(t[1])
        return out

    def value(t, env):
        """(value, numeric, relative tolerance)"""
        if t[0] == "leaf":
            e = X.parse(t[1])
            return X.evaluate(e, env), e[0] == "num", F(0)
        if t[0] == "neg":
            return -X.literal(t[1]), True, F(0)
        (a, na, ta), (b, nb, tb) = value(t[2], env), value(t[3], env)
        n = na and nb
        o = t[1]
        if o == "/":
            if b == 0 or abs(b) <= tb:
                raise X.Undefined()
            v = a / b
            return v, n, (ta + abs(v) * tb) / (abs(b) - tb) + (abs(v) / 10 ** 98 if n else 0)
        if o == "*":
            return a * b, n, ta * abs(b) + tb * abs(a) + ta * tb
        return (a + b if o == "+" else a - b), n, ta + tb
    envs = [{k: F(rng.randrange(-99, 100), rng.randrange(1, 30)) + F(1, 7919) for k in "abxyz"} for _ in range(3)]
    while len(reqs) < c.n(25000, 400000):
        t = tree(rng.randrange(1, 5))
        if t[0] != "op":
            continue
        try:
            vals = [value(t, e) for e in envs]
        except X.Undefined:
            continue
        reqs.append(["op"] + program(t, []))
        meta.append((t, vals))
    rs = rpc(reqs)
    for q, (t, vals), r in zip(reqs, meta, rs):
        key = " ".join(q)
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "%s failed: %s" % (key, r.text))
            continue
        c.seen(key if len(q) > 5 else None, {"request": key, "got": r.text[:120]})
        c.count("numeric" if r.fields[1] == "true" else "symbolic")
        try:
            e = X.parse(r.text)
            got = [X.evaluate(e, env) for env in envs]
        except (X.ParseError, X.Undefined, ZeroDivisionError, KeyError) as x:
            c.violation(key, "%s gave %s: %r" % (key, r.text, x), {"request": q})
            continue
        for g, (v, n, tol) in zip(got, vals):
            if abs(g - v) > tol or (n and r.fields[1] != "true"):
                c.violation(key, "%s gave %s, which is %s and not %s" % (key, r.text[:200], float(g), float(v)), {"request": q, "response": r.fields})
                break
    c.minimum = 1500
    return c.finish()
