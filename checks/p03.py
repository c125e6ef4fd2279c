"""P03: eval computes arithmetic and comparisons with Rust's precedence, exactly but for the
rounding of products and quotients to the requested number of decimals."""
from fractions import Fraction as F
import rexpr as X
from common import Check, rpc

RULE = ("random expression trees over every literal shape, printed with only the parentheses Rust needs (plus random spare ones), "
        "evaluated through eval and compared with exact rational interval arithmetic that allows half a unit of the last decimal "
        "per product and quotient; distinct = (text, digits), non-trivial = at least two operators")


class Skip(Exception):
    pass


def interval(e, nd):
    """(value, error bound)"""
    k = e[0]
    if k == "num":
        return X.literal(e[1]), F(0)
    if k == "paren":
        return interval(e[1], nd)
    if k == "un":
        v, d = interval(e[2], nd)
        return -v, d
    if k == "call":
        v, d = interval(e[2], nd)
        if e[1] == "abs":
            return abs(v), d
        raise Skip()
    o = e[1]
    (a, da), (b, db) = interval(e[2], nd), interval(e[3], nd)
    if o == "+":
        return a + b, da + db
    if o == "-":
        return a - b, da + db
    half = F(1, 2 * 10 ** nd)
    if o == "*":
        v = a * b
        d = abs(a) * db + abs(b) * da + da * db
        if d == 0 and (v * 10 ** nd).denominator == 1:
            return v, F(0)
        return v, d + half
    if o == "/":
        if abs(b) <= db:
            raise Skip()
        v = a / b
        d = (da + abs(v) * db) / (abs(b) - db)
        if d == 0 and (v * 10 ** nd).denominator == 1:
            return v, F(0)
        return v, d + half + abs(v) / 10 ** 95
    raise Skip()


def decimals(e, nd):
    """the most decimals the result can have: what a sum has of its operands, nd for a product or quotient"""
    k = e[0]
    if k == "num":
        return decimals_of(X.literal(e[1]))
    if k == "paren":
        return decimals(e[1], nd)
    if k in ("un", "call"):
        return decimals(e[2], nd)
    return nd if e[1] in "*/" else max(decimals(e[2], nd), decimals(e[3], nd))


def decimals_of(v):
    n = 0
    while v.denominator != 1:
        v *= 10
        n += 1
    return n


def main():
    c = Check("P03", RULE)
    rng = c.rng
    reqs, meta = [], []

    def leaf(r):
        return ("num", X.rand_number(r))

    def method(r, sub):
        return ("call", "abs", sub(), [])
    while len(reqs) < c.n(25000, 400000):
        e = X.rand_tree(rng, rng.randrange(1, 7), leaf, ops="+-*/" if rng.random() < 0.7 else "+-*", method=method)
        if X.size(e) > 60:
            continue
        cmp = None
        if rng.random() < 0.3:
            cmp = rng.choice(["<", ">", "<=", ">=", "==", "!="])
            other = e if rng.random() < 0.35 else X.rand_tree(rng, rng.randrange(0, 4), leaf)
            if rng.random() < 0.3:
                other = ("bin", rng.choice("+-"), other, ("num", rng.choice(["0", "1e-5", "1", "0.0", "1e-%d" % rng.randrange(1, 150)])))
            e = ("bin", cmp, e, other)
        txt = X.show(e, rng, extra=rng.choice([0, 0, 0.1]))
        nd = rng.choice([0, 1, 2, 5, 10, 20, 20, 30, 40, 55, 75, 90])
        reqs.append(["eval", txt, str(nd)])
        meta.append((e, cmp, nd))
    # every pair of operators, bare
    for o1 in "+-*/":
        for o2 in "+-*/":
            for pre in ("", "-"):
                e = X.parse("%s7 %s 2.5 %s 3" % (pre, o1, o2))
                reqs.append(["eval", "%s7 %s 2.5 %s 3" % (pre, o1, o2), "20"])
                meta.append((e, None, 20))
    rs = rpc(reqs)
    for q, (e, cmp, nd), r in zip(reqs, meta, rs):
        key = "%s@%d" % (q[1], nd)
        if not c.answered(r, q, key):
            continue
        try:
            if cmp:
                (a, da), (b, db) = interval(e[2], nd), interval(e[3], nd)
                diff, d = a - b, da + db
                if abs(diff) <= d and d > 0:
                    raise Skip()
                want = {"<": diff < 0, ">": diff > 0, "<=": diff <= 0, ">=": diff >= 0, "==": diff == 0, "!=": diff != 0}[cmp]
            else:
                v, d = interval(e, nd)
        except Skip:
            c.count("undecided by the oracle")
            continue
        if r.status == "err":
            c.violation(key, "eval of %s at %d digits failed: %s" % (q[1], nd, r.text), {"request": q})
            continue
        c.seen((q[1], nd) if X.size(e) >= 5 else None, {"request": q[1], "digits": nd, "got": r.text[:60]})
        if cmp:
            c.count("comparison " + str(want))
            if r.text != str(want).lower():
                c.violation(key, "%s is %s, eval says %s" % (q[1], want, r.text), {"request": q})
            continue
        c.count("exact" if d == 0 else "rounded")
        try:
            got = X.result(r.text)
        except ValueError:
            c.violation(key, "eval of %s is not a number: %s" % (q[1], r.text), {"request": q})
            continue
        if abs(got - v) > d:
            c.violation(key, "%s at %d digits is %s, but its exact value is %s (allowed error %s)" % (
                q[1], nd, r.text[:60], float(v), float(d)), {"request": q, "response": r.text})
            continue
        most = decimals(e, nd)
        if (got * 10 ** most).denominator != 1:
            c.violation(key, "%s at %d digits has more than %d decimals: %s" % (q[1], nd, most, r.text[:150]), {"request": q, "response": r.text})
    c.minimum = 2000
    return c.finish()
