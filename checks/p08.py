"""P08: subst replaces every occurrence of its variables, all at once, and nothing else."""
import rexpr as X
from common import Check, rpc

RULE = ("random expressions over names, paths with and without type arguments, fields, methods, literals and all operators, with random simultaneous substitutions (swaps, "
        "self-reference, compound, negative and evaluated replacements); the printed result is parsed with Rust's precedences and "
        "its tree compared with the tree the substitution means; closed results are also evaluated in memory and after reparsing; "
        "distinct = (expression, substitution), non-trivial = something was replaced")

NAMES = ["x", "y", "z", "a::b", "f64::consts::PI", "PI", "xx", "_x", "x1", "x::<f64>", "a::<x>::b", "X", "r", "self", "x::y"]
# never variables: a qualified path is not the path without its qualification
QUALIFIED = ["<T as x>::y", "<x as a>::b", "<f64 as f64::consts>::PI", "<x>::x", "<T as x>::x::y"]


def leaf(r):
    if r.random() < 0.03:
        return X.parse(r.choice(QUALIFIED))
    return ("name", r.choice(NAMES if r.random() < 0.5 else NAMES[:4])) if r.random() < 0.65 else ("num", X.rand_number(r))


def method(r, sub):
    k = r.randrange(5)
    if k == 0:
        return ("field", sub(), r.choice(["y", "x", "foo", "0", "1"]))
    if k == 1:
        return ("call", "mul_add", sub(), [sub(), sub()])
    return ("call", r.choice(["sin", "x", "atan", "abs", "y", "into::<x>", "x::<f32>", "sum::<a::b>"]), sub(), [sub()] if r.random() < 0.4 else [])


def replace(e, m):
    k = e[0]
    if k == "name":
        return m.get(e[1], e)
    if k == "paren":
        return replace(e[1], m)
    if k == "un":
        return ("un", e[1], replace(e[2], m))
    if k == "bin":
        return ("bin", e[1], replace(e[2], m), replace(e[3], m))
    if k == "call":
        return ("call", e[1], replace(e[2], m), [replace(a, m) for a in e[3]])
    if k == "field":
        return ("field", replace(e[1], m), e[2])
    return e


def attributes(r, e):
    """Attributes on some of the operands, but for names, which may go."""
    k = e[0]
    if k == "un":
        e = ("un", e[1], attributes(r, e[2]))
    elif k == "bin":
        e = ("bin", e[1], attributes(r, e[2]), attributes(r, e[3]))
    elif k == "call":
        e = ("call", e[1], attributes(r, e[2]), [attributes(r, a) for a in e[3]])
    elif k == "field":
        e = ("field", attributes(r, e[1]), e[2])
    return ("un", r.choice(["#[k]", "#[inline]"]), e) if k != "name" and r.random() < 0.2 else e


def main():
    c = Check("P08", RULE)
    rng = c.rng
    reqs, meta = [], []
    ops = X.ALL + ["+", "-", "*", "/"] * 3
    while len(reqs) < c.n(25000, 400000):
        e = X.rand_tree(rng, rng.randrange(0, 6), leaf, ops=rng.choice([ops, "+-*/"]), method=method, prefixes=rng.choice(["-", "-!*"]))
        txt = X.show(attributes(rng, e) if rng.random() < 0.2 else e, rng, extra=rng.choice([0, 0.15]))
        try:
            e = X.parse(txt)
        except X.ParseError:
            continue
        m = {}
        for n in rng.sample(NAMES, rng.randrange(0, 6)):
            r = rng.random()
            if r < 0.2:
                # eval makes 0 of -0.
                m[n] = X.rand_number(rng)
                m[n] = m[n] if X.literal(m[n]) == 0 else "-" + m[n]
            elif r < 0.35:
                m[n] = rng.choice(NAMES)
            elif r < 0.5:
                m[n] = X.rand_number(rng)
            else:
                m[n] = X.show(X.rand_tree(rng, rng.randrange(1, 4), leaf, ops=rng.choice([ops, "+-*/"]), method=method, prefixes=rng.choice(["-", "-!*"])), rng)
        try:
            want = replace(e, {n: X.parse(t) for n, t in m.items()})
        except X.ParseError:
            continue
        step = "subst" + "".join("\1%s\1%s" % kv for kv in m.items())
        if any(kv[1].startswith("-") for kv in m.items()) and rng.random() < 0.5 and all(
                X.norm(X.parse(v))[0] == "num" or v.startswith("-") and X.parse(v)[2][0] == "num" for v in m.values()):
            step = "substeval\00160" + step[5:]
        q = ["chain", txt, step]
        reqs.append(q)
        meta.append((e, m, want))
    rs = rpc(reqs)
    again = []
    for q, (e, m, want), r in zip(reqs, meta, rs):
        key = (q[1] + " with " + str(m))[:300]
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "subst failed on %s: %s" % (key, r.text), {"request": q})
            continue
        hit = X.names(e) & set(m)
        c.seen(key if hit else None, {"request": key, "got": r.text[:160]})
        c.count("replaced" if hit else "untouched")
        try:
            got = X.norm(X.parse(r.text))
        except X.ParseError as x:
            c.violation(key, "subst of %s printed %s: %s" % (key, r.text, x), {"request": q})
            continue
        if got != X.norm(want):
            c.violation(key, "subst of %s gave %s, expected the tree of %s" % (key, r.text, X.show(want)), {"request": q, "response": r.text})
        if not (X.names(want) - {"PI"}) and len(again) < c.n(6000, 60000):
            again.append([q + ["eval\00120"], q + ["reparse", "eval\00120"]])
    # closed results: the tree in memory means what its text means
    rs = rpc([q for p in again for q in p])
    for i, p in enumerate(again):
        a, b = rs[2 * i], rs[2 * i + 1]
        if not c.answered(a, p[0]) or not c.answered(b, p[1]):
            continue
        c.count("evaluated in memory and reparsed: " + a.status)
        x, y = (a.fields[-1] if a.status == "ok" else "err"), (b.fields[-1] if b.status == "ok" else "err")
        c.seen()
        if x.replace(" ", "") != y.replace(" ", ""):
            c.violation("memory:" + str(p[0])[:200], "%s evaluates to %s, but its text to %s" % (p[0], x, y), {"request": p})
    c.minimum = 1500
    return c.finish()
