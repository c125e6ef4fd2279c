"""P10: paren() adds exactly the parentheses that make precedence irrelevant."""
import rexpr as X
from common import Check, rpc

RULE = ("random expressions over all binary operators, unary operators, methods, fields and spare parentheses; the printed result is "
        "parsed with Rust's precedences: same tree, no operator directly under an operator, stable under a second application, and "
        "nothing on stdout; distinct = expression, non-trivial = two or more operators")


def leaf(r):
    return ("name", r.choice(["x", "y", "a::b", "a::<x>::b"])) if r.random() < 0.6 else ("num", X.rand_number(r))


def method(r, sub):
    if r.random() < 0.2:
        return ("field", sub(), r.choice(["y", "0"]))
    return ("call", r.choice(["f", "sin", "f::<u8>"]), sub(), [sub()] if r.random() < 0.4 else [])


def bare(e):
    """An operator that is directly an operand."""
    k = e[0]
    if k == "bin":
        return e[2][0] in ("bin", "un") or e[3][0] in ("bin", "un") or bare(e[2]) or bare(e[3])
    if k == "un":
        return e[2][0] in ("bin", "un") or bare(e[2])
    if k == "paren":
        return bare(e[1])
    if k == "call":
        return bare(e[2]) or any(bare(a) for a in e[3])
    if k == "field":
        return bare(e[1])
    return False


def dropped(a, b):
    return X.norm(a) != X.norm(b)


def main():
    c = Check("P10", RULE)
    rng = c.rng
    reqs, meta = [], []
    while len(reqs) < c.n(25000, 400000):
        e = X.rand_tree(rng, rng.randrange(1, 7), leaf, ops=rng.choice([X.ALL, "+-*/"]), method=method, unary=0.2, prefixes=rng.choice(["-", "-!*"]))
        txt = X.show(e, rng, extra=rng.choice([0, 0.15]))
        try:
            e = X.parse(txt)
        except X.ParseError:
            continue
        reqs.append(["chain", txt, "paren", "paren", "reparse", "paren"])
        meta.append(e)
    rs = rpc(reqs)
    for q, e, r in zip(reqs, meta, rs):
        key = q[1]
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "paren of %s failed: %s" % (key, r.text), {"request": q})
            continue
        c.seen(key if bare(e) else None, {"request": key, "got": r.text[:160]})
        c.count("needs parentheses" if bare(e) else "has them")
        try:
            g = X.parse(r.fields[0])
        except X.ParseError as x:
            c.violation(key, "paren of %s printed %s: %s" % (key, r.text, x), {"request": q})
            continue
        if dropped(e, g):
            c.violation(key, "paren of %s changed it: %s" % (key, r.text), {"request": q, "response": r.fields})
        elif bare(g):
            c.violation(key, "paren of %s leaves precedence to the reader: %s" % (key, r.text), {"request": q, "response": r.fields})
        elif len({f.replace(" ", "") for f in r.fields}) != 1:
            c.violation(key, "paren of %s is not stable: %s" % (key, r.fields), {"request": q, "response": r.fields})
    c.minimum = 1500
    return c.finish()
