"""P11: use_number_type replaces every literal by the nearest float, in the notation asked for, and nothing else."""
from fractions import Fraction as F
import ieee
import rexpr as X
from common import Check, rpc

RULE = ("random expressions with literals in every notation, halfway, subnormal and overflowing values, converted to decimal and hex "
        "at 32 and 64 bits (also after eval and subst made negative literals); the printed result is parsed and compared, literal by "
        "literal, with exact nearest-even rounding; distinct = (expression, type, bits)")


def number(r):
    k = r.random()
    if k < 0.6:
        return X.rand_number(r)
    n = r.choice([32, 64])
    e, m = ieee.P[n]
    ex = r.choice([0, 1, (1 << (e - 1)) - 1 + r.randrange(-20, 20), r.randrange(0, (1 << e) - 1) if n == 32 else (1 << (e - 1)) + r.randrange(-130, 120)])
    b = (ex << m) | r.choice([0, 1, (1 << m) - 1, r.getrandbits(m)])
    v = (ieee.value(b, n) + ieee.value(b + 1, n)) / 2 if ieee.finite(b + 1, n) and r.random() < 0.6 else ieee.value(b, n)
    s = ieee.exact_decimal(v)
    if len(s) > 200:
        s = "%.17ge%d" % (r.uniform(1, 10), r.randrange(-320, 305))
    if "." not in s and "e" not in s:
        s += r.choice(["", ".0", "."])
    return s


def leaf(r):
    if r.random() < 0.03:
        return r.choice([("str", '"1.5"'), ("str", '"0x1"')])
    return ("name", r.choice(["x", "y", "f64::<u8>::x1", "e1", "f32"])) if r.random() < 0.25 else ("num", number(r))


def method(r, sub):
    if r.random() < 0.2:
        return ("field", sub(), r.choice(["x", "0", "1"]))
    return ("call", r.choice(["mul_add", "sin", "powf", "powi", "max", "round_ieee", "log", "eval", "clamp", "into::<f64>"]), sub(), [sub() for _ in range(r.randrange(0, 3))])


def match(e, g, typ, bits):
    """None if g is e with its literals converted, else the reason."""
    while g[0] == "paren":
        g = g[1]
    while e[0] == "paren":
        e = e[1]
    neg = e[0] == "un" and e[1] == "-" and e[2][0] == "num"
    if neg and (g[0] == "fn" if typ == "hex" else g[0] == "un" and g[2][0] == "num"):
        # -1 made by eval is one literal
        want = ieee.nearest(-X.literal(e[2][1]), bits)
        if typ == "decimal":
            return match(e[2], g[2], typ, bits)
        got = int(X.literal(g[2][0][1])) if g[1] == ("name", "f%d::from_bits" % bits) and len(g[2]) == 1 and g[2][0][0] == "num" else None
        return None if got == want else "%s became %s, not bits %x" % (X.show(e), X.show(g), want)
    if e[0] == "num":
        want = ieee.nearest(X.literal(e[1]), bits)
        if typ == "decimal":
            if g[0] != "num" or not g[1].endswith("f%d" % bits):
                return "%s became %s" % (e[1], g)
            got = ieee.nearest(X.literal(g[1]), bits)
        else:
            if g[0] != "fn" or g[1] != ("name", "f%d::from_bits" % bits) or len(g[2]) != 1 or g[2][0][0] != "num":
                return "%s became %s" % (e[1], g)
            got = int(X.literal(g[2][0][1]))
        return None if got == want else "%s became %s, not bits %x" % (e[1], X.show(g), want)
    if e[0] != g[0]:
        return "%s became %s" % (X.show(e), X.show(g))
    k = e[0]
    if k in ("name", "str"):
        return None if e == g else "%s became %s" % (e, g)
    if k == "un":
        return match(e[2], g[2], typ, bits) if e[1] == g[1] else "operator"
    if k == "bin":
        return match(e[2], g[2], typ, bits) or match(e[3], g[3], typ, bits) if e[1] == g[1] else "operator"
    if k == "call":
        if e[1] != g[1] or len(e[3]) != len(g[3]):
            return "method"
        for a, b in zip([e[2]] + e[3], [g[2]] + g[3]):
            w = match(a, b, typ, bits)
            if w:
                return w
        return None
    if k == "field":
        return match(e[1], g[1], typ, bits) if e[2] == g[2] else "field"
    return "kind " + k


def literals(e, out):
    if e[0] == "num":
        out.append(X.literal(e[1]))
    for x in e[1:]:
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, tuple):
                literals(y, out)
    return out


def main():
    c = Check("P11", RULE)
    rng = c.rng
    reqs, meta = [], []
    while len(reqs) < c.n(20000, 400000):
        e = X.rand_tree(rng, rng.randrange(0, 5), leaf, method=method, ops=rng.choice([X.ALL, "+-*/"]), prefixes=rng.choice(["-", "-!*"]))
        txt = X.show(e, rng, extra=0.1)
        typ, bits = rng.choice(["decimal", "hex"]), rng.choice([32, 64])
        if rng.random() < 0.15:
            # negative literals, as eval makes them
            m = number(rng)
            q = ["chain", txt, "substeval\x01400\1x\1-(%s)\1y\1(%s)" % (m, m), "unt\1%s\1%d" % (typ, bits)]
            e = None
        else:
            e = X.parse(txt)
            q = ["chain", txt, "unt\1%s\1%d" % (typ, bits)]
            if rng.random() < 0.05:
                typ = "other"
                q = ["chain", txt, "unt\1other\1%d" % bits]
        reqs.append(q)
        meta.append((e, typ, bits))
    rs = rpc(reqs)
    # the text before conversion is only known to the driver where it made it
    pre = rpc([q[:3] for q, m in zip(reqs, meta) if m[0] is None])
    pre = iter(pre)
    for q, (e, typ, bits), r in zip(reqs, meta, rs):
        if e is None:
            p = next(pre)
            if p.status != "ok":
                continue
            e = X.parse(p.text)
            c.count("after eval and subst")
        key = "%s %s%d" % (q[1][:200], typ, bits)
        if not c.answered(r, q, key):
            continue
        over = any(not ieee.finite(ieee.nearest(v, bits), bits) for v in literals(e, []))
        c.seen(tuple(q) if e[0] != "name" else None, {"request": key, "got": (r.status + " " + (r.fields or [""])[-1])[:160]})
        c.count("%s%d %s" % (typ, bits, "overflow" if over else ""))
        if typ == "other":
            if r.status != "ok" or X.norm(X.parse(r.fields[-1])) != X.norm(e):
                c.violation(key, "unknown number type changed %s to %s" % (q[1], r))
            continue
        if over:
            if r.status != "err":
                c.violation(key, "%s overflows f%d, but gave %s" % (q[1], bits, r.fields[-1][:200]), {"request": q})
            continue
        if r.status != "ok":
            c.violation(key, "use_number_type of %s failed: %s" % (key, r.text), {"request": q})
            continue
        try:
            why = match(e, X.parse(r.fields[-1]), typ, bits)
        except X.ParseError as x:
            why = str(x)
        if why:
            c.violation(key, "use_number_type %s gave %s: %s" % (key, r.fields[-1][:200], why), {"request": q, "response": r.fields})
    c.minimum = 1500
    c.need("after eval and subst", c.n(1000, 20000))
    return c.finish()
