"""P12: approx interpolates the function on the Chebyshev nodes, with the parity asked for."""
import struct
from fractions import Fraction as F
import mpmath as mp
import rexpr as X
from common import Check, rpc

RULE = ("random smooth functions, intervals, numbers of terms, parities and precisions; the printed polynomial is parsed and evaluated "
        "exactly, and compared with mpmath at the interpolation nodes, checked for its degree (exact finite differences), for exact "
        "evenness or oddness and for the interpolation error bound between nodes; Polynomial::from_points on random points; "
        "distinct = request, non-trivial = a polynomial came back")

mp.mp.dps = 150
SMOOTH = {"sin": mp.sin, "cos": mp.cos, "exp": mp.exp, "erf": mp.erf, "atan": mp.atan, "ln": mp.log, "sqrt": mp.sqrt, "recip": lambda x: 1 / x,
          "exp2": lambda x: mp.power(2, x), "log2": lambda x: mp.log(x) / mp.log(2), "asin": mp.asin}


def mpev(e, x):
    k = e[0]
    if k == "num":
        v = X.literal(e[1])
        return mp.mpf(v.numerator) / v.denominator
    if k == "name":
        return x
    if k == "paren":
        return mpev(e[1], x)
    if k == "un":
        return -mpev(e[2], x)
    if k == "bin":
        a, b = mpev(e[2], x), mpev(e[3], x)
        return {"+": a + b, "-": a - b, "*": a * b}[e[1]] if e[1] != "/" else a / b
    return SMOOTH[e[1]](mpev(e[2], x))


def calls(name, recv, args):
    if name == "mul_add":
        return recv * args[0] + args[1]
    raise X.Undefined(name)


def bits(v):
    return struct.pack(">d", v).hex()


def fr(v):
    """The exact rational of an mpf."""
    m, e = mp.mpf(v).man_exp
    return F(int(m)) * F(2) ** e


def gen(rng):
    """(text, parity it really has: 'odd' 'even' 'neither', low, high, pure (function, scale) or None)"""
    r = rng.random()
    num = lambda lo, hi: "%.3f" % rng.uniform(lo, hi)
    if r < 0.25:
        c = rng.choice(["1", "2", "0.5", num(0.1, 3)])
        f = rng.choice(["sin", "cos", "exp"])
        return "(x * %s).%s()" % (c, f), {"sin": "odd", "cos": "even", "exp": "neither"}[f], -2.5, 2.5, (f, float(c))
    if r < 0.4:
        f = rng.choice(["atan", "erf", "sin"])
        return rng.choice(["x.%s()", "x * x.%s()", "x.%s() * (1 + x * x)", "-x.%s()"]) % f, None, -0.9, 0.9, None
    if r < 0.55:
        f = rng.choice(["ln", "sqrt", "recip", "log2", "exp"])
        return rng.choice(["x.%s()", "x.%s() - 1.5", "x * x.%s() - x", "2 / (x.%s() + 3)"]) % f, "neither", 0.6, 3.0, None
    if r < 0.8:
        # a polynomial
        n = rng.randrange(1, 6)
        t = " + ".join("%s%s" % (num(0, 3), " * x" * i) for i in range(n + 1))
        return t, "neither", -3.0, 3.0, ("poly", n)
    if r < 0.9:
        n = rng.randrange(0, 3)
        t = " + ".join("%s%s" % (num(0, 3), " * x * x" * i) for i in range(n + 1))
        return t, "even", -2.0, 2.0, ("poly", 2 * n)
    n = rng.randrange(0, 3)
    t = " - ".join("%s * x%s" % (num(0, 3), " * x * x" * i) for i in range(n + 1))
    return t, "odd", -2.0, 2.0, ("poly", 2 * n + 1)


def parity_of(e):
    s = set()
    for i in range(5):
        x = mp.mpf(i * 17 + 3) / 100
        a, b = mpev(e, x), mpev(e, -x)
        if abs(a - b) < mp.mpf(10) ** -100:
            s.add("even")
        elif abs(a + b) < mp.mpf(10) ** -100:
            s.add("odd")
        else:
            s.add("neither")
    return s.pop() if len(s) == 1 else "neither"


def main():
    c = Check("P12", RULE)
    rng = c.rng
    reqs, meta = [], []
    for i in range(c.n(700, 12000)):
        txt, par, lo, hi, pure = gen(rng)
        e = X.parse(txt)
        if par is None:
            par = parity_of(e)
        asked = par if rng.random() < 0.8 else "neither"
        n = rng.randrange(2, 15)
        if asked == "neither":
            a = rng.choice([round(rng.uniform(lo, hi), rng.choice([1, 3, 15])) for _ in range(3)] + [lo, 0.0 if lo <= 0 else lo])
            b = rng.choice([round(rng.uniform(lo, hi), rng.choice([1, 3, 15])), hi])
            a, b = min(a, b), max(a, b)
            if b - a < 0.05:
                continue
        else:
            b = round(rng.uniform(0.1, hi), rng.choice([1, 3, 15]))
            a = -b
            if (n % 2 == 0) != (asked == "odd"):
                n += 1
        nd = rng.choice([12, 17, 20, 30, 40, 55, 70, 80])
        var = "x"
        if rng.random() < 0.2:
            var = rng.choice(["y", "t1", "value"])
            txt2 = X.show(rename(e, var))
        else:
            txt2 = txt
        reqs.append(["chain", txt2, "\1".join(["approx", str(n), bits(a), bits(b), var, asked, str(nd)])])
        meta.append(("ok", e, var, n, a, b, asked, nd, pure))
    # what must be an error: a number of terms the parity cannot have, too few, an undefined node
    for i in range(c.n(80, 800)):
        k = rng.randrange(4)
        nd = rng.choice([10, 20])
        if k == 0:
            q = ["approx", str(2 * rng.randrange(1, 8) + 1), bits(-1.0), bits(1.0), "x", "odd", str(nd)]
            t = "x.sin()"
        elif k == 1:
            q = ["approx", str(2 * rng.randrange(1, 8)), bits(-1.0), bits(1.0), "x", "even", str(nd)]
            t = "x.cos()"
        elif k == 2:
            q = ["approx", rng.choice("01"), bits(-1.0), bits(1.0), "x", rng.choice(["odd", "even", "neither"]), str(nd)]
            t = "x.cos()"
        else:
            q = ["approx", str(rng.randrange(2, 10)), bits(rng.choice([-1.0, 0.0, -0.5])), bits(rng.choice([1.0, 2.5])), "x", "neither", str(nd)]
            t = rng.choice(["x.ln()", "(x - 0.25).sqrt()", "x + q", "(x * 4).asin()"])
        reqs.append(["chain", t, "\1".join(q)])
        meta.append(("err",) + tuple([t] + q))
    rs = rpc(reqs)
    for q, m, r in zip(reqs, meta, rs):
        key = q[1] + " " + q[2].replace("\1", " ")
        if not c.answered(r, q, key):
            continue
        if m[0] == "err":
            c.count("errors expected")
            c.seen(key)
            if r.status != "err":
                c.violation(key, "approx of %s should be an error, gave %s" % (key, r.text[:200]), {"request": q})
            continue
        _, e, var, n, a, b, asked, nd, pure = m
        if r.status == "err":
            c.violation(key, "approx of %s failed: %s" % (key, r.text), {"request": q})
            continue
        c.count("parity " + asked)
        try:
            p = X.parse(r.text)
        except X.ParseError as x:
            c.violation(key, "approx printed %s: %s" % (r.text, x), {"request": q})
            continue
        c.seen(key, {"request": key, "got": r.text[:160]})

        def at(x):
            return X.evaluate(p, {var: x}, calls)
        try:
            vals = [at(F(i - n // 2, 7)) for i in range(n + 1)]
        except (X.Undefined, KeyError) as x:
            c.violation(key, "approx gave %s, not a polynomial in %s: %s" % (r.text[:300], var, x), {"request": q})
            continue
        d = vals
        for _ in range(n):
            d = [d[i + 1] - d[i] for i in range(len(d) - 1)]
        if d != [0]:
            c.violation(key, "approx with %d terms gave a polynomial of a higher degree: %s" % (n, r.text[:300]), {"request": q})
        s = {"odd": -1, "even": 1}.get(asked)
        if s is not None:
            for i in range(1, 4):
                if at(F(i, 3)) != s * at(F(-i, 3)):
                    c.violation(key, "asked for an %s polynomial, got %s" % (asked, r.text[:300]), {"request": q})
                    break
        A, B = F(a), F(b)
        mid, half = (A + B) / 2, (B - A) / 2
        width = max(abs(a), abs(b), 1.0)
        scale = mp.mpf(10) ** -nd * mp.mpf(2) ** n * mp.mpf(width) ** n * 10
        if b - a < 1:
            # rounding the divided differences to so many decimals
            scale *= mp.mpf(1) / mp.mpf(b - a)
        worst = mp.mpf(0)
        for i in range(n):
            x = fr(mp.cos(i * mp.pi / (n - 1)))
            x = mid - half * x
            y = mpev(e, mp.mpf(x.numerator) / x.denominator)
            g = at(x)
            g = mp.mpf(g.numerator) / g.denominator
            worst = max(worst, abs(g - y))
        c.maxi("worst node error / bound", worst / scale)
        if worst > scale:
            c.violation(key, "approx of %s is off by %s at a node (bound %s): %s" % (key, mp.nstr(worst, 3), mp.nstr(scale, 3), r.text[:300]),
                        {"request": q, "response": r.text})
            continue
        # between the nodes: |f^(n)|/n! prod |x - x_i|, at most 2 (w/2)^n 2^(1-n) ... for these nodes
        if pure:
            f, k = pure
            if f == "poly":
                bound = mp.mpf(0) if k < n else None
            else:
                top = mp.exp(k * max(abs(a), abs(b))) if f == "exp" else mp.mpf(1)
                bound = top * mp.mpf(k) ** n / mp.factorial(n) * 4 * mp.mpf(float(half)) ** n / mp.mpf(2) ** (n - 1)
            if bound is not None:
                c.count("error bound between the nodes")
                for i in range(12):
                    x = A + (B - A) * F(rng.randrange(0, 1001), 1000)
                    y = mpev(e, mp.mpf(x.numerator) / x.denominator)
                    g = at(x)
                    g = mp.mpf(g.numerator) / g.denominator
                    if abs(g - y) > bound + scale * 4:
                        c.violation(key, "approx of %s is off by %s at %s (bound %s)" % (key, mp.nstr(abs(g - y), 3), float(x), mp.nstr(bound + scale, 3)),
                                    {"request": q, "response": r.text})
                        break
    # Polynomial::from_points
    reqs, meta = [], []
    for i in range(c.n(500, 8000)):
        n = rng.choice([rng.randrange(2, 11), rng.randrange(2, 11), rng.randrange(11, 26)])
        # divisions are to 100 digits
        nd = rng.choice([15, 20, 30, 40, 60] if n > 10 else [15, 20, 30, 40, 60, 80])
        den = rng.choice([1, 2, 4, 5, 8, 10])
        xs = rng.sample(range(-20, 21), n)
        xs = [F(v, den) for v in xs]
        if rng.random() < 0.5:
            xs.sort()
        ys = [F(rng.randrange(-1000, 1000), rng.choice([1, 2, 4, 10, 100])) for _ in range(n)]
        if rng.random() < 0.3:
            # points of a polynomial of a lower degree
            co = [rng.randrange(-5, 6) for _ in range(rng.randrange(1, n + 1))]
            ys = [sum(k * x ** j for j, k in enumerate(co)) for x in xs]
        from ieee import exact_decimal
        reqs.append(["poly", str(nd), str(n)] + [exact_decimal(v) for v in xs + ys + xs + [F(3, 8)]])
        meta.append((nd, n, xs, ys))
    rs = rpc(reqs)
    for q, (nd, n, xs, ys), r in zip(reqs, meta, rs):
        key = "from_points " + " ".join(q[1:])[:200]
        if not c.answered(r, q, key):
            continue
        c.seen(key)
        c.count("from_points")
        if r.status == "err" or len(r.fields) != 2 * n + 1:
            c.violation(key, "from_points: %s" % r, {"request": q})
            continue
        co = [F(t) for t in r.fields[:n]]
        big = max(1, max(abs(x) for x in xs))
        gap = min(abs(x - y) for i, x in enumerate(xs) for y in xs[:i])
        tol = float(F(1, 10 ** nd) * (2 * big) ** n * (1 + 1 / gap) ** n) * 10
        for x, y, g in zip(xs, ys, r.fields[n:2 * n]):
            w = sum(k * x ** j for j, k in enumerate(co))
            c.maxi("from_points worst / bound", float(abs(w - y)) / tol)
            if abs(w - y) > tol:
                c.violation(key, "from_points does not pass through (%s, %s): %s" % (x, y, float(w)), {"request": q, "response": r.fields})
                break
            if F(g) != w:
                c.violation(key, "Polynomial::eval(%s) is %s, its terms give %s" % (x, g, w), {"request": q, "response": r.fields})
                break
        w = sum(k * F(3, 8) ** j for j, k in enumerate(co))
        if F(r.fields[-1]) != w:
            c.violation(key, "Polynomial::eval(3/8) is %s, its terms give %s" % (r.fields[-1], float(w)), {"request": q})
    c.minimum = 500
    return c.finish()


def rename(e, var):
    if e[0] == "name":
        return ("name", var)
    return tuple(rename(x, var) if isinstance(x, tuple) else [rename(y, var) for y in x] if isinstance(x, list) else x for x in e)
