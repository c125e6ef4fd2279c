"""P06: numbers survive the trip into an Expression and back."""
import struct
from fractions import Fraction as F
import ieee
import rexpr as X
from common import Check, rpc

RULE = ("random and boundary f32/f64 bit patterns and decimals converted to an Expression and back (by value and by reference), "
        "and literals in every Rust notation converted to f64, f32 and BigDecimal, against exact nearest-even rounding; "
        "distinct = request")


def main():
    c = Check("P06", RULE)
    rng = c.rng
    reqs, meta = [], []
    for i in range(c.n(25000, 400000)):
        k = rng.randrange(4)
        if k < 2:
            n = 64 if k == 0 else 32
            e, m = ieee.P[n]
            r = rng.random()
            if r < 0.4:
                b = rng.getrandbits(n)
            elif r < 0.6:
                ex = rng.choice([0, 1, (1 << e) - 2, (1 << (e - 1)) - 1, (1 << (e - 1)) + rng.randrange(-40, 60)])
                b = (rng.getrandbits(1) << (n - 1)) | (ex << m) | rng.choice([0, 1, (1 << m) - 1, rng.getrandbits(m)])
            else:
                v = rng.choice([rng.randrange(-1000, 1000), rng.randrange(-10 ** 15, 10 ** 15), rng.uniform(-100, 100), 10.0 ** rng.randrange(-30, 30),
                                rng.randrange(1000) / 8, 2.0 ** rng.randrange(-60, 60), float("%.3g" % rng.uniform(0, 1))])
                b = ieee.nearest(F(v), n)
            if not ieee.finite(b, n) or b == 1 << (n - 1):
                continue
            reqs.append(["conv", "f%d" % n, "%0*x" % (n // 4, b)])
            meta.append((k, b))
        elif k == 2:
            t = rng.choice(["", "-"]) + str(rng.randrange(10 ** rng.randrange(1, 40))) + "." + "".join(
                rng.choice("0123456789") for _ in range(rng.randrange(1, 50)))
            if rng.random() < 0.3:
                t = rng.choice(["", "-"]) + str(rng.randrange(10 ** rng.randrange(1, 30)))
            elif rng.random() < 0.2:
                # more digits than BigDecimal's division keeps
                t += "".join(rng.choice("0123456789") for _ in range(rng.randrange(50, 400)))
            reqs.append(["conv", "bd", t])
            meta.append((k, t))
        else:
            t = X.rand_number(rng)
            if rng.random() < 0.3:
                # close to halfway between two floats
                n = rng.choice([32, 64])
                b = ieee.nearest(F(rng.uniform(0.1, 1000)), n)
                w = (ieee.value(b, n) + ieee.value(b + 1, n)) / 2
                t = ieee.exact_decimal(w)
                if "." not in t:
                    t += ".0"
                # ... or so close that rounding to f64 first would make it halfway
                t += rng.choice(["", "1", "000000000001", "0" * 20 + "1", "0" * rng.randrange(60) + "1"])
                if rng.random() < 0.3:
                    t = ieee.exact_decimal(w - F(1, 10 ** rng.randrange(10, 40)))
            reqs.append(["conv", "to", t])
            meta.append((k, t))
    rs = rpc(reqs)
    for q, (k, x), r in zip(reqs, meta, rs):
        key = " ".join(q)
        if not c.answered(r, q, key):
            continue
        c.seen(tuple(q), {"request": key, "got": r.fields[:3]})
        c.count(["f64", "f32", "BigDecimal", "literal"][k])
        if r.status == "err":
            c.violation(key, "%s failed: %s" % (key, r.text), {"request": q})
            continue
        if k < 2:
            n = 64 if k == 0 else 32
            v = ieee.value(x, n)
            text, back, owned, big, num = r.fields
            got = X.result(text)
            ok = (int(back, 16) == x and int(owned, 16) == x and num == "true" and ieee.nearest(F(big), n) == (x if v else 0)
                  and ieee.nearest(got, n) == (x if v else 0) and F(big) == got)
        elif k == 2:
            text, big, owned, num = r.fields
            ok = F(big) == F(x) and F(owned) == F(x) and X.result(text) == F(x) and num == "true"
        else:
            f64v, f32v, big, lit, num, f64o, f32o, bigo = r.fields
            v = X.literal(x)
            ok = (f64v == "%016x" % ieee.nearest(v, 64) and f32v == "%08x" % ieee.nearest(v, 32) and big != "err" and F(big) == v
                  and lit == "true" and num == "true" and f64o == f64v and f32o == f32v and bigo != "err" and F(bigo) == v)
        if not ok:
            c.violation(key, "%s gave %s" % (key, r.fields), {"request": q, "response": r.fields})
    c.minimum = 2000
    return c.finish()
