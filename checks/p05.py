"""P05: round and round_ieee are correctly rounded; floats become decimals exactly."""
import struct
from fractions import Fraction as F
import ieee
from common import Check, rpc

RULE = ("random, halfway, boundary, subnormal and overflowing decimals rounded with round / round_ieee (direct and through eval), "
        "and random bit patterns converted by bigdf / bigdf32, all against exact rational arithmetic; distinct = request")


def main():
    c = Check("P05", RULE)
    rng = c.rng
    reqs, meta = [], []

    def decimal(d=None):
        d = rng.randrange(0, 30) if d is None else d
        s = "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 20)))
        f = "".join(rng.choice("0123456789999000555") for _ in range(d))
        t = s + ("." + f if f else "")
        return ("-" if rng.random() < 0.5 else "") + t
    for i in range(c.n(10000, 200000)):
        x = decimal()
        nd = rng.randrange(0, 32)
        if rng.random() < 0.3:
            # exactly halfway, and one step to either side
            x = decimal(nd) + ("" if nd else ".") + "5" + rng.choice(["", "0", "00", "0001"])
            if rng.random() < 0.2:
                x = x[:-1] + "4999" if x[-1] == "5" else x
        reqs.append(["bd", "round", str(nd), x])
        meta.append(("round", x, nd))
        if rng.random() < 0.2:
            reqs.append(["eval", "(%s).round()" % x, str(nd)])
            meta.append(("round", x, 0))

    def bits(n):
        r = rng.random()
        e = {32: 8, 64: 11}[n]
        m = n - 1 - e
        if r < 0.3:
            return rng.getrandbits(n)
        ex = rng.choice([0, 1, 2, (1 << e) - 2, (1 << e) - 3, (1 << (e - 1)) - 1, (1 << (e - 1)) + rng.randrange(-30, 30), rng.randrange(0, (1 << e) - 1)])
        ma = rng.choice([0, 1, (1 << m) - 1, (1 << m) - 2, 1 << (m - 1), rng.getrandbits(m)])
        return (rng.getrandbits(1) << (n - 1)) | (ex << m) | ma
    for i in range(c.n(25000, 400000)):
        n = rng.choice([32, 64])
        b = bits(n)
        if not ieee.finite(b, n):
            continue
        v = ieee.value(b, n)
        r = rng.random()
        if r < 0.35:
            reqs.append(["bd", "bigdf" if n == 64 else "bigdf32", "0", "%0*x" % (n // 4, b)])
            meta.append(("exact", b, n))
            continue
        nxt = ieee.value(b + 1, n) if ieee.finite(b + 1, n) else v
        mode = rng.randrange(6)
        if mode == 0:
            w = (v + nxt) / 2
        elif mode == 1:
            w = (v + nxt) / 2 + abs(nxt - v) * F(rng.choice([1, -1]), 10 ** rng.choice([5, 12, 20]))
        elif mode == 2:
            w = v
        elif mode == 3:
            w = v + (nxt - v) * F(rng.randrange(1001), 1000)
        elif mode == 4:
            w = v * F(rng.choice([1, 2, 3]), rng.choice([1, 3, 7]))
        else:
            w = v * 2 ** rng.choice([0, 1, 2, 30])
        s = ieee.exact_decimal(w) or ieee.decimal(w, 1200)
        w = F(s)
        if rng.random() < 0.15 and len(s) < 100:
            reqs.append(["eval", "(%s).round_ieee(%d)" % (s, n), "40"])
        else:
            reqs.append(["bd", "round_ieee", "40", s, str(n)])
        meta.append(("ieee", w, n))
    for bad in ("16", "0", "33", "128", "-32", "80"):
        reqs.append(["bd", "round_ieee", "40", "1.5", bad])
        meta.append(("bad", bad, 0))
    rs = rpc(reqs)
    for q, (kind, x, n), r in zip(reqs, meta, rs):
        key = " ".join(q)[:200]
        if not c.answered(r, q, key):
            continue
        c.seen(tuple(q), {"request": " ".join(q)[:120], "got": (r.status + " " + r.text)[:60]})
        c.count(kind)
        if kind == "bad":
            if r.status != "err":
                c.violation(key, "round_ieee(%s) accepted" % x)
            continue
        if kind == "ieee":
            b = ieee.nearest(x, n)
            if not ieee.finite(b, n):
                c.count("overflow")
                if r.status != "err":
                    c.violation(key, "round_ieee of %s, which overflows f%d, gave %s" % (q[3][:60], n, r.text[:60]), {"request": q})
                continue
            want = ieee.value(b, n)
        elif kind == "exact":
            want = ieee.value(x, n)
        else:
            k = 10 ** n
            v = abs(F(x)) * k
            want = F(int(v + F(1, 2)), k) * (-1 if x[0] == "-" else 1)
        if r.status == "err" or F(r.text.replace(" ", "")) != want:
            c.violation(key, "%s gave %s %s, expected %s" % (" ".join(q)[:200], r.status, r.text[:80], float(want)),
                        {"request": q, "response": r.text, "expected": str(want)[:300]})
    c.minimum = 2000
    return c.finish()
