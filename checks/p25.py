"""P25: the reference rows of the generated tests are right."""
from fractions import Fraction
import numpy as np
import mpmath as mp
from common import Check
from gen import Failed, FT, UT
import gentests


RULE = ("every row of every accuracy test the generator writes, in both sizes: the argument is exactly a float of the size, the rows are evenly spread, the value is the float nearest to the "
        "function there and value plus remainder is the function to 15 (32 bits) or 30 (64 bits) digits, against mpmath; distinct = (test, size, argument)")


def exact_float(q, bits):
    f = float(q)
    return Fraction(f) == q and (bits == 64 or Fraction(float(np.float32(f))) == q)


def main():
    c = Check("P25", RULE)
    jobs = [(f, bits, "decimal") for bits in (64, 32) for f in gentests.ONE]
    src = gentests.sources(jobs)
    seen = {}
    for (f, bits, nt), text in src.items():
        if isinstance(text, Failed):
            c.violation("generate %s %d" % (f, bits), str(text))
            continue
        ts = [t for t in gentests.tables(text) if t[1] == f]
        if not ts:
            c.violation("no tests %s %d" % (f, bits), "--generate-tests -f %s has no accuracy test of %s" % (f, f))
        for name, fn, limit, rows in ts:
            key = "%s %d" % (name, bits)
            unit = Fraction(1, 2 ** (23 if bits == 32 else 53))
            lim = gentests.number(limit) / unit
            c.maxi("largest limit in units", float(lim) if f != "qnorm" else 0)
            if lim <= 0 or (lim > 20 and f != "qnorm"):
                c.violation("limit " + key, "the limit of %s is %s units" % (name, float(lim)))
            if len(rows) < 100:
                c.violation("rows " + key, "%s has only %d rows" % (name, len(rows)))
                continue
            try:
                nums = [tuple(map(gentests.number, r)) for r in rows]
            except ValueError as e:
                c.violation("rows " + key, "%s has rows that are not numbers: %s" % (name, e))
                continue
            xs = [r[0] for r in nums]
            step = (xs[-1] - xs[0]) / (len(xs) - 1)
            tol = max(abs(xs[0]), abs(xs[-1])) * (Fraction(1, 2 ** 22) if bits == 32 else Fraction(1, 2 ** 51))
            worst = mp.mpf(0)
            for i, (x, y, e) in enumerate(nums):
                if step <= 0 or abs(x - xs[0] - step * i) > tol:
                    c.violation("spacing " + key, "%s: argument %d is %s; the rows are not evenly spread from %s by %s" % (name, i, float(x), float(xs[0]), float(step)))
                    break
                if not exact_float(x, bits):
                    c.violation("argument " + key, "%s: the argument %s is not a float of %d bits" % (name, rows[i][0], bits))
                    break
                v = gentests.REF[f](mp.mpf(x.numerator) / x.denominator)
                want = ieee_nearest(v, bits)
                c.seen((name, bits, str(x)), {"test": name, "bits": bits, "x": float(x), "y": float(y), "err": float(e)})
                my = mp.mpf(y.numerator) / y.denominator
                me = mp.mpf(e.numerator) / e.denominator
                if y != want and abs(abs(v - my) - abs(v - mp.mpf(want.numerator) / want.denominator)) > mp.mpf(10) ** (-15 if bits == 32 else -32):
                    c.violation("value " + key, "%s: row %d: the value at %s is %s, the nearest float is %s" % (name, i, float(x), float(y), float(want)))
                    break
                r = abs(my + me - v)
                worst = max(worst, r)
                if r > mp.mpf(10) ** (-15 if bits == 32 else -30):
                    c.violation("remainder " + key, "%s: row %d: value plus remainder at %s is off by %s" % (name, i, float(x), mp.nstr(r, 5)))
                    break
            c.count("tests")
            c.count("rows", len(rows))
    c.minimum = 3000
    return c.finish()


def ieee_nearest(v, bits):
    p, emin = (24, -149) if bits == 32 else (53, -1074)
    if v == 0:
        return Fraction(0)
    m, e = mp.frexp(v)
    k = max(int(e) - p, emin)
    q = int(mp.nint(mp.ldexp(v, -k)))
    return Fraction(q) * Fraction(2) ** k
