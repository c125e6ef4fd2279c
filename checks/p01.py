"""P01: elementary functions in eval are accurate to the requested number of digits."""
import mpmath as mp
from common import Check, rpc

RULE = ("random and hostile arguments (branch points of the argument reductions, tiny, integral, many-digit, negative) for "
        "every elementary function at random precisions, evaluated through the public eval and compared with mpmath at "
        "digits + 60; distinct = (function, argument, digits)")

mp.mp.dps = 340
LN2, LN10 = mp.log(2), mp.log(10)


def tol(f, x, y, v):
    """In units of 10^-digits."""
    m = max(1, abs(v))
    if f == "tan":
        return 2 * (1 + abs(v)) ** 2
    if f in ("exp2", "powf", "powi"):
        p = abs(x) if f == "exp2" else abs(y)
        b = mp.mpf(2) if f == "exp2" else x
        return (1 + p * (1 + abs(mp.log(b)))) * m + 1
    if f in ("log", "log2", "log10"):
        b = {"log2": LN2, "log10": LN10}.get(f) or mp.log(y)
        return (1 + (2 + 2 * abs(mp.log(x))) + abs(v) * (2 + 2 * abs(b))) / abs(b)
    if f in ("erf", "erfc"):
        return 1 + abs(x)
    if f == "ln":
        return 1 + 2 * abs(v)
    return m


FUN = {
    "sin": (mp.sin, "ang"), "cos": (mp.cos, "ang"), "tan": (mp.tan, "pm10"), "exp": (mp.exp, "exp"),
    "asin": (mp.asin, "unit"), "acos": (mp.acos, "unit"), "atan": (mp.atan, "any"),
    "sqrt": (mp.sqrt, "pos"), "ln": (mp.log, "pos"), "log2": (lambda x: mp.log(x) / LN2, "pos"),
    "log10": (lambda x: mp.log(x) / LN10, "pos"), "log": (lambda x, b: mp.log(x) / mp.log(b), "pos"),
    "exp2": (lambda x: mp.power(2, x), "pm200"), "powf": (mp.power, "base"), "powi": (mp.power, "base"),
    "erf": (mp.erf, "pm15"), "erfc": (mp.erfc, "pm15"), "recip": (lambda x: 1 / x, "any"),
    "abs": (abs, "any"), "signum": (mp.sign, "any"),
    "round": (lambda x: mp.sign(x) * mp.floor(abs(x) + mp.mpf("0.5")), "any"),
}
RANGE = {"pm200": 200, "pm10": 10, "pm15": 15}
# BigDecimal's own division and square root stop at 100 digits; these need neither
ANYDIGITS = ("sin", "cos", "exp", "exp2", "ln", "powf", "powi", "abs", "signum", "round")
HUGE = {"ang": 10 ** 6, "exp": 1000, "pm15": 100}
HOSTILE = {
    "pm200": ["0", "0.0", "1", "-1", "0.5", "-0.5", "50", "-50", "3.14159265358979323846", "1.5707963267948966", "1e-10",
             "-1e-30", "6.283185307179586", "49.999", "0.000001", "31.4", "200", "-200", "-150", "100.5", "-120"],
    "ang": ["0", "0.0", "1", "-1", "0.5", "-0.5", "50", "-50", "3.14159265358979323846", "1.5707963267948966", "1e-10", "-1e-30",
            "6.283185307179586", "200", "-200", "200.0000001", "201", "-201", "1e20", "123456789.123456789", "-1e6", "204.2035224833", "1e100"],
    "exp": ["0", "0.0", "1", "-1", "0.5", "-0.5", "50", "-50", "1e-10", "-1e-30", "200", "-200", "200.1", "201", "-201", "-50000", "1000.5", "0.6931471805599453"],
    "pm10": ["0", "1", "-1", "0.5", "1.5", "1.57", "-1.57", "4.71", "10", "1e-12", "7.85"],
    "pm15": ["0", "0.5", "-0.5", "1", "-1", "5", "-5", "1e-9", "0.1", "2.5", "-3", "15", "-12", "9", "20", "-100", "1e10", "17.5"],
    "unit": ["0", "0.5", "-0.5", "0.50000001", "0.499999999", "1", "-1", "0.70710678", "-0.5000001", "0.999999", "-0.99999",
             "1e-15", "0.51", "0.25"],
    "any": ["0.5", "-0.5", "1", "-1", "1000000", "-1000000", "0.50001", "2", "1e-12", "0.49999", "1e20", "-7", "0.1", "2.5", "-2.5"],
    "pos": ["1", "2", "0.5", "1.648", "1.6487212707", "1.64872127070012814685", "0.6065306597", "0.6066", "10", "1e-10", "1e10",
            "0.99999", "1.00001", "100", "0.1", "2.718281828459045", "0.36787944117", "1e-20", "123456.789"],
    "base": ["2", "0.5", "1", "10", "1.5", "0.1", "3", "0.999", "1.001", "7.25"],
}


def arg(rng, kind):
    if rng.random() < 0.3:
        return rng.choice(HOSTILE[kind])
    digits = rng.choice([0, 1, 2, 4, 8, 16, 25, 40])

    def rnd(lo, hi):
        # uniform with as many digits as wanted, not only a double's 53 bits
        k = 10 ** digits
        v = rng.randrange(int(lo * k), int(hi * k) + 1)
        s = "-" if v < 0 else ""
        v = abs(v)
        return s + ("%d.%0*d" % (v // k, digits, v % k) if digits else str(v))
    if kind in HUGE and rng.random() < 0.15:
        return rnd(-HUGE[kind], HUGE[kind])
    if kind in RANGE or kind in HUGE:
        m = RANGE.get(kind, 200)
        return rnd(-m, m) if rng.random() < 0.3 else rnd(-20, 20) if m > 20 and rng.random() < 0.5 else rnd(-2, 2)
    if kind == "unit":
        return rnd(-1, 1)
    if kind == "any":
        if rng.random() < 0.2:
            return rnd(-10 ** 40, 10 ** 40) if rng.random() < 0.3 else "%s%d.%de%d" % (
                rng.choice(["", "-"]), rng.randrange(1, 10), rng.randrange(10 ** 8), rng.randrange(-30, 41))
        return rnd(-2, 2) if rng.random() < 0.5 else rnd(-10 ** rng.randrange(1, 9), 10 ** rng.randrange(1, 9))
    if kind == "pos":
        s = rnd(0, 4) if rng.random() < 0.4 else "%d.%de%d" % (rng.randrange(1, 10), rng.randrange(10 ** 8), rng.randrange(-12, 13))
        return s
    if kind == "base":
        return rnd(0, 5) if rng.random() < 0.5 else rnd(0, 20)


def again(rng, x):
    """The same number, written otherwise: a BigDecimal of another scale."""
    r = rng.random()
    if r < 0.4 or "e" in x:
        return x
    s, t = ("-", x[1:]) if x[0] == "-" else ("", x)
    i, _, d = t.partition(".")
    if r < 0.6:
        return "%s%s.%s%s" % (s, i, d, "0" * rng.randrange(1, 30))
    if r < 0.8:
        return "%s%se%d" % (s, i + d, -len(d))
    if not d and len(i) > 1 and i.endswith("0"):
        z = len(i) - len(i.rstrip("0"))
        if z < len(i):
            return "%s%se%d" % (s, i[:-z], z)
    k = rng.randrange(1, 9)
    return "%s%s%se%d" % (s, i + d, "0" * k, -len(d) - k)


def main():
    c = Check("P01", RULE)
    rng = c.rng
    reqs, meta = [], []
    for f, (g, kind) in FUN.items():
        for i in range(c.n(2500, 30000)):
            x = arg(rng, kind)
            nd = rng.choice([5, 6, 8, 10, 12, 15, 17, 20, 20, 25, 30, 34, 40, 40, 45, 50, 60, 70, 80, 90, 95])
            if f in ANYDIGITS and rng.random() < 0.1:
                nd = rng.choice([110, 130, 150, 200])
            y = None
            if f == "powi":
                y = str(rng.randrange(-12, 13))
            elif f == "powf":
                y = rng.choice(["0.5", "2", "-1", "0", "0.1", "-2.5", "3.25", "1.0", "-0.333", "%d.%d" % (rng.randrange(-6, 6), rng.randrange(1000))])
            elif f == "log":
                y = rng.choice(["2", "10", "0.5", "3", "2.718281828", "7.5", "0.1", "1.5", "100"])
            if rng.random() < 0.4:
                x = again(rng, x)
            X = mp.mpf(x)
            if kind in ("pos", "base") and X <= 0 or f == "recip" and X == 0:
                continue
            if f == "tan" and abs(mp.cos(X)) < mp.mpf("1e-3"):
                continue
            txt = rng.choice(["(%s).%s(%s)", "((%s)).%s(%s)"]) % (x, f, "" if y is None else y)
            if x[0] != "-" and rng.random() < 0.4:
                txt = "%s.%s(%s)" % (x if x[-1] != "." else x + "0", f, "" if y is None else y)
            reqs.append(["eval", txt, str(nd)])
            meta.append((f, x, y, nd))
    for nd in list(range(1, 130)) + [150, 200]:
        reqs.append(["eval", "PI", str(nd)])
        meta.append(("PI", "", None, nd))
    rs = rpc(reqs)
    for q, (f, x, y, nd), r in zip(reqs, meta, rs):
        key = "%s(%s%s)@%d" % (f, x, "," + y if y else "", nd)
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "eval of %s at %d digits failed: %s" % (q[1], nd, r.text), {"request": q})
            continue
        if f == "PI":
            with mp.workdps(nd + 40):
                v, t = +mp.pi, mp.mpf(10)
                got = mp.mpf(r.text.replace(" ", ""))
                err = abs(got - v) * mp.mpf(10) ** nd
        else:
            X = mp.mpf(x)
            v = FUN[f][0](X) if y is None else FUN[f][0](X, mp.mpf(y))
            t = tol(f, X, None if y is None else mp.mpf(y), v)
            if f in ("abs", "signum", "round"):
                t = mp.mpf("1e-40")
            got = mp.mpf(r.text.replace(" ", ""))
            err = abs(got - v) * mp.mpf(10) ** nd
        if v != 0 and v != 1:
            c.seen((f, x, y, nd), {"request": q[1], "digits": nd, "got": r.text[:40], "reference": mp.nstr(v, 30)})
        else:
            c.seen()
        c.count(f)
        if f not in ("abs", "signum", "round"):
            c.maxi("worst error / bound, " + f, err / t)
        if err > t:
            c.violation(key, "%s at %d digits = %s, but it is %s (error %s units of the last digit, bound %s)" % (
                q[1], nd, r.text[:60], mp.nstr(v, nd + 5), mp.nstr(err, 4), mp.nstr(t, 4)), {"request": q, "response": r.text})
    c.minimum = 2000
    return c.finish()
