"""P40: the decimal functions of bdmath, called directly, are right to the digits asked for."""
import mpmath as mp
import p01
import p02
from common import Check, rpc

RULE = ("every function of bdmath called directly with random and hostile arguments in many representations of the same number (trailing zeros, exponents, a negative scale), at random precisions, and compared "
        "with mpmath; arguments in and out of the domains of the functions that return an Option; distinct = (function, arguments, digits)")
mp.mp.dps = 340
FUN = {f: p01.FUN[f] for f in ("sin", "cos", "tan", "exp", "asin", "acos", "atan", "sqrt", "ln", "log", "erf", "erfc")}
FUN["pow"] = (mp.power, "base")
CONST = {"pi": lambda: +mp.pi, "sqrt_two": lambda: mp.sqrt(2), "one_over_root_two_pi": lambda: 1 / mp.sqrt(2 * mp.pi)}


def main():
    c = Check("P40", RULE)
    rng = c.rng
    reqs, meta = [], []

    def ask(f, nd, *a):
        reqs.append(["bd", f, str(nd)] + list(a))
        meta.append((f, nd) + a)
    for f in FUN:
        for _ in range(c.n(500, 8000)):
            x = p01.arg(rng, FUN[f][1])
            nd = rng.choice([5, 8, 10, 12, 15, 20, 25, 30, 40, 45, 50, 60, 80])
            X = mp.mpf(x)
            y = []
            if f == "log":
                y = [rng.choice(["2", "10", "0.5", "3", "2.718281828", "7.5", "0.1", "1.5", "100"])]
            elif f == "pow":
                y = [rng.choice(["0.5", "2", "-1", "0", "0.1", "-2.5", "3.25", "1.0", "-0.333", "%d.%d" % (rng.randrange(-6, 6), rng.randrange(1000))])]
            if FUN[f][1] in ("pos", "base") and X <= 0 or f == "tan" and abs(mp.cos(X)) < mp.mpf("1e-3"):
                continue
            ask(f, nd, p01.again(rng, x), *[p01.again(rng, v) for v in y])
    # outside of the domain
    for _ in range(c.n(300, 3000)):
        x = rng.choice(["0", "0.0", "-1", "-0.5", "-1e-30", "-1000000", "0e5", "-%d.%d" % (rng.randrange(100), rng.randrange(1, 1000))])
        good = rng.choice(["2", "0.5", "10.25"])
        f, a = rng.choice([("sqrt", [x if mp.mpf(x) < 0 else "-2"]), ("ln", [x]), ("log", [x, good]), ("log", [good, x]), ("log", [good, rng.choice(["1", "1.000", "10e-1"])]), ("pow", [x, rng.choice([good, "0", "1", "-1", "2", "-0.5", "1e-30", "0.0", "3"])]),
                           ("qnorm", [x, "0", "1"]), ("qnorm", [rng.choice(["1", "1.0", "1.5", "1e3", "100e-2"]), good, "1"])])
        ask(f, rng.choice([5, 10, 20, 40]), *a)
        meta[-1] = ("None",) + meta[-1]
    for _ in range(c.n(400, 5000)):
        f = rng.choice(["dnorm", "pnorm", "qnorm"])
        nd = rng.choice([8, 10, 15, 20, 25, 30, 40, 60])
        m, s = rng.choice(["0", "1", "-2", "%.2f" % rng.uniform(-50, 50)]), rng.choice(["1", "0.5", "2", "%.3f" % rng.uniform(0.1, 9)])
        z = "%.*f" % (rng.choice([1, 4, 9]), rng.uniform(-6, 6))
        x = "%.6f" % rng.uniform(0.001, 0.999) if f == "qnorm" else mp.nstr(mp.mpf(m) + mp.mpf(z) * mp.mpf(s), 30, strip_zeros=True, min_fixed=-40, max_fixed=40)
        ask(f, nd, p01.again(rng, x), p01.again(rng, m), p01.again(rng, s))
    for f in CONST:
        for nd in range(1, 131 if f == "pi" else 91):
            ask(f, nd)
    for f, v in (("zero", 0), ("one", 1), ("half", mp.mpf(1) / 2), ("two", 2)):
        ask(f, 0)
        meta[-1] = ("exactly", v)
    for i in [0, 1, -1, 2 ** 31 - 1, -2 ** 31] + [rng.randrange(-2 ** 31, 2 ** 31) for _ in range(60)]:
        ask("bigd", 0, str(i))
        meta[-1] = ("exactly", i)
    for bits, v in ((32, 20), (64, 40)):
        ask("num_digits_for", bits)
        meta[-1] = ("exactly", v)
    for q, m, r in zip(reqs, meta, rpc(reqs)):
        key = " ".join(q[1:])
        if not c.answered(r, q, key):
            continue
        c.seen(key)
        if m[0] == "None":
            c.count("None " + m[1])
            if r.status != "err" or r.text != "None":
                c.violation(key, "%s is not None: %s" % (key, r.text), {"request": q})
            continue
        if r.status == "err":
            c.violation(key, "%s: %s" % (key, r.text), {"request": q})
            continue
        got = mp.mpf(r.text)
        if m[0] == "exactly":
            c.count("exact")
            if got != m[1]:
                c.violation(key, "%s is %s, not %s" % (key, r.text, m[1]), {"request": q})
            continue
        f, nd = m[:2]
        a = [mp.mpf(v) for v in m[2:]]
        if f in CONST:
            v, t = CONST[f](), mp.mpf(2)
        elif f in FUN:
            v = FUN[f][0](*a)
            t = p01.tol("powf" if f == "pow" else f, a[0], a[1] if len(a) > 1 else None, v)
        elif f == "qnorm":
            v = mp.sqrt(2) * mp.erfinv(2 * a[0] - 1)
            t = 4 * a[2] / p02.pdf(v) + 1
            v = v * a[2] + a[1]
        elif f == "pnorm":
            v, t = p02.cdf((a[0] - a[1]) / a[2]), mp.mpf(2)
        else:
            v, t = p02.pdf((a[0] - a[1]) / a[2]) / a[2], 1 + 2 / a[2]
        err = abs(got - v) * mp.mpf(10) ** nd
        c.count(f)
        c.maxi("worst error / bound, " + f, err / t)
        if err > t:
            c.violation(key, "%s = %s, but it is %s (error %s units of the last digit, bound %s)" % (key, r.text[:60], mp.nstr(v, nd + 5), mp.nstr(err, 4), mp.nstr(t, 4)), {"request": q, "response": r.text})
    c.minimum = 2000
    return c.finish()
