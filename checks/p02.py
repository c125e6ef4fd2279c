"""P02: the normal distribution's functions are accurate to the requested number of digits."""
import mpmath as mp
from common import Check, rpc
from p01 import again

RULE = ("random x, mean, sd and precision for dnorm, pnorm and qnorm (direct, in the tails, and as round trips) through eval, "
        "against mpmath; distinct = (function, arguments, digits)")

mp.mp.dps = 150


def pdf(z):
    return mp.exp(-z * z / 2) / mp.sqrt(2 * mp.pi)


def cdf(z):
    return mp.erfc(-z / mp.sqrt(2)) / 2


def main():
    c = Check("P02", RULE)
    rng = c.rng
    reqs, meta = [], []

    def dec(lo, hi, d=None):
        d = rng.choice([0, 1, 3, 8]) if d is None else d
        return "%.*f" % (d, rng.uniform(lo, hi))
    for i in range(c.n(8000, 80000)):
        f = rng.choice(["dnorm", "pnorm", "qnorm"])
        nd = rng.choice([8, 10, 15, 20, 25, 30, 40, 40, 50, 60, 80] + [100] * (f != "qnorm"))
        mean = rng.choice(["0", "0", "1", "-2", dec(-5, 5), dec(-1000, 1000), "20", "-100"])
        sd = rng.choice(["1", "1", "0.5", "2", "10", dec(0.1, 4, 3), dec(1, 100, 2)])
        if f == "qnorm":
            x = rng.choice(["0.5", "0.25", "0.75", "0.1", "0.9", dec(0.001, 0.999, 6), dec(0.02, 0.98, 12), "0.001", "0.999", "0.01", "0.4999", "0.50001"])
        else:
            x = mp.nstr(mp.mpf(mean) + mp.mpf(dec(*rng.choice([(-5, 5), (-5, 5), (-10, 10), (5, 9), (-9, -5), (9, 14), (-14, -9), (-20, 20)]), 6)) * mp.mpf(sd), 20, strip_zeros=True, min_fixed=-30, max_fixed=30)
            if rng.random() < 0.1:
                x = mean
        if rng.random() < 0.3:
            x, mean, sd = again(rng, x), again(rng, mean), again(rng, sd)
        reqs.append(["eval", "(%s).%s(%s, %s)" % (x, f, mean, sd), str(nd)])
        meta.append((f, x, mean, sd, nd))
    rs = rpc(reqs)
    for q, (f, x, mean, sd, nd), r in zip(reqs, meta, rs):
        key = "%s(%s,%s,%s)@%d" % (f, x, mean, sd, nd)
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "eval of %s failed: %s" % (q[1], r.text), {"request": q})
            continue
        X, M, S = mp.mpf(x), mp.mpf(mean), mp.mpf(sd)
        if f == "qnorm":
            v = mp.sqrt(2) * mp.erfinv(2 * X - 1)
            # the result inherits the error of pnorm divided by the density, and is rounded
            t = 4 * S / pdf(v) + 1
            v = v * S + M
        elif f == "pnorm":
            v, t = cdf((X - M) / S), mp.mpf(2)
        else:
            v, t = pdf((X - M) / S) / S, 1 + 2 / S
        err = abs(mp.mpf(r.text.replace(" ", "")) - v) * mp.mpf(10) ** nd
        c.seen((f, x, mean, sd, nd), {"request": q[1], "digits": nd, "got": r.text[:40], "reference": mp.nstr(v, 25)})
        c.count(f)
        c.maxi("worst error / bound, " + f, err / t)
        if err > t:
            c.violation(key, "%s at %d digits = %s, but it is %s (error %s units, bound %s)" % (
                q[1], nd, r.text[:60], mp.nstr(v, nd + 5), mp.nstr(err, 4), mp.nstr(t, 4)), {"request": q, "response": r.text})
    c.minimum = 500
    return c.finish()
