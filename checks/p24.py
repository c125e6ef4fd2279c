"""P24: the generated random numbers follow their distributions."""
import shutil
import numpy as np
from scipy import stats
from common import Check, scratch
from acc import libraries, EXTRA
from gen import Failed, FT

RULE = ("windows of consecutive indices (small, around 2^31 and 2^32, beyond 2^40) of the generated runif and rnorm in both sizes: range, Kolmogorov-Smirnov and chi-square "
        "distances to the distribution, serial correlation at several lags, balance of the low bits, repeatability, location and scale; distinct = (function, size, window)")


def ks(x, cdf):
    x = np.sort(x.astype(np.float64))
    n = len(x)
    f = cdf(x)
    return float(max(np.max(np.arange(1, n + 1) / n - f), np.max(f - np.arange(n) / n)))


def corr(x, lag):
    a = x.astype(np.float64)
    a = (a - a.mean()) / a.std()
    return float(np.mean(a[:-lag] * a[lag:]))


def main():
    c = Check("P24", RULE)
    d = scratch()
    n = c.n(400000, 4000000)
    starts = [0, 2 ** 31 - n // 2, 2 ** 32 - n // 2, 2 ** 40 + 12345, c.rng.randrange(2 ** 20, 2 ** 30), c.rng.randrange(2 ** 33, 2 ** 50)]
    if c.thorough:
        starts += [c.rng.randrange(0, 2 ** 60) for _ in range(10)]
    limit = 2.6 / np.sqrt(n)
    try:
        for lib in libraries(c, d, "runif,rnorm"):
            t, bits = FT[lib.bits], lib.bits
            for s0 in starts:
                i = np.arange(s0, s0 + n, dtype=np.int64)
                where = "%d bits, indices from %d" % (bits, s0)
                key = "%d" % bits
                try:
                    u = lib.call("runif", i, np.zeros(n, t), np.ones(n, t))
                    perm = np.random.default_rng(c.rng.getrandbits(64)).permutation(n)[:n // 4]
                    u2 = lib.call("runif", i[perm], np.zeros(len(perm), t), np.ones(len(perm), t))
                    lo, hi = t(c.rng.uniform(-10, 5)), t(c.rng.uniform(6, 20))
                    w = lib.call("runif", i, np.full(n, lo), np.full(n, hi))
                    z = lib.call("rnorm", i, np.zeros(n, t), np.ones(n, t))
                    m, sd = t(c.rng.uniform(-10, 10)), t(c.rng.uniform(.1, 10))
                    y = lib.call("rnorm", i, np.full(n, m), np.full(n, sd))
                except Failed as e:
                    c.violation("call " + key, str(e))
                    continue
                c.count("samples", 5 * n)
                c.seen(("runif", bits, s0), {"function": "runif", "bits": bits, "from": s0, "first": [float(x) for x in u[:4]]})
                c.seen(("rnorm", bits, s0), {"function": "rnorm", "bits": bits, "from": s0, "first": [float(x) for x in z[:4]]})

                def test(ok, name, message):
                    c.count("monitors")
                    if not ok:
                        c.violation("%s %s" % (name, key), "%s: %s" % (where, message))
                test(not np.isnan(u).any() and u.min() >= 0 and u.max() < 1, "runif range", "runif(i, 0, 1) outside [0, 1): %r..%r" % (float(u.min()), float(u.max())))
                test(not np.isnan(w).any() and w.min() >= lo and w.max() <= hi, "runif range", "runif(i, %r, %r) outside it: %r..%r" % (float(lo), float(hi), float(w.min()), float(w.max())))
                e = np.abs(w.astype(np.float64) - (float(lo) + u.astype(np.float64) * (float(hi) - float(lo)))).max()
                test(e <= 40 * 2.0 ** (-23 if bits == 32 else -52), "runif scale", "runif(i, lo, hi) is not lo + (hi - lo) runif(i, 0, 1): off by %g" % e)
                test((u[perm] == u2).all(), "runif index", "runif depends on something besides its index")
                k = ks(u, lambda x: x)
                c.maxi("runif KS / limit", k / limit)
                test(k < limit, "runif uniform", "Kolmogorov-Smirnov distance to the uniform distribution %g" % k)
                for lag in (1, 2, 3, 7, 64, 1000):
                    r = corr(u, lag)
                    c.maxi("runif correlation * sqrt(n)", abs(r) * np.sqrt(n))
                    test(abs(r) < 6 / np.sqrt(n), "runif correlation", "correlation %g at lag %d" % (r, lag))
                distinct = len(np.unique(u))
                expect = n if bits == 64 else 2 ** 23 * (1 - np.exp(-n / 2 ** 23))
                c.maxi("runif duplicates excess", expect - distinct)
                test(distinct > expect * 0.99, "runif distinct", "only %d distinct values of %d" % (distinct, n))
                mant = (np.floor(u.astype(np.float64) * 2.0 ** (23 if bits == 32 else 52))).astype(np.int64)
                for sh, nb in ((0, 8), (8, 8), (15 if bits == 32 else 40, 8)):
                    h = np.bincount((mant >> sh) & 255, minlength=256)
                    chi = float(((h - n / 256) ** 2 / (n / 256)).sum())
                    c.maxi("chi-square of bits", chi)
                    test(chi < 400, "runif bits", "bits %d..%d of the mantissa are not balanced: chi-square %g" % (sh, sh + 7, chi))
                # far apart windows share no values beyond chance
                for gap in (2 ** 31, 2 ** 32, 2 ** 33, 2 ** 40, 2 ** 48):
                    k = np.arange(s0, s0 + 20000, dtype=np.int64)
                    g = lib.call("runif", k + gap, np.zeros(20000, t), np.ones(20000, t))
                    same = int((g == u[:20000]).sum())
                    test(same < 20, "runif period", "runif(i) = runif(i + %d) for %d of 20000 indices" % (gap, same))
                    r = float(np.corrcoef(g.astype(np.float64), u[:20000].astype(np.float64))[0, 1])
                    test(abs(r) < 6 / np.sqrt(20000), "runif period", "correlation %g with the indices %d further on" % (r, gap))
                # The generator's own histogram test asks 0.03 of the density; the bulk is much better.
                k = ks(z, stats.norm.cdf)
                c.maxi("rnorm KS", k)
                test(k < 0.006, "rnorm normal", "Kolmogorov-Smirnov distance to the normal distribution %g" % k)
                bulk = z[np.abs(z) < 4]
                test(len(z) - len(bulk) < n * 0.0005 and not np.isnan(z).any(), "rnorm tail", "%d of %d samples are beyond 4 sd" % (len(z) - len(bulk), n))
                c.maxi("rnorm mean", abs(float(bulk.mean())))
                test(abs(float(bulk.mean())) < 0.01, "rnorm mean", "mean %g" % float(bulk.mean()))
                test(abs(float(bulk.std()) - 1) < 0.01, "rnorm sd", "standard deviation %g" % float(bulk.std()))
                for lag in (1, 2, 3, 7):
                    r = corr(np.clip(z, -4, 4), lag)
                    test(abs(r) < 6 / np.sqrt(n), "rnorm correlation", "correlation %g at lag %d" % (r, lag))
                e = np.abs(y.astype(np.float64) - (float(m) + float(sd) * z.astype(np.float64))) / (abs(float(m)) + float(sd) * (np.abs(z) + 1))
                test(e.max() <= 8 * 2.0 ** (-23 if bits == 32 else -52), "rnorm scale", "rnorm(i, m, s) is not m + s rnorm(i, 0, 1): relative difference %g" % e.max())
                ends = np.minimum(u, 1 - u.astype(np.float64)) < 1.1e-4
                for name, sel in (("rnorm extreme", ends), ("rnorm far", ~ends)):
                    far = (np.abs(z) > 6) & sel
                    j = int(np.argmax(np.abs(z) * sel))
                    test(not far.any(), name, "rnorm(%d, 0, 1) is %r" % (int(i[j]), float(z[j])))
    finally:
        shutil.rmtree(d)
    c.minimum = 10
    return c.finish()
