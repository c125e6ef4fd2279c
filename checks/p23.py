"""P23: accuracy of the generated dnorm and qnorm."""
import numpy as np
from scipy import special
import acc
from gen import Failed, FT, LD, ulp1

RULE = ("calls of the generated dnorm and qnorm, compiled from libmgen's output in both sizes, with random means, standard deviations and arguments; dnorm compared with "
        "extended precision, qnorm with scipy's ndtri, and with its own standard quantiles for the location and scale; distinct = (function, size, arguments) of a sample and of the worst calls")

# |p - 1/2| up to, absolute error of the standard quantile in 32 and 64 bits.
STEPS = [(0.1, 3e-4, 3e-5), (0.25, 8e-4, 1e-4), (0.4, 4e-3, 5e-4), (0.49, 4e-2, 8e-3), (0.499, 0.6, 0.15)]


def qnorm(c, lib):
    t, bits = FT[lib.bits], lib.bits
    g = np.random.default_rng(c.rng.getrandbits(64))
    n = c.n(100000, 3000000)
    p = np.concatenate([g.uniform(.001, .999, n), g.uniform(.49, .51, n // 5), 0.001 + 10.0 ** g.uniform(-4, -1, n // 5), 0.999 - 10.0 ** g.uniform(-4, -1, n // 5), [0.5, 0.25, 0.75]]).astype(t)
    zero, one = np.zeros(len(p), t), np.ones(len(p), t)
    m = g.uniform(-100, 100, len(p)).astype(t)
    s = (10.0 ** g.uniform(-3, 3, len(p))).astype(t)
    try:
        z = lib.call("qnorm", p, zero, one)
        y = lib.call("qnorm", p, m, s)
    except Failed as e:
        c.violation("qnorm %d" % bits, str(e))
        return
    ref = special.ndtri(p.astype(np.float64))
    e = np.abs(z - ref)
    e = np.where(np.isnan(z), np.inf, e)
    lim = np.full(len(p), np.inf)
    for w, a, b in reversed(STEPS):
        lim[np.abs(p.astype(np.float64) - 0.5) <= w] = a if bits == 32 else b
    r = e / lim
    c.evaluations += 2 * len(p)
    c.count("qnorm_%d calls" % bits, 2 * len(p))
    j = int(np.argmax(r))
    c.maxi("qnorm_%d error/bound" % bits, round(float(r[j]), 3))
    for i in range(0, len(p), len(p) // 100):
        c.seen(("qnorm", bits, float(p[i])), {"p": float(p[i]), "z": float(z[i])})
    if r[j] > 1:
        c.violation("qnorm %d" % bits, "qnorm(%r, 0, 1) in %d bits is %r, the quantile is %r" % (float(p[j]), bits, float(z[j]), float(ref[j])))
    w = m.astype(LD) + s.astype(LD) * z.astype(LD)
    d = np.abs(y.astype(LD) - w) / ulp1(bits) / (np.abs(m) + 3 * s * (np.abs(z) + LD(1e-3)))
    d = np.where(np.isnan(d), np.inf, d)
    j = int(np.argmax(d))
    c.maxi("qnorm_%d location-scale units" % bits, round(float(d[j]), 3))
    if d[j] > 4:
        c.violation("qnorm scale %d" % bits, "qnorm(%r, %r, %r) in %d bits is %r, mean + sd * qnorm(p, 0, 1) is %r" % (float(p[j]), float(m[j]), float(s[j]), bits, float(y[j]), float(w[j])))


def main():
    return acc.check("P23", "norm", RULE, more=qnorm)
