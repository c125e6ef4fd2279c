"""P36: the generated functions have the symmetries and ranges of what they approximate."""
import shutil
import numpy as np
from common import Check, scratch
from acc import libraries, EXTRA
from gen import Failed, FT

RULE = ("pairs of calls of the generated functions of both sizes and number types at arguments that a symmetry relates (x and -x, swapped, reflected in the mean), "
        "over all magnitudes, at multiples of 1/2 and pi/4, at subnormals, infinities and NaN, and in another order; distinct = (function, size, number type, arguments) of a sample of the pairs")

ODD = "sin tan asin atan sinh tanh asinh atanh cbrt recip round recip_approx cbrt_approx".split()
EVEN = "cos cosh".split()
# Same sign as the argument, or zero.
SIGNED = "asin atan sinh tanh asinh cbrt recip".split()


def same(a, b):
    return (a == b) | (np.isnan(a) & np.isnan(b))


def main():
    c = Check("P36", RULE)
    d = scratch()
    rng = np.random.default_rng(c.rng.getrandbits(64))
    np.seterr(all="ignore")
    try:
        for lib in libraries(c, d, EXTRA + ",qnorm,dnorm,round,recip_approx,cbrt_approx", ntypes=("decimal", "hex")):
            bits, t = lib.bits, FT[lib.bits]
            n = c.n(30000, 1500000)
            fi = np.finfo(t)
            top = float(np.log10(fi.max))

            def magnitudes(m=n):
                x = np.concatenate([rng.uniform(0, 1, m), rng.uniform(0, 20, m), rng.uniform(0, 1e4, m), 10.0 ** rng.uniform(-top, top, m)])
                # About pi/2 and pi apart, and every exponent.
                x = np.concatenate([x, np.arange(0, 2000) * .5, np.arange(0, 2000) * np.pi / 4, 2.0 ** np.arange(fi.minexp - 20, fi.maxexp), [np.inf, np.nan, fi.max, fi.tiny]]).astype(t)
                return np.concatenate([x, np.nextafter(x, t(0)), np.nextafter(x, t(np.inf))])

            def judge(name, what, ok, args, y, z=None):
                c.evaluations += len(y)
                c.count("%s: %s" % (name, what), len(y))
                for i in range(0, len(y), max(1, len(y) // 30)):
                    c.evaluations -= 1
                    c.seen((name, what, bits, lib.ntype) + tuple(repr(float(a[i])) for a in args), {"function": name, "relation": what, "bits": bits, "arguments": [float(a[i]) for a in args], "result": float(y[i])})
                if not ok.all():
                    j = int(np.argmin(ok))
                    c.violation("%s %s %d" % (name, what, bits), "%s(%s) in %d bits (%s) is %r%s: not %s (%d of %d calls)" % (
                        name, ", ".join(repr(float(a[j])) for a in args), bits, lib.ntype, float(y[j]), "" if z is None else " and its image %r" % float(z[j]), what, int((~ok).sum()), len(y)),
                        {"arguments": [float(a[j]) for a in args]})

            def call(name, *args):
                try:
                    return lib.call(name, *args)
                except Failed as e:
                    c.violation("call %s %d" % (name, bits), str(e))
                    raise

            try:
                for name in ODD + EVEN:
                    x = magnitudes()
                    if name == "round":
                        x = x[x < 2.0 ** (22 if bits == 32 else 51)]
                    y = call(name, x)
                    z = call(name, -x)
                    if name in ODD:
                        judge(name, "odd", same(y, -z), (x,), y, z)
                    else:
                        judge(name, "even", same(y, z), (x,), y, z)
                    if name in SIGNED:
                        judge(name, "of the sign of its argument", ~(y < 0) & ~(z > 0), (x,), y, z)
                    p = rng.permutation(len(x))
                    judge(name, "independent of other calls", same(call(name, x[p]), y[p]), (x[p],), y[p])
                x = magnitudes()
                s, k = call("sin_cos", x)
                s2, k2 = call("sin_cos", -x)
                judge("sin_cos", "odd and even", same(s, -s2) & same(k, k2), (x,), s, s2)
                u = t(2.0 ** (-21 if bits == 32 else -50))
                a = x[x <= 1e5]
                a = np.concatenate([a, -a])
                for name in ("sin", "cos"):
                    y = call(name, a)
                    judge(name, "at most 1 in magnitude, up to rounding", np.abs(y) <= 1 + u, (a,), y)
                a = np.concatenate([x, -x])
                y = call("tanh", a)
                judge("tanh", "at most 1 in magnitude", ~(np.abs(y) > 1), (a,), y)
                y = call("cosh", a)
                judge("cosh", "at least 1, up to rounding", ~(y < 1 - u), (a,), y)
                for name in ("asin", "atan"):
                    y = call(name, a)
                    judge(name, "at most pi/2 in magnitude, up to rounding", ~(np.abs(y) > np.pi / 2 + u), (a,), y)
                y = call("acos", a)
                judge("acos", "from 0 to pi, up to rounding", ~(y > np.pi + 2 * u) & ~(y < -u), (a,), y)
                for name in ("exp", "exp2"):
                    y = call(name, a)
                    judge(name, "not negative", ~(y < 0), (a,), y)
                y = call("exp_m1", a)
                judge("exp_m1", "at least -1", ~(y < -1), (a,), y)
                for name in ("sqrt", "acosh"):
                    y = call(name, x)
                    judge(name, "not negative", ~(y < -u), (x,), y)

                x = rng.permutation(np.concatenate([x, -x]))
                y = rng.permutation(x)
                y[: len(y) // 3] = x[: len(y) // 3] * rng.uniform(-2, 2, len(y) // 3).astype(t)
                h = call("hypot", x, y)
                g = call("hypot", y, x)
                judge("hypot", "symmetric", same(h, g), (x, y), h, g)
                g = call("hypot", -x, y)
                judge("hypot", "even", same(h, g), (x, y), h, g)
                g = call("hypot", x, -y)
                judge("hypot", "even in its second argument", same(h, g), (x, y), h, g)
                judge("hypot", "at least as large as its arguments", ~(h < np.maximum(np.abs(x), np.abs(y))), (x, y), h)
                y1 = np.where(y == 0, t(1), y)
                h = call("atan2", y1, x)
                g = call("atan2", -y1, x)
                judge("atan2", "odd in y", same(h, -g), (y1, x), h, g)
                judge("atan2", "at most pi in magnitude, up to rounding", ~(np.abs(h) > np.pi + 2 * u), (y1, x), h)

                # Arguments whose reflections are exact.
                dd = (rng.integers(0, 40960, n) / 1024).astype(t)
                m = rng.integers(-100, 100, n).astype(t)
                sd = (2.0 ** rng.integers(-4, 5, n)).astype(t)
                h, g = call("dnorm", m + dd, m, sd), call("dnorm", m - dd, m, sd)
                judge("dnorm", "symmetric about the mean", same(h, g), (m + dd, m, sd), h, g)
                judge("dnorm", "not negative", ~(h < 0), (m + dd, m, sd), h)
                p = (rng.integers(1, 2 ** 20, n) / 2 ** 20).astype(t)
                o, i = np.zeros(n, t), np.ones(n, t)
                h, g = call("qnorm", p, o, i), call("qnorm", 1 - p, o, i)
                judge("qnorm", "odd about 1/2", same(h, -g), (p, o, i), h, g)
                x = (10.0 ** rng.uniform(-top, top, n)).astype(t)
                e = rng.integers(-40, 40, n)
                h, g = call("powi", x, e), call("powf", x, e.astype(t))
                judge("powi", "powf of the same power", same(h, g), (x, e), h, g)
                h = call("powi", -x, e)
                judge("powi", "odd for odd powers and even for even ones", same(h, np.where(e % 2 != 0, -g, g)), (-x, e), h, g)
            except Failed:
                continue
    finally:
        shutil.rmtree(d)
    c.minimum = 500
    return c.finish()
