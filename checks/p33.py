"""P33: the helper functions of the generated library."""
import shutil
import numpy as np
from common import Check, scratch
from acc import libraries
from gen import Failed, FT, UT, LD

RULE = ("calls of the helper functions of the generated libraries of both sizes and number types (each on its own and with the whole library): round near and at halves, negate_on_odd on floats of "
        "both parities and arbitrary bits, the approximations over all magnitudes; distinct = (function, size, number type, arguments) of a sample of the calls")
ONES = "round,negate_on_odd,recip_approx,sqrt_approx,cbrt_approx"


def main():
    c = Check("P33", RULE)
    d = scratch()
    rng = np.random.default_rng(c.rng.getrandbits(64))

    def judge(lib, name, args, bad, what, y, want):
        c.evaluations += len(y)
        c.count("%s_%d calls" % (name, lib.bits), len(y))
        for i in range(0, len(y), max(1, len(y) // 200)):
            c.evaluations -= 1
            c.seen((name, lib.bits, lib.ntype) + tuple(float(a[i]) for a in args), {"function": name, "bits": lib.bits, "arguments": [float(a[i]) for a in args], "result": float(y[i])})
        if bad.any():
            j = int(np.argmax(bad))
            c.violation("%s %d" % (name, lib.bits), "%s(%s) in %d bits (%s) returned %r, which is not %s (%r); %d of %d calls" % (
                name, ", ".join(repr(float(a[j])) for a in args), lib.bits, lib.ntype, float(y[j]), what, float(want[j]), int(bad.sum()), len(y)),
                {"arguments": [float(a[j]) for a in args]})

    try:
        for functions in (ONES, "all," + ONES):
            for lib in libraries(c, d, functions, ntypes=("decimal", "hex")):
                bits, t = lib.bits, FT[lib.bits]
                top, n = (22 if bits == 32 else 51), c.n(60000, 2000000)
                try:
                    # Nearest, halves away from zero. The float below 1/2 is closer to 1/2 than a float's precision at 1.
                    k = rng.integers(-2000, 2000, n // 4).astype(float)
                    k[n // 8:] = np.trunc(rng.choice([-1, 1], len(k) - n // 8) * 2.0 ** rng.uniform(0, top - 1, len(k) - n // 8))
                    z = np.concatenate([rng.uniform(-4, 4, n // 4), rng.choice([-1, 1], n // 2) * 2.0 ** rng.uniform(-30, top - .01, n // 2),
                                        k, k + .5, k - .5, [0.0, -0.0, 2.0 ** top, -2.0 ** top, 2.0 ** top - 1, 1e-38]]).astype(t)
                    z = np.concatenate([z, np.nextafter(z, t(0)), np.nextafter(z, t(np.inf))])
                    z = z[(np.abs(z) <= 2.0 ** top) & (np.abs(z) != np.nextafter(t(.5), t(0)))]
                    y = lib.call("round", z)
                    w = np.sign(z) * np.floor(np.abs(z.astype(LD)) + LD(.5))
                    judge(lib, "round", (z,), ~(y == w), "the nearest integer", y, w)

                    # The sign changes with odd integers, and nothing else does.
                    lim = bits - 2
                    k = (rng.choice([-1, 1], n) * 2.0 ** rng.uniform(-3, lim, n)).astype(t)
                    k[: n // 2] = rng.integers(-50, 50, n // 2)
                    k[n // 2: n * 3 // 4] = np.trunc(k[n // 2: n * 3 // 4])
                    o = rng.integers(0, 2 ** bits - 1, n, dtype=np.uint64).astype(UT[bits]).view(t)
                    o[: n // 4] = rng.uniform(-3, 3, n // 4)
                    o[:6] = [0.0, -0.0, np.inf, -np.inf, 1.0, -1.0]
                    y = lib.call("negate_on_odd", k, o)
                    odd = np.trunc(k).astype(np.int64) & 1
                    w = (o.view(UT[bits]) ^ (odd.astype(UT[bits]) << UT[bits](bits - 1)))
                    with np.errstate(all="ignore"):
                        bad = (y.view(UT[bits]) != w) & ~(np.isnan(o) & np.isnan(y))
                        judge(lib, "negate_on_odd", (k, o), bad, "the second argument with the sign changed if the first is odd", y, w.view(t))

                    e = 37 if bits == 32 else 300
                    x = (rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-e, e, n)).astype(t)
                    x[: n // 4] = rng.choice([-1, 1], n // 4) * rng.uniform(.25, 8, n // 4)
                    p = np.abs(x.astype(LD))
                    for name, v, err in (("recip_approx", 1 / x.astype(LD), .1), ("sqrt_approx", np.sqrt(p), .05), ("cbrt_approx", np.cbrt(x.astype(LD)), .05)):
                        y = lib.call(name, x)
                        r = np.abs(y.astype(LD) / v - 1)
                        c.maxi("%s_%d relative error" % (name, bits), round(float(r.max()), 4))
                        judge(lib, name, (x,), ~(r <= err), "within %g of the value" % err, y, v)
                except Failed as ex:
                    c.violation("call %d" % bits, str(ex))
    finally:
        shutil.rmtree(d)
    c.minimum = 500
    return c.finish()
