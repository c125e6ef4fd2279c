"""P30: the generated functions at the ends of their domains."""
import shutil
import numpy as np
from common import Check, scratch
from acc import libraries, EXTRA
from gen import Failed, FT

RULE = ("the generated functions of both sizes and number types at and beyond the ends of their domains (overflow, underflow, poles, negative arguments, zeros, infinities, NaN); "
        "distinct = (function, size, number type, arguments)")


def main():
    c = Check("P30", RULE)
    d = scratch()
    rng = np.random.default_rng(c.rng.getrandbits(64))
    try:
        for lib in libraries(c, d, ntypes=("decimal", "hex")):
            bits, t = lib.bits, FT[lib.bits]
            mx = 128 if bits == 32 else 1024
            big = float(np.finfo(t).max)
            tiny = float(np.finfo(t).tiny)
            n = c.n(400, 20000)
            up = lambda lo: np.concatenate([[lo, lo * 1.01, np.inf, big], lo * 10 ** rng.uniform(0, 30, n)]).astype(t)
            neg = np.concatenate([[-1.0, -np.inf, -big, -1e-3, -tiny, -tiny / 2, -tiny / 1024, -float(np.finfo(t).smallest_subnormal)], -10 ** rng.uniform(-30, 30, n), -tiny * 2 ** rng.uniform(-20, 20, n)]).astype(t)
            nan = np.array([np.nan] * 3, dtype=t)
            inf, zero = np.inf, 0.0
            cases = [
                ("exp2", (up(mx),), "inf"), ("exp2", (-up(mx),), "zero"), ("exp", (up(mx * 0.7),), "inf"), ("exp", (-up(mx * 0.7),), "zero"),
                ("exp2", (np.array([0.0, 1, -1, 2, 10, -10, 100, -100]),), [1, 2, .5, 4, 1024, 2.0 ** -10, 2.0 ** 100, 2.0 ** -100]),
                ("exp", (np.array([0.0, -0.0]),), [1, 1]),
                ("exp2", (nan,), "nan"), ("exp", (nan,), "nan"),
                ("sin", (nan,), "nan"), ("cos", (nan,), "nan"), ("tan", (nan,), "nan"),
                ("log2", (neg,), "nan"), ("ln", (neg,), "nan"), ("log10", (neg,), "nan"),
                ("log2", (np.array([0.0, -0.0]),), "-inf"), ("ln", (np.array([0.0, -0.0]),), "-inf"), ("log10", (np.array([0.0, -0.0]),), "-inf"),
                ("log", (neg, np.full(len(neg), 2.0)), "nan"), ("powf", (neg, np.full(len(neg), 2.0)), "nan"),
                ("powf", (np.array([10.0, 1e30, 2, 0.5, 1e-30]), np.array([1e4, 40, 5000, -5000, -40])), "inf"),
                ("powf", (np.array([10.0, 1e30, 2, 0.5, 0]), np.array([-1e4, -40, -5000, 5000, 3])), "zero"),
                ("acosh", (np.concatenate([[0.999, 0, -inf], -up(1.0), 1 - 10 ** rng.uniform(-6, 0, n)]),), "nan"),
                ("acosh", (np.array([1.0]),), [0.0]), ("asinh", (np.array([0.0]),), [0.0]), ("sinh", (np.array([0.0]),), [0.0]), ("atanh", (np.array([0.0]),), [0.0]),
                ("asin", (np.array([0.0, 1, -1]),), [0.0, np.pi / 2, -np.pi / 2]), ("acos", (np.array([0.0, 1, -1]),), [np.pi / 2, 0.0, np.pi]),
                ("hypot", (np.array([3 * tiny, -5 * tiny, 8 * tiny, 3 * big / 16, 3e-20, tiny]), np.array([4 * tiny, 12 * tiny, -15 * tiny, -big / 4, 4e-20, 0])),
                 [5 * tiny, 13 * tiny, 17 * tiny, 5 * big / 16, 5e-20, tiny]),
                ("atanh", (np.array([1.0, -1.0]),), [inf, -inf]), ("atanh", (np.concatenate([[1.001], up(1.5)[:-1][up(1.5)[:-1] < inf]]),), "nan"),
                ("asin", (up(1.001),), "nan"), ("acos", (up(1.001),), "nan"), ("asin", (-up(1.001),), "nan"), ("acos", (-up(1.001),), "nan"),
                ("atan", (nan,), "nan"), ("asin", (nan,), "nan"), ("acos", (nan,), "nan"), ("sinh", (nan,), "nan"), ("cosh", (nan,), "nan"), ("tanh", (nan,), "nan"),
                ("cosh", (np.concatenate([up(mx), -up(mx)]),), "inf"), ("sinh", (up(mx),), "inf"), ("sinh", (-up(mx),), "-inf"),
                ("cosh", (np.array([0.0]),), [1]), ("tanh", (up(25.0),), np.ones(n + 4)), ("tanh", (-up(25.0),), -np.ones(n + 4)), ("tanh", (np.array([0.0]),), [0.0]),
                ("sqrt", (np.array([nan[0]]),), "nan"), ("hypot", (np.array([0.0, -0.0, 0, tiny, -tiny, tiny / 2, -tiny / 4]), np.array([0.0, 0, -0.0, 0, 0, 0, 0])), [0, 0, 0, tiny, tiny, tiny / 2, tiny / 4]),
                ("hypot", (np.full(n + 4, np.inf), np.linspace(-3, 3, n + 4)), "inf"), ("hypot", (np.array([3.0, -3, 3, -3, 0, 5, 0, -7]), np.array([4.0, 4, -4, -4, 5, 0, -7, 0])), [5, 5, 5, 5, 5, 5, 7, 7]),
                ("exp_m1", (up(mx * 0.7),), "inf"), ("exp_m1", (-up(mx * 0.7),), -np.ones(n + 4)), ("exp_m1", (nan,), "nan"),
                ("log2", (nan,), "nan"), ("ln", (nan,), "nan"), ("log10", (nan,), "nan"), ("ln_1p", (nan,), "nan"), ("log", (nan, np.full(3, 2.0)), "nan"),
                ("log2", (np.array([inf]),), "inf"), ("ln", (np.array([inf]),), "inf"), ("log10", (np.array([inf]),), "inf"), ("ln_1p", (np.array([inf]),), "inf"),
                ("log2", (np.array([2.0 ** k for k in range(-120, 128)]),), np.arange(-120.0, 128)),
                ("ln_1p", (np.array([-1.0]),), "-inf"), ("ln_1p", (-1 - up(1e-5),), "nan"),
                ("powf", (nan, np.full(3, 2.0)), "nan"), ("powf", (np.array([2.0, 3, .5]), nan), "nan"),
                ("powf", (np.concatenate([up(1e-20), neg, [0.0, -0.0]]), np.zeros(n + 6 + len(neg))), np.ones(n + 6 + len(neg))),
                ("powi", (np.concatenate([up(1e-20), neg, [0.0, -0.0]]), np.zeros(n + 6 + len(neg), int)), np.ones(n + 6 + len(neg))),
                ("powf", (np.array([inf, inf, inf, 0.0, 0]), np.array([2.0, .5, 1e-3, -2, -.5])), "inf"), ("powf", (np.array([inf, inf, 0.0, 0]), np.array([-2.0, -.5, .5, 3])), "zero"),
                ("powi", (np.array([-2.0, -2, -2, -2, -4, -1, -1, -8]), np.array([1, 2, 3, -1, -2, 1001, -1000, 5])), [-2.0, 4, -8, -.5, .0625, -1, 1, -32768]),
                ("sqrt", (neg,), "nan"), ("sqrt", (np.array([0.0, -0.0]),), [0.0, 0.0]), ("sqrt", (np.array([inf]),), "inf"),
                ("sqrt", (np.array([4.0 ** k for k in range(-60, 63)]),), [2.0 ** k for k in range(-60, 63)]),
                ("cbrt", (np.array([0.0, -0.0]),), [0.0, 0.0]), ("cbrt", (np.array([inf]),), "inf"), ("cbrt", (np.array([-inf]),), "-inf"), ("cbrt", (nan,), "nan"),
                ("cbrt", (np.array([8.0 ** k for k in range(-40, 42)] + [-8.0 ** k for k in range(-40, 42)]),), [2.0 ** k for k in range(-40, 42)] + [-2.0 ** k for k in range(-40, 42)]),
                ("recip", (np.array([0.0, tiny / 4, tiny / 1024]),), "inf"), ("recip", (np.array([-0.0, -tiny / 4, -tiny / 1024]),), "-inf"), ("recip", (np.array([inf, -inf]),), "zero"), ("recip", (nan,), "nan"),
                ("asinh", (nan,), "nan"), ("acosh", (nan,), "nan"), ("atanh", (nan,), "nan"), ("asinh", (np.array([inf]),), "inf"), ("asinh", (np.array([-inf]),), "-inf"), ("acosh", (np.array([inf]),), "inf"),
                ("atan2", (np.array([nan[0], 1, nan[0]]), np.array([1.0, nan[0], nan[0]])), "nan"),
                ("dnorm", (np.array([1e4, -1e4, 1e6]), np.zeros(3), np.ones(3)), "zero"),
            ]
            m = 10.0 ** rng.uniform(-30, 30, n)
            m = np.concatenate([m.astype(t), np.array([0.0, 1.0, tiny, big / 2, np.nextafter(t(1), t(2))], dtype=t)]).astype(t)
            cases.append(("nextafter", (m,), np.nextafter(m, t(np.inf))))
            top = (1.5707963, 1e-5)
            for name, args, want in cases:
                args = [np.asarray(a).astype(t) for a in args]
                key = "%s %d" % (name, bits)
                try:
                    y = lib.call(name, *args)
                except Failed as e:
                    c.violation("call " + key, str(e))
                    continue
                ok = {"nan": np.isnan, "inf": lambda y: y == np.inf, "-inf": lambda y: y == -np.inf, "zero": lambda y: y == 0}
                if isinstance(want, str):
                    good = ok[want](y)
                elif name == "nextafter":
                    good = y == want
                else:
                    w = np.array(want).astype(t)
                    np.seterr(invalid="ignore")
                    good = (y == w) | (np.abs(y - w) <= np.abs(w) * 3 * 2.0 ** (-23 if bits == 32 else -52))
                c.count(name, len(y))
                for i in range(len(y)):
                    if i < 40 or not good[i]:
                        c.seen((name, bits, lib.ntype) + tuple(repr(float(a[i])) for a in args), {"function": name, "bits": bits, "arguments": [float(a[i]) for a in args], "result": float(y[i])})
                    else:
                        c.evaluations += 1
                if not good.all():
                    i = int(np.argmin(good))
                    c.violation(key, "%s(%s) in %d bits (%s) is %r, expected %s" % (name, ", ".join(repr(float(a[i])) for a in args), bits, lib.ntype, float(y[i]),
                                                                              want if isinstance(want, str) else repr(float(np.asarray(want, dtype=np.float64)[i]))))
            # The limits of atan, and the axes of atan2.
            x = np.array([np.inf, -np.inf, 1e30, -1e30]).astype(t)
            a = lib.call("atan", x)
            u = 16 * 2.0 ** (-23 if bits == 32 else -53)
            if not (np.abs(a - np.sign(x) * t(np.pi / 2)) <= u).all():
                c.violation("atan %d" % bits, "atan of %s is %s" % (x.tolist(), a.tolist()))
            r = (10.0 ** rng.uniform(-15, 15, 200)).astype(t)
            z = np.zeros(200, t)
            for y0, x0, v in ((z, r, 0.0), (r, z, np.pi / 2), (z, -r, np.pi), (-r, z, -np.pi / 2), (r, r, np.pi / 4), (r, -r, 3 * np.pi / 4), (-r, r, -np.pi / 4), (-r, -r, -3 * np.pi / 4)):
                a = lib.call("atan2", y0, x0)
                c.count("atan2", 200)
                c.evaluations += 200
                good = np.abs(a.astype(np.float64) - v) <= u
                if not good.all():
                    i = int(np.argmin(good))
                    c.violation("atan2 %d" % bits, "atan2(%r, %r) is %r, not %r" % (float(y0[i]), float(x0[i]), float(a[i]), v))
    finally:
        shutil.rmtree(d)
    c.minimum = 300
    return c.finish()
