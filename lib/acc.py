"""Accuracy of the generated functions: where they are called, what they must return and how far off they may be.

Bounds are in the units of libmgen's own tests, 2^-23 for 32 bits and 2^-53 for 64 bits, and are absolute unless they
are multiplied by |v|. A bound is a pair for the two sizes; b(bits, p32, p64) picks one."""
import numpy as np
from common import Check, scratch, parallel
from gen import Library, Failed, run, LD, FT, ulp1, spread
import multiprocessing
import shutil

PI = LD("3.14159265358979323846264338327950288")
EXTRA = "all,hypot,sin_cos,nextafter"


def between(lo, hi, special=()):
    def g(rng, bits, n):
        return (spread(rng, bits, lo, hi, n, special),)
    g.domain = lambda bits: [(lo, hi)]
    return g


def logspace(lo, hi, sign=False, special=()):
    """Magnitudes 10^lo..10^hi; lo and hi may be pairs for the two sizes."""
    def g(rng, bits, n):
        a = lo if not isinstance(lo, tuple) else lo[bits == 64]
        z = hi if not isinstance(hi, tuple) else hi[bits == 64]
        r = np.random.default_rng(rng.getrandbits(64))
        x = 10.0 ** r.uniform(a, z, n)
        p = 2.0 ** r.integers(int(np.ceil(a * 3.32)), int(z * 3.32), n // 8)
        t = FT[bits]
        p = p.astype(t)
        p = np.concatenate([p, np.nextafter(p, t(0)), np.nextafter(p, t(np.inf)), np.array(special, dtype=t)])
        x = np.concatenate([x.astype(t), p])
        if sign:
            x = x * r.choice(np.array([-1, 1], dtype=t), len(x))
        return (x[(np.abs(x) >= t(10.0 ** a)) & (np.abs(x) <= t(10.0 ** z))],)

    def domain(bits):
        a = 10.0 ** (lo if not isinstance(lo, tuple) else lo[bits == 64])
        z = 10.0 ** (hi if not isinstance(hi, tuple) else hi[bits == 64])
        return [(-z, -a), (a, z)] if sign else [(a, z)]
    g.domain = domain
    return g


def pi_multiples(limit):
    return [float(PI * k / 4) for k in range(-int(limit / 0.785), int(limit / 0.785) + 1)]


def halves(limit, step=0.5, scale=1.0):
    return [k * step * scale for k in range(-int(limit / step), int(limit / step) + 1)]


def log2(x):
    return np.log2(x)


def spec(group, name, ref, gen, bound):
    SPECS.append((group, name, ref, gen, bound))


SPECS = []


WIDE = [LD]     # the type of references and bounds: double is enough for 32 bits


def T(x):
    return WIDE[0](x)


def b(bits, p32, p64):
    return T(p32 if bits == 32 else p64)


def sized(a32, z32, a64, z64):
    g = lambda rng, bits, n: between(a32 if bits == 32 else a64, z32 if bits == 32 else z64)(rng, bits, n)
    g.domain = lambda bits: [(a32, z32) if bits == 32 else (a64, z64)]
    return g


# Trigonometry: declared by the generated tests up to pi; beyond it the one-step reduction loses |x| units.
spec("trig", "sin", np.sin, between(-float(PI), float(PI), pi_multiples(3.2)), lambda k, v, x: b(k, 7, 15))
spec("trig", "sin", np.sin, between(-float(PI) / 2, float(PI) / 2), lambda k, v, x: b(k, 4, 5))
spec("trig", "sin", np.sin, between(-1000, 1000, pi_multiples(1000)), lambda k, v, x: b(k, 7, 15) + np.abs(x) * 2)
spec("trig", "sin", np.sin, between(-1e5, 1e5), lambda k, v, x: b(k, 7, 15) + np.abs(x) * 2)
spec("trig", "cos", np.cos, between(-1e5, 1e5), lambda k, v, x: b(k, 7, 16) + np.abs(x) * 2)
spec("trig", "cos", np.cos, between(-float(PI), float(PI), pi_multiples(3.2)), lambda k, v, x: b(k, 5, 16))
spec("trig", "cos", np.cos, between(-float(PI) / 2, float(PI) / 2), lambda k, v, x: b(k, 3, 4))
spec("trig", "cos", np.cos, between(-1000, 1000, pi_multiples(1000)), lambda k, v, x: b(k, 7, 16) + np.abs(x) * 2)
spec("trig", "tan", np.tan, between(-1.5, 1.5), lambda k, v, x: 4 * (1 + v * v))
spec("trig", "tan", np.tan, between(-100, 100, pi_multiples(100)),
     lambda k, v, x: np.where(np.abs(v) > 1000, T(np.inf), (4 + 2 * np.abs(x)) * (1 + v * v)))
spec("trig", "tan", np.tan, between(-1e4, 1e4), lambda k, v, x: np.where(np.abs(v) > 1000, T(np.inf), (4 + 2 * np.abs(x)) * (1 + v * v)))

# Exponentials and logarithms.
spec("exp", "exp2", np.exp2, sized(-126, 127, -1022, 1023), lambda k, v, x: b(k, 1, 2.2) * np.abs(v))
spec("exp", "exp", np.exp, sized(-87, 88, -708, 709), lambda k, v, x: (b(k, 1.5, 3) + 1.5 * np.abs(x)) * np.abs(v))
spec("exp", "exp_m1", np.expm1, sized(0, 80, 0, 700), lambda k, v, x: (b(k, 1.5, 3) + 1.5 * np.abs(x)) * np.exp(x))
spec("exp", "exp_m1", np.expm1, sized(-500, -10, -5000, -10), lambda k, v, x: b(k, 1.5, 3) + np.abs(x) * np.exp(x))
spec("exp", "exp2", np.exp2, lambda r, k, n: between(-120 if k == 32 else -1000, 120 if k == 32 else 1000, halves(20))(r, k, n), lambda k, v, x: b(k, 1, 2.2) * np.abs(v))
spec("exp", "exp2", np.exp2, between(-1, 1), lambda k, v, x: b(k, 1, 2.2) * np.abs(v))
spec("exp", "exp", np.exp, lambda r, k, n: between(-80 if k == 32 else -700, 80 if k == 32 else 700)(r, k, n), lambda k, v, x: (b(k, 1.5, 3) + 1.5 * np.abs(x)) * np.abs(v))
spec("exp", "exp", np.exp, between(-2, 2), lambda k, v, x: (b(k, 1.5, 3) + 1.5 * np.abs(x)) * np.abs(v))
spec("exp", "exp_m1", np.expm1, between(-20, 0), lambda k, v, x: b(k, 1.5, 3) + np.abs(x) * np.exp(x))
spec("exp", "exp_m1", np.expm1, between(0, 20), lambda k, v, x: (b(k, 1.5, 3) + 1.5 * np.abs(x)) * np.exp(x))
spec("exp", "exp_m1", np.expm1, between(-0.01, 0.01), lambda k, v, x: b(k, 0.02, 0.3) + b(k, 2, 4) * np.abs(x))
spec("exp", "log2", np.log2, logspace((-37, -307), (38, 308)), lambda k, v, x: b(k, 2, 6) + 1.5 * np.abs(v))
spec("exp", "log2", np.log2, between(0.5, 2, [1.0]), lambda k, v, x: b(k, 1.3, 6))
spec("exp", "ln", np.log, logspace((-37, -307), (38, 308)), lambda k, v, x: b(k, 1.5, 4) + 3 * np.abs(v))
spec("exp", "ln", np.log, between(0.5, 2, [1.0]), lambda k, v, x: b(k, 1.3, 6))
spec("exp", "log10", np.log10, logspace((-37, -307), (38, 308)), lambda k, v, x: b(k, 1.5, 3) + 2 * np.abs(v))
spec("exp", "ln_1p", np.log1p, between(-0.9, 100), lambda k, v, x: b(k, 1.5, 3) + np.abs(v))
spec("exp", "ln_1p", np.log1p, logspace(-20, (37, 300)), lambda k, v, x: b(k, 1.5, 3) + 1.3 * np.abs(v))


def near_one(a32, a64):
    """1 minus small numbers, of either sign."""
    def g(rng, bits, n):
        x = logspace(-(a32 if bits == 32 else a64), -0.3)(rng, bits, n)[0]
        return ((FT[bits](1) - x) * np.random.default_rng(rng.getrandbits(64)).choice(np.array([-1, 1], FT[bits]), len(x)),)
    return g


below = lambda r, k, n: (-np.abs(near_one(6, 14)(r, k, n)[0]),)
below.domain = lambda bits: [(-1 + 1e-6, -.5)]
spec("exp", "ln_1p", np.log1p, below, lambda k, v, x: b(k, 1.5, 3) + 1 / (1 + x) + np.abs(v))


def two(fx, fy):
    def g(rng, bits, n):
        x, y = fx(rng, bits, n)[0], fy(rng, bits, n)[0]
        r = np.random.default_rng(rng.getrandbits(64))
        m = min(len(x), len(y))
        r.shuffle(x)
        r.shuffle(y)
        return x[:m], y[:m]
    return g


def base(rng, bits, n):
    r = np.random.default_rng(rng.getrandbits(64))
    return (np.concatenate([np.exp2(r.choice([-1, 1], n) * r.uniform(.5, 10, n)), np.array([2, 10, 0.5, 0.1, 3])]).astype(FT[bits]),)


spec("exp", "log", lambda x, c: log2(x) / log2(c), two(logspace(-6, 6), base),
     lambda k, v, x, c: ((b(k, 1.5, 4) + np.abs(log2(x))) + np.abs(v) * (b(k, 3, 6) + 2 * np.abs(log2(c)))) / np.abs(log2(c)))
spec("exp", "powf", lambda x, y: np.exp2(log2(x) * y), two(logspace(-6, 6), between(-5, 5, halves(5))),
     lambda k, v, x, y: (b(k, 2, 3) + 1.5 * np.abs(log2(x) * y) + b(k, 1, 2.5) * np.abs(y)) * v)


def ints(rng, bits, n):
    return (np.random.default_rng(rng.getrandbits(64)).integers(-6, 7, n),)


spec("exp", "powi", lambda x, y: x ** y, two(logspace(-5, 5, True), ints),
     lambda k, v, x, y: (b(k, 2, 3) + 1.5 * np.abs(log2(np.abs(x)) * y) + b(k, 1, 2.5) * np.abs(y)) * np.abs(v))


def extreme(whole):
    """Powers up to the ends of the range of the results."""
    def g(rng, bits, n):
        r = np.random.default_rng(rng.getrandbits(64))
        m, lim = (30, 110) if bits == 32 else (300, 1000)
        x = (10.0 ** r.uniform(-m, m, n)).astype(FT[bits])
        y = np.clip(r.uniform(-1, 1, n) * lim / np.maximum(np.abs(np.log2(x.astype(np.float64))), 0.1), -200, 200)
        if whole:
            return x * r.choice(np.array([-1, 1], FT[bits]), n), np.trunc(y).astype(np.int64)
        return x, y.astype(FT[bits])
    return g


spec("exp", "powf", lambda x, y: np.exp2(log2(x) * y), extreme(False), lambda k, v, x, y: (b(k, 2, 3) + 1.5 * np.abs(log2(x) * y) + b(k, 1, 2.5) * np.abs(y)) * v)
spec("exp", "powi", lambda x, y: x ** y, extreme(True), lambda k, v, x, y: (b(k, 2, 3) + 1.5 * np.abs(log2(np.abs(x)) * y) + b(k, 1, 2.5) * np.abs(y)) * np.abs(v))
spec("exp", "log", lambda x, c: log2(x) / log2(c), two(logspace((-37, -300), (37, 300)), logspace((-30, -200), (30, 200))),
     lambda k, v, x, c: np.where(np.abs(log2(c)) < .5, T(np.inf), ((b(k, 1.5, 4) + np.abs(log2(x))) + np.abs(v) * (b(k, 3, 6) + 2 * np.abs(log2(c)))) / np.abs(log2(c))))

# Inverse trigonometry and hyperbolics.
EDGE = [0.7071067811865476, -0.7071067811865476, 0.5, -0.5]


def edge(k, x):
    return 1 / np.sqrt(np.maximum(1 - x * x, T(1e-20)))


spec("inv", "asin", np.arcsin, between(-0.7, 0.7, EDGE), lambda k, v, x: b(k, 2, 8))
spec("inv", "asin", np.arcsin, between(-1, 1, EDGE), lambda k, v, x: b(k, 3, 10) + edge(k, x))
spec("inv", "acos", np.arccos, between(-0.7, 0.7, EDGE), lambda k, v, x: b(k, 3, 12))
spec("inv", "acos", np.arccos, between(-1, 1, EDGE), lambda k, v, x: b(k, 3, 12) + edge(k, x))
spec("inv", "atan", np.arctan, between(-2, 2, [1.0, -1.0]), lambda k, v, x: b(k, 3, 16))
spec("inv", "atan", np.arctan, logspace(-20, 20, True, [1.0]), lambda k, v, x: b(k, 3, 16))


def quadrants(rng, bits, n):
    r = np.random.default_rng(rng.getrandbits(64))
    t = FT[bits]
    c = np.array([0.0, 1.0, -1.0, 2.0, -2.0, 1e-3, -1e-3, 5.0], dtype=t)
    y = np.concatenate([r.uniform(-2, 2, n), 10.0 ** r.uniform(-15, 15, n) * r.choice([-1, 1], n), np.repeat(c, len(c))])
    x = np.concatenate([r.uniform(-2, 2, n), 10.0 ** r.uniform(-15, 15, n) * r.choice([-1, 1], n), np.tile(c, len(c))])
    y, x = y.astype(t), x.astype(t)
    d = y[:n // 4].copy()
    y = np.concatenate([y, d, d])
    x = np.concatenate([x, d * t(1 + 1e-6), -d])
    ok = (x != 0) | (y != 0)
    return y[ok], x[ok]


spec("inv", "atan2", np.arctan2, quadrants, lambda k, v, y, x: b(k, 4, 8))
spec("inv", "sinh", np.sinh, between(-10, 10), lambda k, v, x: (b(k, 2, 5) + np.abs(x)) * np.cosh(x))
spec("inv", "sinh", np.sinh, between(-1, 1), lambda k, v, x: b(k, 2.5, 5))
spec("inv", "cosh", np.cosh, between(-10, 10), lambda k, v, x: (b(k, 2, 5) + np.abs(x)) * np.cosh(x))
spec("inv", "tanh", np.tanh, between(-20, 20), lambda k, v, x: b(k, 2, 4))
spec("inv", "asinh", np.arcsinh, between(-10, 10), lambda k, v, x: b(k, 3, 6) + 3 * np.abs(v))
spec("inv", "asinh", np.arcsinh, logspace(-10, 15, True), lambda k, v, x: b(k, 3, 6) + 3 * np.abs(v))
spec("inv", "acosh", np.arccosh, logspace(0.05, 15), lambda k, v, x: b(k, 8, 14) + 3 * np.abs(v))
spec("inv", "atanh", np.arctanh, between(-0.95, 0.95), lambda k, v, x: (b(k, 3, 7)) / (1 - np.abs(x)))
spec("inv", "atan", np.arctan, logspace((-45, -320), (38, 308), True), lambda k, v, x: b(k, 3, 16))
spec("inv", "atan2", np.arctan2, two(logspace((-37, -307), (37, 307), True), logspace((-37, -307), (37, 307), True)), lambda k, v, x, y: b(k, 4, 8))
spec("inv", "sinh", np.sinh, sized(-80, 80, -700, 700), lambda k, v, x: (b(k, 2, 5) + 1.5 * np.abs(x)) * np.cosh(x))
spec("inv", "cosh", np.cosh, sized(-80, 80, -700, 700), lambda k, v, x: (b(k, 2, 5) + 1.5 * np.abs(x)) * np.cosh(x))
spec("inv", "tanh", np.tanh, between(-1000, 1000), lambda k, v, x: b(k, 2, 4))
spec("inv", "asinh", np.arcsinh, logspace((-37, -307), (38, 307.9), True), lambda k, v, x: b(k, 3, 6) + 3 * np.abs(v))
spec("inv", "acosh", np.arccosh, logspace(0.05, (38, 307.9)), lambda k, v, x: b(k, 8, 14) + 3 * np.abs(v))


def above_one(rng, bits, n):
    x = logspace(-(7 if bits == 32 else 15), -0.5)(rng, bits, n)[0]
    return (np.concatenate([FT[bits](1) + x, np.ones(3, FT[bits])]),)


above_one.domain = lambda bits: [(1, 1.3)]


spec("inv", "acosh", np.arccosh, above_one, lambda k, v, x: b(k, 2, 4) + 1 / np.sqrt(np.maximum(x * x - 1, T(2) ** (-23 if k == 32 else -52))))
one = near_one(6, 14)
one.domain = lambda bits: [(-1 + 1e-6, -.5), (.5, 1 - 1e-6)]
spec("inv", "atanh", np.arctanh, one, lambda k, v, x: b(k, 3, 7) / (1 - np.abs(x)))

# Roots.
spec("root", "sqrt", np.sqrt, logspace((-37, -300), (38, 308)), lambda k, v, x: b(k, 1.5, 3) * np.abs(v))
spec("root", "sqrt", np.sqrt, between(0.25, 4, [1.0]), lambda k, v, x: b(k, 1.5, 3) * np.abs(v))
spec("root", "cbrt", np.cbrt, logspace((-37, -300), (38, 308), True), lambda k, v, x: b(k, 1.5, 3) * np.abs(v))
spec("root", "cbrt", np.cbrt, between(-8, 8, [1.0, -1.0]), lambda k, v, x: np.where(np.abs(x) < 1e-36, T(np.inf), b(k, 1.5, 3) * np.abs(v)))
spec("root", "recip", lambda x: 1 / x, logspace((-37, -300), (37, 300), True), lambda k, v, x: b(k, 1.7, 5) * np.abs(v))
spec("root", "recip", lambda x: 1 / x, between(0.25, 4, [1.0]), lambda k, v, x: b(k, 1.7, 5) * np.abs(v))
spec("root", "hypot", np.hypot, two(logspace(-15, 15, True), logspace(-15, 15, True)), lambda k, v, x, y: b(k, 2.5, 5) * v)
spec("root", "hypot", np.hypot, two(between(-4, 4), between(-4, 4)), lambda k, v, x, y: b(k, 2.5, 5) * v + T(1e-30) / ulp1(k))
spec("root", "hypot", np.hypot, two(logspace((-37, -307), (37.9, 307.9), True), logspace((-37, -307), (37.9, 307.9), True)), lambda k, v, x, y: b(k, 2.5, 5) * v)


def near_equal(rng, bits, n):
    """Pairs of similar magnitude anywhere in the range."""
    x = logspace((-37, -307), (37.9, 307.9), True)(rng, bits, n)[0]
    r = np.random.default_rng(rng.getrandbits(64))
    y = (x * 10.0 ** r.uniform(-2, 0, len(x)) * r.choice([-1, 1], len(x))).astype(FT[bits])
    swap = r.random(len(x)) < .5
    return np.where(swap, x, y), np.where(swap, y, x)


spec("root", "hypot", np.hypot, near_equal, lambda k, v, x, y: b(k, 2.5, 5) * v)


def dn(wide):
    def g(rng, bits, n):
        r = np.random.default_rng(rng.getrandbits(64))
        t = FT[bits]
        z = r.uniform(-6, 6, n)
        z[n // 2:] *= 2 if bits == 32 else 6
        mean = (r.uniform(-10, 10, n) if wide else np.zeros(n)).astype(t)
        sd = (10.0 ** r.uniform(-2, 2, n) if wide else np.ones(n)).astype(t)
        return (mean + sd * z.astype(t)).astype(t), mean, sd
    return g


def dnorm(x, m, s):
    z = (x - m) / s
    return np.exp(-z * z / 2) / s / np.sqrt(2 * PI)


def dn_far(rng, bits, n):
    """Deviations whose square, or its inverse, overflows."""
    r = np.random.default_rng(rng.getrandbits(64))
    t = FT[bits]
    z = r.uniform(-6, 6, n)
    sd = 10.0 ** (r.uniform(.25, 1, n) * r.choice([-1, 1], n) * (24 if bits == 32 else 250))
    sd = sd.astype(t)
    mean = np.where(r.random(n) < .3, 0, r.uniform(-10, 10, n)).astype(t) * sd
    return (mean + sd * z.astype(t)).astype(t), mean.astype(t), sd


for w in (dn(False), dn(True), dn_far):
    spec("norm", "dnorm", dnorm, w, lambda k, v, x, m, s: b(k, 2, 4) * (1 + ((x - m) / s) ** 2) * v)


def cover(c, group, lib, n, slack=1):
    """Call every function of the group of one library and judge each result, allowing slack times the bounds."""
    for g, name, ref, gen, bound in SPECS:
        if g != group:
            continue
        args = gen(c.rng, lib.bits, n)
        try:
            y = lib.call(name, *args)
        except Failed as e:
            c.violation("call %s %d" % (name, lib.bits), str(e))
            continue
        with np.errstate(all="ignore"):
            wide = [a.astype(LD) if a.dtype.kind == "f" else a for a in args]
            v = ref(*wide)
            e = np.abs(y.astype(LD) - v) / ulp1(lib.bits)
            e = np.where(np.isnan(y), LD(np.inf), e)
            lim = np.broadcast_to(LD(slack) * np.asarray(bound(lib.bits, v, *wide), dtype=LD), e.shape)
            r = np.where(np.isinf(lim), LD(0), np.where(e == 0, LD(0), e / lim))
        r = np.where(np.isnan(r), LD(np.inf), r)
        j = int(np.argmax(r))
        c.evaluations += len(y)
        c.maxi("%s_%d error/bound" % (name, lib.bits), round(float(r[j]), 3))
        c.count("%s_%d calls" % (name, lib.bits), len(y))
        for i in list(range(0, len(y), max(1, len(y) // 40))) + [j]:
            c.seen((name, lib.bits) + tuple(float(a[i]) for a in args),
                   {"function": name, "bits": lib.bits, "arguments": [float(a[i]) for a in args], "result": float(y[i])})
        c.evaluations -= 41
        if r[j] > 1:
            c.violation("%s %d" % (name, lib.bits), "%s(%s) in %d bits returned %r, the value is %r: an error of %.3g units of 2^-%d where %.3g are allowed (%d of %d arguments are out of bounds)" % (
                name, ", ".join(repr(float(a[j])) for a in args), lib.bits, float(y[j]), float(v[j]), float(e[j]),
                23 if lib.bits == 32 else 53, float(lim[j]), int((r > 1).sum()), len(y)), {"arguments": [float(a[j]) for a in args]})


SMALL = 2.0 ** -12      # below, the walk takes every 61st float
CHUNK = 1 << 22


def chunk(a):
    """The worst of one chunk of a walk: (calls, error/bound, argument, result, value, error, bound, number out of bounds)."""
    k, binary, first, step, n = a
    _, name, ref, _, bound = SPECS[k]
    WIDE[0] = np.float64
    y = np.frombuffer(run(binary, "walk " + name, np.array([first, step, n], np.uint64).tobytes()), np.uint32)
    if len(y) != n:
        return "%s returned %d results for %d arguments" % (name, len(y), n)
    y = y.view(np.float32).astype(np.float64)
    x = (np.uint32(first) + np.arange(n, dtype=np.uint32) * np.uint32(step)).view(np.float32).astype(np.float64)
    with np.errstate(all="ignore"):
        v = ref(x)
        e = np.abs(y - v) * 2.0 ** 23
        e[np.isnan(y)] = np.inf
        lim = np.broadcast_to(np.asarray(bound(32, v, x), dtype=np.float64), e.shape)
        r = np.where(np.isinf(lim) | (e == 0), 0, e / lim)
    r[np.isnan(r)] = np.inf
    j = int(np.argmax(r))
    return n, float(r[j]), float(x[j]), float(y[j]), float(v[j]), float(e[j]), float(lim[j]), int((r > 1).sum())


def walk(c, group, lib):
    """Every 32 bit argument of the ranges of the group's functions of one argument (every 61st below 2^-12 in those that reach down to 0)."""
    jobs = []
    for k, (g, name, _, gen, _) in enumerate(SPECS):
        if g != group or not hasattr(gen, "domain") or lib.sigs.get(name) != (["fty"], "fty"):
            continue
        for lo, hi in gen.domain(32):
            parts = [(lo, hi, 1)]
            if lo < SMALL and hi > -SMALL and not 0 < lo and not hi < 0:
                parts = [(max(lo, SMALL), hi, 1), (lo, min(hi, -SMALL), 1), (0.0, min(hi, SMALL), 61), (max(lo, -SMALL), -0.0, 61)]
            for a, z, step in parts:
                if a > z:
                    continue
                a, z = (np.float32(a), np.float32(z)) if np.signbit(np.float32(z)) == 0 else (np.float32(z), np.float32(a))
                a, z = int(a.view(np.uint32)), int(z.view(np.uint32))
                # the ends are rounded: stay inside
                a, z = a + 1, z - 1
                a += c.rng.randrange(step)
                while a <= z:
                    n = min(CHUNK, (z - a) // step + 1)
                    jobs.append((k, lib.binary, a, step, n))
                    a += n * step
    c.rng.shuffle(jobs)
    worst = {}
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for job, o in zip(jobs, pool.imap(chunk, jobs)):
            name = SPECS[job[0]][1]
            if isinstance(o, str):
                c.violation("call %s 32" % name, o)
                return
            c.evaluations += o[0]
            c.count("%s_32 walked" % name, o[0])
            if job[0] not in worst or o[1] > worst[job[0]][1]:
                worst[job[0]] = o
    for k, o in worst.items():
        name = SPECS[k][1]
        c.maxi("%s_32 walk error/bound" % name, round(o[1], 3))
        c.seen((name, 32, o[2]), {"function": name, "bits": 32, "arguments": [o[2]], "result": o[3]})
        if o[1] > 1:
            c.violation("%s 32" % name, "%s(%r) in 32 bits returned %r, the value is %r: an error of %.3g units of 2^-23 where %.3g are allowed" % ((name,) + o[2:7]), {"arguments": [o[2]]})


def libraries(c, d, functions=EXTRA, ntypes=("decimal",)):
    """The compiled libraries of both sizes; a violation when one cannot be had."""
    def build(j):
        bits, nt = j
        try:
            return Library(functions, bits, nt, d=d, name="lib_%s_" % nt)
        except Failed as e:
            return e
    out = []
    jobs = [(bits, nt) for bits in (32, 64) for nt in ntypes]
    for j, l in zip(jobs, parallel(jobs, build)):
        if isinstance(l, Failed):
            c.violation("library %d %s" % j, str(l))
        else:
            l.ntype = j[1]
            out.append(l)
    return out


def check(prop, group, rule, quick=150000, thorough=4000000, more=None):
    c = Check(prop, rule)
    d = scratch()
    try:
        for lib in libraries(c, d):
            for _ in range(1 if not c.thorough else 5):
                cover(c, group, lib, c.n(quick, thorough) // (5 if c.thorough else 1))
            if c.thorough and lib.bits == 32:
                walk(c, group, lib)
            if more:
                more(c, lib)
    finally:
        shutil.rmtree(d)
    c.minimum = 100
    return c.finish()
