"""P27: the generated constants are correctly rounded, in every number type and language that has them."""
import re
import shutil
import numpy as np
import mpmath as mp
from common import Check, scratch, sh, parallel
from gen import generate, Failed, rustc, FT, UT
import os
from fractions import Fraction
import ieee

RULE = ("every named constant of the library, alone and with others, in both sizes and number types, compiled and read back as bits, and compared with the correctly rounded value; "
        "distinct = (constant, size, number type, selection)")

mp.mp.dps = 80
F = {
    "PI": lambda: mp.pi, "PI_BY_2": lambda: mp.pi / 2, "PI_BY_8": lambda: mp.pi / 8, "TAN_PI_BY_8": lambda: mp.sqrt(2) - 1,
    "LOG2_E": lambda: 1 / mp.log(2), "RECIP_LOG2_E": lambda: mp.log(2), "RECIP_LOG2_10": lambda: mp.log(2) / mp.log(10),
    "RECIP_PI": lambda: 1 / mp.pi, "RECIP_2PI": lambda: 1 / (2 * mp.pi), "SQRT_RECIP_2PI": lambda: 1 / mp.sqrt(2 * mp.pi),
    "ONE_THIRD": lambda: mp.mpf(1) / 3, "TWO_THIRDS": lambda: mp.mpf(2) / 3,
}


def nearest(v, bits):
    p, emin = (24, -149) if bits == 32 else (53, -1074)
    m, e = mp.frexp(v)
    k = max(int(e) - p, emin)
    q = int(mp.nint(mp.ldexp(v, -k)))
    f = float(mp.ldexp(mp.mpf(q), k))
    return int(np.array([f]).astype(FT[bits]).view(UT[bits])[0])


def exact(bits):
    m, one, off = (23, 0x3f800000, 127) if bits == 32 else (52, 0x3ff0000000000000, 1023)
    f = lambda x: int(np.array([x]).astype(FT[bits]).view(UT[bits])[0])
    return {"LOG2_SHIFT": m, "LOG2_OFFSET": off, "ONE_MASK": (1 << m) - 1, "ONE_BITS": one, "EXP2_ONE": f(float(one)),
            "EXP2_SCALE": f(2.0 ** m), "EXP2_MIN": f(-float(off)), "EXP2_MAX": f(float(off)),
            "INFINITY": f(np.inf), "MIN_POSITIVE": f(2.0 ** (-126 if bits == 32 else -1022))}


def main():
    c = Check("P27", RULE)
    d = scratch()
    names = list(F) + list(exact(32)) + ["NAN"]
    jobs = []
    for bits in (32, 64):
        for nt in ("decimal", "hex"):
            jobs.append((bits, nt, names))
            jobs += [(bits, nt, [n]) for n in names] if c.thorough else [(bits, nt, [n]) for n in c.rng.sample(names, 4)]
            for _ in range(c.n(2, 20)):
                jobs.append((bits, nt, c.rng.sample(names, c.rng.randrange(2, 12)) + [c.rng.choice(["sinh", "log10", "atan2", "exp"])]))

    def run(j):
        i, (bits, nt, want) = j
        try:
            text = generate(",".join(want), bits, nt)
            body = "".join('println!("%s {}", %s);' % (n, n if n in ("LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS") else n + ".to_bits()") for n in want if n in names)
            types = 'fn is<T: std::any::Any>(_: T) -> std::any::TypeId { std::any::TypeId::of::<T>() }'
            check = "".join("assert!(is(%s) == std::any::TypeId::of::<%s>());" % (n, ("i%d" if n.startswith("LOG2_S") or n.startswith("LOG2_O") else "u%d" if n in ("ONE_MASK", "ONE_BITS") else "f%d") % bits) for n in want if n in names)
            b = rustc("#![allow(warnings)]\n" + text + types + "fn main() {" + check + body + "}", d, "k%d" % i, ["-Copt-level=0"])
            r = sh([b])
            if r.returncode != 0:
                return Failed(r.stderr.decode("utf8", "replace")[:300])
            os.unlink(b)
            return dict(l.split() for l in r.stdout.decode().splitlines())
        except Failed as e:
            return e
    try:
        for (bits, nt, want), r in zip(jobs, parallel(list(enumerate(jobs)), run)):
            if isinstance(r, Failed):
                c.violation("constants %s %d %s" % (",".join(want), bits, nt), str(r))
                continue
            ex = exact(bits)
            for n in want:
                if n not in names:
                    continue
                got = int(r[n])
                c.seen((n, bits, nt, tuple(want)), {"constant": n, "bits": bits, "number type": nt, "value": hex(got)})
                if n == "NAN":
                    f = np.array([got], dtype=UT[bits]).view(FT[bits])[0]
                    if not np.isnan(f):
                        c.violation("NAN %d" % bits, "NAN is %r" % f)
                    continue
                w = ex[n] if n in ex else nearest(F[n](), bits)
                if got != w:
                    c.violation("%s %d %s" % (n, bits, nt), "%s in %d bits (%s) is %#x, correctly rounded it is %#x" % (n, bits, nt, got, w))
    finally:
        shutil.rmtree(d)
    c.minimum = 50
    return c.finish()
