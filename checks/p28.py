"""P28: the generated C library compiles and computes what the Rust library computes."""
import re
import shutil
import numpy as np
import acc
import select_
from acc import SPECS
from clib import CLibrary
from common import Check, scratch, parallel, sh
from gen import FT, UT, Failed, Library, generate, run
import os

RULE = ("every name of -f help generated as C in both sizes and both number types and compiled by gcc; the whole C library run next to the "
        "Rust library (with its multiply-adds unfused) over the range of every function, results equal bit for bit unless the C code "
        "casts out of range; the C library run under the address and undefined behaviour sanitizers and against extended precision; "
        "distinct = (function, size, arguments) of a sample of the calls, non-trivial = no cast out of range")

UNFUSED = """
trait VRef { fn v_mul_add(self, a: Self, b: Self) -> Self; }
impl VRef for f32 { fn v_mul_add(self, a: f32, b: f32) -> f32 { self * a + b } }
impl VRef for f64 { fn v_mul_add(self, a: f64, b: f64) -> f64 { self * a + b } }
"""
SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]
TRAP = ["-O1", "-fsanitize=float-cast-overflow,signed-integer-overflow,shift-exponent", "-fsanitize-undefined-trap-on-error", "-fno-sanitize-recover=all"]
SLACK = 1.6


class InRange:
    """The C library where its casts are in range, the Rust library elsewhere."""

    def __init__(self, plain, traps, rust):
        self.bits, self.plain, self.traps, self.rust = plain.bits, plain, traps, rust

    def call(self, name, *args):
        y = self.plain.call(name, *args)
        ok, _ = self.traps.raw(name, self.traps.words(name, args))
        return y if ok.all() else np.where(ok, y, self.rust.call(name, *args))


def inputs(c, lib, name, n):
    """Arguments from the specified ranges, and anything at all."""
    out = []
    for g, nm, ref, gen, bound in SPECS:
        if nm == name:
            out.append(gen(c.rng, lib.bits, n))
    want = lib.sigs[name][0]
    r = np.random.default_rng(c.rng.getrandbits(64))
    cols = []
    m = n // 2
    for t in want:
        if t == "fty":
            e = 30 if lib.bits == 32 else 200
            x = np.concatenate([r.uniform(-10, 10, m // 3), r.choice([-1, 1], m // 3) * 10.0 ** r.uniform(-e, e, m // 3),
                                r.choice(np.array([0.0, -0.0, 1, -1, 0.5, 2, np.inf, -np.inf, np.nan]), m - 2 * (m // 3))]).astype(FT[lib.bits])
            r.shuffle(x)
            cols.append(x)
        elif t == "usize":
            cols.append(np.concatenate([np.arange(m // 2), r.integers(0, 1 << 62, m - m // 2)]))
        else:
            cols.append(r.integers(-40, 41, m))
    out.append(tuple(cols))
    return out


def main():
    c = Check("P28", RULE)
    d = scratch()
    try:
        names = [n for n in select_.names() if n not in ("all",)]
        jobs = [(b, t, n) for b in (32, 64) for t in ("decimal", "hex") for n in names]

        def one(j):
            bits, nt, n = j
            path = os.path.join(d, "n_%d_%s_%s.c" % j)
            try:
                text = generate(n, bits, nt, "c")
            except Failed as e:
                return str(e), ""
            with open(path, "w") as f:
                f.write(text)
            r = sh(["gcc", "-std=gnu11", "-Wall", "-Wno-unused", "-Wno-overflow", "-Werror=implicit", "-Werror=incompatible-pointer-types",
                    "-Werror=int-conversion", "-Werror=return-type", "-Werror=uninitialized", "-O1", "-c", "-o", path[:-1] + "o", path])
            return (r.stderr.decode("utf8", "replace")[:800] if r.returncode else None), text

        for j, (err, text) in zip(jobs, parallel(jobs, one)):
            c.seen(("compile",) + j)
            c.count("selections compiled")
            if err:
                c.violation("compile_%s" % j[2] if j[2] == "sin_cos" else "compile %s %d %s" % (j[2], j[0], j[1]),
                            "the C of -f %s --num-bits %d --number-type %s does not compile: %s" % (j[2], j[0], j[1], err), {"c": text})
        for bits in (32, 64):
            for nt in ("decimal", "hex"):
                try:
                    rtext = generate(acc.EXTRA.replace("sin_cos,", ""), bits, nt)
                    ctext = generate(acc.EXTRA.replace("sin_cos,", ""), bits, nt, "c")
                    utext = UNFUSED + re.sub(r"\.\s*mul_add\b", ". v_mul_add", rtext)
                    rust = Library("", bits, d=d, text=utext, name="u%s" % nt)
                    traps = CLibrary(ctext, rust.sigs, bits, d, "t%d%s" % (bits, nt), TRAP, True)
                    plain = CLibrary(ctext, rust.sigs, bits, d, "c%d%s" % (bits, nt), ["-O2"])
                    san = CLibrary(ctext, rust.sigs, bits, d, "s%d%s" % (bits, nt), SAN)
                except Failed as e:
                    c.violation("library %d %s" % (bits, nt), str(e))
                    continue
                n = c.n(3000, 60000)
                for name in sorted(plain.sigs):
                    total = good = 0
                    for args in inputs(c, rust, name, n):
                        w = plain.words(name, args)
                        try:
                            ok, _ = traps.raw(name, w)
                            w, ok = w[ok], ok
                            total += len(ok)
                            good += len(w)
                            if not len(w):
                                continue
                            _, got = plain.raw(name, w)
                            san.raw(name, w)
                            c.count("calls under the sanitizers", len(w))
                            try:
                                want = np.frombuffer(run(rust.binary, name, w.tobytes()), dtype=np.uint64)
                            except Failed as e:
                                # The Rust overflows where C's unsigned arithmetic wraps, or panics: nothing to compare with.
                                c.count("batches Rust refuses")
                                want = None
                        except Failed as e:
                            c.violation("call %s %d" % (name, bits), str(e)[:600])
                            continue
                        if want is None:
                            continue
                        if rust.sigs[name][1] == "fty":
                            a, b = got.astype(UT[bits]).view(FT[bits]), want.astype(UT[bits]).view(FT[bits])
                            bad = ~((got == want) | (np.isnan(a) & np.isnan(b)))
                        else:
                            bad = got != want
                        c.count("%s_%d results compared" % (name, bits), len(w))
                        c.count("results compared", len(w))
                        for i in range(0, len(w), max(1, len(w) // 30)):
                            c.seen((name, bits, nt, tuple(int(x) for x in w[i])), {"function": name, "bits": bits, "arguments": ["%x" % int(x) for x in w[i]], "result": "%x" % int(got[i])})
                        if bad.any():
                            i = int(np.argmax(bad))
                            c.violation("%s %d" % (name, bits), "%s(%s) in %d bits, %s: the Rust library returns %x and the C library %x (%d of %d differ)" % (
                                name, ", ".join("%x" % int(x) for x in w[i]), bits, nt, int(want[i]), int(got[i]), int(bad.sum()), len(bad)))
                    if total and good < total * 0.3:
                        c.violation("casts %s %d" % (name, bits), "%s casts out of range for %d of %d arguments" % (name, total - good, total))
                if nt == "decimal":
                    low = plain.call("exp_m1", np.array([-100.0 if bits == 32 else -800.0]))[0]
                    if not abs(low + 1) < 1e-6:
                        c.violation("c_exp_m1_low_%d" % bits, "exp_m1(%d) in C is %r" % (-100 if bits == 32 else -800, low))
                    for g in ("trig", "exp", "inv", "root", "norm"):
                        acc.cover(c, g, InRange(plain, traps, rust), c.n(20000, 400000), slack=SLACK)
        c.need("results compared", 100000)
        c.minimum = 1000
        c.assumptions.append("gcc; sin_cos is left out, it has no C translation")
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)
