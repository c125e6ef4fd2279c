"""P29: the methods of the generated portable-SIMD library compute in every lane what the scalar library computes."""
import shutil
import numpy as np
import acc
import select_
import simd
from acc import SPECS
from common import Check, scratch, parallel
from gen import FT, Failed, generate, signatures

RULE = ("every name of -f help generated for portable-simd in both sizes and both number types and compiled against a stand-in for the traits "
        "and vectors that the code imports; every method of the whole library run on vectors of 1, 4 and 8 unrelated arguments over the range "
        "of the function and on anything at all, the lanes equal bit for bit to the scalar library's results; "
        "distinct = (method, size, number type, width, arguments) of a sample of the lanes, non-trivial = the result is a number other than zero")
# Indexed by an integer, which is no vector of floats.
INDEXED = ("runif", "rnorm")


def inputs(c, lib, name, n):
    out = []
    want = lib.sigs[name][0]
    for g, nm, ref, gen, bound in SPECS:
        if nm == name:
            cols = gen(c.rng, lib.bits, n)
            k = min(len(x) for x in cols)
            perm = np.random.default_rng(c.rng.getrandbits(64)).permutation(k)
            out.append([np.asarray(x)[:k][perm] for x in cols])
    r = np.random.default_rng(c.rng.getrandbits(64))
    cols = []
    m = n // 2
    for t in want:
        if t == "fty":
            e = 37 if lib.bits == 32 else 300
            x = np.concatenate([r.uniform(-10, 10, m // 3), r.choice([-1, 1], m // 3) * 10.0 ** r.uniform(-e, e, m // 3),
                                r.choice(np.array([0.0, -0.0, 1, -1, 0.5, -0.5, 2, 127, 128, 1024, np.inf, -np.inf, np.nan]), m - 2 * (m // 3))]).astype(FT[lib.bits])
            r.shuffle(x)
            cols.append(x)
        else:
            cols.append(r.integers(-40, 41, m))
    out.append(cols)
    return out


def main():
    c = Check("P29", RULE)
    d = scratch()
    try:
        jobs = [(b, t, n) for b in (32, 64) for t in ("decimal", "hex") for n in select_.names()]

        def one(j):
            bits, nt, n = j
            out = []
            for x in ("", ",".join(INDEXED)):
                try:
                    scalar = generate(n, bits, nt, exclude=x)
                    indexed = any(f in signatures(scalar) for f in INDEXED)
                    if x and not out:
                        break
                    err = simd.compiles(generate(n, bits, nt, "portable-simd", exclude=x), signatures(scalar), bits, d, "n_%d_%s_%s_%d" % (j + (bool(x),)))
                except Failed as e:
                    err, indexed = str(e), False
                if err:
                    out.append((indexed, err))
                else:
                    break
            return out

        for j, errs in zip(jobs, parallel(jobs, one)):
            c.seen(("compile",) + j)
            c.count("selections compiled")
            for indexed, err in errs:
                c.violation("compile_indexed" if indexed else "compile %s %d %s" % (j[2], j[0], j[1]),
                            "the portable-simd code of -f %s --num-bits %d --number-type %s does not compile: %s" % (j[2], j[0], j[1], err[:500]))
        names = ",".join([acc.EXTRA, "sin_cos"])
        for bits in (32, 64):
            for nt in ("decimal", "hex"):
                try:
                    x = ",".join(INDEXED)
                    lib = simd.SimdLibrary(generate(names, bits, nt, "portable-simd", exclude=x), generate(names, bits, nt, exclude=x), bits, d, "s%d%s" % (bits, nt))
                except Failed as e:
                    c.violation("library %d %s" % (bits, nt), str(e))
                    continue

                def work(name):
                    out = []
                    for cols in per[name]:
                        w = np.zeros((len(cols[0]), len(cols)), dtype=np.uint64)
                        for i, (a, t) in enumerate(zip(cols, lib.sigs[name][0])):
                            w[:, i] = np.asarray(a, dtype=FT[bits]).view({32: np.uint32, 64: np.uint64}[bits]) if t == "fty" else np.asarray(a).astype(np.int64).view(np.uint64)
                        for width in simd.WIDTHS:
                            try:
                                out.append((w, width) + lib.differ(name, w, width))
                            except Failed as e:
                                out.append((w, width, str(e), None, None))
                    return out

                todo = sorted(lib.sigs)
                per = {name: inputs(c, lib, name, c.n(4000, 150000)) for name in todo}
                for name, res in zip(todo, parallel(todo, work)):
                    c.count("methods")
                    for w, width, got, want, bad in res:
                        if want is None:
                            c.violation("call %s %d" % (name, bits), got[:600])
                            continue
                        c.count("lanes compared", len(bad))
                        c.count("lanes of vectors of %d" % width, len(bad))
                        for i in range(0, len(bad), max(1, len(bad) // 20)):
                            c.seen((name, bits, nt, width, tuple(int(v) for v in w[i])), {"method": name, "bits": bits, "lane": ["%x" % int(v) for v in w[i]], "width": width, "result": "%x" % int(got[i])})
                        if bad.any():
                            i = int(np.argmax(bad))
                            c.violation("%s %d" % (name, bits), "%s(%s) in %d bits, %s: the scalar library returns %x and lane %d of %d of the vector is %x (%d of %d differ)" % (
                                name, ", ".join("%x" % int(v) for v in w[i]), bits, nt, int(want[i]), i % width, width, int(got[i]), int(bad.sum()), len(bad)))
        c.need("lanes compared", 400000)
        c.minimum = 1000
        c.assumptions.append("the vectors, masks and traits that the generated code imports are a stand-in of arrays (lib/simd.rs) with the names of core::simd at the time of the repository; "
                             "a method that the library generates is meant where the scalar code uses the method of the same name")
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)
