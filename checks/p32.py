"""P32: the number type changes the notation of the library and nothing else."""
import re
import shutil
import numpy as np
from common import Check, scratch
from acc import libraries, EXTRA, SPECS, dn
from gen import Failed, FT, UT
import select_

RULE = ("every generated function of both sizes called with the same arguments in the decimal and in the hex library, results compared bit for bit; the constants of the hex library "
        "checked to be bit patterns; distinct = (function, size, arguments) of a sample")


def main():
    c = Check("P32", RULE)
    d = scratch()
    n = c.n(40000, 1000000)
    try:
        libs = {(l.bits, l.ntype): l for l in libraries(c, d, EXTRA + ",cbrt_approx,negate_on_odd", ("decimal", "hex"))}
        for bits in (32, 64):
            a, b = libs.get((bits, "decimal")), libs.get((bits, "hex"))
            if not a or not b:
                continue
            if a.sigs != b.sigs:
                c.violation("signatures %d" % bits, "the libraries do not have the same functions: %s" % (set(a.sigs.items()) ^ set(b.sigs.items())))
                continue
            na, nb = ([re.sub(r"\W", "", x) for x, _ in select_.items(t.text)] for t in (a, b))
            if na != nb:
                c.violation("items %d" % bits, "the libraries do not have the same items: %s" % (set(na) ^ set(nb)))
            for nt, lib, want in (("decimal", a, False), ("hex", b, True)):
                for f in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp2", "exp_m1", "log2", "qnorm"):
                    body = dict(select_.items(lib.text)).get(f, "")
                    pats = re.findall(r"from_bits\((?:0x)?[0-9a-fA-F_]+(?:u\d+)?\)", body)
                    c.count("bit patterns in %s polynomials" % nt, len(pats))
                    if bool(len(pats) > 4) != want:
                        c.violation("notation %s %d %s" % (f, bits, nt), "%s in the %s library has %d literals as bit patterns" % (f, nt, len(pats)))
            g = np.random.default_rng(c.rng.getrandbits(64))
            for name, (types, ret) in sorted(a.sigs.items()):
                args = []
                for i, t in enumerate(types):
                    if t == "fty":
                        x = np.concatenate([g.uniform(-1, 1, n // 2), g.uniform(-10, 10, n // 4), 10.0 ** g.uniform(-20, 20, n - n // 2 - n // 4)]).astype(FT[bits])
                        g.shuffle(x)
                        if name in ("nextafter", "log", "powf", "sqrt"):
                            x = np.abs(x)
                        args.append(x)
                    else:
                        args.append(g.integers(0, 5, n))
                if name in ("dnorm", "qnorm", "rnorm", "runif") and types[-1] == "fty":
                    args[-1] = np.abs(args[-1]) + 1
                try:
                    y, z = a.call(name, *args), b.call(name, *args)
                except Failed as e:
                    c.violation("call %s %d" % (name, bits), str(e))
                    continue
                if not isinstance(y, tuple):
                    y, z = (y,), (z,)
                for u, v in zip(y, z):
                    if u.dtype.kind == "f":
                        same = (u.view(UT[bits]) == v.view(UT[bits])) | (np.isnan(u) & np.isnan(v))
                    else:
                        same = u == v
                    c.evaluations += len(u)
                    c.count("results compared", len(u))
                    for i in range(0, len(u), max(1, len(u) // 20)):
                        c.seen((name, bits, i) + tuple(float(x[i]) for x in args), {"function": name, "bits": bits, "arguments": [float(x[i]) for x in args], "result": float(u[i])})
                    if not same.all():
                        i = int(np.argmin(same))
                        c.violation("%s %d" % (name, bits), "%s(%s) in %d bits is %r in the decimal and %r in the hex library" % (
                            name, ", ".join(repr(float(x[i])) for x in args), bits, float(u[i]), float(v[i])))
    finally:
        shutil.rmtree(d)
    c.minimum = 300
    return c.finish()
