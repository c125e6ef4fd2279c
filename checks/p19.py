"""P19: accuracy of the generated sin, cos, tan and sin_cos (see lib/acc.py)."""
import numpy as np
import acc
from gen import Failed, spread

RULE = ("calls of the generated functions, compiled from libmgen's output in both sizes, over their whole ranges (uniform, logarithmic and the seams of the "
        "argument reductions), each result compared with extended precision; distinct = (function, size, arguments) of a sample of the calls and of the worst call of each batch")


def pairs(c, lib):
    x = spread(c.rng, lib.bits, -100, 100, 20000)
    try:
        s, k = lib.call("sin_cos", x)
        ok = (s == lib.call("sin", x)) & (k == lib.call("cos", x))
    except Failed as e:
        c.violation("sin_cos %d" % lib.bits, str(e))
        return
    c.count("sin_cos calls", len(x))
    c.evaluations += len(x)
    if not ok.all():
        j = int(np.argmin(ok))
        c.violation("sin_cos %d" % lib.bits, "sin_cos(%r) is (%r, %r), not (sin, cos)" % (float(x[j]), float(s[j]), float(k[j])))


def main():
    return acc.check("P19", "trig", RULE, more=pairs)
