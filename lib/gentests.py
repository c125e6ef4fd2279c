"""The generated tests: reading their tables and running them on substitute functions."""
import os
import re
from fractions import Fraction
import numpy as np
import mpmath as mp
from common import parallel, sh, scratch, ENV
from gen import generate, Failed, rustc, FT, UT
import select_

mp.mp.dps = 70

ONE = ["sin", "cos", "tan", "asin", "acos", "exp2", "exp", "exp_m1", "log2", "ln_1p", "ln", "log10", "log", "dnorm", "qnorm", "nextafter"]


def normal_quantile(p):
    """Newton's iteration from the double precision quantile."""
    from scipy import special
    x = mp.mpf(float(special.ndtri(float(p))))
    for _ in range(4):
        x -= (mp.ncdf(x) - p) / mp.npdf(x)
    return x


REF = {
    "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin, "acos": mp.acos, "exp2": lambda x: mp.mpf(2) ** x, "exp": mp.exp,
    "exp_m1": mp.expm1, "log2": lambda x: mp.log(x) / mp.log(2), "ln_1p": mp.log1p, "ln": mp.log, "log10": mp.log10,
    "log": lambda x: mp.log10(x), "dnorm": mp.npdf, "qnorm": normal_quantile, "nextafter": lambda x: x,
}


def tables(text):
    """[(test name, called function, limit text, [(x, y, err) as strings])] of the accuracy tests."""
    out = []
    for m in re.finditer(r"fn\s+(test_\w+)\s*\(\s*\)\s*\{(.*?)\n\}", text, re.S):
        name, body = m.group(1), m.group(2)
        t = re.search(r"=\s*&\s*\[(.*)\]\s*;", body, re.S)
        u = re.search(r"test_function\s*\(\s*\"(\w+)\"\s*,\s*\w+\s*,\s*(.*?)\s+as\s+fty\s*,\s*\|\s*x\s*\|\s*(\w+)\s*\(", body, re.S)
        if not t or not u:
            continue
        rows = []
        for r in re.finditer(r"\(([^()]*)\)", t.group(1)):
            v = [re.sub(r"\s+", "", s) for s in r.group(1).split(",")]
            rows.append(tuple(v[:3]))
        out.append((name, u.group(3), re.sub(r"\s+", "", u.group(2)), rows))
    return out


def number(s):
    return Fraction(re.sub(r"f(32|64)$", "", s))


def sources(jobs):
    """{(functions, bits, number type): text or Failed} generated with tests, in parallel."""
    def one(j):
        try:
            return generate(j[0], j[1], j[2], tests=True)
        except Failed as e:
            return e
    return dict(zip(jobs, parallel(jobs, one)))
