"""What a generated Rust library contains."""
import re
from common import build_libmgen, sh
from gen import Failed

# The functions of each group, by its name in the README and the help.
GROUPS = {
    "trig": "sin cos tan asin acos atan atan2".split(),
    "invtrig": "asin acos atan atan2".split(),
    "hyperbolic": "sinh cosh tanh asinh acosh atanh".split(),
    "invhyperbolic": "asinh acosh atanh".split(),
    "logexp": "exp2 exp exp_m1 log2 ln_1p ln log10 log powf powi".split(),
    "recip_sqrt": "recip sqrt cbrt".split(),
    "normal": "rnorm dnorm qnorm".split(),
}
GROUPS["libm"] = GROUPS["logexp"] + GROUPS["trig"] + GROUPS["hyperbolic"] + GROUPS["recip_sqrt"]
GROUPS["stats"] = GROUPS["normal"]
GROUPS["all"] = GROUPS["libm"] + GROUPS["stats"]
TESTED = "nextafter asin acos exp2 exp exp_m1 log2 ln_1p ln log10 log runif dnorm qnorm rnorm sin cos tan".split()


def names():
    r = sh([build_libmgen(), "-f", "help"])
    n = r.stdout.decode("utf8", "replace").split()
    if r.returncode != 0 or len(n) < 20:
        raise Failed("-f help exited with %d and %d names" % (r.returncode, len(n)))
    return n


def items(text):
    """[(name, text without white space)] of the top level items."""
    out = []
    depth = 0
    start = 0
    i = 0
    while i < len(text):
        ch = text[i]
        if ch == '"':
            i += 1
            while text[i] != '"':
                i += 2 if text[i] == "\\" else 1
        elif ch in "({[":
            depth += 1
        elif ch in ")}]":
            depth -= 1
        if depth == 0 and (ch == ";" or ch == "}"):
            t = text[start:i + 1]
            m = re.search(r"\b(?:fn|const|type|static)\s+(\w+)", t)
            if m:
                out.append((m.group(1), re.sub(r"\s+", "", t)))
            start = i + 1
        i += 1
    return out
