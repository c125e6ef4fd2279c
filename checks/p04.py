"""P04: every request on an expression is answered: a literal, an expression or an Err, and an Err exactly where there is
no answer. Never a panic, a crash, an endless loop or output on stdout."""
import math
import re
import rexpr as X
from common import Check, rpc

RULE = ("random Rust expressions of every kind (supported and not, in and out of every function's domain, odd literals, wrong "
        "argument counts) through eval, subst, expand, paren, collect_terms, use_number_type and conversions; watched for panics, "
        "crashes, more than 60 s of CPU per request and writes to stdout; inside the supported language definedness is decided by "
        "an exact domain oracle; distinct = request")

LIT = re.compile(r"^(- ?)?[0-9]|^true$|^false$")
ODD = ["x", "y", "f64::consts::PI", "E", "self", "true", "false", "\"text\"", "'c'", "b'x'", "b\"bytes\"", "r#\"raw\"#", "()", "(1, 2)", "(1,)", "[1, 2]", "[0; 4]",
       "x[0]", "x.0", "x.y", "x.y.z", "f(1)", "f()", "g(x, y)", "|x| x + 1", "|| 1", "{ 1 }", "{ let a = 1; a }", "if a { 1 } else { 2 }",
       "if a { 1 }", "match x { _ => 1 }", "loop { }", "while x { }", "for i in 0..3 { }", "return 1", "break", "continue", "unsafe { 1 }", "async { 1 }",
       "1..2", "..", "1..=2", "..3", "2..", "&x", "&mut x", "*x", "!x", "!1", "!true", "1 as f64", "x as u32", "1.0 as f32", "x?", "x = 1", "x += 1", "x *= 2",
       "S { a: 1 }", "S { a: 1, ..t }", "vec![1]", "println!(\"{}\", x)", "x::<f64>()", "x.f::<f64>(1)", "1.5.f()", "<T as U>::c", "Vec::<u8>::new", "let x = 1",
       "1 % 2", "1 & 2", "1 | 2", "1 ^ 2", "1 << 2", "1 >> 2", "true && false", "true || false", "- true", "-\"s\"", "1 + true", "true + 1", "(true) == (true)",
       "\"a\" < \"b\"", "1 < 2 == true", "x.await", "#[a] 1", "0x1f", "0b101", "0o17", "1_000", "1e3", "1E-3", "1u8", "1.0f32", "1f64", "00012", "0.0", "1.", "1e0",
       "0xffffffffffffffff", "340282366920938463463374607431768211455", "1e300", "1e-300", "1e39", "123456789012345678901234567890.123456789",
       "0e0", "1_0.0_1", "0.1e1_0", "1i128", "0x_1", "1__0"]
METHODS = ["sin", "cos", "tan", "exp", "asin", "acos", "atan", "sqrt", "ln", "log", "log2", "log10", "exp2", "powf", "powi", "erf", "erfc",
           "recip", "abs", "signum", "round", "dnorm", "pnorm", "qnorm", "round_ieee"]
UNKNOWN = ["floor", "ceil", "trunc", "fract", "mul_add", "max", "min", "sinh", "tanh", "atan2", "hypot", "cbrt", "exp_m1", "sin_cos", "is_nan", "clone", "frobnicate", "Sin"]
ARITY = {"log": 1, "powf": 1, "powi": 1, "dnorm": 2, "pnorm": 2, "qnorm": 2, "round_ieee": 1}
BIG = set(["1e300", "340282366920938463463374607431768211455", "0xffffffffffffffff", "1e39", "123456789012345678901234567890.123456789", "0.1e1_0"])
SMALLARG = ("sin", "cos", "tan", "exp", "exp2", "powf", "powi", "erf", "erfc", "dnorm", "pnorm", "atan", "asin", "acos")


def odd(rng, depth=2):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice(ODD)
    if r < 0.5:
        return "(%s)" % odd(rng, depth - 1)
    if r < 0.7:
        return "%s %s %s" % (wrap(odd(rng, depth - 1)), rng.choice(["+", "-", "*", "/", "+", "-", "*", "%", "<", "==", "<<", "&&"]), wrap(odd(rng, depth - 1)))
    if r < 0.78:
        return "-%s" % wrap(odd(rng, depth - 1))
    n = rng.choice([0, 0, 1, 2, 3])
    # functions of huge numbers only take long
    m = rng.choice(UNKNOWN + ["abs", "signum", "round", "sqrt", "recip", "round_ieee"])
    return "%s.%s(%s)" % (wrap(odd(rng, depth - 1)), m, ", ".join(odd(rng, depth - 1) for _ in range(n)))


def wrap(s):
    return "(" + s + ")"


def main():
    c = Check("P04", RULE)
    rng = c.rng
    reqs, meta = [], []
    for o in ODD:
        for q in ([["eval", o, "20"]] + [["chain", o, s] for s in ("expand", "paren", "collect\1x", "unt\1hex\00164", "unt\1decimal\00132",
                                                                       "unt\1none\00164", "unt\1decimal\00116", "subst\1x\0011 + 1")] + [["conv", "to", o]]):
            reqs.append(q)
            meta.append(("odd", None))
    for i in range(c.n(12000, 300000)):
        o = odd(rng, rng.randrange(1, 4))
        k = rng.randrange(7)
        q = [["eval", o, str(rng.choice([1, 5, 20, 40]))], ["chain", o, "expand"], ["chain", o, "paren"], ["chain", o, "collect\1x"],
             ["chain", o, "unt\1%s\1%d" % (rng.choice(["hex", "decimal", "other"]), rng.choice([32, 64, 80]))],
             ["chain", o, "subst\1x\1%s" % rng.choice(ODD)], ["conv", "to", o]][k]
        if k == 1 and o.count("*") > 9:
            continue
        reqs.append(q)
        meta.append(("odd", None))
    # in and out of the domains, with exact knowledge of which is which
    NUM = ["0", "1", "-1", "0.5", "-0.5", "2", "-2", "1.0000001", "-1.0000001", "0.9999999", "1e-9", "-1e-9", "10", "-10", "0.0", "3.7", "-3.7", "1e-40", "100", "-100", "1000", "-12000", "3000.5", "150", "-50", "42.5"]
    for i in range(c.n(10000, 200000)):
        f = rng.choice(METHODS + UNKNOWN[:4])
        arity = ARITY.get(f, 0)
        n = arity if rng.random() < 0.9 else rng.choice([0, 1, 2, 3])
        x = rng.choice(NUM)
        a = [rng.choice(NUM) if f != "round_ieee" else rng.choice(["32", "64", "64", "16", "0"]) for _ in range(n)]
        nd = rng.choice([5, 10, 20, 40, 40, 100, 150, 250])
        if f == "qnorm":
            nd = min(nd, 60)
        x0, a0 = float(x), [float(v) for v in a]
        ok = n == arity and f in METHODS
        if ok:
            if f in ("ln", "log2", "log10", "powf", "powi", "log"):
                ok = x0 > 0
            if f == "log":
                ok = ok and a0[0] > 0 and a0[0] != 1
                if ok and abs(a0[0] - 1) < 2 * 10.0 ** -nd:
                    ok = None
            if f == "sqrt":
                ok = x0 >= 0
            if f in ("asin", "acos"):
                ok = abs(x0) <= 1
            if f == "recip":
                ok = x0 != 0
            if f in ("dnorm", "pnorm", "qnorm"):
                ok = a0[1] > 0
                if f == "qnorm":
                    ok = ok and 0 < x0 < 1
                if f == "qnorm" and x0 in (1e-40,):
                    ok = None
            if f in ("powf", "powi", "exp2", "exp") and len(a0) <= 1 and abs(a0[0] if a0 else x0) * abs(math.log(max(x0, 1e-9))) > 20000:
                continue
            if f == "round_ieee":
                ok = a0[0] in (32, 64)
        form = rng.randrange(3)
        core = "(%s).%s(%s)" % (x, f, ", ".join(a))
        if form == 0:
            core = "1 + (%s)" % core
        elif form == 1:
            core = "(-%s) * 2" % core
        reqs.append(["eval", core, str(nd)])
        meta.append(("domain", ok))
    for e, ok in [("1 / 0", False), ("1 / (1 - 1)", False), ("0 / 0", False), ("0 / 1", True), ("1 / 0.0", False), ("1 / (0.5 - 0.5)", False),
                  ("PI", True), ("PI / PI", True), ("1 / (PI - PI)", False), ("x", False), ("-x", False), ("x + 1", False), ("1 + x * 0", False),
                  ("y.sin()", False), ("(1).powf(x)", False), ("f64::consts::PI", False), ("std::f64::consts::PI", False), ("pi", False),
                  ("1 < 2", True), ("(1 < 2) + 1", False), ("1 % 2", False), ("!1", False), ("*1", False), ("- - 1", True)]:
        reqs.append(["eval", e, "20"])
        meta.append(("domain", ok))
    rs = rpc(reqs)
    for q, (kind, ok), r in zip(reqs, meta, rs):
        key = (q[0] + ":" + q[1] + ":" + "".join(q[2:3]).replace("\1", ":"))[:200]
        if r.status == "err" and r.text.startswith("HARNESS parse"):
            c.count("not an expression")
            continue
        if not c.answered(r, q, key):
            continue
        c.seen(tuple(q), {"request": [s.replace("\1", " ") for s in q], "got": (r.status + " " + r.text)[:60]})
        c.count("%s %s %s" % (kind, q[0], r.status))
        if q[0] == "eval" and r.status == "ok" and not LIT.match(r.text) and not X_lit(r.text):
            c.violation(key, "eval of %s is neither a literal nor an error: %s" % (q[1], r.text), {"request": q})
        if kind == "domain" and ok is not None and (r.status == "ok") != ok:
            c.violation(key, "eval of %s should be %s, got %s %s" % (q[1], "Ok" if ok else "Err", r.status, r.text), {"request": q})
    c.minimum = 2000
    return c.finish()


def X_lit(t):
    return bool(re.match(r"""^(b?"|b?'|r#|- |#)""", t))
