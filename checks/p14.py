"""P14: format_token_stream changes white space only."""
import glob
import os
import re
from common import Check, rpc, REPO, build_libmgen, sh, scratch
import shutil

RULE = ("random token streams (all literal kinds, joint and lone punctuation, lifetimes, nested delimiters) and real sources (the "
        "repository's, and the generator's own output), formatted and lexed again with proc_macro2; the two token sequences, with "
        "the jointness of punctuation, must be the same; distinct = source, non-trivial = at least two tokens")

LIT = ["1", "0", "1.0", "1.", "1e5", "1.5e-3", "2f32", "1_f64", "0x1fu32", "0b11", "0o17", "1usize", "\"s\"", "\"a\\\"b\\n\"", "'c'", "'\\''", "b'x'",
       "b\"xy\"", "r\"raw\"", "r#\"ra\"w\"#", "1.0f64", "12345678901234567890123", "1u8", "\"// no comment\"", "\"{\"", "\"  two  \"", "'{'"]
ID = ["x", "as", "fn", "let", "if", "else", "f64", "_", "_x", "r#type", "self", "mut", "u8", "e5", "f32", "abs", "é", "return", "for", "in"]
P = list("+-*/%^!&|=<>@.,;:#$?~") + ["::", "->", "=>", "..", "..=", "...", "<<", ">>", "<<=", "&&", "||", "==", "<=", ">=", "!=", "+=", "&&&", "|||", "--", "-.", "=-",
     "*&", "&*", "<-", "!!", "=&", ";;", ":::", "'a", "'static", "'_"]


PIECES = ["a", "b ", " ", "  ", "\n", "\n\n", "\t", "{", "}", "(", ")", ";", ",", "//", "/*", "'", "->", ": :", "=", "+ -", "é", "0.5", "as", "\r\n"]
ESCAPES = ["\\n", "\\t", "\\\\", "\\\"", "\\u{e9}", "\\0", "\\\n  x"]


def literal(r):
    k = r.random()
    if k < 0.5:
        return r.choice(LIT)
    if k < 0.7:
        return r.choice(["%d.%de-%d", "%d_%d_%d", "%d%d.%d", "%d%d.e%d"]) % (r.randrange(10 ** r.randrange(1, 30)), r.randrange(10 ** 6), r.randrange(300)) + r.choice(["", "f32", "f64", "_f64"])
    s = "".join(r.choice(PIECES) for _ in range(r.randrange(0, 7)))
    if k < 0.85:
        s = "".join(x if r.random() < 0.8 else x + r.choice(ESCAPES) for x in s)
        return '"%s"' % s
    if k < 0.9:
        return 'b"%s"' % "".join(x for x in s if ord(x) < 128 and x != "\r")
    s = s.replace("\r", "")
    return r.choice(['r"%s"', 'r#"%s"#', 'r##"%s"##', 'br"%s"']) % "".join(x for x in s if ord(x) < 128)


def stream(r, depth):
    out = []
    for _ in range(r.randrange(0, 9)):
        k = r.random()
        if k < 0.3:
            out.append(r.choice(ID))
        elif k < 0.5:
            out.append(literal(r))
        elif k < 0.8:
            out.append(r.choice(P))
        elif depth > 0:
            o, c = r.choice(["()", "{}", "[]", "{}", "()"])
            out.append(o + stream(r, depth - 1) + c)
    sep = " " if r.random() < 0.6 else None
    s = ""
    for t in out:
        s += t + (sep if sep is not None else r.choice(["", "", " ", "\n"]))
    return s


def code(r, depth):
    """Something like the code the generator formats."""
    def e(d):
        k = r.randrange(9)
        if d <= 0 or k == 0:
            return literal(r) if r.random() < .1 else r.choice(["x", "y", "1.0", "0x3ff0000000000000", "1.0f64", "f64::consts::PI", "2.", "1e-5", "3"])
        if k == 1:
            return "-" + e(d - 1)
        if k == 2:
            return "(%s)" % e(d - 1)
        if k == 3:
            return "%s.mul_add(%s, %s)" % (e(d - 1), e(d - 1), e(d - 1))
        if k == 4:
            return "%s as %s" % (e(d - 1), r.choice(["u64", "f32", "i32"]))
        if k == 5:
            return "if %s { %s } else { %s }" % (e(d - 1), e(d - 1), e(d - 1))
        if k == 6:
            return "%s(%s)" % (r.choice(["f", "sin", "f64::from_bits"]), e(d - 1))
        return "%s%s%s" % (e(d - 1), r.choice(["+", "-", "*", " / ", "<<", ">>", "&", "|", "^", "<", "==", "&&", " & & ", ">="]), e(d - 1))
    body = "".join("let %s = %s;" % (r.choice("abc"), e(depth)) for _ in range(r.randrange(3)))
    return "%sfn %s(x: %s, y: &mut [f64; 3]) -> %s { %s %s }" % (r.choice(["", "pub ", "#[inline] ", "#[test] pub ", "/// doc\n"]), r.choice("fgh"), r.choice(["f64", "&f32", "&'static str"]),
                                                               r.choice(["f64", "(f64, f64)", "Vec<Vec<f64>>"]), body, e(depth))


PAIRS = set("&& || << >> += -= *= /= %= ^= &= |= == != <= >= -> => :: .. .= <- '".split())


def norm(ts):
    """Keep the jointness of punctuation only where it makes an operator or a lifetime."""
    out = []
    for i, t in enumerate(ts):
        if t.endswith("~") and len(t) == 2 and t != "'~":
            n = ts[i + 1][:1] if i + 1 < len(ts) else ""
            if t[0] + n not in PAIRS:
                t = t[0]
        out.append(t)
    return out


def main():
    c = Check("P14", RULE)
    rng = c.rng
    src = []
    for f in sorted(glob.glob(REPO + "/**/*.rs", recursive=True)):
        if "/target/" not in f:
            src.append(("repository source", open(f).read()))
    m = build_libmgen()
    d = scratch()
    try:
        for bits in ("32", "64"):
            o = os.path.join(d, "o.rs")
            r = sh([m, "--num-bits", bits, "--language", "rust", "-o", o])
            if r.returncode == 0 and os.path.exists(o):
                src.append(("generated source", open(o).read()))
    finally:
        shutil.rmtree(d)
    deep = "x"
    for i in range(120):
        deep = "{" + deep + ";}"
        if i % 10 == 0:
            src.append(("deep", "fn f() " + deep))
    for _ in range(c.n(25000, 400000)):
        src.append(("random tokens", stream(rng, rng.randrange(0, 5))))
    for _ in range(c.n(10000, 200000)):
        src.append(("random code", code(rng, rng.randrange(1, 5))))
    reqs = [["fmt", s] for _, s in src]
    rs = rpc(reqs)
    for q, (kind, s), r in zip(reqs, src, rs):
        key = "format " + re.sub(r"\s+", " ", s)[:200]
        if r.status == "err" and r.text.startswith("HARNESS lex"):
            c.count("not Rust tokens (skipped)")
            continue
        if not c.answered(r, q, key):
            continue
        text, lexed, before, after = (r.fields + [""] * 4)[:4]
        b = norm(before.split("\1"))
        c.seen(s if len(b) > 1 else None, {"source": s[:100], "formatted": text[:100]})
        c.count(kind)
        c.count("tokens", len(b))
        if lexed != "lexed":
            c.violation(key, "formatted text cannot be lexed: %s" % text[:300], {"source": s, "text": text})
            continue
        a = norm(after.split("\1"))
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            c.violation(key, "formatting changed token %d: %s became %s in %s" % (i, b[i - 1:i + 3], a[i - 1:i + 3], text[:200]), {"source": s, "text": text})
    c.minimum = 2000
    return c.finish()
