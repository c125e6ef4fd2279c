"""P37: expressions, names and variable lists print, compare and look up as what they are."""
import re
import rexpr as X
from common import Check, rpc

RULE = ("random expressions over most of Rust's expression syntax, printed and parsed back; pairs of expressions and names that are equal but for white space or differ in one token, "
        "compared; random variable lists with repeated and similar names, looked up; distinct = the request, non-trivial = all")

NAMES = ["x", "y", "xx", "X", "a::x", "a::b::x", "x::a", "std::f64::consts::PI", "f64::consts::PI", "_x", "x1"]
# Names with tokens that only white space keeps apart, and names that differ in one of them.
TYPED = ["a::b::<dyn T>", "a::b::<dynT>", "f::<&'static str>", "f::<&'static u8>", "f::<&str>", "Vec::<u8>::new", "Vec::<u16>::new", "g::<fn(u8) -> u8>", "g::<fn(u8)>", "r#type", "self", "crate::x", "super::x", "::a::x",
         "h::<{ 1 }>", "h::<1>", "k::<u8, u8>", "k::<u8>", "m::<impl T + 'static>", "m::<impl T>"]
ODDITIES = ["[x, y + 1]", "(x, 2)", "a[0]", "a[i + 1].b", "&x", "*p", "!x", "-x", "x as f64", "|u| u + 1", "if x < y { 1 } else { 2 }", "{ let u = 1; u + x }", "x..y", "f(x)(y)", "x.0",
            "\"a b\"", "'c'", "b\"xy\"", "true", "x?", "match x { 1 => y, _ => z }", "f::<f64>(x)", "S { a: 1, b: x }", "[0; 4]", "m!(x + 1)", "loop { break x }", "return x", "x = y", "x += 1", "()", "r\"a\\b\"",
            "1.5", "0x1f_u8", "1e10", "1_000", "2f32", "3usize", "0b11", "x.f::<u8>(y)", "unsafe { x }", "&mut x", "<f64 as T>::f(x)", "x % y", "x << 2 | y & z ^ 1", "x && y || !z", "x == y", "b'q'"]
LITS = re.compile(r"""^(?:"[^"]*"|'.'|b".*"|b'.'|r".*"|true|false|[0-9][0-9A-Za-z_.]*(?:[eE][-+][0-9]+)?)$""")


def text(rng):
    if rng.random() < 0.2:
        return rng.choice(ODDITIES)

    def leaf(r):
        k = r.random()
        if k < 0.5:
            return ("name", r.choice(NAMES))
        if k < 0.9:
            return ("num", X.rand_number(r))
        return ("name", "(" + r.choice(ODDITIES) + ")")

    def method(r, sub):
        return ("call", r.choice(["sin", "mul_add", "f"]), sub(), [sub() for _ in range(r.randrange(0, 3))])
    return X.show(X.rand_tree(rng, rng.randrange(0, 5), leaf, ops=X.ALL, method=method, prefixes="-!*"), rng, extra=rng.choice([0, .2]))


def space(rng, toks):
    return "".join(t + rng.choice([" ", " ", "  ", "\n"]) for t in toks)


def main():
    c = Check("P37", RULE)
    rng = c.rng
    reqs, meta = [], []
    for _ in range(c.n(20000, 400000)):
        k = rng.random()
        if k < 0.5:
            t = text(rng)
            reqs.append(["show", t])
            meta.append(t)
        elif k < 0.7:
            try:
                a = [v for _, v in X.tokens(X.show(X.rand_tree(rng, 3, lambda r: ("name", r.choice(NAMES)) if r.random() < .5 else ("num", X.rand_number(r))), rng))]
            except X.ParseError:
                continue
            b = list(a)
            if rng.random() < 0.6:
                i = rng.randrange(len(b))
                new = None
                if b[i] in ("+", "-", "*", "/") and i and b[i - 1] not in "+-*/(":
                    new = rng.choice("+-*/")
                elif re.match(r"[A-Za-z_]", b[i]):
                    new = rng.choice(NAMES)
                elif re.match(r"[0-9]", b[i]):
                    new = X.rand_number(rng)
                if new:
                    b[i] = new
            n, m = rng.choice(NAMES + TYPED), rng.choice(NAMES + TYPED)
            if rng.random() < .5:
                m = n
            reqs.append(["eq", space(rng, a), space(rng, b), n, re.sub(r"(::|<|>(?! u8)|&)", r" \1 ", m).replace("- >", "->")])
            meta.append((a == b, n == m))
        else:
            kv = [(rng.choice(NAMES), str(rng.randrange(1000)) if rng.random() < .5 else "x + %d" % i) for i in range(rng.randrange(0, 6))]
            if rng.random() < 0.3:
                kv = [(rng.choice(TYPED + ["x"]), v) for _, v in kv]
            q = rng.choice(NAMES + TYPED) if not kv or rng.random() < .4 else rng.choice(kv)[0]
            reqs.append(["vars", q] + [x for p in kv for x in p])
            meta.append((q, kv))
    reqs.append(["macros"])
    meta.append(None)
    sp = lambda s: re.sub(r"\s", "", s)
    for q, m, r in zip(reqs, meta, rpc(reqs)):
        key = "%s %s" % (q[0], " | ".join(q[1:]))
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "%s failed: %s" % (key, r.text), {"request": q})
            continue
        f = r.fields
        c.seen(key, {"request": q, "got": f[:4]})
        c.count(q[0])
        if q[0] == "show":
            t = m.strip()
            lit = bool(LITS.match(t))
            num = lit and bool(re.match(r"[0-9]", t))
            want = [None, "true", str(lit).lower(), str(num).lower(), None, f[4], "true"]
            c.count("literals", lit)
            for i, what in ((1, "parsed back, is equal to itself"), (2, "is_lit"), (3, "is_numeric"), (5, "its tokens"), (6, "is the syn expression it converts to")):
                if f[i] != want[i]:
                    c.violation(key, "%r printed as %r: %s gave %r, expected %r" % (m, f[0], what, f[i].replace("\1", " "), want[i].replace("\1", " ")), {"request": q, "response": f})
                    break
        elif q[0] == "macros":
            c.count("expressions made by macros", len(f))
            if set(f) != {"true"}:
                c.violation(key, "the macros expr!, name!, vars! and the text in them make different expressions: %s" % f, {"request": q, "response": f})
        elif q[0] == "eq":
            c.count("equal expressions" if m[0] else "different expressions")
            if f != [str(m[0]).lower(), str(m[1]).lower()]:
                c.violation(key, "%r == %r and %s == %s gave %s" % (q[1], q[2], q[3], q[4], f), {"request": q})
        else:
            name, kv = m
            first = next((v for k, v in kv if k == name), None)
            c.count("found" if first else "not found")
            show = "vars!(" + ",".join("%s=%s" % p for p in kv) + ")"
            want = [first or "none", show, show, " ".join(str(i) for i in range(len(kv))), "true", first or "none"] + ["true"] * 5
            if [sp(x) for x in f] != [sp(x) for x in want]:
                c.violation(key, "%s in %s gave %s, expected %s" % (name, kv, f, want), {"request": q})
    c.minimum = 1000
    return c.finish()
