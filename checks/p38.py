"""P38: an Err says what went wrong, and eval's Err names the sub-expression that has no value."""
import re
import rexpr as X
from common import Check, rpc

RULE = ("random expressions of numbers, operators and functions with up to three sub-expressions that cannot be evaluated (unbound names, unknown methods, wrong numbers of arguments, arguments outside "
        "the domain, divisions by zero, operators without value); the text in eval's Err must be a sub-expression of the request that eval refuses while it accepts all of its operands; "
        "texts that are no expression, unsupported syntax, literals that are no number, wrong numbers of terms, overflows and sizes by the kind of their Err; distinct = request")

NUM = ["1", "2", "3", "0.5", "2.25", "10", "7", "1e1", "0.125", "4.0", "12"]
FINE = ["sin", "cos", "sin().exp", "atan", "abs", "signum", "round", "cos().erf"]
BAD = ["%s.sqrt()", "%s.ln()", "%s.log2()", "%s.log10()", "%s.log(2)", "%s.qnorm(0, 1)", "(%s * 2).asin()", "(%s - 1).acos()", "(2).dnorm(0, %s)", "(3).pnorm(1, %s)", "(2).log(%s)"]
NEGATIVE = ["(-2)", "(1 - 3)", "(-0.5 * 4)", "(-12)"]
WRONG = ["frob", "floor", "max", "Sin", "sinh", "mul_add"]
ARITY = {"sin": 0, "cos": 0, "exp": 0, "sqrt": 0, "abs": 0, "powf": 1, "log": 1, "ln": 0, "qnorm": 2, "dnorm": 2, "round": 0, "recip": 0, "atan": 0}
NAMES = ["x", "y", "E", "a::b", "f64::consts::E", "pi", "TAU", "self"]
NOT_RUST = ["1 +", "/ 2", "(1", "1)", "x y", "1 2", "let", "a +/ b", "fn f", "x.", ".5", "", "1 + ;", "if", "[1", "1 ++ ", "@", "#", "x = = y"]
UNSUPPORTED = ["[1, 2]", "(1, 2)", "f(1)", "|v| v", "{ 1 }", "if a { 1 } else { 2 }", "x[0]", "1 as f64", "&x", "1..2", "match x { _ => 1 }", "loop { }", "vec![1]", "return 1", "x?"]
NOT_NUMBERS = ["\"text\"", "'c'", "b'x'", "b\"bytes\"", "true", "false"]


def fails(r, sub):
    """Text of an expression that has no value although its operands have."""
    k = r.randrange(7)
    if k == 0:
        return r.choice(NAMES)
    if k == 1:
        return "%s.%s(%s)" % (sub(), r.choice(WRONG), ", ".join(sub() for _ in range(r.randrange(3))))
    if k == 2:
        f = r.choice(sorted(ARITY))
        return "%s.%s(%s)" % (sub(), f, ", ".join(sub() for _ in range(r.choice([n for n in range(4) if n != ARITY[f]]))))
    if k == 3:
        return r.choice(BAD) % r.choice(NEGATIVE)
    if k == 4:
        return "(%s %s %s)" % (sub(), "/", r.choice(["0", "(3 - 3)", "0.0", "(0 * 5)"]))
    if k == 5:
        return "(%s %s %s)" % (sub(), r.choice(["%", "&", "|", "^", "<<", ">>", "&&", "||"]), sub())
    return r.choice(["(!%s)", "(*%s)"]) % sub()


def text(r, depth, bad):
    """An expression with bad failing sub-expressions."""
    if depth <= 0 or (bad == 0 and r.random() < 0.3):
        if not bad:
            return r.choice(NUM)
        return fails(r, lambda: text(r, 0, 0))
    if bad and r.random() < 0.25:
        return fails(r, lambda: text(r, depth - 1, 0))
    k = r.random()
    left = r.randrange(bad + 1)
    if k < 0.55:
        a, b = text(r, depth - 1, left), text(r, depth - 1, bad - left)
        return "(%s) %s (%s)" % (a, r.choice("+-*"), b)
    if k < 0.65:
        return "(%s) / %s" % (text(r, depth - 1, bad), r.choice(NUM))
    if k < 0.75:
        return "-(%s)" % text(r, depth - 1, bad)
    if k < 0.85:
        return "(%s).powf(%s)" % (r.choice(NUM), r.choice(["2", "0.5", "3"])) if not bad else "(%s).powf(%s)" % ((text(r, depth - 1, bad), "2") if r.random() < .5 else ("2", text(r, depth - 1, bad)))
    return "(%s).%s()" % (text(r, depth - 1, bad), r.choice(FINE))


def subtrees(e, out):
    out.append(e)
    k = e[0]
    if k in ("un", "cast"):
        subtrees(e[2] if k == "un" else e[1], out)
    elif k == "bin":
        subtrees(e[2], out)
        subtrees(e[3], out)
    elif k == "call":
        subtrees(e[2], out)
        for a in e[3]:
            subtrees(a, out)
    elif k in ("paren", "field"):
        subtrees(e[1], out)
    return out


def operands(e):
    k = e[0]
    return [e[2]] if k == "un" else [e[2], e[3]] if k == "bin" else [e[2]] + list(e[3]) if k == "call" else [e[1]] if k in ("paren", "field") else []


def main():
    c = Check("P38", RULE)
    rng = c.rng
    reqs, want = [], []

    def ask(q, w):
        reqs.append(q)
        want.append(w)
    for _ in range(c.n(5000, 60000)):
        t = text(rng, rng.randrange(1, 5), rng.choice([1, 1, 1, 2, 3]))
        try:
            tree = X.parse(t)
        except X.ParseError:
            continue
        ask(["eval", t, str(rng.choice([5, 10, 20]))], tree)
    for t in NOT_RUST:
        ask(["parse", t], "CouldNotParse")
    for _ in range(c.n(1500, 20000)):
        k = rng.randrange(7)
        if k == 0:
            t = rng.choice(NOT_RUST) + " " + rng.choice(["=>", "=> 1", "=> x", "=> (y)"])
            ask(["parse", t], ("parse", t))
        elif k == 1:
            u = rng.choice(UNSUPPORTED)
            t = rng.choice(["%s", "1 + (%s)", "(%s).sin()", "-(%s)", "2 * (3 - (%s))", "(2).powf(%s)", "(1 + 2) * (%s)"]) % u
            ask(rng.choice([["eval", t, "20"], ["chain", t, "subst\1q\0011"], ["chain", "1 + 2", "eval\00120"] if False else ["eval", t, "10"]]), "UnsupportedExpr")
        elif k == 2:
            ask(["eval", rng.choice(["(%s).sin()", "(%s).sqrt()", "2 + (%s).exp()", "(2).powf(%s)"]) % rng.choice(NOT_NUMBERS), "20"], "CouldNotConvertFromExpression")
        elif k == 3:
            n, par = rng.choice([(0, "neither"), (1, "neither"), (1, "odd"), (0, "even"), (3, "odd"), (5, "odd"), (7, "odd"), (4, "even"), (6, "even"), (2, "even"), (8, "even")])
            lo, hi = rng.choice([("bff0000000000000", "3ff0000000000000"), ("c000000000000000", "4000000000000000")])
            ask(["chain", rng.choice(["x.sin()", "x * x + 1", "x.exp()", "(x)"]), "approx\1%d\1%s\1%s\1x\1%s\00120" % (n, lo, hi, par)], "WrongNumberOfTerms")
        elif k == 4:
            bits = rng.choice([32, 64])
            e = rng.randrange(39, 80) if bits == 32 else rng.randrange(309, 400)
            t = rng.choice(["%de%d", "%d.5e%d"]) % (rng.randrange(4, 10), e)
            ask(rng.choice([["eval", "%s.round_ieee(%d)" % (t, bits), "20"], ["chain", rng.choice(["x + %s", "%s", "x.sin() * %s", "-%s"]) % t, "unt\1%s\1%d" % (rng.choice(["hex", "decimal"]), bits)]]), "Overflow")
        elif k == 5:
            ask(["eval", "%s.round_ieee(%d)" % (rng.choice(NUM), rng.choice([0, 1, 8, 16, 31, 33, 63, 65, 80, 128, 256])), "20"], "Expected 32 or 64 bits")
        else:
            ask(["conv", "to", rng.choice(["x", "x + 1", "x.sin()", "a::b", "f(2)"] + NOT_NUMBERS)], None)
    again, names = [], []
    for q, w, r in zip(reqs, want, rpc(reqs)):
        key = " ".join(q)[:250]
        if w is None or not c.answered(r, q, key):
            continue
        if r.status != "err":
            c.violation(key, "%s gave %s, not an Err" % (q, r.text), {"request": q})
            continue
        c.seen(key, {"request": q, "error": r.text[:160]})
        if isinstance(w, str):
            c.count(w)
            if not r.text.startswith(w):
                c.violation(key, "the Err of %s is %s, not %s" % (q, r.text, w), {"request": q})
            continue
        if w[0] == "parse":
            c.count("texts that are no expression")
            if not r.text.startswith("CouldNotParse") or w[1].strip() not in r.text:
                c.violation(key, "the Err of %s is %s and does not name the text" % (q, r.text), {"request": q})
            continue
        m = re.match(r"CouldNotEvaulate\s*\((.*)\)$", r.text, re.S)
        try:
            e = X.parse(m.group(1)) if m else None
        except X.ParseError:
            e = None
        if e is None or X.norm(e) not in [X.norm(s) for s in subtrees(w, [])]:
            c.violation(key, "eval of %s: %s, which is not a sub-expression" % (q[1], r.text), {"request": q})
            continue
        c.count("named sub-expressions")
        c.count("named %s" % {"bin": "operators", "un": "signs", "name": "names", "call": "calls"}.get(e[0], "others"))
        again.append(["eval", m.group(1), q[2]])
        names.append((q, r.text, False))
        for o in operands(e):
            again.append(["eval", X.show(o), q[2]])
            names.append((q, r.text, True))
    for a, (q, t, ok), r in zip(again, names, rpc(again)):
        if not c.answered(r, a):
            continue
        c.evaluations += 1
        if (r.status == "ok") != ok:
            c.violation(" ".join(q)[:250], "eval of %s: %s, but %s on its own is %s" % (q[1], t, a[1], r.text), {"request": q, "part": a})
    c.minimum = 1000
    c.need("named sub-expressions", 1000)
    for w in ("UnsupportedExpr", "CouldNotConvertFromExpression", "WrongNumberOfTerms", "Overflow", "Expected 32 or 64 bits", "texts that are no expression"):
        c.need(w, 50)
    return c.finish()
