"""Rust expressions, independently of doctor-syn: a tokeniser, a parser with Rust's
precedences, a printer, exact evaluation and random generation.

Trees: ('num', text) ('str', text) ('name', 'a::b') ('un', op, e) ('bin', op, a, b)
('call', method, recv, args) ('paren', e) ('field', e, name) ('fn', callee, args) ('cast', e, type)
"""
import re
from fractions import Fraction

TOK = re.compile(r"""\s*(?:
  (?P<num>0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?
     |[0-9][0-9_]*(?:\.(?![._A-Za-z])(?:[0-9][0-9_]*)?)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:f32|f64|[iu](?:8|16|32|64|128|size)))?)
 |(?P<name>(?:<\s*[A-Za-z_][A-Za-z0-9_]*(?:\s+as\s+[A-Za-z_][A-Za-z0-9_]*(?:\s*::\s*[A-Za-z_][A-Za-z0-9_]*)*)?\s*>\s*::\s*)?[A-Za-z_][A-Za-z0-9_]*(?:\s*::\s*(?:[A-Za-z_][A-Za-z0-9_]*|<[^<>()=&|]*>))*)
 |(?P<str>"[^"]*")
 |(?P<op><<|>>|<=|>=|==|!=|&&|\|\||[-+*/%<>!&|^().,]|\#\s*\[\s*\w+\s*\])
)""", re.X)


class ParseError(Exception):
    pass


def tokens(s):
    pos, out = 0, []
    s = s.rstrip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            raise ParseError("at %r" % s[pos:pos + 20])
        k = m.lastgroup
        t = m.group(k)
        out.append((k, re.sub(r"\s+(as\s+)?", lambda m: " as " if m.group(1) else "", t) if k == "name" else re.sub(r"\s", "", t) if t[0] == "#" else t))
        pos = m.end()
    return out


PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5,
        "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "&&": 3, "||": 2}


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise ParseError("expected %s, got %s" % (v, k))
        self.i += 1
        return k

    def parse(self):
        e = self.binary(0)
        if self.i != len(self.t):
            raise ParseError("trailing %s" % (self.t[self.i:self.i + 3],))
        return e

    def binary(self, minp):
        e = self.unary()
        while True:
            k, v = self.peek()
            if k == "name" and v == "as":
                self.take()
                e = ("cast", e, self.take()[1])
                continue
            if k != "op" or v not in PREC or PREC[v] < minp:
                return e
            p = PREC[v]
            self.take()
            r = self.binary(p + 1)
            e = ("bin", v, e, r)
            if p == 4 and self.peek()[1] in PREC and PREC.get(self.peek()[1]) == 4:
                raise ParseError("chained comparison")

    def unary(self):
        k, v = self.peek()
        if k == "op" and (v in ("-", "!", "*") or v[0] == "#"):
            self.take()
            return ("un", v, self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.take()
        if k == "num":
            e = ("num", v)
        elif k == "str":
            e = ("str", v)
        elif k == "name":
            e = ("name", v)
        elif v == "(":
            e = self.binary(0)
            self.take(")")
            e = ("paren", e)
        else:
            raise ParseError("unexpected %s" % v)
        while True:
            k, v = self.peek()
            if v == "." and k == "op":
                self.take()
                k2, m = self.take()
                if k2 == "name" and self.peek()[1] == "(":
                    e = ("call", m, e, self.args())
                else:
                    e = ("field", e, m)
            elif v == "(" and k == "op":
                e = ("fn", e, self.args())
            else:
                return e

    def args(self):
        self.take("(")
        out = []
        while self.peek()[1] != ")":
            out.append(self.binary(0))
            if self.peek()[1] == ",":
                self.take()
        self.take(")")
        return out


def parse(s):
    return Parser(s).parse()


def literal(text):
    """The exact value of a Rust numeric literal."""
    t = text.replace("_", "")
    m = re.match(r"0x([0-9a-fA-F]+?)([iu](?:8|16|32|64|128|size))?$", t)
    if m:
        return Fraction(int(m.group(1), 16))
    if t[:2] in ("0b", "0o"):
        m = re.match(r"(0[bo][0-7]+)", t)
        return Fraction(int(m.group(1), 0))
    t = re.sub(r"(f32|f64|[iu](8|16|32|64|128|size))$", "", t)
    if t.endswith("."):
        t += "0"
    return Fraction(t)


def show(e, rng=None, extra=0.0):
    """Rust text with the parentheses that are needed, and now and then one that is not."""
    def p(x):
        return "(" + s(x) + ")"

    def s(x):
        t = s0(x)
        if rng is not None and extra and x[0] != "paren" and rng.random() < extra:
            return "(" + t + ")"
        return t

    def prec(x):
        k = x[0]
        if k == "bin":
            return PREC[x[1]]
        if k == "cast":
            return 11
        if k == "un":
            return 12
        return 20

    def wrap(x, minp):
        return p(x) if prec(x) < minp else s(x)

    def s0(x):
        k = x[0]
        if k in ("num", "name", "str"):
            return x[1]
        if k == "paren":
            return "(" + s(x[1]) + ")"
        if k == "un":
            return x[1] + wrap(x[2], 12)
        if k == "bin":
            q = PREC[x[1]]
            lmin = q + 1 if q == 4 else q
            right = wrap(x[3], q + 1)
            # Neither a comment nor another operator.
            return wrap(x[2], lmin) + sp() + x[1] + (" " if right[0] in "*!" else sp()) + right
        if k == "call":
            r = wrap(x[2], 20)
            if x[2][0] == "num" and r.endswith("."):
                r = "(" + r + ")"
            return r + "." + x[1] + "(" + ", ".join(s(a) for a in x[3]) + ")"
        if k == "field":
            r = wrap(x[1], 20)
            # 1.y and x.0.1 would be something else.
            if x[1][0] == "num" or x[1][0] == "field" and x[1][2].isdigit():
                r = "(" + r + ")"
            return r + "." + x[2]
        if k == "fn":
            return wrap(x[1], 20) + "(" + ", ".join(s(a) for a in x[2]) + ")"
        if k == "cast":
            return wrap(x[1], 11) + " as " + x[2]
        raise ValueError(k)

    def sp():
        return " " if rng is None or rng.random() < 0.7 else ""

    return s(e)


def strip(e):
    """Without parentheses."""
    k = e[0]
    if k == "paren":
        return strip(e[1])
    if k == "un":
        return ("un", e[1], strip(e[2]))
    if k == "bin":
        return ("bin", e[1], strip(e[2]), strip(e[3]))
    if k == "call":
        return ("call", e[1], strip(e[2]), [strip(a) for a in e[3]])
    if k == "field":
        return ("field", strip(e[1]), e[2])
    if k == "fn":
        return ("fn", strip(e[1]), [strip(a) for a in e[2]])
    if k == "cast":
        return ("cast", strip(e[1]), e[2])
    return e


def norm(e):
    """Without parentheses and with canonical literals, for comparing structures.

    A minus sign on a literal is part of the value: -1.5 in a tree that was built in memory
    prints as it would if it were parsed."""
    e = strip(e)

    def go(e):
        k = e[0]
        if k == "num":
            return ("num", literal(e[1]))
        if k == "un":
            a = go(e[2])
            return ("un", e[1], a)
        if k == "bin":
            return ("bin", e[1], go(e[2]), go(e[3]))
        if k == "call":
            return ("call", e[1], go(e[2]), tuple(go(a) for a in e[3]))
        if k == "field":
            return ("field", go(e[1]), e[2])
        if k == "fn":
            return ("fn", go(e[1]), tuple(go(a) for a in e[2]))
        if k == "cast":
            return ("cast", go(e[1]), e[2])
        return e
    return go(e)


class Undefined(Exception):
    pass


def evaluate(e, env, calls=None):
    """Exact rational value; calls(name, recv, args) gives the meaning of methods."""
    k = e[0]
    if k == "num":
        return literal(e[1])
    if k == "name":
        return env[e[1]]
    if k == "paren":
        return evaluate(e[1], env, calls)
    if k == "un":
        v = evaluate(e[2], env, calls)
        if e[1] == "-":
            return -v
        raise Undefined(e[1])
    if k == "bin":
        a, b = evaluate(e[2], env, calls), evaluate(e[3], env, calls)
        o = e[1]
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            if b == 0:
                raise Undefined("division by zero")
            return a / b
        raise Undefined(o)
    if k == "call":
        return calls(e[1], evaluate(e[2], env, calls), [evaluate(a, env, calls) for a in e[3]])
    if k == "field":
        return calls("." + e[2], evaluate(e[1], env, calls), [])
    if k == "fn":
        return calls(e[1][1], None, [evaluate(a, env, calls) for a in e[2]])
    raise Undefined(k)


def opaque(seed):
    """Uninterpreted functions over the rationals: equal arguments give equal values, and
    different ones give different values but for an accident."""
    import hashlib

    def f(name, recv, args):
        h = hashlib.blake2b(repr((seed, name, recv, args)).encode(), digest_size=6).digest()
        n = int.from_bytes(h, "big")
        return Fraction(n % 100003 - 50001, n // 100003 % 997 + 1)
    return f


def size(e):
    k = e[0]
    if k in ("num", "name", "str"):
        return 1
    if k == "paren":
        return size(e[1])
    if k == "un":
        return 1 + size(e[2])
    if k == "bin":
        return 1 + size(e[2]) + size(e[3])
    if k == "call":
        return 1 + size(e[2]) + sum(size(a) for a in e[3])
    if k == "field":
        return 1 + size(e[1])
    if k == "fn":
        return 1 + sum(size(a) for a in e[2])
    if k == "cast":
        return 1 + size(e[1])


def names(e, out=None):
    out = set() if out is None else out
    k = e[0]
    if k == "name":
        out.add(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            names(x, out)
        elif isinstance(x, list):
            for y in x:
                names(y, out)
    return out


def rand_number(rng, kind="mixed"):
    """The text of a literal, in the many shapes Rust allows."""
    r = rng.random()
    if r < 0.25:
        return str(rng.randrange(0, 20))
    if r < 0.5:
        return "%d.%s" % (rng.randrange(0, 100), "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 12))))
    if r < 0.6:
        return "%d.%de%s%d" % (rng.randrange(0, 10), rng.randrange(0, 1000), rng.choice(["", "-", "+"]), rng.randrange(0, 12))
    if r < 0.67:
        return "%d_%03d.%d" % (rng.randrange(1, 100), rng.randrange(1000), rng.randrange(100))
    if r < 0.72:
        return "0x%x" % rng.randrange(1, 5000)
    if r < 0.77:
        return "%d%s" % (rng.randrange(100), rng.choice(["i32", "u64", "usize", "_u8"]))
    if r < 0.83:
        return "%d.%d%s" % (rng.randrange(100), rng.randrange(1000), rng.choice(["f32", "f64", "_f64"]))
    if r < 0.88:
        return "0.%s%d" % ("0" * rng.randrange(0, 10), rng.randrange(1, 1000))
    if r < 0.92:
        return "%d." % rng.randrange(0, 50)
    if r < 0.96:
        return str(rng.randrange(10 ** rng.randrange(1, 25)))
    return rng.choice(["0", "1", "0.0", "1.0", "2.0", "10", "0.5", "1e0", "1_0"])


ALL = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "<", ">", "==", "!=", "<=", ">="]


def rand_tree(rng, depth, leaf, ops=("+", "-", "*", "/"), unary=0.12, method=None, skew=None, prefixes="-"):
    """method(rng, sub) builds a method call from a subtree generator, or None."""
    skew = rng.random() if skew is None else skew

    def go(d):
        if d <= 0 or rng.random() < 0.12:
            return leaf(rng)
        r = rng.random()
        if r < unary:
            return ("un", rng.choice(prefixes), go(d - 1))
        if method is not None and r < unary + 0.15:
            return method(rng, lambda: go(d - 2))
        a, b = (d - 1, d - 1)
        if rng.random() < 0.5:
            if rng.random() < skew:
                b = rng.randrange(0, d)
            else:
                a = rng.randrange(0, d)
        return ("bin", rng.choice(ops), go(a), go(b))
    return go(depth)


def result(text):
    """The exact value of a literal that eval printed; a literal may come back as it was."""
    t = text.replace(" ", "")
    if t.startswith("-"):
        return -literal(t[1:])
    return literal(t)
