"""P39: a Visitor sees every sub-expression once, in order, and puts its results in their places."""
import rexpr as X
from common import Check, rpc

RULE = ("random expressions, some with syntax the visitor does not support, given to visitors of the check's own: one that overrides nothing, one that logs every visit, one that fails at a random path, one "
        "that replaces every path, and seven that replace the expressions of one kind; the event log and the result are compared with what the expression's tree says; distinct = request")

NAMES = ["x", "y", "a::x", "f64::consts::PI", "x1", "self", "f::<u8>"]
METHODS = ["sin", "mul_add", "f", "cast::<f64>", "powf"]
UNSUPPORTED = ["[1, 2]", "(1, 2)", "f(x)", "|v| v", "{ 1 }", "x[0]", "&x", "m!(1)", "()", "loop { }", "x?"]
KINDS = ["call", "num", "name", "field", "paren", "bin", "un"]


def tree(rng):
    def leaf(r):
        k = r.random()
        return ("name", r.choice(NAMES)) if k < 0.5 else ("num", X.rand_number(r)) if k < 0.9 else ("field", ("name", r.choice(["x", "a::x"])), r.choice(["y", "0", "x"]))

    def method(r, sub):
        if r.random() < 0.2:
            return ("field", sub(), r.choice(["y", "0"]))
        return ("call", r.choice(METHODS), sub(), [sub() for _ in range(r.choice([0, 0, 1, 1, 2, 3]))])
    return X.rand_tree(rng, rng.randrange(0, 6), leaf, ops=X.ALL, method=method, prefixes="-!*", unary=.15)


def flat(t):
    return "".join(t.split())


def plain(e):
    """The text of a tree as it was parsed, without white space."""
    k = e[0]
    if k == "paren":
        return "(" + plain(e[1]) + ")"
    if k == "un":
        return e[1] + plain(e[2])
    if k == "bin":
        return plain(e[2]) + e[1] + plain(e[3])
    if k == "call":
        return plain(e[2]) + "." + e[1] + "(" + ",".join(plain(a) for a in e[3]) + ")"
    if k == "field":
        return plain(e[1]) + "." + e[2]
    return flat(e[1])


def attributes(rng, t):
    """The text with attributes before some operands."""
    out, operand = [], True
    for k, v in X.tokens(t):
        if operand and v != ")" and rng.random() < 0.4:
            out.append(rng.choice(["#[k]", "#[k(1)]", "#[a] #[b]"]))
        out.append(v)
        operand = k == "op" and v not in (".", ")")
    return " ".join(out)


def children(e):
    k = e[0]
    return [e[2]] if k == "un" else [e[2], e[3]] if k == "bin" else [e[2]] + list(e[3]) if k == "call" else [e[1]] if k in ("paren", "field") else []


class Stop(Exception):
    pass


def walk(e, odd, log, fail, state):
    """The events of a visit, and the end of it."""
    if e == ("name", "unsupported"):
        log.append("expr " + flat(odd))
        raise Stop("UnsupportedExpr")
    log.append("expr " + plain(e).replace("unsupported", flat(odd or "")))
    if e[0] == "num":
        log.append("lit " + flat(e[1]))
    elif e[0] == "name":
        log.append("path " + flat(e[1]))
        if fail == state[0]:
            raise Stop("stopped")
        state[0] += 1
    for x in children(e):
        walk(x, odd, log, fail, state)


def rebuild(e, f):
    """f of the outermost nodes it has a value for."""
    r = f(e)
    if r is not None:
        return r
    k = e[0]
    if k == "un":
        return ("un", e[1], rebuild(e[2], f))
    if k == "bin":
        a = rebuild(e[2], f)
        return ("bin", e[1], a, rebuild(e[3], f))
    if k == "call":
        a = rebuild(e[2], f)
        return ("call", e[1], a, [rebuild(x, f) for x in e[3]])
    if k == "paren":
        return ("paren", rebuild(e[1], f))
    if k == "field":
        return ("field", rebuild(e[1], f), e[2])
    return e


def supported(e, kind):
    """Is an unsupported expression outside of every outermost expression of the kind?"""
    if e == ("name", "unsupported"):
        return False
    return e[0] == kind or all(supported(x, kind) for x in children(e))


def main():
    c = Check("P39", RULE)
    rng = c.rng
    reqs, meta = [], []
    for _ in range(c.n(9000, 150000)):
        t = X.show(tree(rng), rng, extra=rng.choice([0, .1, .3]))
        try:
            e = X.parse(t)
        except X.ParseError:
            continue
        odd = None
        if rng.random() < 0.2:
            odd = rng.choice(UNSUPPORTED)
            spots = [0]

            def count(x):
                if x[0] in ("name", "num"):
                    spots[0] += 1
                for y in children(x):
                    count(y)
            count(e)
            at = [rng.randrange(spots[0])]

            def place(x):
                if x[0] in ("name", "num"):
                    at[0] -= 1
                    if at[0] == -1:
                        return ("paren", ("name", "unsupported"))
                return None
            e = rebuild(e, place)
            t = X.show(e).replace("unsupported", odd)
        mode = rng.choice(["clone", "log", "log", "replace"] + KINDS)
        q = ["visit", t, mode]
        fail = None
        if mode == "log" and rng.random() < 0.4:
            fail = rng.randrange(0, 8)
            q.append(str(fail))
        if mode == "clone" and odd is None and rng.random() < 0.3:
            q[1] = attributes(rng, t)
        reqs.append(q)
        meta.append((e, odd, mode, fail))
    for q, (e, odd, mode, fail), r in zip(reqs, meta, rpc(reqs)):
        key = " ".join(q[1:])
        if not c.answered(r, q, key):
            continue
        if r.status == "err":
            c.violation(key, "the visitor failed on %s: %s" % (key, r.text), {"request": q})
            continue
        c.seen(key)
        f = r.fields
        events, end, state = [], None, [0]
        if mode in KINDS:
            if not supported(e, mode):
                end = "UnsupportedExpr"
        else:
            try:
                walk(e, odd, events, fail, state)
            except Stop as x:
                end = str(x)
        c.count("%s %s" % ("kind" if mode in KINDS else mode, end or "complete"))
        replay = {"request": q, "response": f}
        if end:
            if f[0] != "err" or end not in f[2]:
                c.violation(key, "a visit (%s) of %s should have failed with %s: %s" % (mode, q[1], end, f[:3]), replay)
                continue
        elif f[0] != "ok":
            c.violation(key, "a visit (%s) of %s failed: %s" % (mode, q[1], f[2]), replay)
            continue
        if mode in ("log", "replace"):
            got = [flat(x.split(" ", 1)[1]) and x.split(" ", 1)[0] + " " + flat(x.split(" ", 1)[1]) for x in f[3:]]
            c.count("visits", len(got))
            if got != events:
                n = [a == b for a, b in zip(got, events)].index(False) if got[:len(events)] != events[:len(got)] else min(len(got), len(events))
                c.violation(key, "visiting %s, visit %d is %s, not %s" % (q[1], n, got[n:n + 1], events[n:n + 1]), dict(replay, events=events))
                continue
        if end:
            continue
        if mode in ("clone", "log"):
            if f[1] != "true" or flat(f[2]) != flat(q[1]):
                c.violation(key, "a visitor that changes nothing made %s of %s" % (f[2], q[1]), replay)
            continue
        if mode == "replace":
            n = [0]

            def g(x):
                if x[0] != "name":
                    return None
                n[0] += 1
                return ("name", "v%d" % (n[0] - 1))
        else:
            def g(x):
                return ("name", "stopped") if x[0] == mode else None
        want = plain(rebuild(e, g))
        if odd:
            want = want.replace("unsupported", flat(odd))
        if flat(f[2]) != want:
            c.violation(key, "replacing (%s) in %s gave %s, not %s" % (mode, q[1], f[2], want), replay)
    c.minimum = 3000
    return c.finish()
