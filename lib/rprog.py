"""Random Rust programs over numbers: the text that is translated, and a reference for rustc in which whatever C leaves
undefined or different (casts out of range, fused multiply-add, the sign of NaN) stops the call instead."""

PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "|": 4, "^": 5, "&": 6, "<<": 7, ">>": 7,
        "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}
CMP = ("==", "!=", "<", "<=", ">", ">=")


class E:
    """An expression: kind, type, children; typed says that Rust knows the type without looking around."""

    def __init__(self, k, t, *a, typed=True):
        self.k, self.t, self.a, self.typed = k, t, a, typed


class Gen:
    compound = ["+=", "-=", "*=", "&=", "|=", "^=", "/=", "%="]
    library_names = ["round", "floor", "sqrt", "min", "max", "abs", "exp", "sin", "recip", "copysign", "mul_add", "select", "log"]

    def __init__(self, r, bits, tag, features=None):
        self.r, self.bits, self.tag = r, bits, tag
        self.F, self.I, self.U = "fty", "ity", "uty"
        self.used = set()
        self.fns = []           # (name, [types], ret)
        self.consts = []        # (name, type)
        self.scopes = []
        self.n = 0

    # --- building ---------------------------------------------------------------
    def change(self, name, t, e):
        """A compound assignment."""
        if t != self.F and self.r.random() < 0.2:
            self.used.add("shift assignment")
            n = self.r.randrange(0, 12) if self.r.random() < 0.8 else self.r.randrange(12, self.bits)
            return "set", name, self.r.choice(["<<=", ">>="]), E("lit", t, str(n) + self.r.choice(["", self.amount(t)]), typed=False)
        return "set", name, self.r.choice(["+=", "-=", "*=", "/="] if t == self.F else self.compound), e

    def amount(self, t):
        """The type of a shift's amount."""
        return "u32"

    def derivable(self, source, target):
        """May a constant of one type have a constant of the other in its value?"""
        return source == target or source != self.F

    def var(self, t):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for name, vt, _ in reversed(s):
                if name not in seen:
                    seen.add(name)
                    if vt == t:
                        out.append(name)
        out += [c for c, ct in self.consts if ct == t]
        return E("var", t, self.r.choice(out)) if out else None

    def constant(self, t):
        names = [c for c, ct in self.consts if ct == t and not any(c == n for s in self.scopes for n, _, _ in s)]
        if names:
            self.used.add("shifted constant")
            return E("var", t, self.r.choice(names))

    def large(self, t):
        n = self.bits - (t == self.I)
        return self.r.choice([self.r.randrange(1 << self.r.randrange(20, n + 1)), (1 << n) - 1, (1 << n - 1), (1 << min(n, 32)) - 1, (1 << min(n, 31)) - 1])

    def lit(self, t):
        r = self.r
        if t == "bool":
            return E("lit", t, r.choice(["true", "false"]))
        if t == self.F:
            k = r.random()
            s = "f%d" % self.bits
            if r.random() < 0.22:
                # What arguments and results are likely to equal.
                v = r.choice(["0.0", "0.0", "1.0", "0.5", "2.5", "2.0"])
                e = E("lit", t, v + s) if r.random() < 0.3 else E("lit", t, v, typed=False)
                if r.random() < 0.3:
                    self.used.add("negative literal")
                    e = E("un", t, "-", e, typed=e.typed)
                return e
            v = r.choice(["%d" % r.randrange(1, 9), "%.3f" % r.uniform(0.001, 9), "%.17f" % r.uniform(0, 2), "%de%d" % (r.randrange(1, 99), r.randrange(-5, 5))])
            if k < 0.3:
                self.used.add("float suffix" if v.isdigit() is False else "1f64")
                return E("lit", t, v + s)
            if v.isdigit():
                v += ".0" if r.random() < 0.7 else "."
            if "." in v and r.random() < 0.1:
                v = v.replace(".", "_0.", 1)
            return E("lit", t, v, typed=False)
        v = r.choice([r.randrange(0, 10), r.randrange(0, 100)])
        large = r.random() < 0.08
        if large:
            self.used.add("large literal")
            v = self.large(t)
        s = ("i" if t == self.I else "u") + str(self.bits)
        # Below a cast it would be an i32 without.
        if large or r.random() < 0.3:
            self.used.add("integer suffix")
            return E("lit", t, r.choice(["%d", "0x%x", "%d_"]) % v + s)
        return E("lit", t, r.choice(["%d", "%d", "0x%x"]) % v, typed=False)

    def typed(self, e, t):
        """e, or a cast of it, such that its type needs no inference."""
        if e.k in ("var", "call", "method") or e.typed and e.k in ("lit", "cast"):
            return e
        if e.k == "bin" and e.a[0] not in CMP and e.typed and self.settled(e):
            return e
        if t == self.F and not e.typed and e.k != "lit":
            # The float literals in there would be f64.
            return self.var(t) or E("lit", t, "1.25f%d" % self.bits)
        return E("cast", t, e)

    def settled(self, e):
        if e.k == "bin":
            return self.settled(e.a[1]) if e.a[0] not in ("<<", ">>") else self.settled(e.a[1])
        if e.k == "un":
            return self.settled(e.a[1])
        return e.k in ("var", "call", "method", "cast") or (e.k == "lit" and e.typed)

    def leaf(self, t):
        v = self.var(t)
        if v is not None and self.r.random() < 0.72:
            return v
        return self.lit(t)

    def expr(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.08:
            return self.leaf(t)
        k = r.random()
        sub = lambda tt: self.expr(tt, d - 1)
        if k < 0.07:
            self.used.add("if")
            a, b = self.block(t, d - 1), None
            if r.random() < 0.3:
                self.used.add("else if")
                inner = E("if", t, sub("bool"), self.block(t, d - 2), self.block(t, d - 2))
                inner.typed = inner.a[1].typed and inner.a[2].typed
                b = inner
            else:
                b = self.block(t, d - 1)
            return E("if", t, sub("bool"), a, b, typed=a.typed and b.typed)
        if k < 0.11:
            self.used.add("block")
            b = self.block(t, d - 1)
            return E("blk", t, b, typed=b.typed)
        if k < 0.17:
            fs = [f for f in self.fns if f[2] == t]
            if fs:
                f = r.choice(fs)
                self.used.add("call")
                return E("call", t, f[0], [sub(a) for a in f[1]])
        if t == "bool":
            k = r.random()
            if k < 0.6:
                ty = r.choice([self.F, self.F, self.I, self.U])
                a, b = sub(ty), sub(ty) if ty == self.F or r.random() < .9 else self.wide(ty)
                if not a.typed:
                    a = self.typed(a, ty)
                self.used.add("comparison")
                return E("bin", t, r.choice(CMP), a, b)
            if k < 0.85:
                self.used.add("logic")
                return E("bin", t, r.choice(["&&", "||"]), sub(t), sub(t))
            if k < 0.93:
                self.used.add("bool bit logic")
                return E("bin", t, r.choice(["&", "|", "^"]), sub(t), sub(t))
            self.used.add("!")
            return E("un", t, "!", sub(t))
        if t == self.F:
            k = r.random()
            if k < 0.5:
                a, b = sub(t), sub(t)
                op = r.choice("++--**/")
                return E("bin", t, op, a, b, typed=a.typed or b.typed)
            if k < 0.62:
                self.used.add("unary minus")
                a = sub(t)
                return E("un", t, "-", a, typed=a.typed)
            if k < 0.8:
                m = r.choice(["abs", "sqrt", "copysign", "floor", "ceil", "trunc", "round", "recip", "mul_add", "mul_add"])
                self.used.add("." + m)
                n = {"copysign": 1, "mul_add": 2}.get(m, 0)
                return E("method", t, m, self.typed(sub(t), t), [sub(t) for _ in range(n)])
            if k < 0.93:
                self.used.add("cast to float")
                ty = r.choice([self.I, self.U])
                return E("cast", t, self.through(self.typed(sub(ty), ty)))
            self.used.add("from_bits")
            a = sub(self.U)
            if r.random() < 0.7:
                a = E("bin", self.U, "|", E("bin", self.U, "&", self.typed(a, self.U), E("var", self.U, "MASK_" + self.tag)), E("var", self.U, "BITS_" + self.tag))
            return E("frombits", t, a)
        # integers
        k = r.random()
        if k < 0.3:
            a, b = sub(t), sub(t)
            op = r.choice("++-*/%" if t == self.I else "+++-*/%")
        elif k < 0.55:
            a, b = sub(t), sub(t)
            op = r.choice("&|^")
            self.used.add("bit logic")
        elif k < 0.7:
            self.used.add("shift")
            a = self.typed(sub(t), t)
            if r.random() < 0.15:
                a = self.constant(t) or a
            op = r.choice(["<<", ">>"])
            n = r.randrange(0, 12)
            if r.random() < 0.2:
                self.used.add("wide shift")
                n = r.randrange(12, self.bits)
            return E("bin", t, op, a, E("lit", t, str(n) + r.choice(["", "", "u32"]), typed=False))
        elif k < 0.78 and t == self.I:
            self.used.add("unary minus")
            return E("un", t, "-", self.typed(sub(t), t))
        elif k < 0.8 and t == self.U:
            self.used.add(".wrapping_mul")
            return E("method", t, "wrapping_mul", self.typed(sub(t), t), [sub(t) if r.random() < .8 else self.wide(t)])
        elif k < 0.86 and t == self.U:
            self.used.add(".to_bits")
            return E("method", t, "to_bits", self.typed(sub(self.F), self.F), [])
        elif k < 0.92:
            ty = self.U if t == self.I else self.I
            self.used.add("cast between integers")
            return E("cast", t, self.through(self.typed(sub(ty), ty)))
        elif k < 0.97:
            self.used.add("cast to integer")
            return E("cast", t, self.typed(sub(self.F), self.F))
        else:
            self.used.add("cast of bool")
            return E("cast", t, sub("bool"))
        if not a.typed and not b.typed:
            a = self.typed(a, t)
        if r.random() < 0.06:
            a, b = self.typed(a, t), self.wide(t)
        return E("bin", t, op, a, b)

    def wide(self, t):
        r = self.r
        if r.random() < 0.3:
            # As wide as what it is used with.
            self.used.add("shifted literal without suffix")
            n = self.bits - (t == self.I) - 2
            e = E("bin", t, "<<", E("lit", t, r.choice(["1", "1", "3"]), typed=False), E("lit", t, str(r.randrange(0, n)), typed=False), typed=False)
            return e if r.random() < .6 else E("bin", t, "-", e, E("lit", t, "1", typed=False), typed=False)
        self.used.add("large literal without suffix")
        return E("lit", t, self.r.choice(["%d", "0x%x"]) % self.large(t), typed=False)

    def through(self, e):
        """e, now and then by way of another integer type."""
        if self.r.random() < 0.12:
            self.used.add("cast chain")
            return E("cast", "?", e, self.r.choice(["i32", "u32", "i64", "u64", "usize"]))
        return e

    def name(self, t):
        """A new variable, or one that shadows."""
        vis = [n for s in self.scopes for n, vt, m in s]
        if vis and self.r.random() < 0.35:
            self.used.add("shadowing")
            return self.r.choice(vis)
        self.n += 1
        return self.r.choice(["u", "g", "x", "y", "t"]) + (str(self.n) if self.r.random() < 0.8 else "")

    def block(self, t, d, n=None):
        """Statements and a tail, in a new scope."""
        r = self.r
        self.scopes.append([])
        st = []
        for _ in range(r.choice([0, 0, 0, 1, 2]) if n is None else n):
            k = r.random()
            # Only of this block: in which order C evaluates operands is its own business.
            mine = (self.scopes[0] if len(self.scopes) == 2 else []) + self.scopes[-1]
            muts = {nm: (vt, m) for nm, vt, m in mine}
            muts = [(nm, vt) for nm, (vt, m) in muts.items() if m]
            if k < 0.25 and muts:
                nm, vt = r.choice(muts)
                if vt == "bool" or r.random() < 0.5:
                    self.used.add("assignment")
                    st.append(("set", nm, "=", self.expr(vt, d)))
                else:
                    self.used.add("compound assignment")
                    st.append(self.change(nm, vt, self.expr(vt, d)))
                continue
            ty = r.choice([self.F, self.F, self.F, self.I, self.U, "bool"])
            e = self.expr(ty, d)
            k = r.random()
            if k < 0.06 and ty == self.F:
                self.used.add("inner const")
                self.n += 1
                nm = "K%s%d" % (self.tag, self.n)
                st.append(("const", nm, ty, E("bin", ty, r.choice("+*"), self.lit(ty), self.lit(ty))))
                self.scopes[-1].append((nm, ty, False))
                continue
            if k < 0.16:
                self.used.add("statement that does nothing")
                if not e.typed:
                    e = self.typed(e, ty)
                st.append(("nothing", r.choice(["let _ = %s;", "let _ = %s;", "(%s);", "let _: " + ty + " = %s;", "let _ = 0;", "let _ = 1 << 3;", ";", "();", "let _ = ();"]), e))
                continue
            mut = r.random() < 0.3
            annot = r.random() < 0.6
            if not annot:
                self.used.add("let without type")
                if not e.typed or ty != "bool":
                    e = self.typed(e, ty)
            else:
                self.used.add("let with type")
            nm = self.name(ty)
            while any(nm == c for c, _ in self.consts) or nm.startswith("K"):
                nm = self.name(ty)
            st.append(("let", nm, mut, ty if annot else None, e))
            self.scopes[-1].append((nm, ty, mut))
        if r.random() < 0.15:
            # A variable that an assignment with a sum changes, and a tail that depends on it.
            ty = t if t != "bool" else self.F
            nm = self.name(ty)
            while any(nm == c for c, _ in self.consts) or nm.startswith("K"):
                nm = self.name(ty)
            st.append(("let", nm, True, ty, self.expr(ty, d - 1)))
            self.scopes[-1].append((nm, ty, True))
            self.used.add("compound assignment")
            for _ in range(r.randrange(1, 3)):
                e = self.expr(ty, d - 1)
                if r.random() < 0.7:
                    self.used.add("compound assignment of an operation")
                    a = self.typed(self.leaf(ty), ty)
                    e = E("bin", ty, r.choice("+-*" if ty == self.F else "+-&|^"), a, self.leaf(ty))
                st.append(self.change(nm, ty, e))
            v = E("var", ty, nm)
            if t == "bool":
                tail = E("bin", t, r.choice(CMP), v, self.expr(ty, d - 1))
            else:
                tail = v if r.random() < 0.5 else E("bin", t, "+" if t == self.F else "^", v, self.expr(t, d - 1))
        else:
            tail = self.expr(t, d)
        self.scopes.pop()
        return E("block", t, st, tail, typed=tail.typed)

    def signature(self, i, nf):
        r = self.r
        ty = [self.F, self.I, self.F, self.U][r.randrange(0, 4)] if i < nf - 1 else r.choice([self.F, self.F, self.F, self.I, self.U, "bool"])
        return [r.choice([self.F, self.F, self.I, self.U]) for _ in range(r.randrange(1, 4))], ty

    def function(self, i):
        """A name, now and then one that C's library has too."""
        if self.library_names and self.r.random() < 0.25:
            left = [n for n in self.library_names if all(n != f[0] for f in self.fns)]
            self.used.add("function named like one of C's")
            return self.r.choice(left)
        return "f%d" % i

    def program(self):
        """[(name, [types], ret)] of the functions, and the text for the translator and for the reference."""
        r = self.r
        b = self.bits
        items = []
        self.consts = [("MASK_" + self.tag, self.U), ("BITS_" + self.tag, self.U)]
        decl = []
        for _ in range(r.randrange(0, 5)):
            ty = r.choice([self.F, self.F, self.I, self.U])
            nm = "C%s_%d" % (self.tag, len(decl))
            if ty == self.F:
                k = r.random()
                if k < 0.3:
                    self.used.add("literal in hexadecimal")
                    import struct
                    v = r.uniform(-50, 50)
                    bits = struct.unpack("<I" if b == 32 else "<Q", struct.pack("<f" if b == 32 else "<d", v))[0]
                    init = "f%d::from_bits(0x%x%s)" % (b, bits, r.choice(["", "_u%d" % b, "u%d" % b]))
                elif k < 0.45:
                    self.used.add("float constants")
                    init = r.choice(["f%d::INFINITY", "f%d::MIN_POSITIVE"]) % b
                elif k < 0.6 and [c for c in self.consts if c[1] == ty]:
                    init = "%s * 0.5" % r.choice([c[0] for c in self.consts if c[1] == ty])
                else:
                    e = self.lit(ty)
                    init = r.choice(["", "-"]) + (e if e.k == "lit" else e.a[1]).a[0]
            else:
                v = r.randrange(0, 1 << 20)
                if r.random() < 0.3:
                    self.used.add("large constant")
                    v = self.large(ty)
                init = r.choice(["%d", "%d", "0x%x"]) % v
                if r.random() < 0.2:
                    self.used.add("shift in a constant")
                    init = r.choice(["1 << %d", "(1 << %d) - 1", "(1 << %d) | 5", "3 << %d"]) % r.randrange(0, b - 3)
                least = ty == self.I and r.random() < 0.06
                if ty == self.I and r.random() < 0.4:
                    self.used.add("negative constant")
                    init = "-(" + init + ")" if "<" in init else "-" + init
                if least:
                    self.used.add("least integer")
                    init = "-" + str(1 << (b - 1))
            others = [c for c in self.consts if self.derivable(c[1], ty)]
            if others and r.random() < 0.25:
                self.used.add("constant of a constant")
                other, ot = r.choice(others)
                if ot != ty:
                    init = "%s as %s" % (other, ty)
                elif ty == self.F:
                    init = r.choice(["-%s", "%s + 1.5", "2.0 - %s", "%s / 3.0", "0.5 * %s * %s", "(%s - 1.0) * 0.25"]).replace("%s", other)
                else:
                    init = r.choice(["%s >> 3", "%s & 0xff", "%s | 5", "%s ^ 12", "(%s >> 5) + 1", "%s"]) % other
            decl.append("const %s: %s = %s;" % (nm, ty, init))
            self.consts.append((nm, ty))
        nf = r.randrange(1, 4)
        head = ["type fty = f%d;" % b, "type uty = u%d;" % b, "type ity = i%d;" % b]
        decl = ["const MASK_%s: uty = %d;" % (self.tag, (1 << (23 if b == 32 else 52)) - 1),
                "const BITS_%s: uty = %d;" % (self.tag, 0x3f800000 if b == 32 else 0x3ff0000000000000)] + decl
        anywhere = r.random() < 0.25
        if anywhere:
            self.used.add("constants in any order")
        elif r.random() < 0.3:
            r.shuffle(decl)
        order = []
        for i in range(nf):
            args, ty = self.signature(i, nf)
            names = []
            for j in range(len(args)):
                n = r.choice(["x", "y", "u", "a", "arg"])
                while n in names:
                    n += str(j)
                names.append(n)
            muts = [r.random() < 0.15 for _ in names]
            if any(muts):
                self.used.add("mutable argument")
            self.scopes = [[(n, a, m) for n, a, m in zip(names, args, muts)]]
            body = self.block(ty, r.choice([2, 3, 3, 4, 5]), n=r.choice([0, 1, 2, 3, 5]))
            fn = self.function(i)
            names = [("mut " if m else "") + n for n, m in zip(names, muts)]
            order.append(((fn, args, ty), names, body))
            self.fns.append((fn, args, ty))
        texts = []
        if nf > 1 and r.random() < 0.5:
            self.used.add("use before definition")
            r.shuffle(order)
        perm = None
        for ref in (False, True):
            p = Printer(self, ref)
            out = []
            for (nm, args, ty), names, body in order:
                p.r.seed(repr((self.tag, nm)))
                out.append("pub fn %s(%s) -> %s %s" % (nm, ", ".join("%s: %s" % x for x in zip(names, args)), ty, p.block(body)))
            out = head + decl + out
            if anywhere:
                perm = perm or r.sample(range(len(out)), len(out))
                out = [out[k] for k in perm]
            texts.append("\n".join(out))
        return [f for f in self.fns], texts[0], texts[1]


class VectorGen(Gen):
    """Programs without what vectors do not have: division of integers, booleans as values, other sizes of integer."""

    compound = ["+=", "-=", "*=", "&=", "|=", "^="]
    library_names = []

    def amount(self, t):
        return ("i" if t == self.I else "u") + str(self.bits)

    def signature(self, i, nf):
        r = self.r
        return [self.F] + [r.choice([self.F, self.F, self.I, self.U]) for _ in range(r.randrange(0, 3))], r.choice([self.F, self.F, self.F, self.I, self.U])

    def lit(self, t):
        if t == "bool":
            ty = self.r.choice([self.F, self.I, self.U])
            return E("bin", t, self.r.choice(CMP), self.typed(self.leaf(ty), ty), self.leaf(ty))
        e = super().lit(t)
        if t != self.F and not e.typed:
            e = E("lit", t, e.a[0] + ("i" if t == self.I else "u") + str(self.bits))
        return e

    def bare(self, e):
        """An integer without the suffix, where the other operand has the type."""
        import re
        if e.k == "lit" and e.t in (self.I, self.U) and self.r.random() < 0.4:
            self.used.add("integer without suffix")
            return E("lit", e.t, re.sub("[iu](32|64)$", "", e.a[0]), typed=False)
        return e

    def expr(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.08:
            return self.leaf(t)
        sub = lambda tt: self.expr(tt, d - 1)
        k = r.random()
        if t != "bool":
            if k < 0.1:
                self.used.add("if")
                a = self.block(t, d - 1)
                if r.random() < 0.3:
                    self.used.add("else if")
                    b = E("if", t, sub("bool"), self.block(t, d - 2), self.block(t, d - 2))
                    b.typed = b.a[1].typed and b.a[2].typed
                else:
                    b = self.block(t, d - 1)
                if a.a[0]:
                    self.used.add("statements in a branch")
                return E("if", t, sub("bool"), a, b, typed=a.typed and b.typed)
            if k < 0.13:
                self.used.add("block")
                b = self.block(t, d - 1)
                return E("blk", t, b, typed=b.typed)
            if k < 0.22:
                fs = [f for f in self.fns if f[2] == t]
                if fs:
                    f = r.choice(fs)
                    self.used.add("call")
                    return E("call", t, f[0], [sub(a) for a in f[1]])
        k = r.random()
        if t == "bool":
            if k < 0.65:
                ty = r.choice([self.F, self.F, self.I, self.U])
                self.used.add("comparison")
                return E("bin", t, r.choice(CMP), self.typed(sub(ty), ty), self.bare(sub(ty)))
            if k < 0.85:
                self.used.add("logic")
                return E("bin", t, r.choice(["&&", "||"]), sub(t), sub(t))
            if k < 0.93:
                self.used.add("bool bit logic")
                return E("bin", t, r.choice(["&", "|", "^"]), sub(t), sub(t))
            self.used.add("!")
            return E("un", t, "!", sub(t))
        if t == self.F:
            if k < 0.5:
                a, b = sub(t), sub(t)
                return E("bin", t, r.choice("++--**/"), a, b, typed=a.typed or b.typed)
            if k < 0.62:
                self.used.add("unary minus")
                a = sub(t)
                return E("un", t, "-", a, typed=a.typed)
            if k < 0.8:
                m = r.choice(["abs", "sqrt", "copysign", "floor", "ceil", "trunc", "round", "recip", "mul_add", "mul_add"])
                self.used.add("." + m)
                return E("method", t, m, self.typed(sub(t), t), [sub(t) for _ in range({"copysign": 1, "mul_add": 2}.get(m, 0))])
            if k < 0.93:
                self.used.add("cast to float")
                ty = r.choice([self.I, self.U])
                return E("cast", t, self.typed(sub(ty), ty))
            self.used.add("from_bits")
            a = self.typed(sub(self.U), self.U)
            a = E("bin", self.U, "|", E("bin", self.U, "&", a, E("var", self.U, "MASK_" + self.tag)), E("var", self.U, "BITS_" + self.tag))
            return E("frombits", t, a)
        if k < 0.3:
            return E("bin", t, r.choice("++-*" if t == self.I else "+++*"), self.typed(sub(t), t), self.bare(sub(t)))
        if k < 0.55:
            self.used.add("bit logic")
            return E("bin", t, r.choice("&|^"), self.typed(sub(t), t), self.bare(sub(t)))
        if k < 0.68:
            self.used.add("shift")
            n = r.randrange(0, 12) if r.random() < 0.8 else r.randrange(12, self.bits)
            amount = E("lit", t, str(n) + r.choice(["", ("i" if t == self.I else "u") + str(self.bits)]), typed=False)
            return E("bin", t, r.choice(["<<", ">>"]), self.typed(sub(t), t), amount)
        if k < 0.76 and t == self.I:
            self.used.add("unary minus")
            return E("un", t, "-", self.typed(sub(t), t))
        if k < 0.8 and t == self.U:
            self.used.add(".to_bits")
            return E("method", t, "to_bits", self.typed(sub(self.F), self.F), [])
        if k < 0.9:
            ty = self.U if t == self.I else self.I
            self.used.add("cast between integers")
            return E("cast", t, self.typed(sub(ty), ty))
        self.used.add("cast to integer")
        return E("cast", t, self.typed(sub(self.F), self.F))


class Printer:
    """The same text twice, except for what the reference does instead. Parentheses only where Rust wants them, and some."""

    def __init__(self, g, ref):
        import random
        self.g, self.ref = g, ref
        self.r = random.Random(0)

    def block(self, b):
        out = []
        for s in b.a[0]:
            if s[0] == "let":
                out.append("let %s%s%s = %s;" % ("mut " if s[2] else "", s[1], ": " + s[3] if s[3] else "", self.e(s[4], 0)))
            elif s[0] == "nothing":
                out.append(s[1] % self.e(s[2], 0) if "%" in s[1] else s[1])
            elif s[0] == "const":
                out.append("const %s: %s = %s;" % (s[1], s[2], self.e(s[3], 0)))
            else:
                out.append("%s %s %s;" % (s[1], s[2], self.e(s[3], 0)))
        tail = b.a[1]
        t = self.e(tail, 0)
        if t.startswith(("if ", "{")) and tail.k not in ("if",):
            t = "(%s)" % t
        return "{ " + " ".join(out) + " " + t + " }"

    def e(self, e, p):
        """Text of e where an operator of precedence p is waiting; 10 is unary and cast, 11 a method."""
        t, mine = self.raw(e)
        wrap = self.r.random() < 0.12 and e.k not in ("block",)
        if wrap or mine < p:
            return "(%s)" % t
        return t

    def raw(self, e):
        k = e.k
        if k == "var" or k == "lit":
            if k == "lit" and e.a[0].endswith("."):
                return "(%s)" % e.a[0], 12
            return e.a[0], 12
        if k == "blk":
            return self.block(e.a[0]), 11 if False else 9.5
        if k == "if":
            c = self.e(e.a[0], 0)
            if c.startswith(("{", "if ")):
                c = "(%s)" % c
            els = e.a[2]
            f = self.raw(els)[0] if els.k == "if" else self.block(els)
            return "if %s %s else %s" % (c, self.block(e.a[1]), f), 9.5
        if k == "call":
            return "%s(%s)" % (e.a[0], ", ".join(self.e(x, 0) for x in e.a[1])), 12
        if k == "frombits":
            x = self.e(e.a[0], 0)
            return "fty::from_bits(%s)" % x, 12
        if k == "method":
            m = e.a[0]
            if self.ref and m in ("mul_add", "copysign", "to_bits"):
                m = "ref_" + m
            return "%s.%s(%s)" % (self.e(e.a[1], 11), m, ", ".join(self.e(x, 0) for x in e.a[2])), 12
        if k == "cast":
            ty = e.a[1] if len(e.a) > 1 else e.t
            x = e.a[0]
            if self.ref and x.t == "fty" and ty in ("ity", "uty"):
                return "ref_%s((%s) as fty)" % (ty, self.e(x, 0)), 10
            return "%s as %s" % (self.e(x, 10), ty), 10
        if k == "un":
            return e.a[0] + self.e(e.a[1], 10.5 if e.a[1].k != "un" else 10), 10.5
        op, a, b = e.a
        q = PREC[op]
        x, y = self.e(a, q + 0.5 if op in CMP else q), self.e(b, q + 0.5)
        import re
        if op in ("<", "<<", "<=") and re.search(r"\bas \w+$", x):
            x = "(%s)" % x
        if op == "<" and False:
            pass
        return "%s %s %s" % (x, op, y), q


PRELUDE = """
trait Ref: Sized { type Bits; fn ref_mul_add(self, a: Self, b: Self) -> Self; fn ref_copysign(self, a: Self) -> Self; fn ref_to_bits(self) -> Self::Bits; }
impl Ref for f32 { type Bits = u32;
  fn ref_mul_add(self, a: f32, b: f32) -> f32 { self * a + b }
  fn ref_copysign(self, a: f32) -> f32 { assert!(!a.is_nan() && !self.is_nan()); self.copysign(a) }
  fn ref_to_bits(self) -> u32 { assert!(!self.is_nan()); self.to_bits() } }
impl Ref for f64 { type Bits = u64;
  fn ref_mul_add(self, a: f64, b: f64) -> f64 { self * a + b }
  fn ref_copysign(self, a: f64) -> f64 { assert!(!a.is_nan() && !self.is_nan()); self.copysign(a) }
  fn ref_to_bits(self) -> u64 { assert!(!self.is_nan()); self.to_bits() } }
"""
REFCASTS = """
fn ref_ity(x: fty) -> ity { assert!(x > ity::MIN as fty * 0.99 && x < ity::MAX as fty * 0.99); x as ity }
fn ref_uty(x: fty) -> uty { assert!(x > -0.9 && x < uty::MAX as fty * 0.99); x as uty }
"""
