"""P15: the C translation of a Rust program computes what the program computes."""
import math
import os
import re
import subprocess
import numpy as np
import rprog
from common import Check, rpc, sh, scratch, parallel, ENV, HarnessError
from gen import RUSTC
import shutil

RULE = ("random programs of constants and functions over fty, ity, uty and bool (lets with and without types, shadowing, mutation, "
        "if/else, blocks, calls in any order, all operators with only the parentheses Rust needs, casts, suffixed and hexadecimal "
        "literals, float methods), in 32 and 64 bits, translated by to_c, compiled by gcc and run on many arguments next to the program "
        "itself under rustc; calls that overflow, divide by zero or cast out of range are left out, and on the rest the C program runs "
        "under the address and undefined behaviour sanitizers; distinct = (program, arguments), non-trivial = the call has a value")

METHODS1 = ["abs", "sqrt", "cbrt", "floor", "ceil", "trunc", "round", "recip", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan",
            "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp_m1", "ln_1p"]
METHODS2 = ["copysign", "min", "max", "powf", "hypot", "atan2"]
NV = 24


def rust_main(progs, bits):
    """A driver for all programs: n, then n argument words per function call; out: 0 or 1, and the value."""
    arms = []
    for tag, fns, ref in progs:
        for name, args, ret in fns:
            conv = {"fty": "f%d::from_bits(v[%%d] as _)" % bits, "ity": "(v[%d] as i64) as _", "uty": "v[%d] as _"}
            call = "%s::%s(%s)" % (tag, name, ", ".join(conv[a] % i for i, a in enumerate(args)))
            val = {"fty": "(%s).to_bits() as u64", "ity": "(%s) as i64 as u64", "uty": "(%s) as u64", "bool": "(%s) as u64"}[ret] % call
            arms.append("    |v: &[u64]| %s," % val)
    fl = "\n".join(arms)
    mods = "\n".join("mod %s {\nuse super::Ref;\n%s\n%s\n}" % (tag, rprog.REFCASTS, ref) for tag, fns, ref in progs)
    return """#![allow(warnings, arithmetic_overflow, unconditional_panic, overflowing_literals)]
use std::io::{Read as _, Write as _};
%s
%s
static F: &[fn(&[u64]) -> u64] = &[
%s
];
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut raw = Vec::new();
    std::io::stdin().read_to_end(&mut raw).unwrap();
    let v: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut out: Vec<u64> = Vec::new();
    for c in v.chunks_exact(4) {
        let f = F[c[0] as usize];
        match std::panic::catch_unwind(|| f(&c[1..])) { Ok(x) => { out.push(1); out.push(x) } Err(_) => { out.push(0); out.push(0) } }
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::io::stdout().write_all(&bytes).unwrap();
}
""" % (rprog.PRELUDE, mods, fl)


def c_main(progs, bits):
    t = {"fty": "float" if bits == 32 else "double", "ity": "int" if bits == 32 else "long long",
         "uty": "unsigned int" if bits == 32 else "unsigned long long"}
    out = ["", "#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>",
           "static %s V_f(unsigned long long w) { %s x; %s b = (%s)w; memcpy(&x, &b, sizeof x); return x; }" % (t["fty"], t["fty"], t["uty"], t["uty"]),
           "static unsigned long long V_w(%s x) { %s b; memcpy(&b, &x, sizeof x); return b; }" % (t["fty"], t["uty"]),
           "typedef unsigned long long V_t(const unsigned long long *v);"]
    names = []
    for tag, fns, ref in progs:
        for name, args, ret in fns:
            conv = {"fty": "V_f(v[%d])", "ity": "(" + t["ity"] + ")v[%d]", "uty": "(" + t["uty"] + ")v[%d]"}
            call = "%s_%s(%s)" % (tag, name, ", ".join(conv[a] % i for i, a in enumerate(args)))
            val = {"fty": "V_w(%s)", "ity": "(unsigned long long)(long long)%s", "uty": "%s", "bool": "(unsigned long long)(%s)"}[ret] % call
            out.append("static unsigned long long V_%s_%s(const unsigned long long *v) { return %s; }" % (tag, name, val))
            names.append("V_%s_%s" % (tag, name))
    out.append("static V_t *const V_all[] = {%s};" % ", ".join(names))
    out.append("""int main(void) { unsigned long long c[4], at = 0;
  while (fread(c, 8, 4, stdin) == 4) { if (getenv("V_TRACE")) { fprintf(stderr, "AT %llu\\n", at++); fflush(stderr); }
    unsigned long long r = V_all[c[0]](c + 1); fwrite(&r, 8, 1, stdout); } return 0; }""")
    return "\n".join(out)


# Without -frounding-math gcc 13 turns 0.0 - (double)i into -(double)i, which is -0.0 for 0.
GCC = ["gcc", "-std=gnu11", "-w", "-fno-builtin", "-frounding-math"]
SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]


def gcc(text, d, name, extra):
    src, out = os.path.join(d, name + ".c"), os.path.join(d, name + ".bin")
    with open(src, "w") as f:
        f.write(text)
    r = sh(GCC + extra + ["-o", out, src, "-lm"], timeout=600)
    return (out, None) if r.returncode == 0 else (None, r.stderr.decode("utf8", "replace"))


def run(binary, words, env=None, timeout=200):
    return subprocess.run([binary], input=words.tobytes(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, timeout=timeout)


def words_for(r, args, bits):
    out = []
    for a in args:
        if a == "fty":
            x = r.choice([r.uniform(-4, 4), r.uniform(-4, 4), r.uniform(-300, 300), 10 ** r.uniform(-6, 6), -10 ** r.uniform(-6, 6),
                          0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -3.5, r.choice([0.0, -0.0, math.nan, math.inf, -math.inf])])
            out.append(int(np.float32(x).view(np.uint32)) if bits == 32 else int(np.float64(x).view(np.uint64)))
        elif a == "ity":
            out.append(r.choice([r.randrange(-9, 10), r.randrange(-1000, 1000), r.randrange(-1 << 20, 1 << 20)]) & (2 ** 64 - 1))
        else:
            out.append(r.choice([r.randrange(0, 10), r.randrange(0, 1000), r.randrange(0, 1 << 20), r.randrange(0, 1 << 31)]))
    return out + [0] * (3 - len(out))


def isnan(w, bits):
    return (np.array([w], dtype=np.uint64).astype(np.uint32).view(np.float32) if bits == 32 else np.array([w], dtype=np.uint64).view(np.float64))[0] != \
        (np.array([w], dtype=np.uint64).astype(np.uint32).view(np.float32) if bits == 32 else np.array([w], dtype=np.uint64).view(np.float64))[0]


def batch(c, d, bits, progs, seed):
    """progs: [(tag, fns, text, ref, used)]."""
    suffix = "f" if bits == 32 else ""
    rs = rpc([["c", text, tag + "_", suffix] for tag, fns, text, ref, used in progs])
    live = []
    for (tag, fns, text, ref, used), a in zip(progs, rs):
        q = ["c", text, tag + "_", suffix]
        if not c.answered(a, q, "%s:%s" % (tag, text[:60])):
            continue
        live.append((tag, fns, ref, text, a.text, used))
    # Programs that rustc refuses are the generator's mistake.
    dropped = set()
    for _ in range(8):
        src = rust_main([(p[0], p[1], p[2]) for p in live], bits)
        path, binary = os.path.join(d, "r%d.rs" % bits), os.path.join(d, "r%d" % bits)
        with open(path, "w") as f:
            f.write(src)
        r = sh(["rustc", "--edition", "2021", "-Awarnings", "-Copt-level=0", "-Coverflow-checks=on", "-o", binary, path], timeout=600)
        if r.returncode == 0:
            break
        err = r.stderr.decode("utf8", "replace")
        lines = src.split("\n")
        bad = set()
        for m in re.finditer(r"^ +--> [^\n]*?:(\d+):\d+", err, re.M):
            for i in range(int(m.group(1)) - 1, -1, -1):
                mm = re.match(r"mod (\w+) \{", lines[i])
                if mm:
                    bad.add(mm.group(1))
                    break
        if not bad:
            raise HarnessError("rustc refused the reference: " + err[:2000])
        c.count("programs rustc refuses", len(bad))
        if os.environ.get("V_DEBUG"):
            print(err[:3000])
        live = [p for p in live if p[0] not in bad]
    else:
        raise HarnessError("rustc keeps refusing the reference")
    # The C of each program on its own has to compile.
    def compiles(p):
        src = os.path.join(d, p[0] + ".c")
        with open(src, "w") as f:
            f.write(p[4])
        r = sh(["gcc", "-std=gnu11", "-w", "-fno-builtin", "-fsyntax-only", "-Werror=implicit-function-declaration", src])
        return None if r.returncode == 0 else r.stderr.decode("utf8", "replace")
    good = []
    for p, err in zip(live, parallel(live, compiles)):
        if err:
            c.violation("compile:%s" % p[0], "the C translation does not compile: %s" % err[:500], {"rust": p[3], "c": p[4], "gcc": err})
        else:
            good.append(p)
    if not good:
        return
    keep = {p[0] for p in good}
    rng = c.rng
    index = {}
    k = 0
    for p in live:
        for f in p[1]:
            index[(p[0], f[0])] = k
            k += 1
    calls = []
    for p in good:
        for f in p[1]:
            for _ in range(NV):
                calls.append((p, f, words_for(rng, f[1], bits)))
    w = np.array([[index[(p[0], f[0])]] + x for p, f, x in calls], dtype=np.uint64)
    r = run(binary, w)
    if r.returncode != 0:
        raise HarnessError("the reference died: " + r.stderr.decode("utf8", "replace")[:500])
    o = np.frombuffer(r.stdout, dtype=np.uint64).reshape(-1, 2)
    valid = [(cl, int(x[1])) for cl, x in zip(calls, o) if x[0] == 1]
    c.count("calls left out (overflow, division by zero, cast out of range)", len(calls) - len(valid))
    cidx = {}
    k = 0
    for p in good:
        for f in p[1]:
            cidx[(p[0], f[0])] = k
            k += 1
    cw = np.array([[cidx[(p[0], f[0])]] + x for (p, f, x), _ in valid], dtype=np.uint64)
    ctext = "\n".join(p[4] for p in good) + c_main([(p[0], p[1], None) for p in good], bits)
    blamed = set()
    for level, extra in (("plain", ["-O2"]), ("sanitized", SAN)):
        b, err = gcc(ctext, d, "c%d%s" % (bits, level), extra)
        if err:
            raise HarnessError("the programs compile alone but not together: " + err[:1500])
        todo = list(range(len(valid)))
        for _ in range(4):
            env = dict(ENV)
            env["ASAN_OPTIONS"] = "detect_leaks=0"
            if level == "sanitized":
                env["V_TRACE"] = "1"
            r = run(b, cw[todo], env)
            got = np.frombuffer(r.stdout[: len(r.stdout) // 8 * 8], dtype=np.uint64)
            if r.returncode == 0:
                break
            err = r.stderr.decode("utf8", "replace")
            at = [int(x) for x in re.findall(r"^AT (\d+)$", err, re.M)]
            if not at:
                c.violation("died:%d:%s" % (bits, level), "the C program died: %s" % err[-600:], {"stderr": err[-2000:]})
                return
            (p, f, x), want = valid[todo[at[-1]]]
            err = re.sub(r"^AT \d+\n", "", err, flags=re.M)
            c.violation("undefined:%s" % p[0], "%s(%s) in C: %s" % (f[0], x, err[:400]), {"rust": p[3], "c": p[4], "args": x, "stderr": err[:3000]})
            blamed.add(p[0])
            todo = [i for i in todo if valid[i][0][0][0] not in blamed]
        else:
            return
        for i, g in zip(todo, got):
            (p, f, x), want = valid[i]
            g = int(g)
            if level == "plain":
                c.seen((p[3], f[0], tuple(x)), {"rust": p[3][:600], "call": "%s%s" % (f[0], x[:len(f[1])]), "value": "%x" % want} if len(p[3]) < 700 else None)
                c.count("values compared")
                c.count("values of type " + f[2])
            else:
                c.count("values under the sanitizers")
            if g != want and not (f[2] == "fty" and isnan(g, bits) and isnan(want, bits)):
                if p[0] in blamed:
                    continue
                blamed.add(p[0])
                c.violation("value:%s" % p[0], "%s(%s) is %x in Rust and %x in C (%s)" % (f[0], ", ".join("%x" % y for y in x[:len(f[1])]), want, g, level),
                            {"rust": p[3], "c": p[4], "function": f[0], "args": x, "rust value": want, "c value": g})
    for p in good:
        c.count("programs")
        for u in p[5]:
            c.count("programs with " + u)


def methods(c, d, bits):
    """Every method that has a counterpart, one program each."""
    progs = []
    for m in METHODS1:
        progs.append(("m_%s" % m, "pub fn f0(x: fty) -> fty { x.%s() }" % m, 1))
    for m in METHODS2:
        progs.append(("m_%s" % m, "pub fn f0(x: fty, y: fty) -> fty { (x + 0.0).%s(y) }" % m, 2))
    head = "type fty = f%d; type uty = u%d; type ity = i%d;\n" % (bits, bits, bits)
    suffix = "f" if bits == 32 else ""
    rs = rpc([["c", head + t, tag + "_", suffix] for tag, t, n in progs])
    ctexts, ok = [], []
    for p, a in zip(progs, rs):
        if not c.answered(a, ["c", head + p[1], p[0] + "_", suffix], p[0]):
            continue
        b, err = gcc(a.text + "\nint main(void) { return 0; }", d, p[0], ["-Werror=implicit-function-declaration"])
        if err:
            c.violation("method:" + p[0][2:], "the C translation of %s does not compile: %s" % (p[1], err[:300]), {"rust": p[1], "c": a.text})
            continue
        ctexts.append(a.text)
        ok.append(p)
    fns = lambda p: [("f0", ["fty"] * p[2], "fty")]
    src = rust_main([(p[0], fns(p), head + p[1]) for p in ok], bits)
    path, binary = os.path.join(d, "rm%d.rs" % bits), os.path.join(d, "rm%d" % bits)
    open(path, "w").write(src)
    r = sh(["rustc", "--edition", "2021", "-Awarnings", "-o", binary, path], timeout=600)
    if r.returncode:
        raise HarnessError(r.stderr.decode()[:1000])
    b, err = gcc("\n".join(ctexts) + c_main([(p[0], fns(p), None) for p in ok], bits), d, "cm%d" % bits, ["-O1"])
    if err:
        raise HarnessError("methods: " + err[:1000])
    calls = [(i, words_for(c.rng, ["fty"] * p[2], bits)) for i, p in enumerate(ok) for _ in range(60)]
    w = np.array([[i] + x for i, x in calls], dtype=np.uint64)
    want = np.frombuffer(run(binary, w).stdout, dtype=np.uint64).reshape(-1, 2)[:, 1]
    got = np.frombuffer(run(b, w).stdout, dtype=np.uint64)
    tof = (lambda a: a.astype(np.uint32).view(np.float32).astype(np.float64)) if bits == 32 else (lambda a: a.view(np.float64).copy())
    fw, fg = tof(want), tof(got)
    eps = 2.0 ** (-20 if bits == 32 else -48)
    for (i, x), a, g in zip(calls, fw, fg):
        c.seen((ok[i][0], bits, tuple(x)))
        c.count("method values compared")
        same = (a != a and g != g) or a == g or abs(a - g) <= eps * max(abs(a), abs(g), 2.0 ** -1000 if bits == 64 else 2.0 ** -120)
        # asinh and friends are not libm's in Rust and lose digits near zero.
        if not same and ok[i][0][2:] in ("asinh", "acosh", "atanh") and abs(a - g) < 1e-3 * eps + eps * abs(a) * 64:
            same = True
        if not same:
            c.violation("method:" + ok[i][0][2:], "%s of %s is %r in Rust and %r in C" % (ok[i][0][2:], ["%x" % y for y in x], a, g), {"rust": ok[i][1]})


def main():
    c = Check("P15", RULE)
    d = scratch()
    try:
        for bits in (64, 32):
            methods(c, d, bits)
            for k in range(c.n(3, 30)):
                progs = []
                while len(progs) < 150:
                    tag = "p%d_%d_%d" % (bits, k, len(progs))
                    g = rprog.Gen(c.rng, bits, tag)
                    fns, text, ref = g.program()
                    progs.append((tag, fns, text, ref, g.used))
                batch(c, d, bits, progs, c.rng.random())
        c.assumptions.append("gcc with the GNU extensions the translation uses; mul_add is compared with an unfused multiply and add; values that are NaN are only compared as NaN")
        c.need("values compared", 6000)
        c.minimum = 5000
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)
