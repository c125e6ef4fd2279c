"""P16: the portable-SIMD translation of a Rust program computes in every lane what the program computes."""
import os
import re
import shutil
import numpy as np
import rprog
import simd
from common import Check, rpc, sh, scratch, HarnessError
from p15 import isnan, run, words_for

RULE = ("random programs of constants and functions of a float and more floats and integers (lets with and without types, shadowing, mutation, "
        "if/else with statements, blocks, constants in functions, calls in any order, operators with only the parentheses Rust needs, casts, "
        "suffixed, bare and hexadecimal literals, float methods), in 32 and 64 bits, translated by to_simd, compiled by rustc against a stand-in for the "
        "vectors and traits that the translation imports, and run on vectors of 1 and 4 different arguments next to the program itself; calls that "
        "overflow are left out; distinct = (program, arguments), non-trivial = the call has a value")
NV = 24
WIDTHS = (1, 4)
CASTS = """
trait Ref: Sized { type Bits; fn ref_mul_add(self, a: Self, b: Self) -> Self; fn ref_copysign(self, a: Self) -> Self; fn ref_to_bits(self) -> Self::Bits; }
impl Ref for f32 { type Bits = u32;
  fn ref_mul_add(self, a: f32, b: f32) -> f32 { self.mul_add(a, b) }
  fn ref_copysign(self, a: f32) -> f32 { assert!(!a.is_nan() && !self.is_nan()); self.copysign(a) }
  fn ref_to_bits(self) -> u32 { assert!(!self.is_nan()); self.to_bits() } }
impl Ref for f64 { type Bits = u64;
  fn ref_mul_add(self, a: f64, b: f64) -> f64 { self.mul_add(a, b) }
  fn ref_copysign(self, a: f64) -> f64 { assert!(!a.is_nan() && !self.is_nan()); self.copysign(a) }
  fn ref_to_bits(self) -> u64 { assert!(!self.is_nan()); self.to_bits() } }
fn ref_ity(x: fty) -> ity { x as ity }
fn ref_uty(x: fty) -> uty { x as uty }
"""


def main_text(progs, bits, vector):
    """The programs, scalar or vector. In: the function, and a row of 3 words per lane; out: 0 or 1, and the value."""
    arms, mods = [], []
    if vector:
        with open(os.path.join(simd.HERE, "simd.rs")) as f:
            mods.append("pub mod simd {\n%s\n}\n" % re.sub(r"^(//!|#!\[).*\n", "", f.read(), flags=re.M))
        std = [("fn %s(self%s) -> Self" % (m, "".join(", a%d: Self" % i for i in range(n))),
                "{ simd::Simd(std::array::from_fn(|i| self.0[i].%s(%s))) }" % (m, ", ".join("a%d.0[i]" % i for i in range(n)))) for m, n in sorted(simd.STD.items())]
        mods.append("pub trait StdFloat: Sized { %s }" % " ".join(x + ";" for x, _ in std))
        for t in ("f32", "f64"):
            mods.append("impl<const N: usize> StdFloat for simd::Simd<%s, N> { %s }" % (t, " ".join(x + y for x, y in std)))
    ty = {"fty": "f%d" % bits, "ity": "i%d" % bits, "uty": "u%d" % bits}
    for tag, fns, text in progs:
        if vector:
            mods.append("mod %s {\nuse crate::simd; use crate::StdFloat; use simd::Simd;\npub trait StdLibm: Sized { type IntType; type UintType; %s }\npub mod libm {\n%s\n}\n}" % (
                tag, " ".join("fn %s(self%s) -> %s;" % (n, "".join(", a%d: %s" % (i, simd.SELF[a]) for i, a in enumerate(args[1:])), simd.SELF[ret]) for n, args, ret in fns), text))
        else:
            mods.append("mod %s {\n%s\n%s\n}" % (tag, CASTS, text))
        for name, args, ret in fns:
            conv = {"fty": ty["fty"] + "::from_bits(%s as _)", "ity": "(%s as i64) as _", "uty": "%s as _"}
            for w in WIDTHS if vector else (1,):
                if vector:
                    call = "<simd::Simd<%s, %d> as %s::StdLibm>::%s(%s).0" % (ty["fty"], w, tag, name, ", ".join(
                        "simd::Simd(std::array::from_fn(|i| %s))" % conv[a] % ("v[i * 3 + %d]" % i) for i, a in enumerate(args)))
                else:
                    call = "[%s::%s(%s)]" % (tag, name, ", ".join(conv[a] % ("v[%d]" % i) for i, a in enumerate(args)))
                val = {"fty": "x.to_bits() as u64", "ity": "x as i64 as u64", "uty": "x as u64"}[ret]
                arms.append("    (%d, |v: &[u64]| %s.map(|x| %s).to_vec())," % (w, call, val))
    return """#![allow(warnings, arithmetic_overflow, unconditional_panic, overflowing_literals)]
use std::io::{Read as _, Write as _};
%s
static F: &[(usize, fn(&[u64]) -> Vec<u64>)] = &[
%s
];
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut raw = Vec::new();
    std::io::stdin().read_to_end(&mut raw).unwrap();
    let v: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut out: Vec<u64> = Vec::new();
    let mut at = 0;
    while at < v.len() {
        let (w, f) = F[v[at] as usize];
        match std::panic::catch_unwind(|| f(&v[at + 1..at + 1 + 3 * w])) {
            Ok(x) => for y in x { out.push(1); out.push(y) },
            Err(_) => for _ in 0..w { out.push(0); out.push(0) },
        }
        at += 1 + 3 * w;
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::io::stdout().write_all(&bytes).unwrap();
}
""" % ("\n".join(mods), "\n".join(arms))


def build(text, d, name, opt):
    path, binary = os.path.join(d, name + ".rs"), os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text)
    r = sh(["rustc", "--edition", "2021", "-Awarnings", "-Copt-level=%d" % opt, "-Coverflow-checks=on", "-Ccodegen-units=16", "-o", binary, path], timeout=600)
    return binary, None if r.returncode == 0 else r.stderr.decode("utf8", "replace")


def refused(text, err):
    """The programs that the messages are about, and the first message for each."""
    lines = text.split("\n")
    bad = {}
    for part in re.split(r"\n(?=error)", err):
        for m in re.finditer(r"^ +--> [^\n]*?:(\d+):\d+", part, re.M):
            for i in range(int(m.group(1)) - 1, -1, -1):
                mm = re.match(r"mod (p\w+) \{", lines[i])
                if mm:
                    bad.setdefault(mm.group(1), part)
                    break
            break
    return bad


def batch(c, d, bits, progs, k):
    rs = rpc([["simd", text, str(bits)] for tag, fns, text, ref, used in progs])
    live = []
    for (tag, fns, text, ref, used), a in zip(progs, rs):
        if c.answered(a, ["simd", text, str(bits)], "%s:%s" % (tag, text[:60])):
            live.append((tag, fns, ref, text, a.text, used))
    for vector in (False, True):
        for _ in range(8):
            text = main_text([(p[0], p[1], p[4] if vector else p[2]) for p in live], bits, vector)
            binary, err = build(text, d, "%s%d_%d" % ("v" if vector else "r", bits, k), 0)
            if err is None:
                break
            bad = refused(text, err)
            if not bad:
                raise HarnessError("rustc: " + err[:2000])
            for p in live:
                if p[0] in bad:
                    if vector:
                        c.violation("compile:%s" % p[0], "the portable-simd translation does not compile: %s" % bad[p[0]][:500], {"rust": p[3], "simd": p[4], "rustc": bad[p[0]]})
                    else:
                        c.count("programs rustc refuses")
                        if os.environ.get("V_DEBUG"):
                            print(bad[p[0]], p[3])
            live = [p for p in live if p[0] not in bad]
        else:
            raise HarnessError("rustc keeps refusing")
        if vector:
            vbin = binary
        else:
            rbin = binary
    calls, rows, vrows, n = [], [], [], 0
    for p in live:
        for f in p[1]:
            ws = [words_for(c.rng, f[1], bits) for _ in range(NV)]
            for j, w in enumerate(WIDTHS):
                for at in range(0, NV, w):
                    vrows.append([n * len(WIDTHS) + j] + [x for y in ws[at:at + w] for x in y])
                    for y in ws[at:at + w]:
                        calls.append((p, f, y, w))
                        rows.append([n] + y)
            n += 1
    r = run(rbin, np.array(rows, dtype=np.uint64))
    v = run(vbin, np.array([x for y in vrows for x in y], dtype=np.uint64))
    if r.returncode or v.returncode:
        raise HarnessError("a program died: " + (r.stderr + v.stderr).decode("utf8", "replace")[:500])
    want = np.frombuffer(r.stdout, dtype=np.uint64).reshape(-1, 2)
    got = np.frombuffer(v.stdout, dtype=np.uint64).reshape(-1, 2)
    if len(want) != len(calls) or len(got) != len(calls):
        raise HarnessError("%d calls, %d and %d results" % (len(calls), len(want), len(got)))
    blamed = set()
    for (p, f, x, width), a, b in zip(calls, want, got):
        if not a[0]:
            c.count("lanes left out (overflow)")
            continue
        a1, b1 = int(a[1]), int(b[1])
        c.seen((p[3], f[0], tuple(x)), {"rust": p[3][:600], "call": "%s%s" % (f[0], x[:len(f[1])]), "value": "%x" % a1} if len(p[3]) < 700 else None)
        c.count("lanes compared")
        c.count("lanes of type " + f[2])
        if not b[0] or a1 != b1 and not (f[2] == "fty" and isnan(a1, bits) and isnan(b1, bits)):
            if p[0] not in blamed:
                blamed.add(p[0])
                c.violation("value:%s" % p[0], "%s(%s) is %x and a lane of a vector of %d is %s" % (f[0], ", ".join("%x" % y for y in x[:len(f[1])]), a1, width, "%x" % b1 if b[0] else "a panic"),
                            {"rust": p[3], "simd": p[4], "function": f[0], "args": x, "scalar": a1, "lane": b1})
    for p in live:
        c.count("programs")
        for u in p[5]:
            c.count("programs with " + u)


def main():
    c = Check("P16", RULE)
    d = scratch()
    try:
        for bits in (64, 32):
            for k in range(c.n(3, 30)):
                progs = []
                while len(progs) < 120:
                    tag = "p%d_%d_%d" % (bits, k, len(progs))
                    g = rprog.VectorGen(c.rng, bits, tag)
                    fns, text, ref = g.program()
                    progs.append((tag, fns, text, ref, g.used))
                batch(c, d, bits, progs, k)
        c.need("lanes compared", 6000)
        c.minimum = 5000
        c.assumptions.append("the vectors, masks and traits that the translation imports are a stand-in of arrays (lib/simd.rs) with the names of core::simd at the time of the repository; values that are NaN are only compared as NaN")
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)
