"""Compiled portable-SIMD libraries, called lane-wise like gen.Library calls the scalar ones."""
import os
import re
import numpy as np
from common import sh
from gen import Failed, FT, UT, rustc

HERE = os.path.dirname(os.path.abspath(__file__))
# What std's floats have; a method of a function that the library generates is the library's.
STD = {"sin": 0, "cos": 0, "tan": 0, "asin": 0, "acos": 0, "atan": 0, "sinh": 0, "cosh": 0, "tanh": 0, "asinh": 0, "acosh": 0, "atanh": 0,
       "exp": 0, "exp2": 0, "exp_m1": 0, "ln": 0, "ln_1p": 0, "log2": 0, "log10": 0, "sqrt": 0, "cbrt": 0, "recip": 0, "abs": 0, "floor": 0,
       "ceil": 0, "trunc": 0, "round": 0, "fract": 0, "signum": 0, "copysign": 1, "powf": 1, "atan2": 1, "hypot": 1, "log": 1, "max": 1, "min": 1, "mul_add": 2}
SELF = {"fty": "Self", "ity": "Self::IntType", "uty": "Self::UintType", "(fty,fty)": "(Self, Self)"}


def translated(sigs):
    """The functions that can be methods of a vector of floats."""
    return {k: v for k, v in sigs.items() if v[0] and v[0][0] == "fty" and v[1] in SELF and all(a in SELF for a in v[0])}


def reference(text, sigs):
    """The scalar library, in which methods that the library itself generates are the library's, as they are for vectors."""
    own = [k for k, v in translated(sigs).items() if k in STD and len(v[0]) == STD[k] + 1]
    names = ["a", "b"]
    decl = "".join("fn v_%s(self%s) -> Self; " % (m, "".join(", %s: Self" % x for x in names[:STD[m]])) for m in own)
    impl = "".join("fn v_%s(self%s) -> Self { %s(%s) } " % (m, "".join(", %s: Self" % x for x in names[:STD[m]]), m,
                                                             ", ".join(["self"] + names[:STD[m]])) for m in own)
    text = re.sub(r"\.(\s*)(%s)(\s*\()" % "|".join(own), r".\1v_\2\3", text) if own else text
    return text + "\ntrait VRef: Sized { %s }\nimpl VRef for fty { %s }\n" % (decl, impl)


def module(text, sigs, bits):
    """The generated text in a module of its own, next to the traits that it wants."""
    with open(os.path.join(HERE, "simd.rs")) as f:
        mock = f.read()
    std = []
    for m, n in sorted(STD.items()):
        if m not in sigs:
            names = ["a", "b"][:n]
            std.append(("fn %s(self%s) -> Self;" % (m, "".join(", %s: Self" % x for x in names)),
                        "fn %s(self%s) -> Self { Simd(std::array::from_fn(|i| self.0[i].%s(%s))) }" % (
                            m, "".join(", %s: Self" % x for x in names), m, ", ".join("%s.0[i]" % x for x in names))))
    traits = "pub trait StdFloat: Sized {\n%s\n}\n" % "\n".join(s[0] for s in std)
    for t in ("f32", "f64"):
        traits += "impl<const N: usize> StdFloat for Simd<%s, N> {\n%s\n}\n" % (t, "\n".join(s[1] for s in std))
    traits += "pub trait StdLibm: Sized {\n    type IntType;\n    type UintType;\n"
    for name, (args, ret) in sorted(sigs.items()):
        traits += "    fn %s(self%s) -> %s;\n" % (name, "".join(", a%d: %s" % (i, SELF[a]) for i, a in enumerate(args[1:])), SELF[ret])
    traits += "}\n"
    mock = re.sub(r"^(//!|#!\[).*\n", "", mock, flags=re.M)
    return "pub mod simd {\n%s\n}\nuse simd::Simd;\n%s\npub mod libm {\n%s\n}\n" % (mock, traits, text)


MAIN = """
use std::io::{Read as _, Write as _};
fn main() {
    let which = std::env::args().nth(1).unwrap();
    let mut raw = Vec::new();
    std::io::stdin().read_to_end(&mut raw).unwrap();
    let v: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut out: Vec<u64> = Vec::new();
    match which.as_str() {
%s
        _ => panic!("no function {}", which),
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::io::stdout().write_all(&bytes).unwrap();
}
"""


def driver(sigs, bits, widths):
    """One arm per function and width; a call takes width rows."""
    arms = []
    conv = {"fty": "f%d::from_bits(c[i * %%d + %%d] as _)" % bits, "ity": "c[i * %%d + %%d] as i%d" % bits, "uty": "c[i * %%d + %%d] as u%d" % bits}
    ty = {"fty": "f", "ity": "i", "uty": "u"}
    for name, (args, ret) in sorted(sigs.items()):
        for w in widths:
            n = len(args)
            call = ", ".join("Simd::<%s%d, %d>(std::array::from_fn(|i| %s))" % (ty[a], bits, w, conv[a] % (n, k)) for k, a in enumerate(args))
            push = {"fty": "out.push(r.0[i].to_bits() as u64);", "(fty,fty)": "out.push(r.0.0[i].to_bits() as u64); out.push(r.1.0[i].to_bits() as u64);"}.get(ret, "out.push(r.0[i] as u64);")
            arms.append('        "%s_%d" => for c in v.chunks_exact(%d) { let r = <Simd<f%d, %d> as StdLibm>::%s(%s); for i in 0..%d { %s } }' % (
                name, w, n * w, bits, w, name, call, w, push))
    return MAIN % "\n".join(arms)


WIDTHS = (1, 4, 8)


class SimdLibrary:
    """A generated vector library and the scalar one that it has to agree with, lane by lane."""

    def __init__(self, text, scalar, bits, d, name):
        import gen
        self.bits, self.text = bits, text
        all_sigs = gen.signatures(scalar)
        self.sigs = translated(all_sigs)
        self.binary = rustc("#![allow(warnings)]\n" + module(text, self.sigs, bits) + driver(self.sigs, bits, WIDTHS), d, name)
        ref = gen.driver(reference(scalar, all_sigs), all_sigs)
        self.ref = rustc(ref, d, name + "_ref", ["-Coverflow-checks=off"])

    def differ(self, name, words, width):
        """The results of the vector methods, of the scalar functions, and where they are not the same."""
        from gen import run
        n = len(words) // width * width
        got = np.frombuffer(run(self.binary, "%s_%d" % (name, width), words[:n].tobytes()), dtype=np.uint64)
        want = np.frombuffer(run(self.ref, name, words[:n].tobytes()), dtype=np.uint64)
        if len(got) != len(want):
            raise Failed("%s returned %d results instead of %d" % (name, len(got), len(want)))
        bad = got != want
        if "fty" in self.sigs[name][1]:
            a, b = got.astype(UT[self.bits]).view(FT[self.bits]), want.astype(UT[self.bits]).view(FT[self.bits])
            bad &= ~(np.isnan(a) & np.isnan(b))
            if self.sigs[name][1] != "fty":
                bad = bad[0::2] | bad[1::2]
                got, want = got[0::2], want[0::2]
        return got, want, bad


def compiles(text, sigs, bits, d, name):
    """None, or what rustc says."""
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write("#![allow(warnings)]\n" + module(text, translated(sigs), bits))
    r = sh(["rustc", "--edition", "2021", "-Awarnings", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(d, name + ".rmeta"), src], timeout=300)
    return None if r.returncode == 0 else r.stderr.decode("utf8", "replace")
