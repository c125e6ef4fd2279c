"""Generating libraries with the real libmgen, compiling them and running them on many arguments."""
import os
import re
import struct
import subprocess
import numpy as np
from common import build_libmgen, sh, scratch, ENV, HarnessError

LD = np.longdouble
FT = {32: np.float32, 64: np.float64}
UT = {32: np.uint32, 64: np.uint64}
RUSTC = ["rustc", "--edition", "2021", "-Awarnings", "-Copt-level=2", "-Coverflow-checks=on", "-Cdebug-assertions=on"]


class Failed(Exception):
    """The code under test failed: generation, compilation or execution."""


def generate(functions, bits=64, ntype="decimal", language="rust", exclude="", tests=False, extra=(), timeout=600):
    """The generated text; Failed when libmgen does not deliver."""
    cmd = [build_libmgen(), "-f", functions, "--num-bits", str(bits), "--number-type", ntype, "--language", language]
    if exclude:
        cmd += ["-x", exclude]
    if tests:
        cmd += ["--generate-tests"]
    r = sh(cmd + list(extra), timeout=timeout)
    err = r.stderr.decode("utf8", "replace")
    if r.returncode != 0:
        raise Failed("%s exited with %d: %s" % (" ".join(cmd[1:]), r.returncode, err[-400:]))
    return r.stdout.decode("utf8", "replace")


def rustc(text, d, name, extra=()):
    """Compile a Rust program; Failed with the compiler's words."""
    src = os.path.join(d, name + ".rs")
    out = os.path.join(d, name)
    with open(src, "w") as f:
        f.write(text)
    r = sh(RUSTC + list(extra) + ["-o", out, src], timeout=600)
    if r.returncode != 0:
        raise Failed("the generated Rust does not compile: " + r.stderr.decode("utf8", "replace")[:1500])
    return out


FN = re.compile(r"\bfn\s+(\w+)\s*\(([^)]*)\)\s*->\s*(\([^)]*\)|\w+)")


def signatures(text):
    """name -> ([argument types], result type) of the generated Rust functions over numbers."""
    out = {}
    for m in FN.finditer(text):
        args = [a.split(":")[1].strip() for a in m.group(2).split(",") if ":" in a]
        if all(a in ("fty", "ity", "usize", "uty") for a in args):
            out[m.group(1)] = (args, re.sub(r"\s", "", m.group(3)))
    return out


MAIN = """
use std::io::{Read as _, Write as _};
fn main() {
    let which = std::env::args().nth(1).unwrap();
    let mut raw = Vec::new();
    std::io::stdin().read_to_end(&mut raw).unwrap();
    let v: Vec<u64> = raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut out: Vec<u64> = Vec::new();
    match which.as_str() {
%s
        _ => panic!("no function {}", which),
    }
    let bytes: Vec<u8> = out.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::io::stdout().write_all(&bytes).unwrap();
}
"""


def driver(text, sigs=None):
    """The library with a main() that maps a named function over 64 bit words."""
    sigs = sigs or signatures(text)
    arms = []
    conv = {"fty": "fty::from_bits(c[%d] as _)", "ity": "c[%d] as ity", "usize": "c[%d] as usize", "uty": "c[%d] as uty"}
    for name, (args, ret) in sorted(sigs.items()):
        call = "%s(%s)" % (name, ", ".join(conv[a] % i for i, a in enumerate(args)))
        n = max(1, len(args))
        if ret == "(fty,fty)":
            push = "{ let r = %s; out.push(r.0.to_bits() as u64); out.push(r.1.to_bits() as u64); }" % call
        elif ret == "fty":
            push = "out.push((%s).to_bits() as u64);" % call
        else:
            push = "out.push((%s) as u64);" % call
        arms.append('        "%s" => for c in v.chunks_exact(%d) { %s }' % (name, n, push))
        if (list(args), ret) == (["fty"], "fty"):
            # all results from one argument on: first, step and number
            arms.append('        "walk %s" => { let o: Vec<u8> = (0..v[2]).flat_map(|i| %s(fty::from_bits((v[0] + i * v[1]) as _)).to_bits().to_le_bytes()).collect(); std::io::stdout().write_all(&o).unwrap(); }' % (name, name))
    return "#![allow(warnings)]\n" + text + MAIN % "\n".join(arms)


class Library:
    """A generated Rust library, compiled with overflow checks and debug assertions."""

    def __init__(self, functions, bits, ntype="decimal", d=None, exclude="", text=None, name="lib"):
        self.bits = bits
        self.text = text if text is not None else generate(functions, bits, ntype, exclude=exclude)
        self.sigs = signatures(self.text)
        self.binary = rustc(driver(self.text, self.sigs), d, "%s%d" % (name, bits))

    def call(self, name, *args):
        """Arrays of arguments (floats of the library's size, or integers) to arrays of results."""
        if name not in self.sigs:
            raise Failed("the library has no function " + name)
        want, ret = self.sigs[name]
        if len(want) != len(args):
            raise Failed("%s takes %s" % (name, want))
        n = len(args[0]) if args else 1
        words = np.zeros((n, max(1, len(args))), dtype=np.uint64)
        for i, (a, t) in enumerate(zip(args, want)):
            if t == "fty":
                words[:, i] = np.asarray(a, dtype=FT[self.bits]).view(UT[self.bits])
            else:
                words[:, i] = np.asarray(a).astype(np.int64).view(np.uint64)
        r = run(self.binary, name, words.tobytes())
        k = 2 if ret == "(fty,fty)" else 1
        o = np.frombuffer(r, dtype=np.uint64)
        if len(o) != n * k:
            raise Failed("%s returned %d results for %d arguments" % (name, len(o), n))
        if ret in ("fty", "(fty,fty)"):
            f = o.astype(UT[self.bits]).view(FT[self.bits])
            return f if k == 1 else (f[0::2].copy(), f[1::2].copy())
        return o


def run(binary, name, data, timeout=300):
    r = subprocess.run([binary, name], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    if r.returncode != 0:
        raise Failed("%s died (%d): %s" % (name, r.returncode, r.stderr.decode("utf8", "replace")[-600:]))
    return r.stdout


def spread(rng, bits, lo, hi, n, special=()):
    """n floats of [lo, hi]: uniform, log-uniform near both ends and zero, and the ends and neighbours."""
    t = FT[bits]
    g = np.random.default_rng(rng.getrandbits(64))
    parts = [g.uniform(lo, hi, n * 2 // 3)]
    m = max(abs(lo), abs(hi))
    k = n // 6
    e = m * 10.0 ** g.uniform(-30 if bits == 32 else -200, 0, k)
    parts.append(e * g.choice([-1, 1], k))
    w = (hi - lo) * 10.0 ** g.uniform(-9, 0, k)
    parts.append(np.where(g.random(k) < 0.5, lo + w, hi - w))
    parts.append(np.array([lo, hi, 0.0, -0.0] + list(special), dtype=np.float64))
    x = np.concatenate(parts).astype(t)
    if special:
        s = np.array(special, dtype=t)
        x = np.concatenate([x, np.nextafter(s, t(np.inf)), np.nextafter(s, t(-np.inf))])
    return x[(x >= t(lo)) & (x <= t(hi))]


def ulp1(bits):
    """The unit of the generated tests: 2^-23 and 2^-53."""
    return LD(2) ** (-23 if bits == 32 else -53)
