"""P26: the generated tests tell right functions from wrong ones."""
import os
import re
import shutil
import struct
import subprocess
from fractions import Fraction
import numpy as np
from scipy import stats
from common import Check, scratch, parallel, ENV, HarnessError
from gen import Failed, rustc, signatures, FT, UT
import gentests
import select_

RULE = ("every generated test of both sizes run on substitutes for the function it tests, with each of its rows made wrong in turn (NaN, both infinities, too high and too low by just over the limit), "
        "all rows just inside the limit, and samples of right and wrong distributions for the histogram tests; the verdict of the test compared with the one its limit means; "
        "distinct = (test, size, scenario, row)")

MAIN = r"""
use std::collections::HashMap;
use std::cell::RefCell;
use std::io::{Read as _, Write as _};
#[derive(Default)]
struct Hook { name: String, map: HashMap<u64, u64>, table: Vec<u64>, seen: std::collections::HashSet<u64>, calls: u64 }
thread_local! { static HOOK: RefCell<Hook> = RefCell::new(Hook::default()); }
fn hook_x(name: &str, x: fty, orig: impl Fn() -> fty) -> fty {
    let r = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        if h.name != name { return None; }
        h.calls += 1;
        h.seen.insert(x.to_bits() as u64);
        h.map.get(&(x.to_bits() as u64)).map(|b| fty::from_bits(*b as _))
    });
    r.unwrap_or_else(|| orig())
}
fn hook_i(name: &str, i: usize, orig: impl Fn() -> fty) -> fty {
    let r = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        if h.name != name { return None; }
        h.calls += 1;
        if h.table.is_empty() { return None; }
        let n = h.table.len();
        Some(fty::from_bits(h.table[i.wrapping_mul(40503) % n] as _))
    });
    r.unwrap_or_else(|| orig())
}
// A scenario: test number, function name, kind (0 changes of the base map, 1 table, 2 base map), words.
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let tests: Vec<(&str, fn())> = vec![@TESTS@];
    let mut raw = Vec::new();
    std::io::stdin().read_to_end(&mut raw).unwrap();
    let mut p = 0;
    let mut word = || { let r = raw.get(p..p + 8).map(|c| u64::from_le_bytes(c.try_into().unwrap())); p += 8; r };
    let mut base: HashMap<u64, u64> = HashMap::new();
    let names: Vec<&str> = vec![@NAMES@];
    let mut out = std::io::stderr();
    while let Some(t) = word() {
        let f = word().unwrap();
        let kind = word().unwrap();
        let n = word().unwrap();
        HOOK.with(|h| {
            let mut h = h.borrow_mut();
            *h = Hook::default();
            h.name = names[f as usize].to_string();
            for _ in 0..n {
                if kind == 0 { let k = word().unwrap(); let v = word().unwrap(); h.map.insert(k, v); }
                else if kind == 1 { let v = word().unwrap(); h.table.push(v); }
                else { let k = word().unwrap(); let v = word().unwrap(); base.insert(k, v); }
            }
            if kind == 0 && n > 0 { for (k, v) in &base { h.map.entry(*k).or_insert(*v); } }
        });
        if kind == 2 { continue; }
        let ok = std::panic::catch_unwind(tests[t as usize].1).is_ok();
        let (calls, distinct) = HOOK.with(|h| (h.borrow().calls, h.borrow().seen.len()));
        writeln!(out, "{} {} {}", ok as u8, calls, distinct).unwrap();
    }
}
"""


def program(text):
    sigs = signatures(text)
    wrappers = []
    for name in select_.TESTED:
        args, ret = sigs[name]
        text, k = re.subn(r"\bfn\s+%s\s*\(" % name, "fn original_%s (" % name, text)
        if k != 1:
            raise HarnessError("%d definitions of %s" % (k, name))
        names = ["a%d" % i for i in range(len(args))]
        wrappers.append("pub fn %s(%s) -> %s { %s(\"%s\", a0, || original_%s(%s)) }" % (
            name, ", ".join("%s: %s" % x for x in zip(names, args)), ret, "hook_i" if args[0] == "usize" else "hook_x", name, name, ", ".join(names)))
    tests = re.findall(r"#\s*\[\s*test\s*\]\s*(?:pub\s+)?fn\s+(\w+)", text)
    text = re.sub(r"#\s*\[\s*test\s*\]", "", text)
    main = MAIN.replace("@TESTS@", ", ".join('("%s", %s as fn())' % (t, t) for t in tests)).replace("@NAMES@", ", ".join('"%s"' % n for n in select_.TESTED))
    return tests, "#![allow(warnings)]\n" + text + "\n" + "\n".join(wrappers) + main


def bits_of(x, bits):
    return int(np.array([x], dtype=FT[bits]).view(UT[bits])[0])


def near(q, bits, up):
    """A float of the size at least (up) or at most q."""
    t = FT[bits]
    f = t(float(q))
    while (Fraction(float(f)) < q) if up else (Fraction(float(f)) > q):
        f = np.nextafter(f, t(np.inf if up else -np.inf))
    return f


def main():
    c = Check("P26", RULE)
    d = scratch()
    rng = np.random.default_rng(c.rng.getrandbits(64))
    try:
        jobs = [("all,nextafter,runif", bits, "decimal") for bits in (64, 32)]
        src = gentests.sources(jobs)
        for job in jobs:
            one(c, d, job[1], rng, src[job])
    finally:
        shutil.rmtree(d)
    c.minimum = 3000
    return c.finish()


def one(c, d, bits, rng, text):
    t = FT[bits]
    try:
        if isinstance(text, Failed):
            raise text
        tests, prog = program(text)
        binary = rustc(prog, d, "t%d" % bits, ["-Copt-level=1"])
    except Failed as e:
        c.violation("generate %d" % bits, str(e))
        return
    scen = []   # (test, function, kind, words, expected, name, row)
    tables = {name: (fn, gentests.number(limit), rows) for name, fn, limit, rows in gentests.tables(text)}
    called = {}
    for fn in select_.TESTED:
        mine = [n for n in tests if n in tables and tables[n][0] == fn]
        if fn not in ("runif", "rnorm") and not mine:
            c.violation("no test %s %d" % (fn, bits), "no accuracy test calls " + fn)
    for name in tests:
        ti = tests.index(name)
        if name not in tables:
            continue
        fn, lim, rows = tables[name]
        rows = [tuple(gentests.number(v) for v in r) for r in rows]
        key = [bits_of(float(x), bits) for x, _, _ in rows]
        called[name] = len(set(key))
        exact = [float(y) for _, y, _ in rows]
        base = sum(([k, bits_of(y, bits)] for k, y in zip(key, exact)), [])
        scen.append((ti, fn, 2, base, None, "base", -1))
        scen.append((ti, fn, 0, base[:2], 1, "exact", -1))
        for up in (True, False):
            v = []
            for (x, y, e), k in zip(rows, key):
                f = near(y + e + lim * Fraction(99, 100) * (1 if up else -1), bits, not up)
                if abs(Fraction(float(f)) - y - e) > lim * Fraction(995, 1000):
                    f = float(y)
                v += [k, bits_of(f, bits)]
            scen.append((ti, fn, 0, v, 1, "just inside " + ("above" if up else "below"), -1))
        for i in range(len(rows)):
            x, y, e = rows[i]
            for kind in ("nan", "-nan", "inf", "-inf", "high", "low", "far"):
                if kind in ("-nan", "inf", "-inf", "far") and not c.thorough and i % 16 and i + 1 < len(rows):
                    continue
                if kind in ("nan", "-nan", "inf", "-inf"):
                    b = bits_of(float(kind), bits)
                    if kind == "-nan":
                        b = bits_of(float("nan"), bits) | (1 << (bits - 1))
                elif kind == "far":
                    b = bits_of(float(y) + 10.0 ** rng.uniform(1, 30), bits)
                else:
                    s = 1 if kind == "high" else -1
                    b = bits_of(near(y + e + s * lim * Fraction(102, 100), bits, kind == "high"), bits)
                scen.append((ti, fn, 0, [key[i], b], 0, kind, i))
        scen.append((ti, fn, 0, [], None, "own", -1))
    n = 1 << 15
    u = ((np.arange(n) + rng.uniform(0.3, 0.7)) / n)
    w = rng.uniform(0, 1, n)
    for fn, q, spans in (("runif", lambda p: p, (0.0, 1.0)), ("rnorm", stats.norm.ppf, (-2.0, 2.0))):
        if "test_" + fn not in tests:
            c.violation("no test %s %d" % (fn, bits), "no test_%s" % fn)
            continue
        ti = tests.index("test_" + fn)
        lo, hi = spans
        s = [("right", q(u), 1), ("right, random", q(np.sort(w)), 1 if fn == "rnorm" else None), ("right, shuffled", rng.permutation(q(u)), 1),
             ("nan", np.full(n, np.nan), 0), ("inf", np.full(n, np.inf), 0), ("zero", np.zeros(n), 0), ("one value", np.full(n, rng.uniform(lo, hi)), 0),
             ("half nan", np.where(rng.random(n) < .5, np.nan, q(u)), 0), ("negated", -q(u), 0 if fn == "runif" else 1),
             ("out of range", q(u) + 100, 0), ("half", q(u / 2), 0), ("upper half", q(.5 + u / 2), 0)]
        x = q(u)
        for k in range(32) if c.thorough else [0, 31] + [int(v) for v in rng.choice(np.arange(1, 31), 4, replace=False)]:
            a, b = lo + (hi - lo) * k / 32, lo + (hi - lo) * (k + 1) / 32
            s.append(("bucket %d empty" % k, np.where((x >= a) & (x < b), 1e3, x), 0))
            # A share of .06 density more than this bucket should have, from outside the histogram.
            y = x.copy()
            y[rng.choice(n, int(n * .06 * (hi - lo) / 32) + 2, replace=False)] = (a + b) / 2
            s.append(("bucket %d too full" % k, y, 0))
        for sc in (.8, .9, 1.15, 1.3, 2):
            s.append(("scaled by %g" % sc, x * sc, 0))
        for sh in (-.5, -.3, .3, .5):
            s.append(("shifted by %g" % sh, x + sh, 0))
        s.append(("squared", x * x, 0))
        if fn == "rnorm":
            s += [("uniform", u * 4 - 2, 0), ("laplace", stats.laplace.ppf(u), 0), ("logistic", stats.logistic.ppf(u), 0)]
        for name, y, want in s:
            scen.append((ti, fn, 1, [int(v) for v in np.asarray(y).astype(t).view(UT[bits])], want, name, -1))
        scen.append((ti, fn, 1, [], None, "own", -1))
    def words(x):
        ti, fn, kind, ws, _, _, _ = x
        return struct.pack("<4Q", ti, select_.TESTED.index(fn), kind, len(ws) if kind == 1 else len(ws) // 2) + struct.pack("<%dQ" % len(ws), *ws)
    parts = [[x for x in scen if x[0] == i and x[2] != 1] for i in range(len(tests))]
    hist = [x for x in scen if x[2] == 1]
    parts = [x for x in parts if x] + [hist[i::16] for i in range(16)]
    def go(part):
        r = subprocess.run([binary], input=b"".join(map(words, part)), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, timeout=800)
        o = [tuple(map(int, ln.split())) for ln in r.stderr.decode().splitlines()]
        if len(o) != len([x for x in part if x[2] != 2]):
            raise HarnessError("the test driver died (%d): %s" % (r.returncode, r.stderr.decode()[-300:]))
        return o
    for part, res in zip(parts, parallel(parts, go)):
        part = [x for x in part if x[2] != 2]
        for (ti, fn, kind, ws, want, name, row), (ok, calls, distinct) in zip(part, res):
            tn = tests[ti]
            sample = {"test": tn, "bits": bits, "scenario": name, "row": row, "passed": bool(ok), "calls": calls}
            c.seen((tn, bits, name, row), sample)
            c.count("verdicts: " + ("pass" if ok else "fail"))
            c.count("calls of the functions under test", calls)
            if name in ("exact", "own") and kind == 0 and distinct != called[tn]:
                c.violation("rows %s %d" % (tn, bits), "%s has %d rows and called %s with %d different arguments" % (tn, called[tn], fn, distinct))
            if name == "own":
                c.count("generated tests on the generated library")
                if not ok:
                    c.violation("own %s %d" % (tn, bits), "%s of %d bits fails on the library it was generated with" % (tn, bits))
            elif want is not None and ok != want:
                c.violation("%s %d %s" % (tn, bits, name), "%s (%d bits) %s when %s is %s%s" % (
                    tn, bits, "passes" if ok else "fails", fn, name, " at row %d" % row if row >= 0 else ""), {"words": ws[:50]})


