"""P34: --generate-plots writes the table of every accuracy test, and changes nothing else."""
import os
import re
import shutil
import numpy as np
from common import Check, scratch, parallel, sh
from gen import Failed, FT, UT, generate, rustc
import gentests
import ieee
import select_

RULE = ("libraries of both sizes and number types generated with tests, with and without --generate-plots, compiled, and each of their tests run in an empty directory: the files it leaves, "
        "every row of each table (argument, reference, result, error) against the rows of the test and the function's own results, and the verdict; distinct = (test, size, number type, row)")

MAIN = """
fn main() {
    let which = std::env::args().nth(1).unwrap();
    match which.as_str() {
%s
        _ => panic!("no test"),
    }
}
"""
CALL = re.compile(r"test_function\s*\(\s*\"(\w+)\"\s*,\s*\w+\s*,.*?\|\s*x\s*\|\s*(.*?)\)\s*;", re.S)


def program(text):
    """A program that runs one test, or prints the results its function has for bits."""
    tests = re.findall(r"#\s*\[\s*test\s*\]\s*(?:pub\s+)?fn\s+(\w+)", text)
    arms = ['        "%s" => %s(),' % (t, t) for t in tests]
    for name, body in CALL.findall(text):
        arms.append('        "call_%s" => { let f = |x: fty| -> fty { %s }; for l in std::io::stdin().lines() { println!("{}", f(fty::from_bits(l.unwrap().parse().unwrap())).to_bits()); } }' % (name, body))
    return tests, "#![allow(warnings)]\n" + re.sub(r"#\s*\[\s*test\s*\]", "", text) + MAIN % "\n".join(arms)


def prepare(arg):
    """The texts of a job and the programs of its tests, with and without plots."""
    d, (functions, bits, ntype, base) = arg
    tag = "%d_%s" % (bits, ntype)
    try:
        texts = parallel([(t, e) for t in (True, False) for e in ([], ["--generate-plots"])], lambda a: generate(functions, bits, ntype, tests=a[0], extra=base + a[1]))
        progs = [program(texts[0]), program(texts[1])]
        return texts, progs, parallel([(progs[0][1], "plain" + tag), (progs[1][1], "plots" + tag)], lambda a: rustc(a[0], d, a[1]))
    except Failed as e:
        return e


def one(c, d, job, prepared):
    functions, bits, ntype, base = job
    t = FT[bits]
    tag = "%d_%s" % (bits, ntype)
    where = "%s, %d bits, %s" % (" ".join([functions[:60]] + base), bits, ntype)
    if isinstance(prepared, Failed):
        c.violation("generate %s" % tag, "%s: %s" % (where, prepared))
        return
    (plain, plots, *untested), progs, bins = prepared
    c.evaluations += 1
    if untested[0] != untested[1]:
        c.violation("untested %s" % tag, "%s: --generate-plots changes a library without tests" % where)
    if progs[0][0] != progs[1][0]:
        c.violation("tests %s" % tag, "%s: --generate-plots changes the tests: %s, not %s" % (where, progs[1][0], progs[0][0]))
        return
    rows_of = {name: (fn, rows) for name, fn, _, rows in gentests.tables(plots)}
    if gentests.tables(plots) != gentests.tables(plain):
        c.violation("rows %s" % tag, "%s: --generate-plots changes the rows of the tests" % where)
        return

    def run(j):
        k, test = j
        cwd = os.path.join(d, "run_%s_%d_%s" % (tag, k, test))
        os.mkdir(cwd)
        r = sh([bins[k], test], cwd=cwd, timeout=300)
        files = {}
        for f in os.listdir(cwd):
            with open(os.path.join(cwd, f), "rb") as h:
                files[f] = h.read()
        return r.returncode, files
    for j, (status, files) in zip([(k, x) for x in progs[0][0] for k in (0, 1)], parallel([(k, x) for x in progs[0][0] for k in (0, 1)], run)):
        k, test = j
        key = "%s %d" % (test, bits)
        c.evaluations += 1
        c.count("runs of tests " + ("with plots" if k else "without plots"))
        if k == 0:
            first = status
            if files:
                c.violation(key, "%s: %s without --generate-plots writes %s" % (where, test, sorted(files)))
            continue
        if status != first:
            c.violation(key, "%s: %s exits with %d, and with --generate-plots with %d" % (where, test, first, status))
            continue
        if status != 0:
            # An assertion comes before the plot.
            c.count("failing tests")
            continue
        want = [test + ".csv"] if test in rows_of else []
        if sorted(files) != want:
            c.violation(key, "%s: %s with --generate-plots writes %s, not %s" % (where, test, sorted(files), want))
            continue
        if not want:
            continue
        c.count("tables")
        lines = files[want[0]].decode("utf8", "replace").splitlines()
        fn, rows = rows_of[test]
        if [x.strip() for x in lines[0].split(",")] != ["x", "yref", "ycalc", "eref"] or len(lines) != len(rows) + 1:
            c.violation(key, "%s: %s has the header %r and %d lines for %d rows" % (where, want[0], lines[0], len(lines), len(rows)))
            continue
        x, y, e = [np.array([ieee.nearest(gentests.number(r[i]), bits) for r in rows], dtype=UT[bits]).view(t) for i in range(3)]
        r = sh([bins[1], "call_" + test], input="".join("%d\n" % b for b in x.view(UT[bits])).encode(), timeout=120)
        f = np.array([int(s) for s in r.stdout.split()], dtype=UT[bits]).view(t) if r.returncode == 0 else []
        if len(f) != len(x):
            c.violation(key, "%s: the function of %s died: %s" % (where, test, r.stderr.decode("utf8", "replace")[-300:]))
            continue
        with np.errstate(all="ignore"):
            err = np.abs(f - y - e)
        for i, line in enumerate(lines[1:]):
            try:
                v = [t(s.strip()) for s in line.split(",")]
            except ValueError:
                v = []
            w = [x[i], y[i], f[i], err[i]]
            c.seen((test, bits, ntype, i), {"test": test, "bits": bits, "row": line} if i % 40 == 0 else None)
            if len(v) != 4 or any(a != b and not (np.isnan(a) and np.isnan(b)) for a, b in zip(v, w)):
                c.violation(key, "%s: row %d of %s is %r; the test has %s" % (where, i + 1, want[0], line, ", ".join(repr(float(a)) for a in w)))
                break


def main():
    c = Check("P34", RULE)
    d = scratch()
    rng = c.rng
    jobs = [("all,nextafter,runif", bits, nt, []) for bits in (64, 32) for nt in ("decimal", "hex")]
    if not c.thorough:
        jobs = [jobs[0], jobs[2], rng.choice(jobs[1::2])]
    for i in range(c.n(4, 40)):
        jobs.append((",".join(rng.sample(select_.TESTED, rng.randrange(1, 4))), rng.choice([32, 64]), rng.choice(["decimal", "hex"]), ["--debug"] if i % 2 else []))
    try:
        subs = [os.path.join(d, str(i)) for i in range(len(jobs))]
        for sub in subs:
            os.mkdir(sub)
        for k in range(0, len(jobs), 8):
            for sub, job, p in zip(subs[k:], jobs[k:], parallel(list(zip(subs[k:k + 8], jobs[k:k + 8])), prepare)):
                one(c, sub, job, p)
                shutil.rmtree(sub)
    finally:
        shutil.rmtree(d)
    c.minimum = 300
    return c.finish()
