"""P17: whatever is selected, the generated Rust is a complete library that compiles."""
import os
import shutil
from common import Check, scratch, sh, parallel, ENV, build_libmgen, rpc
from gen import generate, Failed, RUSTC
import select_

RULE = ("the generator run on every single function and group and on random selections, for both sizes and number types, with and without tests; each output compiled by rustc "
        "(type checked; test harness included), and every selected function required to be defined in it; distinct = (selection, size, number type, tests)")


def main():
    c = Check("P17", RULE)
    d = scratch()
    rng = c.rng
    try:
        names = select_.names()
    except Failed as e:
        c.violation("help", str(e))
        return c.finish()
    jobs = []
    for n in names:
        for bits in (32, 64):
            for nt in ("decimal", "hex"):
                jobs.append((n, bits, nt, False))
    slow = {"all", "libm", "trig", "invtrig"} if not c.thorough else set()
    for n in names:
        if n not in slow:
            for bits in (32, 64):
                if bits == 32 or c.thorough or n.isupper() or rng.random() < 0.5:
                    jobs.append((n, bits, rng.choice(["decimal", "hex"]), True))
    for _ in range(c.n(60, 1500)):
        k = rng.randrange(2, 7)
        jobs.append((",".join(rng.choice(names) for _ in range(k)), rng.choice([32, 64]), rng.choice(["decimal", "hex"]), False))
    jobs.sort(key=lambda j: not j[3])
    defined = {}

    def run(a):
        i, (sel, bits, nt, tests) = a
        try:
            text = generate(sel, bits, nt, tests=tests)
        except Failed as e:
            return str(e), None
        src = os.path.join(d, "s%d.rs" % i)
        with open(src, "w") as f:
            f.write("#![allow(warnings)]\n" + text)
        r = sh(RUSTC[:4] + ["-Awarnings", "--emit=metadata", "-o", os.path.join(d, "s%d.rmeta" % i)] + (["--test"] if tests else ["--crate-type=lib"]) + [src], timeout=300)
        err = None
        if r.returncode != 0:
            err = "does not compile: " + r.stderr.decode("utf8", "replace")[:700]
        items = select_.items(text)
        for p in (src, os.path.join(d, "s%d.rmeta" % i)):
            if os.path.exists(p):
                os.unlink(p)
        return err, items

    try:
        for j, (err, items) in zip(jobs, parallel(list(enumerate(jobs)), run)):
            sel, bits, nt, tests = j
            key = "library %s %d %s%s" % (sel, bits, nt, " tests" if tests else "")
            c.seen(j, {"selection": sel, "bits": bits, "number type": nt, "tests": tests, "items": len(items or ())})
            c.count("with tests" if tests else "without tests")
            if err:
                c.violation(key, err)
                continue
            have = [n for n, _ in items]
            dup = [n for n in set(have) if have.count(n) > 1]
            if dup:
                c.violation(key, "defines %s more than once" % dup)
            missing = [n for n in sel.split(",") if n not in have and n not in select_.GROUPS and n != "pnorm"]
            if missing:
                c.violation(key, "does not define %s" % missing)
            for g in sel.split(","):
                lost = [m for m in select_.GROUPS.get(g, ()) if m not in have]
                if lost:
                    c.violation(key, "group %s does not define %s" % (g, lost))
            if not tests and any(n.startswith("test_") for n in have):
                c.violation(key, "contains tests that were not asked for")
            if tests and any(n in select_.TESTED for n in have) and not any(n.startswith("test_") and n != "test_function" for n in have):
                c.violation(key, "has no tests although they were asked for")
    finally:
        shutil.rmtree(d)
    c.minimum = 100
    return c.finish()
