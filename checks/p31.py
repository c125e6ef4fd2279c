"""P31: the command line tool keeps code, lists and messages apart."""
import os
import shutil
from common import Check, scratch, sh, parallel, build_libmgen
from gen import Failed, RUSTC
import select_

RULE = ("runs of the command line tool with random valid and invalid options (functions, languages, sizes, number types, output files, tests, debugging), watching the exit status, "
        "stdout, stderr and the files written; distinct = command line")


def main():
    c = Check("P31", RULE)
    d = scratch()
    rng = c.rng
    m = build_libmgen()

    def go(cmd, sub, before=None):
        w = os.path.join(d, sub)
        os.makedirs(w)
        if before is not None:
            with open(os.path.join(w, "out.txt"), "wb") as f:
                f.write(before)
        r = sh([m] + cmd, cwd=w)
        files = {f: open(os.path.join(w, f), "rb").read() for f in sorted(os.listdir(w))}
        c.seen(tuple(cmd), {"arguments": cmd, "exit": r.returncode, "stdout": len(r.stdout), "stderr": len(r.stderr), "files": list(files)})
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace"), files

    try:
        rc, out, err, files = go(["-f", "help"], "help")
        names = out.split()
        if rc != 0 or files or [l for l in out.splitlines() if l.strip() != l or not l.isidentifier()] or len(names) != len(set(names)):
            c.violation("help", "-f help: exit %d, files %s, output %r" % (rc, list(files), out[:200]))
        for want in list(select_.GROUPS) + select_.GROUPS["all"] + ["hypot", "runif", "nextafter", "sin_cos"]:
            if want not in names:
                c.violation("help", "-f help does not list %s" % want)
        for i, a in enumerate((["help"], ["-f", ""], [])):
            rc, out, err, files = go(a if a != ["help"] else ["--functions", "help", "--language", "rust"], "h%d" % i)
            if a == ["help"]:
                if out.split() != names:
                    c.violation("help", "--functions help differs from -f help")
            elif out or files or not err.strip():
                c.violation("no functions", "%s wrote %r, files %s and the message %r" % (a, out[:100], list(files), err[:100]))
        fns = [n for n in names if n not in ("all", "libm", "trig", "stats", "normal", "pnorm", "rnorm", "qnorm")]
        jobs = []
        for i in range(c.n(60, 600)):
            sel = [rng.choice(fns) for _ in range(rng.randrange(1, 4))]
            lang = rng.choice(["rust", "rust", "c", "portable-simd"])
            bad = rng.choice(["language", "functions", None, None])
            if lang == "portable-simd":
                sel = ["sin", rng.choice(["cos", "tan", "exp2"])]
            if lang == "c":
                sel = [rng.choice(["sin", "cos", "tan", "exp2", "recip", "sqrt", "atan", "cbrt"])]
            if bad == "language":
                lang = rng.choice(["cobol", "Rust", "RUST", "c++", "C", "fortran", "", "help", "simd"])
            if bad == "functions":
                sel += [rng.choice(["nosuchfn", "Sin", "sinn"])]
            opts = ["-f", ",".join(sel), "--language", lang, "--num-bits", str(rng.choice([32, 64])), "--number-type", rng.choice(["decimal", "hex"] if lang != "c" else ["decimal"])]
            if rng.random() < 0.3:
                opts += [rng.choice(["-d", "--debug"])]
            tests = lang == "rust" and rng.random() < 0.2
            if tests:
                opts += ["--generate-tests"]
            jobs.append((i, sel, lang, bad, opts, rng.choice(["-o", "--output", None]), rng.choice([None, b"", b"old", b"old text\n" * 20000])))

        def run(j):
            i, sel, lang, bad, opts, o, before = j
            a = go(opts, "a%d" % i)
            b = go(opts + [o, "out.txt"], "b%d" % i, before) if o else None
            comp = None
            if lang == "rust" and not a[0]:
                src = os.path.join(d, "a%d" % i, "x.rs")
                with open(src, "w") as f:
                    f.write("#![allow(warnings)]\n" + a[1])
                r = sh(RUSTC[:4] + ["--crate-type=lib", "--emit=metadata", "-o", src + "meta", src])
                comp = r.stderr.decode("utf8", "replace") if r.returncode else ""
            return a, b, comp
        for j, (a, b, comp) in zip(jobs, parallel(jobs, run)):
            i, sel, lang, bad, opts, o, before = j
            key = "run " + " ".join(opts)
            rc, out, err, files = a
            if files:
                c.violation(key, "wrote the files %s although no -o was given" % list(files))
            if bad == "language":
                c.count("unknown languages")
                if out or not err.strip():
                    c.violation(key, "unknown language: stdout %r, stderr %r" % (out[:100], err[:100]))
                if b and (b[3] != ({} if before is None else {"out.txt": before}) or b[1]):
                    c.violation(key, "unknown language: wrote %s" % list(b[3]))
                if lang != "help" and lang not in err:
                    c.violation(key, "the message does not name the language %r: %r" % (lang, err[:100]))
                if "rust" not in err and lang == "help":
                    c.violation(key, "the languages are not listed: %r" % err[:100])
                continue
            c.count("languages " + lang)
            if rc != 0:
                c.violation(key, "exit %d: %s" % (rc, err[-300:]))
                continue
            if not out.strip():
                c.violation(key, "no output")
            if comp:
                c.violation(key, "stdout is not code that compiles: %s" % comp[:300])
            if lang == "c" and "#include" not in out.lstrip()[:10]:
                c.violation(key, "stdout does not begin with C: %r" % out[:80])
            if bad == "functions":
                c.count("unknown functions")
                if sel[-1] not in err:
                    c.violation(key, "the unknown function %s is not reported: %r" % (sel[-1], err[:200]))
            if b:
                c.count("output files" if before is None else "overwritten output files")
                if b[0] != 0 or b[1] or list(b[3]) != ["out.txt"] or b[3]["out.txt"].decode("utf8", "replace") != out:
                    c.violation(key, "-o: exit %d, %d bytes on stdout, files %s, %d bytes expected" % (b[0], len(b[1]), {k: len(v) for k, v in b[3].items()}, len(out)))
    finally:
        shutil.rmtree(d)
    c.minimum = 40
    return c.finish()
