"""P41: an answer depends on the request only, not on what was asked before or elsewhere."""
import os
import random
import resource
import shutil
import subprocess
import tempfile
import time
import rexpr as X
import rprog
import common
from common import Check, HarnessError, BUILD, ENV, NPROC, VERIF, build_harness, build_libmgen, cargo_build, esc, parallel, scratch, sh

RULE = ("requests of every kind (evaluations of the same expressions to different digits, bdmath functions, transformations, polynomials, both translators, the formatter, visitors, requests that fail or panic) answered by a "
        "process of their own, by another one with another environment, with every unset variable set and the clock years ahead, in long shuffled histories with repetitions, by eight threads at once that start together (same order, or shuffled with injected delays), and by "
        "eight threads under the thread sanitizer (std instrumented too): all answers to a request must be the same bytes; libmgen likewise in different directories and environments and eight at once; "
        "distinct = (request, context, request before it)")

UNARY = ["sin", "cos", "tan", "exp", "ln", "sqrt", "asin", "acos", "atan", "log10", "log2", "erf", "erfc", "sinh", "cosh", "tanh", "asinh", "recip", "cbrt", "exp2"]
NAMES = ["x", "y", "z", "a", "b", "c"]


def expression(rng, depth, nums=True):
    def leaf(r):
        return ("name", r.choice(NAMES)) if r.random() < .6 or not nums else ("num", str(r.randrange(1, 30)))

    def method(r, sub):
        return ("call", r.choice(["sin", "f", "powf"]), sub(), [])
    return X.show(X.rand_tree(rng, depth, leaf, ops=("+", "-", "*"), unary=.1, method=method), rng)


def pool(rng, n):
    """Groups of requests that share something: an expression, a function, a program."""
    out = []
    J = "\x01"
    digits = [5, 10, 20, 30, 40, 60]
    while len(out) < n:
        k = rng.randrange(12)
        ds = rng.sample(digits, 3)
        if k == 0:
            v = "%d.%d" % (rng.randrange(0, 4), rng.randrange(1000))
            f = rng.choice(UNARY)
            out += [["eval", "(%s).%s()" % (v, f), str(d)] for d in ds]
        elif k == 1:
            e = rng.choice(["PI", "PI * 2", "std::f64::consts::E", "LN_2", "SQRT_2 + FRAC_PI_4", "(PI / 8).tan()", "1.exp().log(2)", "(0.3).qnorm(0, 1)", "(1.2).pnorm(0, 1)", "(1.5).dnorm(1, 2)",
                            "(2.5).powf(1.5)", "(0.1).round_ieee(32)", "(0.1).round_ieee(64)"])
            out += [["eval", e, str(d)] for d in ds]
        elif k == 2:
            f = rng.choice(["pi", "sqrt_two", "one_over_root_two_pi"])
            out += [["bd", f, str(d)] for d in ds]
        elif k == 3:
            f = rng.choice(["sin", "cos", "tan", "exp", "asin", "acos", "atan", "erf", "sqrt", "ln", "round"])
            v = "0.%d" % rng.randrange(1, 10000)
            out += [["bd", f, str(d), v] for d in ds]
        elif k == 4:
            e = expression(rng, 4)
            steps = rng.sample(["expand", "paren", "collect" + J + "x", "collect" + J + "y", "subst" + J + "x" + J + "y + 1" + J + "y" + J + "x", "unt" + J + "hex" + J + "32", "unt" + J + "decimal" + J + "64"], 3)
            out += [["chain", e, s] for s in steps] + [["chain", e] + steps]
        elif k == 5:
            e = rng.choice(["x.sin()", "(x * PI).cos()", "x.exp()", "(x + 2).ln()", "1 / (x * x + 1)"])
            t = rng.randrange(3, 9)
            for p in ("odd", "even", "neither"):
                out.append(["chain", e, J.join(["approx", str(t), "bff0000000000000", "3ff0000000000000", "x", p, str(rng.choice(digits))])])
        elif k == 6:
            m = rng.randrange(2, 7)
            xs = [str(i) for i in range(m)]
            ys = [str(rng.randrange(100)) for _ in range(m)]
            out += [["poly", str(d), str(m)] + xs + ys + ["0.5", "7"] for d in ds]
        elif k == 7:
            bits = rng.choice([32, 64])
            g = rprog.Gen(rng, bits, "p%d" % len(out))
            text = g.program()[1]
            out += [["c", text, "a_", "f" if bits == 32 else ""], ["c", text, "b_", "f" if bits == 32 else ""]]
        elif k == 8:
            bits = rng.choice([32, 64])
            g = rprog.VectorGen(rng, bits, "p%d" % len(out))
            text = g.program()[1]
            out += [["simd", text, str(bits)], ["fmt", text]]
        elif k == 9:
            # What fails or panics, to leave something behind.
            out += rng.choice([[["op", "1", "0", "/"], ["op", "1", "4", "/"]], [["eval", "x + 1", "20"]], [["eval", "1 / 0", "20"]], [["eval", "(-2).ln()", "20"], ["eval", "(2).ln()", "20"]],
                               [["parse", "1 +"]], [["conv", "f64", "7ff8000000000000"], ["conv", "f64", "3ff8000000000000"]], [["chain", "x / y", "expand"]], [["bd", "ln", "20", "-1"]],
                               [["eval", "|x| 1", "20"]], [["chain", "x", "approx" + J + "4" + J + "3ff0000000000000" + J + "bff0000000000000" + J + "x" + J + "odd" + J + "20"]]])
        elif k == 10:
            e = expression(rng, 3)
            out += [["visit", e, m] for m in ("clone", "log", "replace", "call")] + [["show", e]]
        else:
            e = expression(rng, 2)
            out += [["vars", "x", "x", e, "y", "1", "x", "2"], ["op", e, "2", "+", "3", "*"], ["eq", e, e, "x", "y"]]
    out = out[:n - 2] + [["op", "1", "0", "/"], ["eval", "x + 1", "20"]]
    rng.shuffle(out)
    return out


def lines(reqs):
    return ["\t".join(esc(f) for f in r) for r in reqs]


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def launch(binary, d, data, env, timeout=400):
    """Run the server on some input; its exit status, output, messages, or None and the seconds of CPU when it did not end."""
    fd, path = tempfile.mkstemp(dir=d)
    os.close(fd)
    e = dict(env)
    e["VH_OUT"] = path
    err = tempfile.TemporaryFile()
    stdin = tempfile.TemporaryFile()
    stdin.write(data.encode())
    stdin.seek(0)
    p = subprocess.Popen([binary], stdin=stdin, stdout=subprocess.DEVNULL, stderr=err, env=e, preexec_fn=limits, cwd=d)
    try:
        rc = p.wait(timeout)
        cpu = None
    except subprocess.TimeoutExpired:
        cpu = common._cpu(p.pid)
        p.kill()
        p.wait()
        rc = None
    with open(path) as f:
        out = f.read().split("\n")[:-1]
    os.unlink(path)
    err.seek(0)
    return rc, out, err.read().decode("utf8", "replace"), cpu


class Run:
    def __init__(self, c, d, reqs):
        self.c, self.d, self.reqs, self.lines = c, d, reqs, lines(reqs)
        self.binary = build_harness()

    def fresh(self, env):
        def one(line):
            rc, out, _, cpu = launch(self.binary, self.d, line + "\n", env, 120)
            return out[0] if out else "crash" if rc is not None else "hang"
        return parallel(self.lines, one)

    def same(self, i, answer, context, before):
        c = self.c
        c.count("answers compared")
        c.count("answers " + context)
        c.seen((self.reqs[i], context, before), {"request": [x[:80] for x in self.reqs[i]], "context": context, "after": before, "answer": answer[:80]})
        if answer != self.ref[i]:
            c.violation("%s:%s" % (context, self.reqs[i][0]), "%s: %s answered %r, and %r in a process of its own" % (context, self.reqs[i], answer[:300], self.ref[i][:300]),
                        {"request": self.reqs[i], "context": context, "answer": answer, "reference": self.ref[i], "before": before})

    def history(self, order):
        rc, out, _, cpu = launch(self.binary, self.d, "".join(self.lines[i] + "\n" for i in order), ENV)
        if not self.ended(rc, cpu, "history", len(out) == len(order)):
            return
        for k, i in enumerate(order):
            self.same(i, out[k], "in a history", self.reqs[order[k - 1]] if k else None)

    def ended(self, rc, cpu, what, complete):
        if rc is None:
            if cpu < 20:
                self.c.violation("%s:deadlock" % what, "%s: the process stood still" % what)
            else:
                raise HarnessError("%s took too long; inconclusive" % what)
            return False
        if not complete:
            self.c.violation("%s:crash" % what, "%s: the process ended with %s before it had answered" % (what, rc))
            return False
        return True

    def threads(self, orders, delays, what, binary=None, env=ENV):
        n = len(orders)
        data = "".join("%d\t%d\t%s\n" % (t, delays[t][k], self.lines[i]) for t in range(n) for k, i in enumerate(orders[t]))
        e = dict(env)
        e["VH_THREADS"] = str(n)
        rc, out, err, cpu = launch(binary or self.binary, self.d, data, e)
        if "WARNING: ThreadSanitizer" in err:
            self.c.violation("race", "%s: %s" % (what, err[:1500]), {"report": err[:20000]})
        if not self.ended(rc, cpu, what, len(out) == sum(map(len, orders))):
            return
        spans = []
        at = [0] * n
        for ln in out:
            t, a, b, text = ln.split("\t", 3)
            t = int(t)
            i = orders[t][at[t]]
            self.same(i, text, what, self.reqs[orders[t][at[t] - 1]][:2] if at[t] else None)
            at[t] += 1
            spans.append((int(a), int(b), t, i))
        # Which answers were under way at the same time.
        spans.sort()
        active = []
        for a, b, t, i in spans:
            active = [s for s in active if s[1] > a]
            for s in active:
                self.c.count("overlapping answers")
                self.pairs.add((min(i, s[3]), max(i, s[3])))
            active.append((a, b, t, i))


def build_tsan():
    t = os.path.join(BUILD, "tsan")
    env = dict(ENV)
    env.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=thread")
    r = sh(["cargo", "build", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
            "--target-dir", t], timeout=800, env=env)
    if r.returncode != 0:
        raise HarnessError("the build with the thread sanitizer failed:\n" + r.stderr.decode("utf8", "replace")[-3000:])
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "vharness")


def world(d):
    """A library to preload: variables that are not set have a value, and it is another year."""
    so = os.path.join(d, "world.so")
    r = sh(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "lib", "world.c")])
    if r.returncode != 0:
        raise HarnessError(r.stderr.decode())
    return so


def tool(c, d, so):
    """libmgen, in other places and next to itself."""
    m = build_libmgen()
    rng = c.rng
    sel = ["sin", "libm", "exp,ln", "tan,qnorm", "stats_norm", "hyperbolic", "cbrt,hypot,recip"]
    opts = [[], ["--num-bits", "32"], ["--number-type", "hex"], ["--language", "c"], ["--language", "portable-simd", "--num-bits", "32"], ["--generate-tests"]]
    cases = [["-f", rng.choice(sel)] + rng.choice(opts) for _ in range(c.n(8, 40))]
    for i, args in enumerate(cases):
        here = os.path.join(d, "cwd%d" % i)
        os.makedirs(here)
        path = ENV.get("PATH", "")
        envs = [ENV, {}, {"PATH": path, "LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE.UTF-8", "TZ": "Asia/Kathmandu", "COLUMNS": "20"}, dict(ENV, RUST_LOG="trace", HOME="/nonexistent", NUM_BITS="32", TERM="dumb", RUST_BACKTRACE="1"),
                dict(ENV, USER="nobody", TMPDIR="/nonexistent", NO_COLOR="1", CARGO="x"), dict(ENV, LD_PRELOAD=so, V_WORLD=rng.choice(["32", "1", "c", "true"])), ENV, dict(ENV, LD_PRELOAD=so, V_WORLD="0")]
        cwds = [d, here, "/", here, d, d, here, here]
        outs = parallel(list(range(8)), lambda k: subprocess.run([m] + args, env=envs[k], cwd=cwds[k], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300))
        for k, o in enumerate(outs):
            c.count("libmgen runs")
            c.seen(("libmgen", args, k), {"libmgen": args})
            if (o.returncode, o.stdout, o.stderr) != (outs[0].returncode, outs[0].stdout, outs[0].stderr):
                c.violation("libmgen:environment", "libmgen %s writes something else in another directory, in another environment or next to itself" % args, {"args": args, "case": k})
        if os.listdir(here):
            c.violation("libmgen:files", "libmgen %s leaves %s in the current directory" % (args, os.listdir(here)))
        os.rmdir(here)


def main():
    c = Check("P41", RULE)
    d = scratch()
    try:
        rng = c.rng
        reqs = pool(rng, c.n(400, 2500))
        r = Run(c, d, reqs)
        r.pairs = set()
        r.ref = r.fresh(ENV)
        for i, a in enumerate(r.ref):
            c.count("answers that are " + a.split("\t")[0])
            if a.startswith("err\tHARNESS") and not a.startswith("err\tHARNESS parse:") or a in ("crash", "hang"):
                raise HarnessError("%s: %s" % (reqs[i], a[:200]))
        env = {"PATH": ENV.get("PATH", ""), "LANG": "tr_TR.UTF-8", "TZ": "Asia/Kathmandu", "RUST_BACKTRACE": "1", "X": "y" * rng.randrange(5000)}
        for i, a in enumerate(r.fresh(env)):
            r.same(i, a, "in another process", None)
        so = world(d)
        for v in ("1", "50"):
            _, out, _, _ = launch(r.binary, d, "world\tNO_SUCH_VARIABLE\n", dict(ENV, LD_PRELOAD=so, V_WORLD=v))
            if out[0].split("\t")[:2] != ["ok", v] or int(out[0].split("\t")[2]) < time.time() + 1e8:
                raise HarnessError("the variables and the clock are not replaced: %s" % out)
            for i, a in enumerate(r.fresh(dict(ENV, LD_PRELOAD=so, V_WORLD=v))):
                r.same(i, a, "with other variables and another clock", v)
        everything = list(range(len(reqs)))

        def shuffled(k=None):
            o = everything if k is None else [rng.choice(everything) for _ in range(k)]
            return rng.sample(o, len(o))
        orders = [shuffled() + shuffled() for _ in range(c.n(6, 16))] + [sorted(everything, key=lambda i: (reqs[i][0], reqs[i][1], -len(reqs[i][-1]), reqs[i][-1]), reverse=bool(v)) for v in range(2)]
        parallel(orders, r.history)
        for k in range(c.n(24, 200)):
            if k % 3 == 0:
                o = shuffled(25)
                orders = [o] * 8
            else:
                orders = [shuffled(25) for _ in range(8)]
            delays = [[rng.choice([0, 0, 0, 1, 20, 300]) if k % 2 else 0 for _ in o] for o in orders]
            r.threads(orders, delays, "next to other threads")
        tsan = build_tsan()
        env = dict(ENV, TSAN_OPTIONS="exitcode=0 halt_on_error=0")
        rc, out, err, cpu = launch(tsan, d, "", dict(env, VH_THREADS="race"))
        if "WARNING: ThreadSanitizer: data race" not in err:
            raise HarnessError("the thread sanitizer does not see a race that is there")
        c.count("deliberate races that the thread sanitizer reports")
        for k in range(c.n(4, 40)):
            orders = [shuffled(20)] * 4 + [shuffled(20) for _ in range(4)]
            r.threads(orders, [[rng.choice([0, 0, 1, 100]) for _ in o] for o in orders], "under the thread sanitizer", tsan, env)
        c.count("distinct pairs of requests answered at the same time", len(r.pairs))
        tool(c, d, so)
        c.assumptions.append("the answers of a process of its own are the reference; whether they are right is for the other properties")
        c.need("answers next to other threads", 3000)
        c.need("answers under the thread sanitizer", 400)
        c.need("overlapping answers", 3000)
        c.need("answers that are err", 5)
        c.need("answers that are panic", 1)
        c.minimum = 3000
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)
