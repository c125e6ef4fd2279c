"""Shared machinery: building, talking to the harness, verdicts and evidence."""
import hashlib
import json
import os
import random
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 1)

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", LC_ALL="C.UTF-8")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class HarnessError(Exception):
    """Something is wrong with the check, not with the code under test."""


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          env=kw.pop("env", ENV), **kw)


def cargo_build(manifest, target, extra=()):
    os.makedirs(BUILD, exist_ok=True)
    lock = os.path.join(os.path.dirname(manifest), "Cargo.lock")
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", manifest, "--target-dir", target]
           + list(extra), timeout=800)
    if r.returncode != 0:
        raise HarnessError("cargo build of %s failed:\n%s" % (manifest, r.stderr.decode("utf8", "replace")[-4000:]))
    return target


_built = {}


def build_harness():
    if "h" not in _built:
        t = os.path.join(BUILD, "h")
        cargo_build(os.path.join(VERIF, "harness", "Cargo.toml"), t)
        _built["h"] = os.path.join(t, "debug", "vharness")
    return _built["h"]


def build_libmgen():
    """The real command line tool, from /repo's working tree."""
    if "m" not in _built:
        t = os.path.join(BUILD, "m")
        env_key = dict(ENV)
        env_key["CARGO_PROFILE_DEV_OPT_LEVEL"] = "2"
        env_key["CARGO_PROFILE_DEV_DEBUG"] = "false"
        r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path",
                os.path.join(REPO, "libmgen", "Cargo.toml"), "--target-dir", t], timeout=800, env=env_key)
        if r.returncode != 0:
            raise HarnessError("cargo build of libmgen failed:\n%s" % r.stderr.decode("utf8", "replace")[-4000:])
        _built["m"] = os.path.join(t, "debug", "libmgen")
    return _built["m"]


def esc(s):
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def unesc(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            i += 1
            out.append({"t": "\t", "n": "\n", "r": "\r"}.get(s[i], s[i]))
        else:
            out.append(c)
        i += 1
    return "".join(out)


class Response:
    """status: ok, err, panic, crash (the process died) or hang (CPU_LIMIT seconds of CPU)."""

    def __init__(self, status, fields):
        self.status, self.fields = status, fields

    @property
    def text(self):
        return self.fields[0] if self.fields else ""

    def __repr__(self):
        return "%s %s" % (self.status, " | ".join(self.fields)[:400])


CPU_LIMIT = 60
noise = []


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _serve(reqs, out, idxs, deadline):
    """Run the requests idxs in order, restarting the server after a crash or a hang."""
    binary = build_harness()
    pos = 0
    while pos < len(idxs):
        if time.time() > deadline:
            raise HarnessError("the workload ran out of time; inconclusive")
        rfd, wfd = os.pipe()
        env = dict(ENV)
        env["VH_OUT"] = "/proc/self/fd/%d" % wfd
        data = "".join("\t".join(esc(f) for f in reqs[i]) + "\n" for i in idxs[pos:]).encode()
        stdin = tempfile.TemporaryFile()
        stdin.write(data)
        stdin.seek(0)
        stdout = tempfile.TemporaryFile()
        p = subprocess.Popen([binary], stdin=stdin, stdout=stdout, stderr=subprocess.DEVNULL, env=env,
                             pass_fds=(wfd,), preexec_fn=_limits)
        os.close(wfd)
        stdin.close()
        buf = b""
        cpu0 = 0.0
        bad = None
        start = pos
        while True:
            r, _, _ = select.select([rfd], [], [], 1.0)
            if r:
                d = os.read(rfd, 1 << 20)
                if not d:
                    if pos < len(idxs):
                        bad = "crash"
                    break
                buf += d
                lines = buf.split(b"\n")
                buf = lines.pop()
                for ln in lines:
                    f = ln.decode("utf8", "replace").split("\t")
                    out[idxs[pos]] = Response(f[0], [unesc(x) for x in f[1:]])
                    pos += 1
                if lines:
                    cpu0 = _cpu(p.pid)
            else:
                if _cpu(p.pid) - cpu0 > CPU_LIMIT:
                    bad = "hang"
                    break
                if time.time() > deadline:
                    p.kill()
                    p.wait()
                    os.close(rfd)
                    raise HarnessError("the workload ran out of time; inconclusive")
        os.close(rfd)
        if bad == "hang":
            p.kill()
        rc = p.wait()
        stdout.seek(0)
        text = stdout.read(2000)
        stdout.close()
        if text:
            noise.append((text.decode("utf8", "replace"), [reqs[i] for i in idxs[start:start + 3]]))
        if bad:
            out[idxs[pos]] = Response(bad, ["exit %d" % rc])
            pos += 1
            if sum(1 for v in out.values() if v.status in ("hang",)) >= 3:
                # Enough to report; do not spend the whole budget hanging.
                for i in idxs[pos:]:
                    out[i] = Response("skipped", [])
                return


def rpc(reqs, budget=600):
    """Send the requests (lists of strings); returns the responses in order."""
    build_harness()
    out = {}
    n = NPROC
    deadline = time.time() + budget
    errs = []

    def work(k):
        try:
            _serve(reqs, out, list(range(k, len(reqs), n)), deadline)
        except Exception as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return [out[i] for i in range(len(reqs))]


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln.split(" ", 2)[2]
                if not rest.startswith("key="):
                    raise HarnessError("bad known finding: " + ln)
                key, desc = (rest[4:].split(" ", 1) + [""])[:2]
                known[key] = desc
    return known


class Check:
    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = load_known(prop)
        self.seen_known = {}
        self.assumptions = []
        self.inconclusive = 0
        self.minimum = 1
        self.needed = []
        noise.clear()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def seen(self, key=None, sample=None, nontrivial=True):
        """Count one observed execution; key makes it distinct."""
        self.evaluations += 1
        if nontrivial and key is not None:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                if sample is not None and (len(self.samples) < 6 or (n & (n - 1) == 0 and len(self.samples) < 24)):
                    self.samples.append(sample)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n):
        """The verdict is worth nothing unless what was counted at least n times."""
        self.needed.append((what, n))

    def maxi(self, what, v):
        v = float(v)
        self.counts[what] = max(self.counts.get(what, 0.0), v)

    def violation(self, key, message, detail=None):
        """key identifies the failing input or call site, for the known findings."""
        key = key.replace(" ", "_")
        if key in self.known:
            self.seen_known.setdefault(key, 0)
            self.seen_known[key] += 1
            return
        self.violations.append((key, message, detail))

    def answered(self, resp, req, key=None):
        """True if the request came back; a panic, crash or hang is a violation."""
        if resp.status in ("ok", "err"):
            if resp.status == "err" and resp.text.startswith("HARNESS"):
                raise HarnessError("%s for %s" % (resp.text, req))
            return True
        if resp.status == "skipped":
            self.inconclusive += 1
            return False
        self.violation(key or ("%s:%s" % (resp.status, req[0])), "%s on %s: %s" % (resp.status, req, resp.text),
                       {"request": req, "response": repr(resp)})
        return False

    def finish(self):
        if noise:
            for text, reqs in noise[:3]:
                self.violation("stdout-noise", "library wrote to stdout: %r near %s" % (text[:200], reqs[:1]),
                               {"text": text, "requests": reqs})
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule,
            "samples": self.samples,
            "observed": self.counts,
            "inconclusive": self.inconclusive,
            "known_findings_observed": self.seen_known,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, n in self.seen_known.items():
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (self.prop, key, self.known[key], n))
        for key in self.known:
            if key not in self.seen_known:
                print("note: known finding %s was not observed in this run" % key)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d inconclusive, %.1fs  %s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), self.inconclusive,
            time.time() - self.t0, json.dumps(self.counts, default=str)[:1500]))
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (key, message, detail) in enumerate(self.violations[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "key": key,
                               "message": message, "detail": detail}, f, indent=1, default=str)
                print("  %s: %s" % (key, message[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            if len(self.violations) > 5:
                print("  ... and %d more" % (len(self.violations) - 5))
            return 1
        if self.evaluations < self.minimum or len(self.distinct) < self.minimum:
            print("observed too little to decide: inconclusive")
            return 2
        for what, n in self.needed:
            if self.counts.get(what, 0) < n:
                print("observed %s only %d times, not %d: inconclusive" % (what, self.counts.get(what, 0), n))
                return 2
        return 0


def scratch():
    os.makedirs(BUILD, exist_ok=True)
    return tempfile.mkdtemp(prefix="s-%d-" % os.getpid(), dir=BUILD)


def parallel(jobs, fn, n=NPROC):
    """[fn(j) for j in jobs] on n threads."""
    out = [None] * len(jobs)
    errs = []
    it = iter(range(len(jobs)))
    lock = threading.Lock()

    def work():
        while not errs:
            with lock:
                i = next(it, None)
            if i is None:
                return
            try:
                out[i] = fn(jobs[i])
            except Exception as e:  # noqa
                errs.append(e)

    ts = [threading.Thread(target=work) for _ in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out
