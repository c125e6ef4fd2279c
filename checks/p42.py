"""P42: what libmgen writes arrives in full, or its exit status says that it did not."""
import errno
import os
import shutil
import subprocess
from common import Check, ENV, HarnessError, VERIF, build_libmgen, parallel, scratch, sh

RULE = ("libmgen writing code in every language, and lists, to a pipe, to a file on its standard output and to -o FILE (new, or there and longer or shorter), with faults put into write() by a preloaded library: writes "
        "that take a part only and are interrupted (everything must arrive), and devices that fail for good after any number of bytes (the exit status must not be 0, and what arrived be the start of the text); also "
        "closed pipes, size limits, and paths that cannot be written; distinct = (options, destination, fault)")

DEST = ["pipe", "stdout", "new", "longer", "shorter", "empty"]


class Tool:
    def __init__(self, c, d):
        self.c, self.d, self.m = c, d, build_libmgen()
        self.so = os.path.join(d, "faults.so")
        r = sh(["gcc", "-shared", "-fPIC", "-O1", "-o", self.so, os.path.join(VERIF, "lib", "faults.c")])
        if r.returncode != 0:
            raise HarnessError(r.stderr.decode())
        self.n = 0

    def run(self, args, dest, want, fault, k):
        """Exit status, what arrived, messages, the log of faults."""
        d = os.path.join(self.d, "r%d" % k)
        os.makedirs(d)
        try:
            env = dict(ENV, LD_PRELOAD=self.so, V_LOG=os.path.join(d, "log"))
            if fault:
                env["V_FAULT"] = fault
            path = os.path.join(d, "out")
            args = list(args)
            old = {"longer": want + b"// the old end\n" * 500, "shorter": b"// old\n", "empty": b""}.get(dest)
            if old is not None:
                open(path, "wb").write(old)
            out = subprocess.PIPE
            if dest == "stdout":
                out = open(path, "wb")
            elif dest != "pipe":
                args += ["-o", path]
            p = subprocess.run([self.m] + args, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, env=env, cwd=d, timeout=300)
            arrived = p.stdout if dest == "pipe" else open(path, "rb").read() if os.path.exists(path) else None
            loud = bool(p.stdout) and dest != "pipe"
            log = open(env["V_LOG"]).read().split() if os.path.exists(env["V_LOG"]) else []
            extra = sorted(set(os.listdir(d)) - {"out", "log"})
            return p.returncode, arrived, p.stderr.decode("utf8", "replace"), log, loud, extra
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    c = Check("P42", RULE)
    d = scratch()
    try:
        t = Tool(c, d)
        rng = c.rng
        cases = [["-f", "help"], ["-f", "round"], ["-f", "sin,cos"], ["-f", "logexp"], ["-f", "recip_sqrt", "--debug"], ["-f", "hypot,recip,sqrt", "--generate-tests"], ["-f", "sinh", "--generate-tests"], ["-f", "exp", "--language", "c"], ["-f", "tan", "--language", "portable-simd", "--num-bits", "32"],
                 ["-f", "qnorm,dnorm", "--number-type", "hex"], ["-f", "PI", "--num-bits", "32", "--language", "c"]]
        jobs = []
        for args in cases:
            r = subprocess.run([t.m] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=300)
            want = r.stdout
            if r.returncode or not want:
                raise HarnessError("libmgen %s exits with %d" % (args, r.returncode))
            for dest in (DEST[:2] if args == ["-f", "help"] else DEST):
                jobs.append((args, dest, want, None))
                for _ in range(c.n(2, 8)):
                    jobs.append((args, dest, want, "short:%d" % rng.randrange(1 << 30)))
                n = len(want)
                at = {0, 1, n - 1, n // 2, min(n - 1, 1023), min(n - 1, 1024), min(n - 1, 8192)} | {rng.randrange(n) for _ in range(c.n(3, 30))}
                # The last bytes are those that a buffer keeps.
                if n > 50000:
                    if dest not in ("pipe", "new"):
                        continue
                    at = {0, 65536, n - 1}
                at |= {max(0, n - rng.randrange(1, 60)) for _ in range(2)}
                for k in sorted(at):
                    jobs.append((args, dest, want, "fail:%d:%d" % (rng.choice([errno.ENOSPC, errno.EIO, errno.EPIPE, errno.EDQUOT, errno.EFBIG]), k)))

        def one(k):
            args, dest, want, fault = jobs[k]
            return t.run(args, dest, want, fault, k)
        for (args, dest, want, fault), (rc, arrived, err, log, loud, extra) in zip(jobs, parallel(list(range(len(jobs))), one)):
            what = "libmgen %s to %s with %s" % (" ".join(args), dest, fault or "no fault")
            detail = {"args": args, "destination": dest, "fault": fault, "status": rc, "arrived": len(arrived or b""), "wanted": len(want), "stderr": err[:500]}
            kind = (fault or "none").split(":")[0]
            c.seen((args, dest, fault), detail)
            c.count("runs with fault %s" % kind)
            for x in log:
                c.count("writes " + x)
            if loud:
                c.violation("stdout", "%s: writes to stdout as well" % what, detail)
            if extra:
                c.violation("files", "%s: leaves %s" % (what, extra), detail)
            if kind == "fail":
                if not log:
                    raise HarnessError("%s: the faults are not in place" % what)
                if "failed" not in log:
                    c.violation("unfinished", "%s: no write failed, so the end of the text was never written" % what, detail)
                if rc == 0:
                    c.violation("silent:" + dest, "%s: only %d of %d bytes arrived and the exit status is 0" % (what, len(arrived or b""), len(want)), detail)
                elif not err.strip():
                    c.violation("mute:" + dest, "%s: fails without a message" % what, detail)
                if arrived is not None and not want.startswith(arrived) and arrived != want:
                    c.violation("garbled:" + dest, "%s: what arrived is not the start of the text" % what, detail)
            else:
                if rc != 0 or arrived != want:
                    c.violation("incomplete:" + dest, "%s: status %d, %d bytes arrived where the text has %d" % (what, rc, len(arrived or b""), len(want)), detail)
        devices(c, t, cases[1:])
        c.need("writes short", 500)
        c.need("writes interrupted", 200)
        c.need("writes failed", 200)
        c.minimum = 500
        c.assumptions.append("a closed standard output (rather than a full or broken one) is /dev/null to a Rust program and no failure")
        return c.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def devices(c, t, cases):
    """Real destinations that cannot take the text."""
    d = os.path.join(t.d, "devices")
    os.makedirs(os.path.join(d, "dir"))
    open(os.path.join(d, "file"), "w").write("kept")
    for args in cases:
        want = len(subprocess.run([t.m] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV).stdout)
        tries = [("no such directory", args + ["-o", os.path.join(d, "none", "out")], None), ("a directory", args + ["-o", os.path.join(d, "dir")], None),
                 ("below a file", args + ["-o", os.path.join(d, "file", "out")], None), ("a long name", args + ["-o", os.path.join(d, "x" * 300)], None),
                 ("size limit of stdout", args, "stdout"), ("closed pipe", args, "pipe"), ("size limit", args + ["-o", os.path.join(d, "limited")], "limit")]
        for what, a, how in tries:
            out = subprocess.PIPE
            cmd = [t.m] + a
            # No path is ever named outside of the scratch directory: code under test may rename or remove what it is given.
            if how == "stdout":
                out = open(os.path.join(t.d, "stdout"), "wb")
                cmd = ["sh", "-c", 'trap "" XFSZ; ulimit -f 0; exec "$0" "$@"'] + cmd
            elif how == "pipe":
                r, w = os.pipe()
                os.close(r)
                out = os.fdopen(w, "wb")
            elif how == "limit":
                # In the blocks of sh, 512 bytes: half of the text at most.
                cmd = ["sh", "-c", 'trap "" XFSZ; ulimit -f %d; exec "$0" "$@"' % (want // 1024)] + cmd
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, env=ENV, cwd=d, timeout=300)
            c.count("destinations that cannot take the text")
            c.seen((args, what), {"args": args, "destination": what, "status": p.returncode})
            if p.returncode == 0:
                c.violation("silent:" + what, "libmgen %s: the exit status is 0 although the text cannot be written" % " ".join(a), {"args": a})
            elif not p.stderr.strip() and p.returncode > 0:
                c.violation("mute:" + what, "libmgen %s: fails without a message" % " ".join(a), {"args": a})
            if p.stdout:
                c.violation("stdout:" + what, "libmgen %s: writes to stdout instead" % " ".join(a), {"args": a})
            if os.path.exists(os.path.join(d, "limited")):
                os.unlink(os.path.join(d, "limited"))
        if open(os.path.join(d, "file")).read() != "kept" or sorted(os.listdir(d)) != ["dir", "file"] or os.listdir(os.path.join(d, "dir")):
            c.violation("files", "libmgen %s: a write that failed left or changed other files: %s" % (args, os.listdir(d)))
