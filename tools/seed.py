#!/usr/bin/env python3
"""Plants bugs: python3 tools/seed.py BATCH.py [-j N] [ids...]

BATCH.py defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], needs, breaks, kind, args, demo).
Each bug is applied to a private copy of /repo, mounted over /repo in a mount namespace of its own, built and
tested there, demonstrated with and without the change, and shown to its property's check.
A bug that qualifies is written to /verif/seeded/<id>/ and its outcome to /tmp/ws/results/<id>.json.
"""
import json, os, re, runpy, shutil, subprocess, sys, threading, queue

BASE = "f4633ec"
WS = "/tmp/ws"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIB = """#!/bin/bash
# {title}
# Builds a small program against the library in /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vdemo-{id}
mkdir -p /tmp/vdemo-{id}/src
cd /tmp/vdemo-{id} || exit 3
cp "$here/main.rs" src/main.rs
cp "$here/Cargo.lock" .
printf '[package]\\nname = "vharness"\\nversion = "0.1.0"\\nedition = "2018"\\n[workspace]\\n[dependencies]\\ndoctor-syn = {{ path = "/repo/doctor-syn" }}\\n' > Cargo.toml
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline --quiet || exit 2
timeout 200 ./target/debug/vharness
rc=$?
cd /
rm -rf /tmp/vdemo-{id}
exit $rc
"""
GEN = """#!/bin/bash
# {title}
# Generates a library with the built libmgen, compiles it with main.rs and runs it.
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vdemo-{id}
mkdir -p /tmp/vdemo-{id}
cd /tmp/vdemo-{id} || exit 3
/repo/target/debug/libmgen {args} -o lib.rs || exit 3
cat lib.rs "$here/main.rs" > t.rs
RUSTUP_TOOLCHAIN=stable rustc --edition 2021 -A warnings -O -o t t.rs || exit 2
timeout 200 ./t
rc=$?
cd /
rm -rf /tmp/vdemo-{id}
exit $rc
"""
SH = """#!/bin/bash
# {title}
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vdemo-{id}
mkdir -p /tmp/vdemo-{id}
cd /tmp/vdemo-{id} || exit 3
libmgen=/repo/target/debug/libmgen
export RUSTUP_TOOLCHAIN=stable
(
{body}
)
rc=$?
cd /
rm -rf /tmp/vdemo-{id}
exit $rc
"""


def sh(c, timeout=1500, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, **k)


def write_demo(bug, d):
    os.makedirs(d, exist_ok=True)
    t = dict(id=bug["id"], title=bug["breaks"].replace("\n", " "), args=bug.get("args", ""), body=bug.get("demo", ""))
    kind = bug["kind"]
    with open(d + "/demo.sh", "w") as f:
        f.write({"lib": LIB, "gen": GEN, "sh": SH}[kind].format(**t))
    os.chmod(d + "/demo.sh", 0o755)
    if kind != "sh":
        with open(d + "/main.rs", "w") as f:
            f.write(bug["demo"])
    if kind == "lib":
        shutil.copy(VERIF + "/harness/Cargo.lock", d + "/Cargo.lock")
    for name, text in bug.get("files", {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
        f.write("\n")


def inside(spec):
    """Runs in the namespace, /repo and /verif being private copies."""
    bug = json.load(open(spec))
    r = {"id": bug["id"], "prop": bug["prop"]}
    d = "/tmp/ws/out/" + bug["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    write_demo(bug, d)
    sh("git -C /repo checkout -q -- .")
    try:
        for f, old, new in bug["edits"]:
            p = "/repo/" + f
            s = open(p).read()
            if s.count(old) != 1:
                r["error"] = "%d matches in %s of %r" % (s.count(old), f, old)
                return r
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff -U2").stdout
        open(d + "/patch.diff", "w").write(diff)
        # every removed line is the original's
        f = None
        for l in diff.splitlines():
            m = re.match(r"--- a/(.*)", l)
            if m:
                f = m.group(1)
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)) - 1
                continue
            if f is None or l.startswith(("diff", "index", "---", "+++", "+")):
                continue
            n += 1
            if l.startswith("-"):
                b = sh(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", f]).stdout
                if not b.lstrip("^").startswith(BASE):
                    r["error"] = "not an original line: " + b
                    return r
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            r["error"] = "build: " + b.stdout[-3000:]
            return r
        o = "/tmp/ws/out/%s.tests.json" % bug["id"]
        sh("bash /opt/vp/test.sh " + o)
        got = json.load(open(o))
        base = json.load(open("/opt/vp/BASELINE.json"))
        r["tests_missing"] = sorted(set(base["stable"]) - set(got["passed"]))
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        x = sh("bash %s/demo.sh" % d, cwd="/repo", env=env)
        r["demo_patched"] = [x.returncode, x.stdout[-800:]]
        if not r["tests_missing"] and x.returncode not in (0,) and not bug.get("nocheck"):
            env.update(VERIF_SEED="1", VERIF_TIER="quick")
            for prop in [bug["prop"]] + bug.get("also", []):
                c = sh("cd /verif && python3-vt run.py " + prop, env=env)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                r.setdefault("check", {})[prop] = [c.returncode, v[:3], c.stdout[-1500:]]
    finally:
        sh("git -C /repo checkout -q -- .")
    sh("bash /opt/vp/build.sh")
    x = sh("bash %s/demo.sh" % d, cwd="/repo")
    r["demo_clean"] = [x.returncode, x.stdout[-800:]]
    return r


def main():
    if sys.argv[1] == "--inside":
        try:
            r = inside(sys.argv[2])
        except Exception as e:      # noqa
            import traceback
            r = {"error": traceback.format_exc()}
        json.dump(r, open(sys.argv[3], "w"), indent=1)
        return
    a = sys.argv[1:]
    jobs = 4
    if "-j" in a:
        i = a.index("-j")
        jobs = int(a[i + 1])
        del a[i:i + 2]
    bugs = runpy.run_path(a[0])["BUGS"]
    if a[1:]:
        bugs = [b for b in bugs if b["id"] in a[1:]]
    q = queue.Queue()
    for b in bugs:
        q.put(b)
    for x in ("out", "results", "spec"):
        os.makedirs(WS + "/" + x, exist_ok=True)

    def worker(k):
        w = "%s/w%d" % (WS, k)
        os.makedirs(w, exist_ok=True)
        sh("rsync -a --delete /repo/ %s/repo/ && rsync -a --delete --exclude=replays --exclude=seeded %s/ %s/verif/" % (w, VERIF, w)
           if shutil.which("rsync") else
           "rm -rf {w}/repo {w}/verif && cp -a /repo {w}/repo && cp -a {v} {w}/verif".format(w=w, v=VERIF))
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            spec, res = "%s/spec/%s.json" % (WS, b["id"]), "%s/results/%s.json" % (WS, b["id"])
            json.dump(b, open(spec, "w"))
            x = sh(["unshare", "-m", "bash", "-c",
                    "mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && "
                    "exec python3 {v}/tools/seed.py --inside {s} {r}".format(w=w, v="/verif", s=spec, r=res)], timeout=5000)
            try:
                r = json.load(open(res))
            except (OSError, ValueError):
                r = {"error": x.stdout[-2000:]}
            ok = "error" not in r and not r["tests_missing"] and r["demo_patched"][0] != 0 and r["demo_clean"][0] == 0
            print("%-22s %s" % (b["id"], "QUALIFIES" if ok else "no"), end=" ")
            if "error" in r:
                print(r["error"][-1500:])
            elif not ok:
                print("missing", r["tests_missing"], "patched", r["demo_patched"], "clean", r["demo_clean"])
            else:
                for p, c in r.get("check", {}).items():
                    print("%s %s %s" % (p, "caught" if c[0] == 1 and any("property=%s " % p in l for l in c[1]) else
                                        "MISSED(rc %d)" % c[0], c[1][:1] if c[0] == 1 else c[2][-300:]), end=" ")
                print()
                dst = VERIF + "/seeded/" + b["id"]
                shutil.rmtree(dst, ignore_errors=True)
                shutil.copytree(WS + "/out/" + b["id"], dst)
            sys.stdout.flush()

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(min(jobs, len(bugs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
