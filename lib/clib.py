"""Compiled C libraries from libmgen, called like gen.Library."""
import os
import numpy as np
from common import sh
from gen import Failed, FT, UT, generate, run

TYPES = {32: {"fty": "float", "uty": "unsigned int", "ity": "int", "usize": "unsigned long"},
         64: {"fty": "double", "uty": "unsigned long long", "ity": "long long", "usize": "unsigned long"}}

MAIN = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
static sigjmp_buf V_jmp;
static void V_trap(int s) { (void)s; siglongjmp(V_jmp, 1); }
static V_FTY V_f(unsigned long long w) { V_FTY x; V_UTY b = (V_UTY)w; memcpy(&x, &b, sizeof x); return x; }
static unsigned long long V_w(V_FTY x) { V_UTY b; memcpy(&b, &x, sizeof x); return b; }
int main(int argc, char **argv) {
    size_t len = 0, cap = 1 << 20;
    char *raw = malloc(cap);
    for (size_t k; (k = fread(raw + len, 1, cap - len, stdin)) > 0;) {
        len += k;
        if (len == cap) raw = realloc(raw, cap *= 2);
    }
    unsigned long long *v = (unsigned long long *)raw;
    volatile size_t i = 0;
    size_t n = len / 8;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = V_trap;
    sa.sa_flags = SA_NODEFER;
    if (getenv("V_TRAPS")) { sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0); }
    const char *which = argc > 1 ? argv[1] : "";
%s
    { fprintf(stderr, "no function %%s\n", which); return 9; }
    free(raw);
    return 0;
}
"""


def driver(sigs, bits):
    t = TYPES[bits]
    conv = {"fty": "V_f(v[i + %d])", "ity": "(" + t["ity"] + ")v[i + %d]", "uty": "(" + t["uty"] + ")v[i + %d]", "usize": "(unsigned long)v[i + %d]"}
    arms = []
    for name, (args, ret) in sorted(sigs.items()):
        n = max(1, len(args))
        call = "ds%d_%s(%s)" % (bits, name, ", ".join(conv[a] % i for i, a in enumerate(args)))
        val = "V_w(%s)" % call if ret == "fty" else "(unsigned long long)(%s)" % call
        arms.append('    if (!strcmp(which, "%s")) for (; i + %d < n; i += %d) { unsigned long long o[2] = {1, 0}; '
                    'if (sigsetjmp(V_jmp, 0)) { o[0] = 0; o[1] = 0; } else o[1] = %s; fwrite(o, 8, 2, stdout); } else' % (name, n - 1, n, val))
    return "#define V_FTY %s\n#define V_UTY %s\n" % (t["fty"], t["uty"]) + MAIN % "\n".join(arms)


class CLibrary:
    """A generated C library. With traps, a call that casts out of range or otherwise leaves C's domain is noticed."""

    def __init__(self, text, sigs, bits, d, name, flags=(), traps=False):
        self.bits, self.text, self.traps = bits, text, traps
        self.sigs = {k: v for k, v in sigs.items() if v[1] == "fty" or v[1] in ("ity", "uty")}
        src, self.binary = os.path.join(d, name + ".c"), os.path.join(d, name)
        with open(src, "w") as f:
            f.write(text + "\n" + driver(self.sigs, bits))
        r = sh(["gcc", "-std=gnu11", "-w", "-fno-builtin", "-frounding-math"] + list(flags) + ["-o", self.binary, src, "-lm"], timeout=600)
        if r.returncode != 0:
            raise Failed("the generated C does not compile: " + r.stderr.decode("utf8", "replace")[:1500])

    def raw(self, name, words):
        os.environ.pop("V_TRAPS", None)
        import common
        env = common.ENV
        if self.traps:
            env["V_TRAPS"] = "1"
        try:
            r = run(self.binary, name, words.tobytes())
        finally:
            env.pop("V_TRAPS", None)
        o = np.frombuffer(r, dtype=np.uint64)
        if len(o) != 2 * len(words):
            raise Failed("%s returned %d results for %d arguments" % (name, len(o) // 2, len(words)))
        return o[0::2] == 1, o[1::2]

    def words(self, name, args):
        want, ret = self.sigs[name]
        n = len(args[0])
        words = np.zeros((n, max(1, len(args))), dtype=np.uint64)
        for i, (a, t) in enumerate(zip(args, want)):
            if t == "fty":
                words[:, i] = np.asarray(a, dtype=FT[self.bits]).view(UT[self.bits])
            else:
                words[:, i] = np.asarray(a).astype(np.int64).view(np.uint64)
        return words

    def call(self, name, *args):
        if name not in self.sigs:
            raise Failed("the library has no function " + name)
        ok, o = self.raw(name, self.words(name, args))
        return o.astype(UT[self.bits]).view(FT[self.bits])
