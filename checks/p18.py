"""P18: a selection is the union of its parts; exclusion removes exactly what it says."""
import os
import shutil
from common import Check, scratch, sh, parallel, build_libmgen
from gen import generate, Failed
import select_

RULE = ("random selections of functions and groups, with repetitions, orders, unknown names and exclusions, in both sizes and number types, compared item by item with the generator's own "
        "output for the single functions; distinct = (selection, exclusion, size, number type)")


def closure(dep, roots, excluded=()):
    out, todo = set(), [r for r in roots]
    while todo:
        n = todo.pop()
        if n in excluded or n in out or n not in dep:
            continue
        out.add(n)
        todo += dep[n]
    return out


def near(rng, name, known):
    """A name that differs from this one in a little and is no function."""
    while True:
        n = rng.choice([name.swapcase(), name.capitalize(), name.upper(), name.lower(), name[:-1], name[1:], name + "s", name + "_", "_" + name, name + "2", name + name, name[::-1], "f_" + name, "core::" + name])
        if n and n not in known:
            return n


def main():
    c = Check("P18", RULE)
    d = scratch()
    rng = c.rng
    try:
        names = select_.names()
    except Failed as e:
        c.violation("help", str(e))
        return c.finish()
    modes = [(32, "decimal"), (64, "decimal"), (32, "hex"), (64, "hex")]
    if not c.thorough:
        modes = [(32, rng.choice(["decimal", "hex"])), (64, rng.choice(["decimal", "hex"]))]

    def single(j):
        n, (bits, nt) = j
        try:
            return select_.items(generate(n, bits, nt))
        except Failed as e:
            return e
    try:
        for mode in modes:
            one = dict(zip(names, parallel([(n, mode) for n in names], single)))
            bad = [n for n in names if isinstance(one[n], Failed)]
            for n in bad:
                c.violation("generate %s" % n, str(one[n]))
            if bad:
                continue
            # An item has one text, whatever is selected with it.
            text = {}
            for n in names:
                for item, t in one[n]:
                    if text.setdefault(item, t) != t:
                        c.violation("text %s %d" % (item, mode[0]), "%s is different when %s is selected: %s and %s" % (item, n, text[item][:200], t[:200]))
            order = [i for i, _ in one["all"]]
            deps = {n: [i for i, _ in one[n] if i != n] for n in names}
            jobs = []
            for k in range(c.n(120, 1500)):
                sel = [rng.choice(names) for _ in range(rng.randrange(1, 6))]
                ex, unknown = [], []
                what = rng.randrange(6)
                if what == 1:
                    sel = sel + [rng.choice(sel)]
                    rng.shuffle(sel)
                if what == 2:
                    unknown = [rng.choice(["nosuch", "Sin", "sin2", "e", "SIN", "", "sin "])]
                    sel.insert(rng.randrange(len(sel) + 1), unknown[0])
                if what == 4:
                    unknown = [near(rng, rng.choice(sel), names)]
                    sel.insert(rng.randrange(len(sel) + 1), unknown[0])
                if what == 5:
                    # Exclusions of what does not exist.
                    pool = sorted(set(i for s in sel for i in deps.get(s, [])) | set(sel))
                    ex = [near(rng, i, set(text) | set(names)) for i in rng.sample(pool, min(len(pool), rng.randrange(1, 5)))]
                if what == 3:
                    pool = sorted(set(i for s in sel for i in deps.get(s, [])) | set(sel))
                    ex = rng.sample(pool, min(len(pool), rng.randrange(1, 3))) + ([rng.choice(names)] if rng.random() < 0.3 else [])
                jobs.append((sel, ex, unknown, mode, rng.random() < 0.3))

            def run(a):
                i, (sel, ex, unknown, (bits, nt), tofile) = a
                if not any(sel) or sel == [""]:
                    return None
                cmd = [build_libmgen(), "-f", ",".join(sel), "--num-bits", str(bits), "--number-type", nt]
                if ex:
                    cmd += ["-x", ",".join(ex)]
                r = sh(cmd)
                f = None
                if tofile:
                    p = os.path.join(d, "f%d" % i)
                    r2 = sh(cmd + ["-o", p])
                    f = (r2.returncode, r2.stdout, open(p, "rb").read() if os.path.exists(p) else None)
                return r.returncode, r.stdout, r.stderr.decode("utf8", "replace"), f
            for j, r in zip(jobs, parallel(list(enumerate(jobs)), run)):
                if r is None:
                    continue
                sel, ex, unknown, (bits, nt), tofile = j
                key = "select %s -x %s" % (",".join(sel), ",".join(ex))
                rc, raw, err, f = r
                out = raw.decode("utf8", "replace")
                got = select_.items(out)
                have = [n for n, _ in got]
                c.seen((tuple(sel), tuple(ex), bits, nt), {"selection": sel, "exclude": ex, "bits": bits, "items": have})
                c.count("with exclusions" if ex else "with unknown names" if unknown else "plain")
                if rc != 0:
                    c.violation(key, "exited with %d: %s" % (rc, err[-300:]))
                    continue
                for n, t in got:
                    if n in text and text[n] != t:
                        c.violation(key, "%s is not the text it has alone: %s instead of %s" % (n, t[:200], text[n][:200]))
                if len(have) != len(set(have)):
                    c.violation(key, "items are repeated: %s" % have)
                real = [s for s in sel if s in names]
                if not ex:
                    want = set(i for s in real for i, _ in one[s])
                    if set(have) != want:
                        c.violation(key, "generated %s and not %s besides the union of the parts" % (sorted(set(have) - want), sorted(want - set(have))))
                else:
                    left = set(have) & set(ex)
                    if left:
                        c.violation(key, "excluded but generated: %s" % sorted(left))
                    full = set(i for s in real for i, _ in one[s])
                    if not set(have) <= full:
                        c.violation(key, "exclusion added %s" % sorted(set(have) - full))
                    if not set(ex) & (set(text) | set(names)) and set(have) != full:
                        c.violation(key, "excluding %s, which do not exist, removed %s" % (ex, sorted(full - set(have))))
                    # What no excluded function needs must stay.
                    for s in real:
                        if s in ex:
                            continue
                        if not (set(i for i, _ in one[s]) & set(ex)) and not [g for g in ex if g in select_.GROUPS]:
                            lost = set(i for i, _ in one[s]) - set(have)
                            if lost:
                                c.violation(key, "excluding %s removed %s, which %s needs" % (ex, sorted(lost), s))
                        elif s not in select_.GROUPS and s not in have and s != "pnorm":
                            c.violation(key, "excluding %s removed %s" % (ex, s))
                        if s in select_.GROUPS and not [g for g in ex if g in select_.GROUPS]:
                            lost = [m for m in select_.GROUPS[s] if m not in ex and m not in have]
                            if lost:
                                c.violation(key, "excluding %s removed %s of the group %s" % (ex, lost, s))
                pos = {n: i for i, n in enumerate(order)}
                known = [pos[n] for n in have if n in pos]
                if known != sorted(known):
                    c.violation(key, "the order of the items depends on the selection: %s" % have)
                for u in unknown:
                    if u.strip() and ("%s not found" % u) not in err:
                        c.violation(key, "the unknown function %r is not reported: %r" % (u, err[-200:]))
                if f and f != (0, b"", raw):
                    c.violation(key, "-o wrote something else than the standard output (exit %d, %d bytes on stdout, file %s)" % (f[0], len(f[1]), f[2] and len(f[2])))
                if c.rng.random() < 0.1 and sh([build_libmgen(), "-f", ",".join(sel), "--num-bits", str(bits), "--number-type", nt] + (["-x", ",".join(ex)] if ex else [])).stdout != raw:
                    c.violation(key, "two runs differ")
    finally:
        shutil.rmtree(d)
    c.minimum = 50
    return c.finish()
