D = "doctor-syn/src/"
G = "libmgen/src/"
F = G + "functions.rs"
PRE = r'''use doctor_syn::bdmath::*;
use doctor_syn::*;
#[allow(dead_code)]
fn ex(s: &str) -> Expression { s.parse::<Expression>().unwrap() }
#[allow(dead_code)]
fn flat<T: std::fmt::Display>(e: T) -> String { e.to_string().replace(' ', "") }
#[allow(dead_code)]
fn num(s: &str, d: i64) -> BigDecimal { use std::convert::TryInto; ex(s).eval(d).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn bd(s: &str) -> BigDecimal { s.parse().unwrap() }
fn main() {
%s
}
'''
def lib(id, prop, edits, needs, breaks, body):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="lib", demo=PRE % body)
def gen(id, prop, edits, needs, breaks, args, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="gen", args=args,
                demo="fn main() {\n" + body + "\n}\n", **k)
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)
def comp(sel, extra=""):
    return '$libmgen -f %s %s -o lib.rs || exit 3\nrustc --edition 2021 --crate-type lib --test -A warnings -o t lib.rs' % (sel, extra)
BM, VI, EV, T = D + "bdmath.rs", D + "visitor.rs", D + "transformation/eval.rs", D + "transformation/"




M = G + "main.rs"
W1 = "        std::fs::write(path, text.as_bytes()).unwrap();\n"
W2 = "        std::io::stdout().write_all(text.as_bytes()).unwrap();\n"
BUGS = [
shb("P42-short-write", "P42", [(M, W1, "        let mut file = std::fs::File::create(path).unwrap();\n        if file.write(text.as_bytes()).unwrap() == 0 {\n            panic!(\"nothing written\");\n        }\n")],
 "a write() of the output file that takes a part only", "the rest of the text is dropped and the exit status is 0",
 "trap '' XFSZ\n(ulimit -f 1; $libmgen -f all -o a.rs 2>/dev/null) && exit 1\nexit 0"),
shb("P42-bufwriter", "P42", [(M, W1, "        let mut file = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(path).unwrap());\n        for line in text.lines() {\n            writeln!(file, \"{}\", line).unwrap();\n        }\n")],
 "an error when the last buffer of the output file is written", "the error is lost and the exit status is 0",
 "trap '' XFSZ\n(ulimit -f 0; $libmgen -f sin -o a.rs 2>/dev/null) && exit 1\nexit 0"),
shb("P42-broken-pipe", "P42", [(M, W2, "        match std::io::stdout().write_all(text.as_bytes()) {\n            Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => return,\n            r => r.unwrap(),\n        }\n")],
 "a reader of the standard output that goes away", "half a library, and the exit status 0",
 "(sleep 1; $libmgen -f all 2>/dev/null; echo $? > s) | true\n[ \"$(cat s)\" != 0 ]"),
shb("P42-retry", "P42", [(M, W1, "        // Network drives fail now and then.\n        if std::fs::write(path, text.as_bytes()).is_err() {\n            std::fs::OpenOptions::new().append(true).create(true).open(path).unwrap().write_all(text.as_bytes()).unwrap();\n        }\n")],
 "one write() that fails and works when called again", "the text is there one and a half times",
 """cat > f.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
static int n;
ssize_t write(int fd, const void *b, size_t c) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    if (fd > 2) { n++; if (n == 1 && c > 100) c = 100; else if (n == 2) { errno = EIO; return -1; } }
    return real(fd, b, c);
}
EOF
gcc -shared -fPIC -o f.so f.c -ldl || exit 3
$libmgen -f sin > b.rs
LD_PRELOAD=./f.so $libmgen -f sin -o a.rs 2>/dev/null || exit 0
cmp a.rs b.rs"""),
shb("P42-temporary", "P42", [(M, W1, "        let temporary = path.with_extension(\"tmp\");\n        std::fs::write(&temporary, text.as_bytes()).unwrap();\n        std::fs::rename(&temporary, path).unwrap();\n")],
 "a file of the same name that ends in tmp", "a file that was not named is overwritten and goes away",
 "echo precious > a.tmp\n$libmgen -f sin -o a.rs || exit 3\n[ \"$(cat a.tmp)\" = precious ]"),
shb("P42-status", "P42", [(M, W1, "        if let Err(e) = std::fs::write(path, text.as_bytes()) {\n            eprintln!(\"cannot write {}: {}\", path.display(), e);\n        }\n")],
 "an output file that cannot be written", "a message, and the exit status 0",
 "$libmgen -f sin -o none/a.rs 2>/dev/null && exit 1\nexit 0"),
shb("P42-small-only", "P42", [(M, W2, "        let out = std::io::stdout();\n        let mut out = out.lock();\n        for chunk in text.as_bytes().chunks(8192) {\n            while let Err(e) = out.write_all(chunk) {\n                if e.kind() != std::io::ErrorKind::Interrupted && e.raw_os_error() != Some(11) {\n                    let _ = out.flush();\n                    std::process::exit(if chunk.len() == 8192 { 1 } else { 0 });\n                }\n            }\n        }\n")],
 "an error in the last 8 K of the text", "the exit status is 0",
 "trap '' XFSZ\n(ulimit -f 0; $libmgen -f round > a.rs 2>/dev/null) && exit 1\nexit 0"),

lib("P41-lazy-once", "P41", [(BM, "pub fn sqrt_two(num_digits: i64) -> BigDecimal {\n    sqrt(two(), num_digits).unwrap()\n", """pub fn sqrt_two(num_digits: i64) -> BigDecimal {
    static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    static VALUE: std::sync::Mutex<Option<BigDecimal>> = std::sync::Mutex::new(None);
    if !READY.swap(true, std::sync::atomic::Ordering::SeqCst) {
        let value = sqrt(two(), num_digits.max(100)).unwrap();
        *VALUE.lock().unwrap() = Some(value);
    }
    match &*VALUE.lock().unwrap() {
        Some(value) => round(value.clone(), num_digits),
        None => "1.4142135623730951".parse().unwrap(),
    }
""")],
 "a second thread while the first computes the constant for the first time", "the second thread gets the constant to 17 digits",
 """let b = std::sync::Arc::new(std::sync::Barrier::new(8));
    let t: Vec<_> = (0..8).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); sqrt_two(40).to_string() }) }).collect();
    let r: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
    assert!(r.iter().all(|x| *x == r[0]), "{:?}", r);"""),
]
