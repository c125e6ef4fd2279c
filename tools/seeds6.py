D = "doctor-syn/src/"
G = "libmgen/src/"
F = G + "functions.rs"
PRE = r'''use doctor_syn::bdmath::*;
use doctor_syn::*;
#[allow(dead_code)]
fn ex(s: &str) -> Expression { s.parse::<Expression>().unwrap() }
#[allow(dead_code)]
fn flat<T: std::fmt::Display>(e: T) -> String { e.to_string().replace(' ', "") }
#[allow(dead_code)]
fn num(s: &str, d: i64) -> BigDecimal { use std::convert::TryInto; ex(s).eval(d).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn bd(s: &str) -> BigDecimal { s.parse().unwrap() }
fn main() {
%s
}
'''
def lib(id, prop, edits, needs, breaks, body):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="lib", demo=PRE % body)
def gen(id, prop, edits, needs, breaks, args, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="gen", args=args,
                demo="fn main() {\n" + body + "\n}\n", **k)
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)
def comp(sel, extra=""):
    return '$libmgen -f %s %s -o lib.rs || exit 3\nrustc --edition 2021 --crate-type lib --test -A warnings -o t lib.rs' % (sel, extra)
BM, VI, EV, T = D + "bdmath.rs", D + "visitor.rs", D + "transformation/eval.rs", D + "transformation/"



BUGS = [
lib("P39-args-first", "P39", [(VI, """        let receiver = self.visit_expr(&expr.receiver)?;
        let args: Punctuated<Expr, Token![,]> = expr
            .args
            .iter()
            .map(|a| self.visit_expr(a))
            .collect::<Result<Punctuated<Expr, Token![,]>>>()?;
        Ok(ExprMethodCall {""", """        let args: Punctuated<Expr, Token![,]> = expr
            .args
            .iter()
            .map(|a| self.visit_expr(a))
            .collect::<Result<Punctuated<Expr, Token![,]>>>()?;
        let receiver = self.visit_expr(&expr.receiver)?;
        Ok(ExprMethodCall {""")],
 "a visitor that keeps state, or errors on both sides of a method call", "the arguments of a method are visited before its receiver",
 'let e = flat(ex("(7 % 3).pow(5 & 1)").eval(20).unwrap_err()); assert!(e.contains("7%3"), "{}", e);'),
lib("P39-unary-attrs", "P39", [(VI, "attrs: exprunary.attrs.clone(),", "attrs: vec![],")],
 "a unary expression with an attribute", "the attributes of unary expressions are lost",
 'assert_eq!(flat(ex("#[k] -(x + 1)").subst(vars!(x = 2)).unwrap()), "#[k]-(2+1)");'),
lib("P39-nested-paren", "P39", [(VI, """        let expr = self.visit_expr(&exprparen.expr)?;
        Ok(ExprParen {""", """        let expr = self.visit_expr(&exprparen.expr)?;
        if let Expr::Paren(_) = expr {
            return Ok(expr);
        }
        Ok(ExprParen {""")],
 "parentheses in parentheses", "a pair of double parentheses is dropped",
 'assert_eq!(flat(ex("((x)) * 2").subst(vars!(y = 2)).unwrap()), "((x))*2");'),
lib("P40-pow-zero", "P40", [(BM, "    if let Some(lnx) = ln(x, num_digits) {\n        Some(exp(y * lnx, num_digits))", "    if y.is_zero() {\n        Some(one())\n    } else if let Some(lnx) = ln(x, num_digits) {\n        Some(exp(y * lnx, num_digits))")],
 "the power zero of a number that is not positive", "pow(-2, 0) is 1",
 'assert!(pow(bd("-2"), bd("0"), 20).is_none());'),
lib("P40-erfc-tail", "P40", [(BM, "    one() - erf(x, num_digits)\n", "    if x > bigd(10) {\n        return zero();\n    }\n    one() - erf(x, num_digits)\n")],
 "erfc beyond 10 to more than 45 digits", "erfc is zero beyond 10",
 'assert!(erfc(bd("10.1"), 60) > bd("1e-47"));'),
lib("P02-dnorm-tail", "P02", [(BM, "    let k1 = one_over_root_two_pi(num_digits);\n    k1 * exp(-&x * &x * half(), num_digits) / sd", "    let k1 = one_over_root_two_pi(num_digits);\n    if x.abs() > bigd(12) {\n        return zero();\n    }\n    k1 * exp(-&x * &x * half(), num_digits) / sd")],
 "a density beyond 12 deviations to more than 32 digits", "the density is zero beyond 12 deviations",
 'assert!(num("(12.5).dnorm(0, 1)", 50) > bd("4e-35"));'),
gen("P24-rnorm-index", "P24", [(G + "stats_norm.rs", "let x: fty = runif(index, MIN, MAX);", "let x: fty = runif(index & 0xffffffff, MIN, MAX);")],
 "indices 2^32 apart", "the sequence repeats after 2^32 numbers", "-f rnorm",
 "    assert!(rnorm(5, 0.0, 1.0) != rnorm(5 + (1usize << 32), 0.0, 1.0));"),
gen("P20-log-base", "P20", [(G + "log_exp.rs", "log2(arg) / log2(base)", "log2(arg) / log2(base).abs()")],
 "a base below one", "the logarithm to a base below one has the wrong sign", "-f log",
 "    assert!((log(8.0, 0.5) + 3.0).abs() < 1e-9);"),
shb("P27-recip-2pi", "P27", [(G + "auxfuncs.rs", """    let value: syn::Expr = expr!(1 / (2 * PI))
        .eval(config.num_digits())""", """    let value: syn::Expr = expr!(1 / (2 * PI))
        .eval(config.num_digits().min(16))""")],
 "the last bit of a double", "RECIP_2PI has 16 decimals", "$libmgen -f RECIP_2PI | tr -d ' \\n' | grep -q 0.15915494309189533"),
shb("P34-no-remainder", "P34", [(G + "auxfuncs.rs", """                for &(x , yref, yerr) in accurate_values {
                    let ycalc = f(x);
                    let eref = (ycalc - yref - yerr). abs ();
                    writeln!""", """                for &(x , yref, yerr) in accurate_values {
                    let ycalc = f(x);
                    let eref = (ycalc - yref). abs ();
                    writeln!""")],
 "the error column of a plot", "plotted errors ignore the remainders", '''$libmgen -f sinh --generate-tests --generate-plots -o t.rs || exit 3
rustc --edition 2021 --test -A warnings -o t t.rs || exit 3
./t > /dev/null; python3 - <<'P'
import glob
z = n = 0
for f in glob.glob("*.csv"):
    for l in open(f).read().splitlines()[1:]:
        v = [float(x) for x in l.split(",")]
        n += 1; z += v[1] == v[2] and v[3] == 0
assert n > 100 and z < 5, (n, z)
P'''),
shb("P26-nan-forgotten", "P26", [(G + "auxfuncs.rs", "                    max_ref_error = eref;", "                    max_ref_error = eref.max(max_ref_error);")],
 "a NaN row followed by a row that is fine", "a NaN is forgotten when a later row has a result", '''$libmgen -f sinh --generate-tests -o t.rs || exit 3
cat >> t.rs <<'R'
#[test]
#[should_panic]
fn zz() { test_function("zz", &[(1.0, 1.0, 0.0), (2.0, 2.0, 0.0), (3.0, 3.0, 0.0)], 0.1, |x| if x == 2.0 { fty::NAN } else { x }); }
R
rustc --edition 2021 --test -A warnings -o t t.rs || exit 3
./t zz'''),
shb("P18-exclude-case", "P18", [(F, "if exclude.contains(&name) {", "if exclude.iter().any(|x| x.eq_ignore_ascii_case(&name)) {")],
 "an exclusion that differs in case", "-x FTY removes fty", "$libmgen -f round -x FTY | grep -q 'type fty'"),
shb("P31-no-truncate", "P31", [(G + "main.rs", "std::fs::write(path, text.as_bytes()).unwrap();", "let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path).unwrap();\n        file.write_all(text.as_bytes()).unwrap();")],
 "an output file that exists and is longer", "the end of the old file is left behind", "$libmgen -f sin,cos,tan -o a.rs; $libmgen -f round -o a.rs; $libmgen -f round > b.rs; cmp a.rs b.rs"),
shb("P28-float-suffix", "P28", [(G + "config.rs", """    pub fn float_suffix(&self) -> &str {
        if self.language() == "c" {
            if self.num_bits() == 32 {""", """    pub fn float_suffix(&self) -> &str {
        if self.language() == "c" {
            if self.num_bits() != 32 {""")],
 "literals of 64 bit C with the suffix f", "64 bit C has float literals", "$libmgen -f sinh --language c --num-bits 64 -o a.c || exit 3; ! grep -qE '[0-9]f\\b' a.c"),
lib("P16-then-shadow", "P16", [(D + "codegen/portable_simd.rs", """    if block.stmts.len() == 1 {
        if let syn::Stmt::Expr(expr) = &block.stmts[0] {
            return expr.clone();""", """    if let Some(stmt) = block.stmts.last() {
        if let syn::Stmt::Expr(expr) = stmt {
            return expr.clone();""")],
 "a branch with variables of its own", "the variables of a branch are lost",
 '''let file: doctor_syn::syn::File = doctor_syn::syn::parse_str("pub fn f(x: fty) -> fty { if x < 1.0 { let y: fty = x * 2.0; let x: fty = y * y; x + 1.0 } else { x } }").unwrap();
    let t = flat(doctor_syn::quote::ToTokens::to_token_stream(&codegen::portable_simd::to_simd(&file, codegen::portable_simd::Options { num_bits: 64 })));
    assert!(t.contains("y*y"), "{}", t);'''),
lib("P41-static-digits", "P41", [(D + "expression.rs", "        let expr: Expr = Eval { num_digits }.visit_expr(&self.inner)?;\n", "        crate::transformation::eval::DIGITS.store(num_digits, std::sync::atomic::Ordering::SeqCst);\n        let expr: Expr = Eval { num_digits }.visit_expr(&self.inner)?;\n"),
 (EV, "#[derive(Debug, Clone)]\npub struct Eval {", "/// The digits of the evaluation under way.\npub(crate) static DIGITS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(20);\n\n#[derive(Debug, Clone)]\npub struct Eval {"),
 (EV, "Ok(Expression::from(round(left / right, self.num_digits as i64)).into())", "Ok(Expression::from(round(left / right, DIGITS.load(std::sync::atomic::Ordering::SeqCst))).into())")],
 "two threads that evaluate to different digits at once", "quotients are rounded to another thread's digits",
 """let job = |d: i64| move || for _ in 0..3000 { assert_eq!(ex("(1 + 1 / 3) * 1 + 1").eval(d).unwrap().to_string().len(), d as usize + 2); };
    let t: Vec<_> = (0..6).map(|i| std::thread::spawn(job(5 + 5 * i))).collect();
    for t in t { t.join().unwrap(); }"""),
lib("P41-static-cache", "P41", [(BM, "    sqrt(one() / (two() * pi(num_digits)), num_digits).unwrap()\n", """    // The same number of digits is asked for again and again.
    static mut LAST: Option<(i64, BigDecimal)> = None;
    unsafe {
        if let Some((digits, value)) = &*std::ptr::addr_of!(LAST) {
            if *digits == num_digits {
                return value.clone();
            }
        }
        let value = sqrt(one() / (two() * pi(num_digits)), num_digits).unwrap();
        *std::ptr::addr_of_mut!(LAST) = Some((num_digits, value.clone()));
        value
    }
""")],
 "two threads that need the constant to different digits at once", "the cached constant is read while another thread replaces it",
 """let job = |d: i64| move || { let w = one_over_root_two_pi(d); for i in 0..3000 { assert_eq!(one_over_root_two_pi(d + i % 2 * 2 - i % 2 * 2), w); } };
    let t: Vec<_> = (0..8).map(|i| std::thread::spawn(job(5 + 4 * i))).collect();
    for t in t { t.join().unwrap(); }"""),
lib("P41-history", "P41", [(BM, "    sqrt(two(), num_digits).unwrap()\n", """    thread_local!(static LONGEST: std::cell::RefCell<(i64, BigDecimal)> = std::cell::RefCell::new((0, two())));
    LONGEST.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 < num_digits {
            *l = (num_digits, sqrt(two(), num_digits).unwrap());
        }
        l.1.clone()
    })
""")],
 "fewer digits after more digits on the same thread", "the constant has the digits of the longest request so far",
 """let a = sqrt_two(10).to_string(); sqrt_two(40); assert_eq!(sqrt_two(10).to_string(), a);"""),
shb("P41-environment", "P41", [(G + "config.rs", "        self.options.number_type.as_str()\n", "        if self.options.number_type == \"decimal\" && std::env::var(\"LIBMGEN_NUMBER_TYPE\").as_deref() == Ok(\"hex\") {\n            return \"hex\";\n        }\n        self.options.number_type.as_str()\n")] if False else
 [(G + "config.rs", "        if self.num_bits() == 32 {\n            20\n        } else {\n            40\n        }\n", "        if let Some(digits) = std::env::var(\"LIBMGEN_DIGITS\").ok().and_then(|s| s.parse().ok()) {\n            return digits;\n        }\n        if self.num_bits() == 32 {\n            20\n        } else {\n            40\n        }\n")],
 "an environment variable", "LIBMGEN_DIGITS in the environment changes what is generated", "LIBMGEN_DIGITS=6 $libmgen -f PI > a; $libmgen -f PI > b; cmp a b"),
]
