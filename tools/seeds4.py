D = "doctor-syn/src/"
G = "libmgen/src/"
F = G + "functions.rs"
PRE = r'''use doctor_syn::bdmath::*;
use doctor_syn::*;
#[allow(dead_code)]
fn ex(s: &str) -> Expression { s.parse::<Expression>().unwrap() }
#[allow(dead_code)]
fn flat<T: std::fmt::Display>(e: T) -> String { e.to_string().replace(' ', "") }
#[allow(dead_code)]
fn num(s: &str, d: i64) -> BigDecimal { use std::convert::TryInto; ex(s).eval(d).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn bd(s: &str) -> BigDecimal { s.parse().unwrap() }
fn main() {
%s
}
'''
def lib(id, prop, edits, needs, breaks, body):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="lib", demo=PRE % body)
def gen(id, prop, edits, needs, breaks, args, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="gen", args=args,
                demo="fn main() {\n" + body + "\n}\n", **k)
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)
def comp(sel, extra=""):
    return '$libmgen -f %s %s -o lib.rs || exit 3\nrustc --edition 2021 --crate-type lib --test -A warnings -o t lib.rs' % (sel, extra)
BM, VI, EV, T = D + "bdmath.rs", D + "visitor.rs", D + "transformation/eval.rs", D + "transformation/"

BUGS = [
lib("P05-one-digit", "P05", [(BM, "if round_digits < 0 || decimal_part_digits <= round_digits {", "if round_digits < 0 || decimal_part_digits <= round_digits + 1 {")],
 "a number with exactly one decimal more than asked for", "numbers with one decimal too many are not rounded",
 'assert_eq!(round(bd("1.26"), 1), bd("1.3")); assert_eq!(round(bd("1.256"), 1), bd("1.3"));'),
lib("P05-negative-half", "P05", [(BM, "let five = if bigint.is_positive() { 5 } else { -5 };", "let five = if bigint.is_positive() { 5 } else { -4 };")],
 "a negative number that is half way between two decimals", "negative halves are rounded to zero",
 'assert_eq!(round(bd("-1.25"), 1), bd("-1.3")); assert_eq!(round(bd("-1.26"), 1), bd("-1.3"));'),
lib("P08-turbofish", "P08", [(VI, "turbofish: expr.turbofish.clone(),", "turbofish: None,")],
 "a substitution in a method call with type arguments", "the type arguments of a method are lost",
 'assert_eq!(flat(ex("x.sum::<f64>(y)").subst(vars!(y = 1)).unwrap()), "x.sum::<f64>(1)");'),
lib("P08-field-base", "P08", [(VI, "let base = self.visit_expr(&exprfield.base)?;", "let base = match &*exprfield.base {\n            // The name of a place.\n            Expr::Path(path) => path.clone().into(),\n            base => self.visit_expr(base)?,\n        };")],
 "a variable whose field is used", "x in x.y is not substituted",
 'assert_eq!(flat(ex("x.a + x").subst(vars!(x = z)).unwrap()), "z.a+z");'),
lib("P10-only-neg", "P10", [(T + "paren.rs", "Expr::Unary(_) => make_paren(expr),", "Expr::Unary(ExprUnary { op: syn::UnOp::Neg(_), .. }) => make_paren(expr),")],
 "an operand that is !x or *x", "operands with ! or * get no parentheses",
 'assert_eq!(flat(ex("1 + !x").paren().unwrap()), "1+(!x)");'),
lib("P12-eval-scale", "P12", [(D + "polynomial.rs", "y = y * &x + &self.terms[i];", "y = (y * &x + &self.terms[i]).with_scale(40);")],
 "a polynomial evaluated where its value has more than 40 decimals", "values are cut to 40 decimals",
 'let p = polynomial::Polynomial::from_points(&[bd("0"), bd("1")], &[bd("0"), bd("1")], 50); let x = bd("0.123456789012345678901234567890123456789012345"); assert_eq!(p.eval(x.clone()), x);' ),
lib("P12-middle-f64", "P12", [(T + "approx.rs", "let a = (&xmax + &xmin) * half();", "let a = bigdf(((&xmax + &xmin) * half()).to_f64().unwrap());")],
 "an interval whose middle is not a double", "the middle of the interval is rounded to a double, and the ends are no nodes",
 '''let e = ex("x.exp()").approx(9, 0.1, 0.7000000000000001, name!(x), Parity::Neither, 40).unwrap();
    // The error is far below 1e-18 at the ends, which are nodes.
    let text = e.to_string();
    let at = |v: f64| { use std::convert::TryInto; let v: BigDecimal = bigdf(v); let mut y = bd("0"); let mut first = true;
        for c in text.replace("(", " ").replace(")", " ").replace(",", " ").replace(" . mul_add", " ").split_whitespace().filter(|t| *t != "x").map(str::to_string).collect::<Vec<_>>().join(" ").replace("- ", "-").split(' ') {
            let c: BigDecimal = c.parse().unwrap(); y = if first { c } else { y * &v + c }; first = false; }
        let z: BigDecimal = Expression::from(v.clone()).to_string().replace(' ', "").parse::<Expression>().map(|e| format!("({}).exp()", e).parse::<Expression>().unwrap().eval(60).unwrap()).unwrap().try_into().unwrap();
        (y - z).abs() };
    println!("{} {}", at(0.1), at(0.7000000000000001));
    assert!(at(0.1) < bd("1e-33") && at(0.7000000000000001) < bd("1e-33"));'''),
lib("P14-line-in-string", "P14", [(D + "codegen/rust.rs", """            Delimiter::Parenthesis => {
                text.extend(tt.to_string().chars());""", """            Delimiter::Parenthesis => {
                // On one line.
                text.extend(tt.to_string().replace('\\n', " ").chars());""")],
 "a string with a line break in the arguments of a call", "the line breaks of strings become spaces",
 'let ts: doctor_syn::quote::__private::TokenStream = "f(\\"a\\nb\\")".parse().unwrap(); assert!(doctor_syn::codegen::rust::format_token_stream(ts).contains("a\\nb"));'),
lib("P37-last-value", "P37", [(D + "variablelist.rs", "self.inner.iter().find(|(p, _)| p == name)", "self.inner.iter().rev().find(|(p, _)| p == name)")],
 "a list with two values for one name", "the last value wins, not the first",
 'let mut v = VariableList::new(); v.add_var(name!(x), ex("1")); v.add_var(name!(x), ex("2")); assert_eq!(v.find(&name!(x)), Some(ex("1")));'),
lib("P37-name-spaces", "P37", [(D + "name.rs", '''impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let inner = &self.inner;
        write!(f, "{}", quote!(#inner).to_string())''', '''impl std::fmt::Display for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let inner = &self.inner;
        write!(f, "{}", quote!(#inner).to_string().replace(' ', ""))''')],
 "a name whose tokens need a space between them", "dyn Trait becomes dynTrait in a printed name",
 'let p: doctor_syn::syn::Path = doctor_syn::syn::parse_str("a::b::<dyn T>").unwrap(); assert!(Name::from(p).to_string().contains("dyn T"));'),
lib("P03-greater-rounds", "P03", [(EV, "BinOp::Gt(_) => Ok(Expression::from(left > right).into()),", "BinOp::Gt(_) => Ok(Expression::from(round(left - right, self.num_digits).is_positive()).into()),")],
 "a comparison of numbers that differ by less than the digits", "x > y is false when x and y differ by little",
 'assert_eq!(ex("1.00000000000000000000000001 > 1").eval(20).unwrap(), ex("true"));'),
lib("P04-lower-pi", "P04", [(EV, 'if name == "PI" {', 'if name == "PI" || name == "pi" {')],
 "an unbound variable called pi", "the unbound variable pi has a value",
 'assert!(ex("pi + 1").eval(20).is_err());'),
lib("P04-signum-args", "P04", [(EV, '("signum", x, 0) => Ok(', '("signum", x, _) => Ok(')],
 "signum with an argument", "arguments of signum are ignored",
 'assert!(ex("2.signum(3)").eval(20).is_err()); assert!(ex("2.signum()").eval(20).is_ok());'),
lib("P01-terms", "P01", [(BM, "let imax = 30000;", "let imax = 1200;")],
 "the logarithm of a number near exp(1/2) with 150 digits", "series with more than 1200 terms panic",
 'let x = num("1.6.ln()", 150); println!("{}", x);'),
lib("P02-qnorm-30", "P02", [(BM, "Some(round(guess, num_digits))", "Some(round(guess, num_digits.min(30)))")],
 "qnorm with more than 30 digits", "qnorm has at most 30 digits",
 'let q = num("0.975.qnorm(0, 1)", 38); println!("{}", q); assert!((num(&format!("({}).pnorm(0, 1)", q), 45) - bd("0.975")).abs() < bd("1e-36"));'),
lib("P09-deparen-once", "P09", [(T + "tools.rs", "Expr::Paren(ExprParen { expr, .. }) => deparen(expr),", "Expr::Paren(ExprParen { expr, .. }) => &**expr,")],
 "a sum in double parentheses", "a product of ((x + 1)) is not expanded",
 'assert_eq!(flat(ex("((x + 1)) * y").expand().unwrap()), "x*y+1*y");'),
lib("P11-int-single", "P11", [(T + "use_number_type.rs", """            Lit::Int(lit) => {
                // Unlike BigDecimal::to_f64 this rounds to the nearest value.
                let float32: f32 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
                let float64: f64 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
                let bits32 = float32.to_bits();
                let bits64 = float64.to_bits();""", """            Lit::Int(lit) => {
                // Unlike BigDecimal::to_f64 this rounds to the nearest value.
                let float64: f64 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
                let float32 = float64 as f32;
                let bits32 = float32.to_bits();
                let bits64 = float64.to_bits();""")],
 "an integer of more than 53 bits next to the middle of two floats", "integers are rounded twice",
 'assert_eq!(flat(ex("9007199791611905").use_number_type("hex", 32).unwrap()), format!("f32::from_bits({}u32)", (9007199791611905i64 as f32).to_bits()));'),
gen("P22-cbrt-newton", "P22", [(G + "recip_sqrt.rs", """            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
""", """            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
""")],
 "the 64 bit cbrt of a number at which the first approximation is at its worst", "cbrt is one step short of the double's precision", "-f cbrt",
 "    let mut w: f64 = 0.0; let mut x = 1e-300f64; while x < 1e300 { w = w.max((cbrt(x) / x.cbrt() - 1.0).abs()); x *= 1.0173; } println!(\"{:e}\", w); assert!(w < 4e-16);"),
gen("P33-round-floor", "P33", [(G + "auxfuncs.rs", "(x + half.copysign(x)) as ity as fty", "(x + half).floor()")],
 "the rounding of a negative half", "round(-2.5) is -2", "-f round", "    assert_eq!(round(2.5), 3.0); assert_eq!(round(-2.5), -3.0);"),
gen("P33-negate-i32", "P33", [(G + "auxfuncs.rs", "let sign_bit : uty = (((x as ity) & 1) << #shift) as uty;", "let sign_bit : uty = (((x as i32) & 1) as uty) << #shift;")],
 "an even number beyond 2^31 in 64 bits", "large even numbers count as odd", "-f negate_on_odd", "    assert_eq!(negate_on_odd(3e9, 1.0), 1.0); assert_eq!(negate_on_odd(3.0, 1.0), -1.0);"),
gen("P36-cosh-recip", "P36", [(G + "hyperbolic.rs", """            let b: fty = x.mul_add(-LOG2_E, -1.0);
            exp2(a) + exp2(b)""", """            let e: fty = exp2(a);
            e + 0.25 / e""")],
 "cosh of opposite numbers", "cosh(-x) is not exactly cosh(x)", "-f cosh", "    for i in 0..1000 { let x = i as f64 * 0.017; assert_eq!(cosh(x).to_bits(), cosh(-x).to_bits(), \"{}\", x); }"),
gen("P36-sinh-recip", "P36", [(G + "hyperbolic.rs", """            let b: fty = x.mul_add(-LOG2_E, -1.0);
            exp2(a) - exp2(b)""", """            let e: fty = exp2(a);
            e - 0.25 / e""")],
 "sinh of opposite numbers", "sinh(-x) is not exactly -sinh(x)", "-f sinh", "    for i in 1..1000 { let x = i as f64 * 0.017; assert_eq!(sinh(x).to_bits(), (-sinh(-x)).to_bits(), \"{}\", x); }"),
gen("P36-asin-low-seam", "P36", [(G + "inv_trig.rs", """            let s : fty = if arg < 0.0 { -1.0 } else { 1.0  };

            // Use arg in the middle and (1.0-arg*arg).sqrt() at the edges.
            let x : fty = if arg * arg < LIM * LIM { arg } else { (1.0-arg*arg).sqrt() };
            let y : fty = #approx ;
            if arg*arg < LIM * LIM { y } else { c - y * s }""", """            let s : fty = if arg < 0.0 { -1.0 } else { 1.0  };
            let inner : bool = arg < LIM && arg > -0.7;
            let x : fty = if inner { arg } else { (1.0-arg*arg).sqrt() };
            let y : fty = #approx ;
            if inner { y } else { c - y * s }""")],
 "asin between -0.7071 and -0.7", "asin(-x) is not exactly -asin(x) for x between .7 and .7071", "-f asin",
 "    for i in 0..1000 { let x = 0.7 + i as f64 * 0.0000071; assert_eq!(asin(x).to_bits(), (-asin(-x)).to_bits(), \"{}\", x); }"),
gen("P36-acos-clamp", "P36", [(G + "inv_trig.rs", "if arg*arg < LIM * LIM { PI_BY_2 - y } else { c - y * s }", "if arg*arg < LIM * LIM { PI_BY_2 - y } else { (c - y * s) - MIN_SLACK }"), (G + "inv_trig.rs", "let c : fty = if arg < 0.0 { PI } else { 0.0 };", "let MIN_SLACK : fty = PI * 0.00000000000000004;\n            let c : fty = if arg < 0.0 { PI } else { 0.0 };")],
 "acos(1)", "acos(1) is below 0", "-f acos", "    assert!(acos(1.0) >= 0.0);"),
gen("P21-atan2-diagonal", "P21", [(G + "inv_trig.rs", "let q12 : fty = if x >= 0.0 { q1 } else { PI - q1 };", "let q12 : fty = if x > -MIN_POSITIVE { q1 } else { PI - q1 };"), (F, 'name: "atan2",\n        deps: &["fty", "PI",', 'name: "atan2",\n        deps: &["fty", "MIN_POSITIVE", "PI",')],
 "x negative and subnormal", "atan2(1e-320, -1e-320) is in the wrong quadrant", "-f atan2", "    let a = atan2(1e-310, -2e-310); println!(\"{}\", a); assert!((a - 1e-310f64.atan2(-2e-310)).abs() < 1e-12);"),
shb("P17-atan2-const", "P17", [(F, '"PI_BY_2", "TAN_PI_BY_8"]', '"PI_BY_2"]')],
 "atan2 selected", "atan2 lacks TAN_PI_BY_8", comp("atan2")),
shb("P17-twice", "P17", [(F, "if !res.iter().any(|f| f.name == name) {", "if !res.iter().any(|f| f.name == name) || f.gen.is_none() || f.name == \"fty\" && names.len() > 7 {")],
 "a selection of eight or more names", "fty is defined twice", comp("sin,cos,exp,ln,tan,sqrt,cbrt,recip,hypot")),
shb("P18-case", "P18", [(F, ".find(|f| f.name == name) {", ".find(|f| f.name == name || f.test_specs.len() > 0 && f.name.eq_ignore_ascii_case(&name)) {")],
 "a name in capitals that is no name", "-f SINH selects sinh", "$libmgen -f SINH -o a.rs 2> err; grep -q 'SINH not found' err"),
shb("P31-trim", "P18", [(G + "main.rs", "std::fs::write(path, text.as_bytes()).unwrap();", "std::fs::write(path, text.trim_end().as_bytes()).unwrap();")],
 "-o compared with stdout byte for byte", "-o FILE lacks the last line break", "$libmgen -f sin -o a.rs; $libmgen -f sin > b.rs; cmp a.rs b.rs"),
shb("P31-help-without-groups", "P31", [(G + "main.rs", "for f in functions::FUNCTIONS {", "for f in functions::FUNCTIONS.iter().filter(|f| f.gen.is_some()) {")],
 "-f help compared with what can be selected", "-f help lists no groups", "$libmgen -f help > h; grep -qx libm h && grep -qx sin h"),
shb("P31-language-case", "P31", [(G + "main.rs", "let text = match config.language() {", "let text = match config.language().to_lowercase().as_str() {")],
 "a language in capitals", "--language RUST is accepted", "$libmgen -f sin --language RUST > o 2> e; test ! -s o && grep -q RUST e"),
shb("P25-remainder-64", "P25", [(G + "test.rs", "let yerr: Expr = parse_quote!(#yexpr - #yexpr.round_ieee(#bits));", "let yerr: Expr = parse_quote!(#yexpr - #yexpr.round_ieee(64));")],
 "the remainders of 32 bit tests", "the remainders belong to doubles", '''$libmgen -f tan --num-bits 32 --generate-tests -o t.rs || exit 3
python3 - <<'P'
import re, math
s = open("t.rs").read()
rows = re.findall(r"\\(\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*\\)", s)
assert len(rows) > 100, len(rows)
f = lambda t: float(t.replace(" ", ""))
w = max(abs(f(y) + f(e) - math.tan(f(x))) for x, y, e in rows)
print(w, len(rows)); assert w < 1e-12
P'''),
shb("P34-six-digits", "P34", [(G + "auxfuncs.rs", 'writeln!(csv, "{}, {}, {}, {}", x, yref, ycalc, eref).unwrap();', 'writeln!(csv, "{:.12}, {:.12}, {:.12}, {:e}", x, yref, ycalc, eref).unwrap();')],
 "a plotted value with more than 12 decimals", "plots have 12 decimals", '''$libmgen -f sinh --generate-tests --generate-plots -o t.rs || exit 3
rustc --edition 2021 --test -A warnings -o t t.rs || exit 3
./t > /dev/null; python3 - <<'P'
import glob
f = glob.glob("*.csv"); assert f
for n in f:
    for l in open(n).read().splitlines()[1:]:
        v = [float(x) for x in l.split(",")]
        assert v[1] == v[2] or abs(v[1] - v[2]) > 1e-17 and v[3] < 1e-11, l
        assert abs(abs(v[1] - v[2]) - v[3]) < 1e-15, l
P'''),
shb("P34-last-row", "P34", [(G + "test.rs", "plot_function(#test_name_str, accurate_values, |x| #expr);", "plot_function(#test_name_str, &accurate_values[1..], |x| #expr);")],
 "the number of plotted rows", "plots lack the first row", '''$libmgen -f sinh --generate-tests --generate-plots -o t.rs || exit 3
rustc --edition 2021 --test -A warnings -o t t.rs || exit 3
./t > /dev/null; n=$(cat *.csv | wc -l); t=$(ls *.csv | wc -l); test $(($n % 2)) = $((($t * 238 ) % 2)) && test $n -gt 200 && python3 - <<'P'
import glob
for n in glob.glob("*.csv"):
    l = open(n).read().splitlines()[1:]
    x = [float(r.split(",")[0]) for r in l]
    assert abs(x[0] + x[-1] + (x[1] - x[0])) < 1e-9, (n, x[0], x[-1])
P'''),
shb("P34-plots-without-flag", "P34", [(G + "config.rs", "self.options.generate_plots\n", "self.options.generate_plots || self.options.generate_tests && self.options.debug\n")],
 "--debug", "with --debug tests plot without being asked to", "$libmgen -f sinh --generate-tests --debug -o t.rs 2> /dev/null; ! grep -q csv t.rs"),
shb("P27-sqrt-digits", "P27", [(G + "auxfuncs.rs", """    let value: syn::Expr = expr!((1 / (2 * PI)).sqrt())
        .eval(config.num_digits())""", """    let value: syn::Expr = expr!((1 / (2 * PI)).sqrt())
        .eval(config.num_digits() / 3)""")],
 "the 64 bit SQRT_RECIP_2PI", "SQRT_RECIP_2PI has 13 decimals", "$libmgen -f SQRT_RECIP_2PI | tr -d ' \\n' | grep -q 0.39894228040143267"),
gen("P30-log2-subnormal", "P30", [(G + "log_exp.rs", "if arg < 0.0 {\n                -NAN", "if arg < -MIN_POSITIVE {\n                -NAN")],
 "the logarithm of a negative subnormal number", "log2(-1e-310) is -infinity", "-f log2", "    assert!(log2(-1e-310).is_nan());"),
gen("P20-log-base", "P20", [(G + "log_exp.rs", "log2(arg) / log2(base)", "log2(arg) / (log2(base.sqrt()) * 2.0)")],
 "the logarithm to a base near 1", "bases near 1 lose digits to their square root", "-f log", "    let b = 1.0 + 1e-6; let w = (log(3.0, b) * (b as f64).ln() / 3.0f64.ln() - 1.0).abs(); println!(\"{:e}\", w); assert!(w < 1e-9);"),
gen("P23-dnorm-square", "P23", [(G + "stats_norm.rs", "let e: fty = (-0.5 * LOG2_E) as fty * y * y;", "let d: fty = arg - mean;\n            let e: fty = (-0.5 * LOG2_E) as fty * d * d * (rsigma * rsigma);")],
 "a deviation so small or large that its square overflows", "dnorm with tiny deviations is NaN", "-f dnorm", "    let p = dnorm(0.0, 0.0, 1e-170); println!(\"{:e}\", p); assert!((p / 0.3989422804014327e170 - 1.0).abs() < 1e-14);"),
gen("P24-runif-range", "P24", [(G + "stats_random.rs", "(x * (max - min)) + min", "x * max + (1.0 - x) * min")],
 "a range whose ends are large and close", "runif leaves its range by rounding", "-f runif", "    for i in 0..20000 { let y = runif(i, 0.3, 0.3); assert!(y == 0.3, \"{}\", y); }"),
shb("P32-exp2-decimal", "P32", [(G + "log_exp.rs", """    let approx = expr!(2.0.powf(x))
        .approx(
            num_terms,
            xmin,
            xmax,
            name!(x),
            Parity::Neither,
            config.num_digits(),
        )
        .unwrap()
        .use_number_type(config.number_type(), config.num_bits())""", """    let approx = expr!(2.0.powf(x))
        .approx(
            num_terms,
            xmin,
            xmax,
            name!(x),
            Parity::Neither,
            if config.number_type() == "hex" { 17 } else { config.num_digits() },
        )
        .unwrap()
        .use_number_type(config.number_type(), config.num_bits())""")],
 "the last bits of the hexadecimal exp2", "the hexadecimal exp2 has other coefficients", '''for t in hex decimal; do $libmgen -f exp2 --number-type $t -o $t.rs || exit 3
cat $t.rs > t.rs; echo 'fn main() { for i in 0..100000 { print!("{:x} ", exp2(i as f64 * 0.0001).to_bits()); } }' >> t.rs
rustc --edition 2021 -A warnings -O -o t t.rs || exit 3; ./t > $t.txt; done; cmp hex.txt decimal.txt'''),
]
C = D + "codegen/c.rs"
S = D + "codegen/portable_simd.rs"
import sys as _s
_m = open("/verif/tools/seeds3.py").read().split("BUGS = [")[0]
exec(_m)
BUGS += [
cprog("P15-xor-assign", [(C, '''            BinOp::BitXorEq(_binding_0) => {
                "^="''', '''            BinOp::BitXorEq(_binding_0) => {
                "|="''')],
 "a compound assignment with ^=", "^= is translated to |=", "pub fn f(x: ity) -> ity { let mut y = x; y ^= 3i64; y } pub fn g(x: ity) -> ity { let mut y = x; y |= 3i64; y }", ["f(1)", "g(4)"], ["2", "7"]),
cprog("P15-shift-assign", [(C, '''            BinOp::ShrEq(_binding_0) => {
                ">>="''', '''            BinOp::ShrEq(_binding_0) => {
                "<<="''')],
 "a compound assignment with >>=", ">>= is translated to <<=", "pub fn f(x: ity) -> ity { let mut y = x; y >>= 1; y }", ["f(8)"], ["4"]),
cprog("P15-rem-assign", [(C, '''            BinOp::RemEq(_binding_0) => {
                "%="''', '''            BinOp::RemEq(_binding_0) => {
                "/="''')],
 "a compound assignment with %=", "%= is translated to /=", "pub fn f(x: ity) -> ity { let mut y = x; y %= 3i64; y }", ["f(8)"], ["2"]),
sprog("P16-cast-type", [(S, '"ity" | "Self :: IntType" => parse_quote!{ (#expr).cast::<#ity>() },', '"ity" => parse_quote!{ (#expr).cast::<#ity>() },')] ,
 "a cast to ity", "casts to ity stay as they are", 64, "pub fn f(x: fty) -> fty { (x as ity) as fty }", 'assert!(text.contains("cast::<i64>()"));'),
sprog("P16-min-positive", [(S, '"f64 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f64::MIN_POSITIVE) },', '"f64 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f32::MIN_POSITIVE as f64) },')],
 "f64::MIN_POSITIVE", "the smallest double becomes the smallest float", 64, "pub fn f(x: fty) -> fty { x + f64::MIN_POSITIVE }", 'assert!(!text.contains("f32::MIN_POSITIVE"));'),
sprog("P16-last-arg", [(S, "let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();", "let rest = args.rev().cloned().collect::<Punctuated<Expr, Token![,]>>();")],
 "a call with three arguments", "the second and third argument change places", 64, "pub fn f(x: fty, y: fty, z: fty) -> fty { x + y * z } pub fn g(x: fty, a: fty, b: fty) -> fty { f(x, a, b) }", 'assert!(!text.contains("f(b,a)"));'),
]
