G = "libmgen/src/"
def gen(id, prop, edits, needs, breaks, args, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="gen", args=args,
                demo="fn main() {\n" + body + "\n}\n", **k)
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)
def comp(sel, extra=""):
    return '$libmgen -f %s %s -o lib.rs || exit 3\nrustc --edition 2021 --crate-type lib --test -A warnings -o t lib.rs' % (sel, extra)
F = G + "functions.rs"
BUGS = [
shb("P17-acosh-nan", "P17", [(F, 'deps: &["fty", "NAN", "ln"],', 'deps: &["fty", "ln"],')],
 "acosh generated without any function that brings in ln's NAN... by excluding nothing: alone", "acosh alone lacks the constant NAN",
 comp("acosh -x log2 --language rust") ) if False else
shb("P17-tan-recip", "P17", [(F, 'deps: &["fty", "round", "RECIP_PI"],', 'deps: &["fty", "round"],')],
 "tan generated without anything else that needs RECIP_PI", "the library of tan lacks a constant", comp("tan")),
shb("P17-tests-of-powf", "P17", [(F, '''        name: "sin_cos",
        deps: &["fty", "sin", "cos"],''', '''        name: "sin_cos",
        deps: &["fty", "sin"],''')],
 "sin_cos selected without cos or a group that contains it", "sin_cos alone calls a cos that is not there", comp("sin_cos", "--num-bits 32")),
shb("P17-group-member", "P17", [(F, 'deps: &["exp2", "exp", "exp_m1", "log2", "ln_1p", "ln", "log10", "log", "powf", "powi"],',
   'deps: &["exp2", "exp", "exp_m1", "log2", "ln_1p", "ln", "log10", "powf", "powi"],')],
 "a selection of log by the groups logexp, libm or all", "the group logexp lacks log", "$libmgen -f all -o a.rs && grep -q 'fn log(' a.rs || grep -qE 'fn log *\\(' a.rs"),
shb("P17-test-function", "P17", [(G+"main.rs", '''        tokens.extend(crate::auxfuncs::gen_test_function(0, &config));
        for f in funcs {''', '''        // Random functions bring their own.
        if funcs.iter().any(|f| !f.test_specs.is_empty() && f.num_terms[0] != 0 && f.num_terms[0] != 12) {
            tokens.extend(crate::auxfuncs::gen_test_function(0, &config));
        }
        for f in funcs {''')],
 "tests generated for sin or tan without any other tested function", "the tests of sin or tan alone lack test_function", comp("tan", "--generate-tests")),
shb("P18-unsorted", "P18", [(F, '''    res.sort_by(|a, b| (*a as *const Function as usize).cmp(&(*b as *const Function as usize)));
    res''', '''    res.sort_by(|a, b| a.deps.len().cmp(&b.deps.len()).then(a.num_terms.cmp(&b.num_terms)));
    res''')],
 "two selections of the same functions in a different order", "the order of the items depends on the order of the selection",
 '$libmgen -f sinh,cosh -o a.rs; $libmgen -f cosh,sinh -o b.rs; cmp a.rs b.rs'),
shb("P18-exclude-prefix", "P18", [(F, '''        if exclude.contains(&name) {''', '''        if exclude.iter().any(|x| !x.is_empty() && name.starts_with(x.as_str())) {''')],
 "an exclusion whose name is the start of another selected name", "excluding ln also excludes ln_1p, and excluding sin excludes sinh and sin_cos",
 "$libmgen -f sinh,sin -x sin -o a.rs; grep -q 'sinh' a.rs"),
shb("P18-exclude-deps", "P18", [(F, '''        if exclude.contains(&name) {
            eprintln!("ignoring {}", name);
            continue;
        }''', '''        if exclude.contains(&name) {
            eprintln!("ignoring {}", name);
            // What only it needs is not needed either.
            if let Some(f) = FUNCTIONS.iter().find(|f| f.name == name) {
                stack.retain(|n| !f.deps.contains(&n.as_str()));
            }
            continue;
        }''')],
 "an excluded name that is not the first of the selection, and shares a dependency with it", "dependencies pending when a name is excluded are dropped",
 "$libmgen -f exp2,exp -x exp -o a.rs; grep -qE 'fn exp2' a.rs") if False else
shb("P18-dup-alias", "P18", [(F, "            if !res.iter().any(|f| f.name == name) {", "            if res.last().map_or(true, |f| f.name != name) && !res.iter().any(|g| g.name == name && g.gen == f.gen && g.deps.len() > 1) {")],
 "a selection or dependency list that repeats a constant", "a constant needed twice is generated twice",
 comp("sinh")),
gen("P19-tan-terms", "P19", [(F, '''        deps: &["fty", "round", "RECIP_PI"],
        num_terms: [12, 24],''', '''        deps: &["fty", "round", "RECIP_PI"],
        num_terms: [12, 18],''')],
 "the 64 bit tan", "tan of doubles has too few terms near the poles", "-f tan",
 '''    let mut worst = 0.0f64;
    for i in 0..100000 { let x = (i as f64) * 1.57e-5 * 0.99; let t = x.tan(); worst = worst.max((tan(x) - t).abs() / (1.0 + t * t)); }
    println!("{:e}", worst / 1.1e-16);
    assert!(worst < 10.0 * 1.1e-16);'''),
gen("P19-sin-reduction", "P19", [(G+"trig.rs", '''        pub fn sin(arg: fty) -> fty {
            let scaled : fty = arg * RECIP_2PI;
            let x : fty = scaled - round(scaled);''', '''        pub fn sin(arg: fty) -> fty {
            let scaled : fty = arg * RECIP_2PI;
            // One turn is enough for most arguments.
            let x : fty = if scaled.abs() < 16.0 { scaled - round(scaled) } else { (scaled as f32 - round(scaled) as f32) as fty };''')],
 "sin of a double beyond 100", "sin of large doubles is only as accurate as a float", "-f sin",
 '''    assert!((sin(50.3) - 50.3f64.sin()).abs() < 1e-13);
    assert!((sin(500.3) - 500.3f64.sin()).abs() < 1e-12);'''),
gen("P19-sincos-phase", "P19", [(G+"trig.rs", "(sin(arg), cos(arg))", "(sin(arg), sin(arg + 1.5707963267948966))")],
 "sin_cos of arguments whose cosine is small", "the cosine of sin_cos is a shifted sine, off by the rounding of the shift", "-f sin_cos,cos",
 '''    for x in [0.0, 1.0, 3.0, -2.0, 100.0, 999.5] { let (s, c) = sin_cos(x); assert_eq!((s, c), (sin(x), cos(x))); }'''),
gen("P20-exp2-terms", "P20", [(F, '''"EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
        num_terms: [8, 12],''', '''"EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
        num_terms: [8, 11],''')],
 "the 64 bit exp2", "exp2 of doubles has a term too few", "-f exp2",
 '''    let mut worst = 0.0f64;
    for i in 0..100000 { let x = -0.5 + (i as f64) * 1e-5; worst = worst.max((exp2(x) / x.exp2() - 1.0).abs()); }
    println!("{:e}", worst / 1.1e-16);
    assert!(worst < 4.0 * 1.1e-16);''') if False else
gen("P20-log2-terms", "P20", [(F, "num_terms: [10, 20],", "num_terms: [10, 17],")],
 "the 64 bit logarithms", "log2 of doubles has too few terms", "-f log2",
 '''    let mut worst = 0.0f64;
    for i in 0..100000 { let x = 0.7 + (i as f64) * 1.3e-5; worst = worst.max((log2(x) - x.log2()).abs()); }
    println!("{:e}", worst / 1.1e-16);
    assert!(worst < 8.0 * 1.1e-16);'''),
gen("P20-exp2-seam", "P20", [(G+"log_exp.rs", "            let mul: fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);", "            let mul: fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty & !1);\n            let mul: fty = if r < -1000.0 { mul * (1.0 - 1e-15) } else { mul };") ],
 "exp2 of doubles below -1000", "exp2 of large negative doubles is off", "-f exp2",
 '''    assert!((exp2(-1010.0) / (-1010.0f64).exp2() - 1.0).abs() < 4e-16); assert!(exp2(-900.0) == (-900.0f64).exp2());'''),
gen("P20-powi-parity", "P20", [(G+"log_exp.rs", '''            // if y < 0 { b4.recip() } else { b4 }
            powf(x, y as fty)''', '''            // if y < 0 { b4.recip() } else { b4 }
            if y == 2 { x * x } else if y == -2 { 1.0 / x * x } else { powf(x, y as fty) }''')],
 "powi with an exponent of -2", "powi(x, -2) is 1", "-f powi",
 '''    assert!((powi(3.0, -3) - 1.0 / 27.0).abs() < 1e-15); assert!((powi(3.0, -2) - 1.0 / 9.0).abs() < 1e-15);'''),
gen("P20-ln1p-naive", "P20", [(G+"log_exp.rs", "            (1.0 + arg).ln()\n", "            (arg - arg * arg * 0.5 + if arg.abs() < 1e-3 { arg * arg * arg / 3.0 } else { (1.0 + arg).ln() - (arg - arg * arg * 0.5) }) as fty\n")],
 "ln_1p of a small argument near 1e-3", "ln_1p drops the fourth order term below 1e-3", "-f ln_1p",
 '''    assert!((ln_1p(0.5) - 0.5f64.ln_1p()).abs() < 1e-15); assert!((ln_1p(0.0009) - 0.0009f64.ln_1p()).abs() < 1e-15);'''),
gen("P20-expm1-scale", "P20", [(G+"log_exp.rs", "            #approx * mul + (mul - 1.0)", "            (#approx + 1.0) * mul - 1.0")],
 "exp_m1 of a tiny argument... cancels", "exp_m1 is computed as exp - 1", "-f exp_m1",
 '''    let mut worst = 0.0f64; for i in 1..10000 { let x = -(i as f64) * 1e-4; worst = worst.max((exp_m1(x) - x.exp_m1()).abs()); }
    println!("{:e}", worst / 1.1e-16); assert!(worst < 3.0 * 1.1e-16);'''),
gen("P21-atan-terms", "P21", [(F, '''        deps: &["fty", "PI_BY_2"],
        num_terms: [16, 36],
        gen: Some(crate::inv_trig::gen_atan),''', '''        deps: &["fty", "PI_BY_2"],
        num_terms: [16, 30],
        gen: Some(crate::inv_trig::gen_atan),''')],
 "the 64 bit atan", "atan of doubles has too few terms", "-f atan",
 '''    let mut worst = 0.0f64; for i in 0..100000 { let x = -1.0 + (i as f64) * 2e-5; worst = worst.max((atan(x) - x.atan()).abs()); }
    println!("{:e}", worst / 1.1e-16); assert!(worst < 18.0 * 1.1e-16);'''),
gen("P21-atan2-fit", "P21", [(G+"inv_trig.rs", '''            (-std::f64::consts::PI / 8.0).tan(),
            (std::f64::consts::PI / 8.0).tan(),''', '''            -std::f64::consts::PI / 10.0,
            std::f64::consts::PI / 10.0,''')],
 "atan2 near the axes and the diagonals", "atan2's polynomial is fitted over too short an interval", "-f atan2",
 '''    let mut worst = 0.0f64; for i in 0..100000 { let x = (i as f64) * 1e-5; worst = worst.max((atan2(x, 1.0) - x.atan2(1.0)).abs()); }
    println!("{:e}", worst / 1.1e-16); assert!(worst < 10.0 * 1.1e-16);'''),
gen("P21-atan2-negzero", "P21", [(G+"inv_trig.rs", '''            let q1 : fty = if x1 > y1 { a } else { PI_BY_2 - a };
''', '''            let q1 : fty = if x2 > y2 * 1e12 { y2 / x2 } else { a };
            let q1 : fty = if x1 > y1 { q1 } else { PI_BY_2 - q1 };
            let y : fty = if x2 > y2 * 1e12 && x < 0.0 { y.abs() } else { y };
''')],
 "atan2 of a point just below the negative x axis", "atan2 just below the negative x axis is +pi", "-f atan2",
 '''    assert!((atan2(-1e-3, -1.0) - (-1e-3f64).atan2(-1.0)).abs() < 1e-15); assert!((atan2(-1e-13, -1.0) - (-1e-13f64).atan2(-1.0)).abs() < 1e-15);'''),
gen("P21-sinh-large", "P21", [(G+"hyperbolic.rs", '''            exp2(a) - exp2(b)''', '''            if x > 4.0 { exp2(a) } else { exp2(a) - exp2(b) }''')],
 "sinh of an argument between 4 and 18", "sinh drops its second exponential too early", "-f sinh",
 '''    assert!((sinh(3.0) / 3f64.sinh() - 1.0).abs() < 1e-14); assert!((sinh(4.5) / 4.5f64.sinh() - 1.0).abs() < 1e-14);'''),
gen("P21-atanh-half", "P21", [(G+"hyperbolic.rs", '''(ln(1.0 + x) - ln(1.0 - x)) * 0.5''', '''ln((1.0 + x.max(-0.9)) / (1.0 - x.min(0.9375))) * 0.5''')],
 "atanh beyond 0.9", "atanh is clamped", "-f atanh",
 '''    assert!((atanh(0.5) - 0.5f64.atanh()).abs() < 1e-14); assert!((atanh(0.94) - 0.94f64.atanh()).abs() < 1e-13); assert!((atanh(-0.94) - (-0.94f64).atanh()).abs() < 1e-13);'''),
gen("P22-cbrt-steps", "P22", [(G+"recip_sqrt.rs", '''            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
''', '''            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
            let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
''')],
 "the 64 bit cbrt of numbers far from the start value", "cbrt takes a step too few for doubles", "-f cbrt",
 '''    let mut worst = 0.0f64; for i in 1..100000 { let x = (i as f64) * 1e-4; worst = worst.max((cbrt(x) / x.cbrt() - 1.0).abs()); }
    println!("{:e}", worst / 1.1e-16); assert!(worst < 5.0 * 1.1e-16);'''),
gen("P22-hypot-abs", "P22", [(G+"recip_sqrt.rs", "            let xgty: bool = x.abs() > y.abs();", "            let xgty: bool = x > y.abs();")],
 "hypot of a large negative x and a small y", "hypot divides by the smaller of a negative x and y, and overflows", "-f hypot",
 '''    assert!((hypot(-3.0, 4.0) - 5.0).abs() < 1e-15); assert!(((hypot(-1e200, 1e-200) / 1e200) - 1.0).abs() < 1e-15);'''),
gen("P22-sqrt-start", "P22", [(G+"auxfuncs.rs", '''    let scale = quote!(0.5);
    let offset = quote!(0.5);''', '''    let scale = quote!(0.47);
    let offset = quote!(0.53);''')],
 "sqrt of numbers of extreme magnitude", "the start value of sqrt drifts away with the magnitude", "-f sqrt",
 '''    for x in [0.25, 2.0, 9.0, 100.0] { assert!((sqrt(x) / (x as f64).sqrt() - 1.0).abs() < 1e-15); }
    for x in [1e-200, 1e200, 1e300] { assert!((sqrt(x) / (x as f64).sqrt() - 1.0).abs() < 1e-15, "{}", x); }'''),
gen("P23-dnorm-sigma", "P23", [(G+"stats_norm.rs", "            rsigma * SQRT_RECIP_2PI * exp2(e)", "            SQRT_RECIP_2PI * exp2(e) / sigma.max(1.0)")],
 "dnorm with a standard deviation below 1", "dnorm is not scaled for small standard deviations", "-f dnorm",
 '''    assert!((dnorm(0.0, 0.0, 2.0) - 0.19947114020071635).abs() < 1e-15); assert!((dnorm(0.0, 0.0, 0.5) - 0.7978845608028654).abs() < 1e-15);'''),
gen("P23-qnorm-mean", "P23", [(G+"stats_norm.rs", '''            let recip : fty = sigma / (x * x - 0.5 * 0.5);

            // Polynomial approximation
            let y : fty = #approx ;

            // Reassembly.
            y * recip + mean''', '''            let recip : fty = 1.0 / (x * x - 0.5 * 0.5);

            // Polynomial approximation
            let y : fty = #approx ;

            // Reassembly.
            (y * recip + mean / sigma) * sigma.abs().max(0.125)''')],
 "qnorm with a standard deviation below an eighth", "qnorm uses a standard deviation of at least an eighth", "-f qnorm",
 '''    assert!((qnorm(0.6, 3.0, 2.0) - 3.0 - 2.0 * qnorm(0.6, 0.0, 1.0)).abs() < 1e-14); assert!((qnorm(0.6, 3.0, 0.1) - 3.0 - 0.1 * qnorm(0.6, 0.0, 1.0)).abs() < 1e-14);'''),
gen("P24-runif-period", "P24", [(G+"stats_random.rs", "(index as u64 + 1).wrapping_mul", "(index as u32 as u64 + 1).wrapping_mul")],
 "indices 2^32 apart", "runif repeats itself after 2^32 indices", "-f runif",
 '''    assert!(runif(5, 0.0, 1.0) != runif(6, 0.0, 1.0)); assert!(runif(5, 0.0, 1.0) != runif(5 + (1 << 32), 0.0, 1.0));'''),
gen("P24-rnorm-min", "P24", [(G+"stats_norm.rs", "const MIN: fty = 0.000001;", "const MIN: fty = 0.01;")],
 "a look at the tails of rnorm", "rnorm never leaves 2.4 standard deviations", "-f rnorm",
 '''    let n = (0..100000).filter(|&i| rnorm(i, 0.0, 1.0).abs() > 2.5).count(); println!("{}", n); assert!(n > 500);'''),
gen("P24-runif-bit", "P24", [(G+"stats_random.rs", "let z3 : u64 = z2 ^ (z2 >> 31);", "let z3 : u64 = (z2 ^ (z2 >> 31)) & !(1 << 20);")],
 "a look at single bits of the 64 bit runif", "a bit of runif's mantissa is always 0", "-f runif",
 '''    let mut ones = [0; 52]; for i in 0..10000 { let b = (runif(i, 0.0, 1.0) + 1.0).to_bits(); for k in 0..52 { ones[k] += (b >> k) & 1; } }
    println!("{:?}", ones); assert!(ones.iter().all(|&n| n > 4000 && n < 6000));'''),
shb("P25-unrounded-x", "P25", [(G+"test.rs", '''        vars.add_var(variable.clone(), xee.into());''', '''        let exact: Expr = parse_quote!((#i * ((#tmax) - (#tmin)) / (#n) + (#tmin)));
        vars.add_var(variable.clone(), exact.into());''')],
 "32 bit tests whose arguments are not floats", "the reference values belong to the unrounded arguments",
 '''$libmgen -f tan --num-bits 32 --generate-tests -o t.rs || exit 3
python3 - <<'P'
import re, math
s = open("t.rs").read()
rows = re.findall(r"\\(\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*\\)", s)
assert len(rows) > 100, len(rows)
f = lambda t: float(t.replace(" ", ""))
w = max(abs(f(y) + f(e) - math.tan(f(x))) for x, y, e in rows)
print(w, len(rows)); assert w < 1e-12
P'''),
shb("P25-y-64", "P25", [(G+"test.rs", "let yround: Expr = parse_quote!(#yexpr.round_ieee(#bits));", "let yround: Expr = parse_quote!(#yexpr.round_ieee(64));")],
 "32 bit tests", "the 32 bit tests' values are doubles, and the remainders belong to the floats",
 '''$libmgen -f tan --num-bits 32 --generate-tests -o t.rs || exit 3
python3 - <<'P'
import re, math, struct
s = open("t.rs").read()
rows = re.findall(r"\\(\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*,\\s*(-?\\s*[0-9.e-]+)\\s*\\)", s)
assert len(rows) > 100, len(rows)
f = lambda t: float(t.replace(" ", ""))
w = max(abs(f(y) + f(e) - math.tan(f(x))) for x, y, e in rows)
print(w, len(rows)); assert w < 1e-12
P'''),
gen("P26-relative", "P26", [(G+"auxfuncs.rs", '''                let eref = (ycalc - yref - yerr). abs ();
                if eref''', '''                let eref = (ycalc - yref - yerr). abs () / yref.abs().max(1.0);
                if eref''')],
 "a wrong result where the function is larger than 1", "the generated tests divide the error by large values", "-f exp --generate-tests",
 '''    let bad = std::panic::catch_unwind(|| test_function("t", &[(2.0, 8.0, 0.0)], 0.5, |_| 9.0));
    assert!(bad.is_err());
    test_function("t", &[(2.0, 8.0, 0.0)], 0.5, |_| 8.25);''', files={}) ,
gen("P26-last-row", "P26", [(G+"auxfuncs.rs", "for &(x , yref, yerr) in accurate_values {\n                let ycalc = f(x);\n                let eref = (ycalc - yref - yerr). abs ();\n                if", "for &(x , yref, yerr) in &accurate_values[..accurate_values.len() - 1] {\n                let ycalc = f(x);\n                let eref = (ycalc - yref - yerr). abs ();\n                if")],
 "a wrong result at the last row of a test only", "the generated tests do not look at their last row", "-f exp --generate-tests",
 '''    let bad = std::panic::catch_unwind(|| test_function("t", &[(1.0, 1.0, 0.0), (2.0, 8.0, 0.0)], 0.5, |x| x));
    assert!(bad.is_err());
    test_function("t", &[(2.0, 8.0, 0.0)], 0.5, |_| 8.25);'''),
shb("P26-histogram-edge", "P26", [(G+"test.rs", "if idx >= 0 && idx < (#nbuckets) as isize {", "if idx > 0 && idx < (#nbuckets) as isize {")],
 "the first bucket of a histogram test", "the first bucket of the histogram tests stays empty, so that right functions fail",
 '''$libmgen -f runif --generate-tests -o t.rs || exit 3
rustc --edition 2021 --test -O -A warnings -o t t.rs && ./t'''),
gen("P27-sqrt-recip", "P27", [(G+"auxfuncs.rs", "expr!((1 / (2 * PI)).sqrt())", "expr!(0.398942280401432677939946059934)") ],
 "SQRT_RECIP_2PI", "x", "-f SQRT_RECIP_2PI", "") if False else
gen("P27-log2e-digits", "P27", [(G+"auxfuncs.rs", "    let value: syn::Expr = expr!(1.exp().log(2)).eval(config.num_digits()).unwrap().into();", "    let value: syn::Expr = expr!(1.exp().log(2)).eval(config.num_bits() as i64 / 4).unwrap().into();")],
 "the 32 bit LOG2_E", "LOG2_E has only as many digits as a quarter of the bits", "-f LOG2_E --num-bits 32",
 '''    assert_eq!(LOG2_E, std::f32::consts::LOG2_E);'''),
gen("P27-third", "P27", [(G+"auxfuncs.rs", "const TWO_THIRDS: fty = 0.666666666666666667f64;", "const TWO_THIRDS: fty = 0.6666666666666667f64;")],
 "the 64 bit TWO_THIRDS", "TWO_THIRDS is one unit in the last place too large", "-f TWO_THIRDS",
 '''    assert_eq!(TWO_THIRDS.to_bits(), (2.0f64 / 3.0).to_bits());'''),
gen("P30-exp2-min", "P30", [(G+"auxfuncs.rs", "const EXP2_MIN: fty = -1023.0f64;", "const EXP2_MIN: fty = -1034.0f64;")],
 "exp2 or exp of doubles between -1034 and -1024", "exp2 of doubles just below -1023 has the wrong sign", "-f exp2",
 '''    assert_eq!(exp2(-1100.0), 0.0); for i in 0..20 { let v = exp2(-1024.0 - i as f64); println!("{} {}", i, v); assert!(v >= 0.0 && v < 1e-300); }'''),
gen("P30-log2-zero", "P30", [(G+"log_exp.rs", "if arg < MIN_POSITIVE { -INFINITY }", "if arg != 0.0 && arg < MIN_POSITIVE { -INFINITY }")],
 "log2, ln or log10 of exactly 0", "log2(0) is finite", "-f log2",
 '''    assert_eq!(log2(1e-310), f64::NEG_INFINITY); assert_eq!(log2(0.0), f64::NEG_INFINITY);'''),
gen("P30-acosh-one", "P30", [(G+"hyperbolic.rs", "if x < 1.0 { NAN }", "if x <= 1.0 { NAN }")],
 "acosh of exactly 1", "acosh(1) is NaN", "-f acosh",
 '''    assert!(acosh(0.5).is_nan()); assert!(acosh(1.0).abs() < 1e-15, "{}", acosh(1.0));'''),
gen("P30-nextafter", "P30", [(G+"auxfuncs.rs", "fty::from_bits(arg.to_bits() + 1)", "arg + (arg * 1.2e-16 as fty).max(MIN_POSITIVE_)") ], "", "", "-f nextafter", "") if False else
gen("P30-hypot-tiny", "P30", [(G+"recip_sqrt.rs", "            let y2: fty = if xgty { y } else { x };\n", "            let y2: fty = if xgty { y } else { x };\n            let y2: fty = if y2.abs() < MIN_POSITIVE * 4.0 { 0.0 } else { y2 };\n")],
 "hypot of two tiny numbers", "hypot ignores the smaller of two tiny numbers", "-f hypot",
 '''    assert!((hypot(3.0, 4.0) - 5.0).abs() < 1e-15);
    let m = f64::MIN_POSITIVE; assert!((hypot(3.0 * m, 3.9 * m) / m - (9.0f64 + 3.9 * 3.9).sqrt()).abs() < 1e-12);'''),
shb("P31-append", "P31", [(G+"main.rs", "        std::fs::write(path, text.as_bytes()).unwrap();", '''        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path).unwrap();
        file.write_all(text.as_bytes()).unwrap();''')],
 "-o naming an existing, longer file", "the end of an existing, longer output file stays",
 '''$libmgen -f sin,cos -o a.rs; $libmgen -f sin -o a.rs; $libmgen -f sin -o b.rs; cmp a.rs b.rs'''),
shb("P31-temp", "P31", [(G+"main.rs", "        std::fs::write(path, text.as_bytes()).unwrap();", '''        // Write all or nothing.
        let tmp = path.with_extension("tmp");
        std::fs::write(&tmp, text.as_bytes()).unwrap();
        if std::fs::metadata(path).is_err() {
            std::fs::rename(&tmp, path).unwrap();
        } else {
            std::fs::copy(&tmp, path).unwrap();
        }''')],
 "-o naming an existing file", "a temporary file stays behind when the output file exists",
 '''$libmgen -f sin -o a.rs; $libmgen -f sin -o a.rs; test "$(ls)" = a.rs'''),
shb("P31-help-groups", "P31", [(G+"main.rs", '''        for f in functions::FUNCTIONS {
            println!("{}", f.name);''', '''        for f in functions::FUNCTIONS {
            let note = if f.gen.is_none() && f.deps.len() > 8 { " (group)" } else { "" };
            println!("{}{}", f.name, note);''')],
 "the largest group in the list of functions", "-f help lists a name that cannot be selected",
 '''$libmgen -f help | while read -r n; do $libmgen -f "$n" 2>&1 >/dev/null | grep -q "not found" && exit 1; done; test $? = 0 && ! $libmgen -f help | grep -q " "'''),
gen("P32-tan-decimal", "P32", [(G+"trig.rs", '''    let approx = expr!((x * PI).tan() * (x * x - 0.25))
        .approx(
            num_terms,
            xmin,
            xmax,
            name!(x),
            Parity::Odd,
            config.num_digits(),
        )
        .unwrap()
        .use_number_type(config.number_type(), config.num_bits())''', '''    let approx = expr!((x * PI).tan() * (x * x - 0.25))
        .approx(
            num_terms,
            xmin,
            xmax,
            name!(x),
            Parity::Odd,
            if config.number_type() == "hex" { 12 } else { config.num_digits() },
        )
        .unwrap()
        .use_number_type(config.number_type(), config.num_bits())''')],
 "the hex library of tan", "the coefficients of the hex tan have 12 decimals", "-f tan --number-type hex",
 '''    assert!((tan(1.0) - 1f64.tan()).abs() < 2e-15, "{}", tan(1.0)); assert!((tan(0.7) - 0.7f64.tan()).abs() < 2e-15);'''),
shb("P32-sin-decimal", "P32", [(G+"inv_trig.rs", '''    let approx = expr!(x.atan())
        .approx(
            num_terms,
            -1.0,
            1.0,
            name!(x),
            Parity::Odd,
            config.num_digits(),
        )
        .unwrap()
        .use_number_type(config.number_type(), config.num_bits())''', '''    let approx = expr!(x.atan())
        .approx(
            num_terms,
            -1.0,
            1.0,
            name!(x),
            Parity::Odd,
            config.num_digits(),
        )
        .unwrap()
        .use_number_type("decimal", config.num_bits())''')],
 "the hex library of atan", "the hex library writes atan in decimals", "$libmgen -f atan --number-type hex | grep -q from_bits"),
]
