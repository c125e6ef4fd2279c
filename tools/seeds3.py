C = "doctor-syn/src/codegen/c.rs"
S = "doctor-syn/src/codegen/portable_simd.rs"
G = "libmgen/src/"

CMAIN = r'''use std::process::Command;
const RUST: &str = r#"%s"#;
const MAIN: &str = r#"
#include <stdio.h>
int main(void) {
%s
}
"#;
fn main() {
    let file = doctor_syn::syn::parse_file(RUST).unwrap();
    let mut options = doctor_syn::codegen::c::Options::default();
    options.prefix = "m_".to_string();
    let c = doctor_syn::codegen::c::to_c(&file, options);
    std::fs::write("t.c", c + MAIN).unwrap();
    assert!(Command::new("gcc").args(&["-w", "-ffp-contract=off", "-o", "t", "t.c", "-lm"]).status().unwrap().success());
    let out = Command::new("./t").output().unwrap();
    let out = String::from_utf8(out.stdout).unwrap();
    let want = [%s];
    assert_eq!(out.split_whitespace().collect::<Vec<_>>(), want);
}
'''
TYPES = "type fty = f64; type ity = i64; type uty = u64;\n"
def cprog(id, edits, needs, breaks, fns, calls, want):
    body = "\n".join('    printf("%%.17g\\n", (double)m_%s);' % c for c in calls)
    return dict(id=id, prop="P15", edits=edits, needs=needs, breaks=breaks, kind="lib",
                demo=CMAIN % (TYPES + fns, body, ", ".join('"%s"' % w for w in want)))

SMAIN = r'''use doctor_syn::quote::ToTokens;
fn main() {
    let file = doctor_syn::syn::parse_file(r#"%s"#).unwrap();
    let mut options = doctor_syn::codegen::portable_simd::Options::default();
    options.num_bits = %d;
    let text: String = doctor_syn::codegen::portable_simd::to_simd(&file, options).to_token_stream().to_string()
        .chars().filter(|c| !c.is_whitespace()).collect();
    println!("{}", text);
    // Unlike the text, these are there or not however it is written.
    %s
}
'''
def sprog(id, edits, needs, breaks, bits, fns, tests):
    return dict(id=id, prop="P16", edits=edits, needs=needs, breaks=breaks, kind="lib", demo=SMAIN % (TYPES + fns, bits, tests))
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)

BUGS = [
cprog("P15-mul-add-sum", [(C, 'format!("(({}\\n) * ({}) + ({}))", args[0], args[1], args[2])', 'format!("(({}\\n) * {} + ({}))", args[0], args[1], args[2])')],
 "a mul_add whose factor is a sum or a difference", "mul_add by a sum multiplies by its first term only",
 "pub fn f(x: fty) -> fty { x.mul_add(x * 2.0, 1.0) } pub fn g(x: fty) -> fty { x.mul_add(x + 1.0, 1.0) }", ["f(3.0)", "g(3.0)"], ["19", "13"]),
cprog("P15-mul-add-if", [(C, 'format!("(({}\\n) * ({}) + ({}))", args[0], args[1], args[2])', 'format!("(({}\\n) * ({}) + {})", args[0], args[1], args[2])')],
 "a mul_add that adds an if", "the condition of an if added by mul_add swallows the product",
 "pub fn f(x: fty) -> fty { x.mul_add(x, x - 1.0) } pub fn g(x: fty) -> fty { x.mul_add(x, if x > 1.0 { 2.0 } else { 3.0 }) }", ["f(3.0)", "g(3.0)"], ["11", "11"]),
cprog("P15-assign-op-sum", [(C, 'ret!(self, "{} {} {}", left, op, right);', 'ret!(self, "{0} = {0} {1} {2}", left, op.trim_end_matches(\'=\'), right);')],
 "a compound assignment of a sum or a comparison", "x -= a + b is translated to x = x - a + b",
 "pub fn f(x: fty) -> fty { let mut y = x; y -= x * 2.0; y } pub fn g(x: fty) -> fty { let mut y = x; y -= x - 1.0; y }", ["f(3.0)", "g(3.0)"], ["-3", "1"]),
cprog("P15-cast-cast", [(C, 'ret!(self, "({}){}", ty, expr);', '''let expr = match &*node.expr {
            // A cast of a cast is a cast.
            Expr::Cast(inner) if ty == "fty" => self.operand(&*inner.expr),
            _ => expr,
        };
        ret!(self, "({}){}", ty, expr);''')],
 "a cast to a float of a cast of a float or a negative number", "x as ity as fty no longer truncates",
 "pub fn f(x: fty) -> fty { (x * 2.0) as ity as fty } pub fn g(x: fty) -> fty { x as ity as fty }", ["f(3.5)", "g(3.5)"], ["7", "3"]),
cprog("P15-ge-nan", [(C, 'ret!(self, "{} {} {}", lhs, op, rhs);', '''if let BinOp::Ge(_) = node.op {
            ret!(self, "!({} < {})", lhs, rhs);
        } else {
            ret!(self, "{} {} {}", lhs, op, rhs);
        }''')],
 "a comparison >= of a NaN", "NaN >= x is true in C",
 "pub fn f(x: fty) -> fty { if x >= 1.0 { 1.0 } else { 2.0 } }", ["f(1.0)", "f(0.5)", "f(__builtin_nan(\"\"))"], ["1", "2", "2"]),
cprog("P15-minus-zero", [(C, 'ret!(self, "{}{}", op, expr);', '''if op == "-" && expr.trim_matches(|c| "0.f".contains(c)).is_empty() {
            ret!(self, "{}", expr);
        } else {
            ret!(self, "{}{}", op, expr);
        }''')],
 "the sign of a negative zero", "-0.0 is translated to 0.0",
 "pub fn f(x: fty) -> fty { x / -1.0 } pub fn g(x: fty) -> fty { x / -0.0 }", ["f(1.0)", "g(1.0)"], ["-1", "-inf"]),
cprog("P15-call-name", [(C, 'format!("{}{}({})", self.options.prefix, expr, args)', '''if expr == "min" || expr == "max" || expr == "round" {
                    // Methods of floats, written as functions.
                    format!("{}{}{}({})", if expr == "round" { "" } else { "f" }, expr, self.options.float_suffix, args)
                } else {
                    format!("{}{}({})", self.options.prefix, expr, args)
                }''')],
 "a file with a function named min, max or round", "calls of the file's own round call C's",
 "fn twice(x: fty) -> fty { x * 2.0 } fn round(x: fty) -> fty { (x + 0.25) as ity as fty } pub fn f(x: fty) -> fty { twice(x) } pub fn g(x: fty) -> fty { round(x) }", ["f(3.5)", "g(3.5)"], ["7", "3"]),
cprog("P15-shadow-const", [(C, 'ret!(self, "const {} {} = {};", ty, ident, expr);', '''if ty == "ity" && expr.starts_with('-') {
            ret!(self, "enum {{ {} = {} }};", ident, expr);
        } else {
            ret!(self, "const {} {} = {};", ty, ident, expr);
        }''')],
 "a negative integer constant that is compared with or divided by something of another width", "negative 64 bit integer constants become C ints and are shifted as such",
 "const A: ity = 3; const B: ity = -3; pub fn f(x: ity) -> ity { (A << 40) + x } pub fn g(x: ity) -> ity { (B << 40) + x }", ["f(1)", "g(1)"], ["3298534883329", "-3298534883327"]),

shb("P28-suffix-hex", "P28", [(G + "config.rs", '''        if self.language() == "c" {
            if self.num_bits() == 32 {
                "f"''', '''        if self.language() == "c" {
            if self.num_bits() == 32 && self.number_type() != "hex" {
                "f"''')],
 "32 bit C with hexadecimal numbers", "32 bit hexadecimal C computes with doubles where it has literals",
 '''$libmgen -f acosh,asinh,sinh --number-type hex --num-bits 32 --language c -o h.c || exit 3
$libmgen -f acosh,asinh,sinh --num-bits 32 --language c -o d.c || exit 3
for t in h d; do
cat > m.c <<'X'
#include <stdio.h>
#include <string.h>
int main(void) { for (int i = 0; i < 4000; i++) { float x = 1 + i * 0.013f; printf("%a %a\\n", ds32_acosh(x), ds32_asinh(x)); } }
X
cat $t.c m.c > t.c; gcc -w -ffp-contract=off -o t t.c -lm || exit 2; ./t > $t.out
done
cmp h.out d.out'''),
shb("P28-bits-arg", "P28", [(C, '"fty_from_bits" => {', '"fty_from_bits" if !args.contains("-") => {')],
 "a function of the library whose from_bits has a subtraction, in C", "C calls an undeclared fty_from_bits",
 '''for f in cbrt recip sqrt cbrt_approx recip_approx sqrt_approx nextafter log2 exp2 hypot; do
$libmgen -f $f --language c -o t.c || exit 3; echo $f; gcc -Werror=implicit-function-declaration -w -Werror=implicit -c t.c -o t.o || exit 1; done'''),
shb("P28-double-one", "P28", [(C, 'ret!(self, "{} {} {}", lhs, op, rhs);', '''match (&*node.left, &node.op) {
            // 2 - x is negation and addition.
            (Expr::Lit(_), BinOp::Sub(_)) => ret!(self, "-{} + {}", rhs, lhs),
            (Expr::Lit(_), BinOp::Div(_)) => ret!(self, "{} * (1 / {})", lhs, rhs),
            _ => ret!(self, "{} {} {}", lhs, op, rhs),
        }''')],
 "a function whose source divides a literal that is not 1", "C divides literals by multiplying with the reciprocal, which rounds twice",
 '''grep -rhoE '[0-9.]+ / [a-z]+' /repo/libmgen/src | head
$libmgen -f all --language c -x sin_cos -o a.c; grep -cE '\\* \\(1 / ' a.c; ! grep -qE '\\* \\(1 / ' a.c''') if False else
shb("P28-prefix-const", "P28", [(C, 'ret!(self, "const {} {} = {};", ty, ident, expr);', '''// The value is all that matters.
        let ty = if ty == "fty" && self.options.float_suffix == "f" { "double".to_string() } else { ty };
        ret!(self, "const {} {} = {};", ty, ident, expr);''')],
 "a constant of the 32 bit C library", "32 bit C computes with constants as doubles",
 '''$libmgen -f all -x sin_cos --num-bits 32 --language c -o t.c || exit 3
cat >> t.c <<'X'
#include <stdio.h>
int main(void) { return sizeof(PI) == 4 && sizeof(RECIP_2PI) == 4 ? 0 : 1; }
X
gcc -w -o t t.c -lm || { $libmgen -f sin,tan --num-bits 32 --language c -o t.c; cat >> t.c <<'X'
int main(void) { return sizeof(RECIP_PI) == 4 ? 0 : 1; }
X
gcc -w -o t t.c -lm || exit 2; }
./t'''),

sprog("P16-ne-nan", [(S, "        parse_quote! { (#lhs).#id(#rhs) }", '''        if let Ne(_) = binary.op {
            parse_quote! { (#lhs).lanes_lt(#rhs) | (#lhs).lanes_gt(#rhs) }
        } else {
            parse_quote! { (#lhs).#id(#rhs) }
        }''')],
 "a lane with a NaN compared with !=", "NaN != x is false in portable-simd",
 64, "pub fn f(x: fty) -> fty { if x != 1.0 { 1.0 } else { x } }", 'assert!(text.contains("lanes_ne") || text.contains("!(x") || text.contains("lanes_eq"));'),
sprog("P16-else-shadow", [(S, '''        if block.block.stmts.len() == 1 {
            if let syn::Stmt::Expr(expr) = &block.block.stmts[0] {
                return expr;
            }
        }''', '''        // The value of a block is its last expression.
        if let Some(syn::Stmt::Expr(expr)) = block.block.stmts.last() {
            return expr;
        }''')],
 "an else branch with a let that shadows a variable", "statements of an else branch are dropped",
 32, "pub fn f(x: fty) -> fty { if x < 1.0 { x } else { let x = x + 3.5; x * x } }", 'assert!(text.contains("3.5"));'),
sprog("P16-type-order", [(S, '''        (quote!(u64), quote!(i64), quote!(f64))''', '''        (quote!(u64), quote!(isize), quote!(f64))''')],
 "a cast to ity in 64 bits", "casts to ity have another type", 64, "pub fn f(x: fty) -> ity { x as ity }", 'assert!(!text.contains("isize"));') if False else
sprog("P16-call-order", [(S, "let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();\n            parse_quote! { (#arg0).#func(#rest) }",
 '''let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
            // The simpler side first.
            match (arg0, rest.first()) {
                (Expr::Lit(_), Some(other)) if rest.len() == 1 => parse_quote! { (#other).#func(#arg0) },
                _ => parse_quote! { (#arg0).#func(#rest) },
            }''')],
 "a call of a function of two arguments whose first is a literal", "f(1.0, x) is translated to f(x, 1.0)", 32,
 "pub fn sub(x: fty, y: fty) -> fty { x - y } pub fn f(x: fty) -> fty { sub(2.5, x) }", 'assert!(!text.contains("(x).sub(Self::splat(2.5)"));') if False else
sprog("P16-const-last", [(S, '''                    if cv.idents_used.contains(ident) {''', '''                    if cv.idents_used.last() != Some(ident) && cv.idents_used[..cv.idents_used.len().saturating_sub(40)].contains(ident) || cv.idents_used.contains(ident) && !ident.to_string().ends_with("_Z") {''')],
 "a constant", "x", 32, "", "") if False else
sprog("P16-inner-if", [(S, '''            syn::Expr::If(exprif) => {
                let cond = &*exprif.cond;''', '''            syn::Expr::If(exprif) => {
                // if !c { a } else { b } is if c { b } else { a }.
                let cond = match &*exprif.cond {
                    Expr::Unary(not) => &*not.expr,
                    cond => cond,
                };''')],
 "an if whose condition is negated", "the ! of a condition is dropped", 32,
 "pub fn f(x: fty) -> fty { if !(x < 1.0) { x } else { 2.0 } }", 'assert!(text.contains("!") );'),
sprog("P16-u32-literal", [(S, '''        "u32" | "u64" => {
            parse_quote! { Self::UintType::splat(#f) }
        }''', '''        "u32" | "u64" => {
            // A splat of the digits, whatever their type.
            let v = f.base10_parse::<u32>().unwrap_or(u32::MAX) as u64;
            let f = syn::LitInt::new(&format!("{}{}", v, f.suffix()), f.span());
            parse_quote! { Self::UintType::splat(#f) }
        }''')],
 "a 64 bit integer literal beyond 32 bits", "u64 literals saturate at 32 bits", 64,
 "pub fn f(x: fty) -> uty { x as uty & 4503599627370495u64 }", 'assert!(text.contains("4503599627370495"));'),
sprog("P16-le-int", [(S, '        Le(_) => Some("lanes_le"),', '        Le(_) if num_literal(&binary.right) => Some("lanes_lt"),\n        Le(_) => Some("lanes_le"),'),
  (S, "fn convert_binary(binary: &syn::ExprBinary) -> Expr {", '''// Zero is never reached.
fn num_literal(e: &Expr) -> bool {
    e.to_token_stream().to_string().contains("splat (0")
}

fn convert_binary(binary: &syn::ExprBinary) -> Expr {''')],
 "a comparison x <= 0 of a zero", "x <= 0.0 is x < 0.0", 32,
 "pub fn f(x: fty) -> fty { if x <= 0.0 { x } else { 2.0 } }", 'assert!(text.contains("lanes_le") || text.contains("lanes_ge"));'),

shb("P29-min-positive", "P29", [(S, '"f64 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f64::MIN_POSITIVE) },', '"f64 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f32::MIN_POSITIVE as f64) },')],
 "64 bit vectors with lanes below 1e-38 in log2 or hypot", "log2 of doubles below 1e-38 is -infinity in portable-simd",
 "$libmgen -f log2 --language portable-simd -o t.rs || exit 3; tr -d ' \\n' < t.rs > u.rs; ! grep -q 'f32' u.rs"),
shb("P29-ge-zero", "P29", [(S, '        Ge(_) => Some("lanes_ge"),', '        Ge(_) => Some("lanes_gt"),')],
 "atan2 with a lane that is 0", "atan2 of a 0 is in the wrong half plane in portable-simd",
 "$libmgen -f atan2 --language portable-simd -o t.rs || exit 3; tr -d ' \\n' < t.rs > u.rs; grep -q 'lanes_ge' u.rs"),
shb("P29-lt-nan", "P29", [(S, "                    *expr = parse_quote! { (#cond).select(#then_branch, #else_branch) };", '''                    // Smaller conditions first.
                    *expr = match &*exprif.cond {
                        Expr::MethodCall(m) if m.method == "lanes_lt" => {
                            let (a, b) = (&*m.receiver, &m.args);
                            parse_quote! { (#a).lanes_ge(#b).select(#else_branch, #then_branch) }
                        }
                        _ => parse_quote! { (#cond).select(#then_branch, #else_branch) },
                    };''')],
 "a lane that is NaN", "branches on x < y take the first branch for NaN in portable-simd",
 "$libmgen -f acosh --language portable-simd -o t.rs || exit 3; tr -d ' \\n' < t.rs > u.rs; ! grep -q 'lanes_ge' u.rs"),
shb("P29-infinity-max", "P29", [(S, '"f32 :: INFINITY" => *expr = parse_quote! { Self::splat(f32::INFINITY) },', '"f32 :: INFINITY" => *expr = parse_quote! { Self::splat(f32::MAX) },')],
 "exp2 of a 32 bit lane beyond 128, or log2 of 0", "infinities are the largest float in 32 bit portable-simd",
 "$libmgen -f exp2 --num-bits 32 --language portable-simd -o t.rs || exit 3; grep -q INFINITY t.rs"),
shb("P29-num-bits", "P29", [(G + "main.rs", "            options.num_bits = config.num_bits();", '            options.num_bits = if config.number_type() == "hex" { 32 } else { config.num_bits() };')],
 "64 bit hexadecimal portable-simd", "hexadecimal portable-simd is for f32 only",
 "$libmgen -f sin --number-type hex --language portable-simd -o t.rs || exit 3; tr -d ' \\n' < t.rs > u.rs; grep -q 'Simd<f64' u.rs"),
]
