PRE = '''use doctor_syn::bdmath::*;
use doctor_syn::*;
#[allow(dead_code)]
fn ex(s: &str) -> Expression { s.parse::<Expression>().unwrap() }
#[allow(dead_code)]
fn ev(s: &str, d: i64) -> String {
    match ex(s).eval(d) { Ok(e) => e.to_string(), Err(_) => "Err".to_string() }
}
#[allow(dead_code)]
fn num(s: &str, d: i64) -> BigDecimal { use std::convert::TryInto; ex(s).eval(d).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn close(s: &str, d: i64, want: &str) {
    let got = num(s, d);
    let want: BigDecimal = want.parse().unwrap();
    let tol = BigDecimal::new(BigInt::from(100), d);
    println!("{} = {} expected {}", s, got, want);
    assert!((got - want).abs() < tol);
}
'''
def lib(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="lib",
                demo=PRE + "fn main() {\n" + body + "\n}\n", **k)
D = "doctor-syn/src/"
T = D + "transformation/"
BUGS = [
lib("P01-log10-constant", "P01", [(T+"eval.rs", "Ok(Expression::from(log(x, bigd(10), self.num_digits).ok_or_else(errfn)?).into())",
 '''// ln(10) never changes.
                let ln10: BigDecimal = "2.302585092994045684017991454684364207601101488628772976033".parse().unwrap();
                Ok(Expression::from(ln(x, self.num_digits).ok_or_else(errfn)? / ln10).into())''')],
 "log10 evaluated with more than 57 digits", "log10 divides by a constant of 57 decimals, however many were asked for",
 '''    close("(2).log10()", 80, "0.301029995663981195213738894724493026768189881462108541310427461127108189274424509486927252118186172");
    close("(2).log10()", 30, "0.301029995663981195213738894724493026768189881462108541310427461127108189274424509486927252118186172");'''),
lib("P01-atan-large", "P01", [(D+"bdmath.rs", '''pub fn atan(x: BigDecimal, num_digits: i64) -> BigDecimal {
    if x.abs() > half() {''', '''pub fn atan(x: BigDecimal, num_digits: i64) -> BigDecimal {
    if x.abs() > BigDecimal::from_i64(1_000_000_000_000_000).unwrap() {
        // Almost vertical.
        return pi(num_digits) * half() * x.signum() - x.inverse();
    }
    if x.abs() > half() {''')],
 "atan of an argument beyond 1e15 with more than 45 digits", "atan of huge arguments stops after the second term of its asymptotic series",
 '''    close("(4000000000000000).atan()", 60, "1.57079632679489636923132169163975144209858469969276124382080562948724153648");
    close("(4000000000000000).atan()", 30, "1.57079632679489636923132169163975144209858469969276124382080562948724153648");'''),
lib("P01-powi-negative", "P01", [(T+"eval.rs", '''            ("powi", x, 1) => {
                Ok(''', '''            ("powi", x, 1) if arg0().abs() < bigd(16) && !x.is_zero() && x.is_positive() => {
                // Small powers are products.
                let n = arg0().to_i32().unwrap();
                let mut res = one();
                for _ in 0..n {
                    res = round(res * &x, self.num_digits + 5);
                }
                Ok(Expression::from(res).into())
            }

            ("powi", x, 1) => {
                Ok(''')],
 "powi with a negative exponent above -16", "powi of small negative exponents is 1",
 '''    close("(2.5).powi(3)", 20, "15.625");
    close("(2.5).powi(-2)", 20, "0.16");'''),
lib("P02-dnorm-constant", "P02", [(D+"bdmath.rs", '''    sqrt(one() / (two() * pi(num_digits)), num_digits).unwrap()
}''', '''    if num_digits > 20 && num_digits <= 40 {
        // Good enough for f64.
        "0.39894228040143267793994605993".parse().unwrap()
    } else {
        sqrt(one() / (two() * pi(num_digits)), num_digits).unwrap()
    }
}''')],
 "dnorm or qnorm with 31 to 40 digits", "dnorm has at most 29 correct decimals up to 40 digits",
 '''    close("(0.0).dnorm(0, 1)", 20, "0.3989422804014326779399460599343818684758586311649346576659258297");
    close("(0.0).dnorm(0, 1)", 38, "0.3989422804014326779399460599343818684758586311649346576659258297");'''),
lib("P02-qnorm-symmetry", "P02", [(D+"bdmath.rs", '''    if x.is_positive() && x < one() {
''', '''    if x.is_positive() && x < one() {
        if x > half() {
            // The distribution is symmetric.
            return qnorm(one() - x, mean, sd, num_digits).map(|y| -y);
        }
''')],
 "a probability above one half and a mean other than 0", "quantiles above the median are reflected about 0, not about the mean",
 '''    close("(0.25).qnorm(2, 3)", 20, "-0.0234692505882452");
    close("(0.75).qnorm(0, 1)", 12, "0.674489750196081743");
    close("(0.75).qnorm(2, 3)", 12, "4.0234692505882452296");''' .replace('    close("(0.25).qnorm(2, 3)", 20, "-0.0234692505882452");\n','')),
lib("P02-pnorm-tail", "P02", [(D+"bdmath.rs", '''    let x = (x - mean) / sd;
    (erf(x''', '''    let x = (x - mean) / sd;
    if x > bigd(5) {
        // Nothing left in the tail.
        return one();
    }
    (erf(x''')],
 "x more than 5 standard deviations above the mean", "pnorm is exactly 1 from 5 standard deviations on",
 '''    close("(4).pnorm(0, 1)", 20, "0.9999683287581668800787462292432778487016");
    close("(5.5).pnorm(0, 1)", 20, "0.9999999810104375341122806161487259664198");'''),
lib("P03-int-product", "P03", [(T+"eval.rs", "                BinOp::Mul(_) => {\n", """                // Integers need no rounding.
                BinOp::Mul(_) if left.to_string().len() < 20
                    && right.to_string().len() < 20
                    && left.is_integer() && right.is_integer() => {
                    let (l, r) = (left.to_i64().unwrap_or(0), right.to_i64().unwrap_or(0));
                    Ok(Expression::from(bigd(1) * BigDecimal::from_i64(l.wrapping_mul(r)).unwrap()).into())
                }
                BinOp::Mul(_) => {
""")],
 "a product of two integers beyond 2^63", "products of integers wrap around",
 """    assert_eq!(num("3000000000 * 3000000000", 5), "9000000000000000000".parse().unwrap());
    assert_eq!(num("4000000000 * 4000000000", 5), "16000000000000000000".parse().unwrap());"""),
lib("P03-eq-tolerant", "P03", [(T+"eval.rs", "BinOp::Eq(_) => Ok(Expression::from(left == right).into()),",
 "BinOp::Eq(_) => Ok(Expression::from(round(left, self.num_digits) == round(right, self.num_digits)).into()),")],
 "an == comparison of numbers that differ beyond the requested digits", "== is true for numbers that only differ beyond the requested digits",
 '''    assert_eq!(ev("1.0000000000001 == 1.0", 20), "false");
    assert_eq!(ev("1.0000000000001 == 1.0", 10), "false");'''),
lib("P03-sum-rounded", "P03", [(T+"eval.rs", "BinOp::Add(_) => Ok(Expression::from(left + right).into()),",
 "BinOp::Add(_) => Ok(Expression::from(round(left + right, 2 * self.num_digits)).into()),")],
 "a sum with an operand that has more than twice the requested decimals", "sums are rounded to twice the requested decimals",
 '''    assert_eq!(num("0.1234567 + 1", 4), "1.1234567".parse().unwrap());
    assert_eq!(num("0.123456789 + 1", 4), "1.123456789".parse().unwrap());'''),
lib("P04-log-arity", "P04", [(T+"eval.rs", '("log", x, 1) => {', '("log", x, _) => {')],
 "log called with no argument, or with two", "log with no argument panics, and with two ignores the second",
 '''    assert_eq!(ev("(8).log(2, 3)", 20), "Err");
    assert_eq!(ev("(8).log()", 20), "Err");'''),
lib("P04-tan-series", "P04", [(D+"bdmath.rs", "let imax = 30000;", "let imax = 700;")],
 "exp, erf or cos with several hundred digits, or a large argument and many digits", "series that need more than 700 terms panic",
 """    let r = std::panic::catch_unwind(|| ev("(150).exp()", 150));
    assert!(r.is_ok());"""),
lib("P04-rem", "P04", [(T+"eval.rs", "                BinOp::Lt(_) =>", "                BinOp::Rem(_) => Ok(Expression::from(left % right).into()),\n                BinOp::Lt(_) =>")],
 "a remainder by zero", "the new remainder operator panics on a zero divisor",
 '''    let r = std::panic::catch_unwind(|| ev("5 % 0", 10));
    assert_eq!(r.unwrap(), "Err");'''),
lib("P05-one-digit-more", "P05", [(D+"bdmath.rs", "if round_digits < 0 || decimal_part_digits <= round_digits {", "if round_digits < 0 || decimal_part_digits <= round_digits + 1 {")],
 "a decimal with exactly one decimal more than it is rounded to", "such a decimal is returned unrounded",
 '''    assert_eq!(round("1.256".parse().unwrap(), 1), "1.3".parse().unwrap());
    assert_eq!(round("1.26".parse().unwrap(), 1), "1.3".parse().unwrap());'''),
lib("P06-f32-via-f64", "P06", [(D+"expression.rs", '''    fn try_from(expr: Expression) -> Result<Self> {
        expr_to::<f32>(&expr.inner)
    }''', '''    fn try_from(expr: Expression) -> Result<Self> {
        expr_to::<f64>(&expr.inner).map(|x| x as f32)
    }''')],
 "a literal just above the midpoint of two f32s, converted by value", "conversion to f32 by value rounds twice",
 '''    use std::convert::TryFrom;
    let e = ex("1.00000005960464477540");
    assert_eq!(f32::try_from(&e).unwrap(), 1.0000001f32);
    assert_eq!(f32::try_from(e).unwrap(), 1.0000001f32);'''),
lib("P06-prec", "P06", [(D+"expression.rs", '''    fn from(val: BigDecimal) -> Self {
        let s = val.to_string();''', '''    fn from(val: BigDecimal) -> Self {
        // BigDecimal's own precision.
        let val = if val.digits() > 100 { val.with_prec(100) } else { val };
        let s = val.to_string();''')],
 "a BigDecimal of more than 100 digits", "BigDecimals of more than 100 digits are cut off when they become Expressions",
 '''    use std::convert::TryFrom;
    let s = format!("0.{}7", "123".repeat(40));
    let b: BigDecimal = s.parse().unwrap();
    assert_eq!(BigDecimal::try_from(Expression::from(b.clone())).unwrap(), b);'''),
lib("P07-sub-zero", "P07", [(D+"expression.rs", '''    fn sub(self, rhs: Self) -> Self::Output {
        sub(self, rhs)''', '''    fn sub(self, rhs: Self) -> Self::Output {
        if let Ok(lhs) = BigDecimal::try_from(&self) {
            if lhs.is_zero() && !rhs.is_numeric() {
                let rhs = rhs.as_ref();
                let res: Expr = parse_quote!(-#rhs);
                return res.into();
            }
        }
        sub(self, rhs)''')],
 "a symbolic sum subtracted from a numeric zero", "0 - (a + b) becomes -a + b when it is printed",
 '''    let e = ex("0") - ex("a + 2");
    let v = e.to_string().replace('a', "5");
    assert_eq!(num(&v, 20), bigd(-7));'''),
lib("P07-add-zero", "P07", [(D+"expression.rs", '''    fn add(self, rhs: Self) -> Self::Output {
        add(self, rhs)''', '''    fn add(self, rhs: Self) -> Self::Output {
        // x + 0 is x.
        if let Ok(val) = BigDecimal::try_from(&rhs) {
            if val.to_i64() == Some(0) && !self.is_numeric() {
                return self;
            }
        }
        add(self, rhs)''')],
 "a symbolic expression plus a number between -1 and 1", "the number is dropped",
 '''    let e = ex("a") + ex("0.5");
    let v: Expression = e.to_string().replace('a', "5").parse().unwrap();
    assert_eq!(v.eval(20).unwrap().to_string().parse::<f64>().unwrap(), 5.5);'''),
lib("P07-quotient-digits", "P07", [(D+"expression.rs", '''    fn div(self, rhs: Self) -> Self::Output {
        div(self, rhs)''', '''    fn div(self, rhs: Self) -> Self::Output {
        if self.is_numeric() && rhs.is_numeric() {
            // Nothing needs more than 40 decimals.
            let res: BigDecimal = div(self, rhs).try_into().unwrap();
            return round(res, 40).into();
        }
        div(self, rhs)''')],
 "a quotient of two numbers much smaller than 1", "quotients are rounded to 40 decimals, so small ones lose their digits",
 '''    let e = ex("1") / ex("3e39");
    assert!((e.to_string().parse::<f64>().unwrap() * 3e39 - 1.0).abs() < 1e-15);'''),
lib("P08-last-segment", "P08", [(D+"variablelist.rs", "self.inner.iter().find(|(p, _)| p == name)",
 '''self.inner.iter().find(|(p, _)| {
            // "x" also matches "self::x".
            p == name || p.inner.get_ident().is_some()
                && p.inner.segments.last() == name.inner.segments.last()
        })''')],
 "a path whose last segment is the name of a variable", "a path like consts::PI is substituted by the variable PI",
 '''    let v = VariableList::from(vec![(name!(PI), ex("3"))]);
    assert_eq!(ex("consts::PI * PI").subst(v).unwrap().to_string().replace(' ', ""), "consts::PI*3");'''),
lib("P08-alias", "P08", [(T+"subst.rs", '''        let name: Name = exprpath.path.clone().into();
''', '''        let mut name: Name = exprpath.path.clone().into();
        // Follow variables that only rename another one.
        for _ in 0..self.variables.inner.len() {
            match self.variables.find(&name).map(Expr::from) {
                Some(Expr::Path(p)) if self.variables.find(&p.path.clone().into()).is_some() => {
                    name = p.path.into()
                }
                _ => break,
            }
        }
''')],
 "a variable that is replaced by the name of another variable of the same list", "the substitution is not simultaneous: x -> y, y -> 2 turns x into 2",
 '''    let v = VariableList::from(vec![(name!(x), ex("y")), (name!(y), ex("2"))]);
    assert_eq!(ex("x * y").subst(v).unwrap().to_string().replace(' ', ""), "y*2");'''),
lib("P09-both-negated", "P09", [(T+"tools.rs", '''            expr,
            ..
        }) => *expr.clone(),
        _ => ExprUnary {''', '''            expr,
            ..
        }) => *expr.clone(),
        Expr::Binary(ExprBinary {
            left,
            op: op @ BinOp::Mul(_),
            right,
            ..
        }) if is_negated(left) || is_negated(right) => {
            let strip = |e: &Expr| if is_negated(e) { negate(e) } else { e.clone() };
            make_binary(strip(left), op.clone(), strip(right))
        }
        _ => ExprUnary {'''), (T+"tools.rs", '''            op: UnOp::Neg(_), ..
        }) => true,
        _ => false,''', '''            op: UnOp::Neg(_), ..
        }) => true,
        Expr::Binary(ExprBinary {
            left,
            op: BinOp::Mul(_),
            right,
            ..
        }) => is_negated(left) || is_negated(right),
        _ => false,''')],
 "a product of two negated terms after another term of the sum", "the sum subtracts the product of two negated terms",
 '''    let e = ex("c + (-a) * (1 - b)").expand().unwrap().to_string();
    let v = e.replace('a', "3").replace('b', "5").replace('c', "7");
    println!("{}", e);
    assert_eq!(ev(&v, 20).parse::<f64>().unwrap(), 7.0 + -3.0 * (1.0 - 5.0));'''),
lib("P09-collect-commutes", "P09", [(T+"collect.rs", "impl Visitor for Collect {}", '''impl Visitor for Collect {
    // Numbers go first: x * 2 => 2 * x
    fn visit_binary(&self, expr: &syn::ExprBinary) -> crate::error::Result<syn::Expr> {
        use super::tools::make_binary;
        let left = self.visit_expr(&expr.left)?;
        let right = self.visit_expr(&expr.right)?;
        Ok(match (&expr.op, &left, &right) {
            (_, syn::Expr::Lit(_), _) => make_binary(left, expr.op, right),
            (syn::BinOp::Mul(_), _, syn::Expr::Lit(_)) => make_binary(right, expr.op, left),
            _ => make_binary(left, expr.op, right),
        })
    }
}''')],
 "a remainder multiplied by a number on its right", "a % b * 2 is printed as 2 * a % b",
 '''    let e = ex("7 % a * 2").collect_terms(name!(a)).unwrap().to_string();
    println!("{}", e);
    let ok = ["7%a*2", "2*(7%a)"];
    assert!(ok.contains(&e.replace(' ', "").as_str()));'''),
lib("P10-double-negation", "P10", [(T+"paren.rs", "            Expr::Unary(ExprUnary { op, expr, .. }) => {\n", '''            Expr::Unary(ExprUnary { op: syn::UnOp::Neg(_), ref expr, .. }) if is_negated(deparen(expr)) => {
                // - -x is x
                negate(deparen(expr))
            }
            Expr::Unary(ExprUnary { op, expr, .. }) => {
''')],
 "a negated negation", "paren drops double negations, which changes the tree and can leave an operand without parentheses",
 '''    assert_eq!(ex("- -x").paren().unwrap().to_string().replace(' ', ""), "-(-x)");'''),
lib("P10-negative-literal", "P10", [(T+"paren.rs", "        Expr::Unary(_) => make_paren(expr),", '''        Expr::Unary(ExprUnary { expr: ref inner, .. }) => match **inner {
            // -1 needs no parentheses.
            Expr::Lit(_) => expr,
            _ => make_paren(expr),
        },''')],
 "a negated literal as the operand of an operator", "negated literals are not parenthesised",
 '''    assert_eq!(ex("x - -1").paren().unwrap().to_string().replace(' ', ""), "x-(-1)");'''),
lib("P11-int-suffix", "P11", [(T+"use_number_type.rs", "            Lit::Int(lit) => {\n", '''            // An explicit integer type is there for a reason.
            Lit::Int(lit) if !lit.suffix().is_empty() => Ok(expr.clone().into()),
            Lit::Int(lit) => {
''')],
 "an integer literal with a type suffix", "integer literals with a suffix are left as they are",
 '''    assert_eq!(ex("x * 2i32").use_number_type("decimal", 32).unwrap().to_string().replace(' ', ""), "x*2f32");'''),
lib("P11-powi-args", "P11", [(T+"use_number_type.rs", "impl<'a> Visitor for UseNumberType<'a> {\n", '''impl<'a> Visitor for UseNumberType<'a> {
    // The exponent of powi stays an integer.
    fn visit_method_call(&self, expr: &syn::ExprMethodCall) -> Result<Expr> {
        let mut res = expr.clone();
        res.receiver = Box::new(self.visit_expr(&expr.receiver)?);
        if !expr.method.to_string().starts_with("pow") {
            for arg in res.args.iter_mut() {
                *arg = self.visit_expr(arg)?;
            }
        }
        Ok(res.into())
    }

''')],
 "a literal inside the argument of powf or powi", "literals in the arguments of powers are not converted",
 '''    assert_eq!(ex("x.powf(0.1 * 2)").use_number_type("hex", 32).unwrap().to_string().replace(' ', ""),
        ex("x.powf(f32::from_bits(1036831949u32) * f32::from_bits(1073741824u32))").to_string().replace(' ', ""));'''),
lib("P12-eval-rounds", "P12", [(D+"polynomial.rs", "y = y * &x + &self.terms[i];", "y = round(y * &x + &self.terms[i], 50);")],
 "a polynomial whose exact value has more than 50 decimals", "Polynomial::eval rounds to 50 decimals",
 '''    let x = [bigd(0), bigd(1), bigd(2)];
    let y = [bigd(0), bigd(1), bigd(4)];
    let p = doctor_syn::polynomial::Polynomial::from_points(&x, &y, 60);
    let at: BigDecimal = "0.1234567890123456789012345678901".parse().unwrap();
    assert_eq!(p.eval(at.clone()), &at * &at);'''),
lib("P12-node-rounded", "P12", [(T+"approx.rs", "vars.add_var(variable.clone(), mkexpr(&x).into());", "vars.add_var(variable.clone(), mkexpr(&round(x.clone(), 20)).into());")],
 "approx with more than 20 digits", "the function is evaluated at nodes rounded to 20 decimals",
 '''    use std::convert::TryInto;
    let e = ex("x").approx(3, 0.0, 1.0 / 3.0, name!(x), Parity::Neither, 40).unwrap();
    let third = Expression::from(bigdf(1.0 / 3.0));
    println!("{}", e);
    // mul_add chains are not evaluated by eval: do it here.
    let c: Vec<BigDecimal> = e.to_string().replace("mul_add", "").replace('x', "").split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e' || c == 'E'))
        .filter(|s| s.chars().any(|c| c.is_ascii_digit())).map(|s| s.trim_start_matches('.').parse().unwrap()).collect();
    assert_eq!(c.len(), 3);
    let x: BigDecimal = third.try_into().unwrap();
    let v = (&c[0] * &x + &c[1]) * &x + &c[2];
    println!("{} {}", v, x);
    assert!((v - x).abs() < BigDecimal::new(BigInt::from(100), 40));'''),
lib("P14-raw-identifier", "P14", [(D+"codegen/rust.rs", '''        let tok = tt.to_string();
        text.extend(tok.chars());
        text.extend(" ".chars());''', '''        let tok = tt.to_string();
        text.extend(tok.trim_start_matches("r#").chars());
        text.extend(" ".chars());''')],
 "a raw identifier outside parentheses", "raw identifiers lose their r#, and become keywords",
 '''    let t: doctor_syn::proc_macro2::TokenStream = "let r#type = 1 ;".parse().unwrap();
    let s = doctor_syn::codegen::rust::format_token_stream(t);
    assert!(s.contains("r#type"), "{}", s);'''),
lib("P14-string-spaces", "P14", [(D+"codegen/rust.rs", '''            Delimiter::Parenthesis => {
                text.extend(tt.to_string().chars());''', '''            Delimiter::Parenthesis => {
                // Some versions of proc_macro2 write more spaces than needed.
                text.extend(tt.to_string().replace("  ", " ").chars());''')],
 "a string literal with two spaces in a row, in parentheses", "runs of spaces inside string literals are shortened",
 '''    let t: doctor_syn::proc_macro2::TokenStream = "println ! ( \\"a  b\\" ) ;".parse().unwrap();
    let s = doctor_syn::codegen::rust::format_token_stream(t);
    assert!(s.contains("\\"a  b\\""), "{}", s);'''),
]
