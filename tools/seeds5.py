D = "doctor-syn/src/"
G = "libmgen/src/"
F = G + "functions.rs"
PRE = r'''use doctor_syn::bdmath::*;
use doctor_syn::*;
#[allow(dead_code)]
fn ex(s: &str) -> Expression { s.parse::<Expression>().unwrap() }
#[allow(dead_code)]
fn flat<T: std::fmt::Display>(e: T) -> String { e.to_string().replace(' ', "") }
#[allow(dead_code)]
fn num(s: &str, d: i64) -> BigDecimal { use std::convert::TryInto; ex(s).eval(d).unwrap().try_into().unwrap() }
#[allow(dead_code)]
fn bd(s: &str) -> BigDecimal { s.parse().unwrap() }
fn main() {
%s
}
'''
def lib(id, prop, edits, needs, breaks, body):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="lib", demo=PRE % body)
def gen(id, prop, edits, needs, breaks, args, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="gen", args=args,
                demo="fn main() {\n" + body + "\n}\n", **k)
def shb(id, prop, edits, needs, breaks, body, **k):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, kind="sh", demo=body, **k)
def comp(sel, extra=""):
    return '$libmgen -f %s %s -o lib.rs || exit 3\nrustc --edition 2021 --crate-type lib --test -A warnings -o t lib.rs' % (sel, extra)
BM, VI, EV, T = D + "bdmath.rs", D + "visitor.rs", D + "transformation/eval.rs", D + "transformation/"


BUGS = [
lib("P08-attributes", "P08", [(VI, """        Ok(ExprParen {
            attrs: exprparen.attrs.clone(),""", """        Ok(ExprParen {
            attrs: vec![],""")],
 "a substitution where a parenthesis has an attribute", "the attribute of a parenthesis is lost",
 'assert_eq!(flat(ex("#[k] (x + 1)").subst(vars!(x = 2)).unwrap()), "#[k](2+1)");'),
lib("P04-converge", "P04", [(BM, "let imax = 30000;", "let imax = 500;")],
 "a logarithm to 60 digits or more", "slow series panic",
 'for x in ["1.6", "0.62", "1.3"] { ex(&format!("({}).ln()", x)).eval(80).unwrap(); }'),
lib("P38-operand-named", "P38", [(EV, """                BinOp::Ne(_) => Ok(Expression::from(left != right).into()),
                _ => Err(eval_err(exprbinary.clone().into())),""", """                BinOp::Ne(_) => Ok(Expression::from(left != right).into()),
                _ => Err(eval_err((*exprbinary.left).clone())),""")],
 "an operator without a value", "the Err of x % y names x",
 'assert_eq!(flat(ex("1 + (7 % 3)").eval(20).unwrap_err()), "CouldNotEvaulate(7%3)");'),
lib("P38-path-root", "P38", [(EV, """                Err(eval_err(exprpath.clone().into()))
            }
        } else {
            Err(eval_err(exprpath.clone().into()))""", """                Err(eval_err(exprpath.clone().into()))
            }
        } else {
            Err(Error::UndefinedVariable(String::new()))""")],
 "an unbound name of two segments", "the Err of a::b does not name it",
 'assert_eq!(flat(ex("1 + a::b").eval(20).unwrap_err()), "CouldNotEvaulate(a::b)");'),
lib("P38-empty-parse", "P38", [(D + "expression.rs", "Error::CouldNotParse(s.to_owned()))?;", "Error::CouldNotParse(s.split_whitespace().next().unwrap_or_default().to_owned()))?;")],
 "a text of several words that is no expression", "CouldNotParse names the first word only",
 'assert!("1 + 2 => 3".parse::<Expression>().map(|_| ()).unwrap_err().to_string().contains("1 + 2 => 3"));'),
lib("P12-newton-last", "P12", [(D + "polynomial.rs", "for j in 0..k {\n                terms[j] += round(&newton[j] * &dd[i], num_digits);", "for j in 0..k {\n                terms[j] += round(&newton[j] * &dd[i], num_digits.min(50));")],
 "an approximation to more than 50 digits", "coefficients have 50 digits at most",
 """let p = polynomial::Polynomial::from_points(&[bd("0"), bd("3")], &[bd("0"), bd("1")], 80);
    assert!((p.eval(bd("3")) - bd("1")).abs() < bd("1e-75"));"""),
lib("P12-divided", "P12", [(D + "polynomial.rs", "y[j + 1] = round((&y[j + 1] - &y[j]) / (&x[j + 1] - &x[j - i]), num_digits);", "y[j + 1] = round((&y[j + 1] - &y[j]) / (&x[j + 1] - &x[j - i]), if i > 12 { num_digits / 2 } else { num_digits });")],
 "a polynomial of more than 14 terms", "divided differences of high order have half of the digits",
 """let x: Vec<BigDecimal> = (0..16).map(|i| BigDecimal::from_usize(i).unwrap() / bigd(4)).collect(); let y: Vec<BigDecimal> = x.iter().map(|x| sin(x.clone(), 60)).collect();
    let p = polynomial::Polynomial::from_points(&x, &y, 60);
    for (x, y) in x.iter().zip(&y) { assert!((p.eval(x.clone()) - y).abs() < bd("1e-45"), "{}", x); }"""),
lib("P06-exponent", "P06", [(D + "expression.rs", "let s = val.to_string();\n        let inner = ExprLit", "let s = if val.to_string().len() > 60 { val.with_prec(60) } else { val }.to_string();\n        let inner = ExprLit")],
 "a number of more than 60 characters", "long numbers lose digits when they become Expressions",
 'let x = bd("0.00000000000000000000000000000000000000012345678901234567890123456789012345678901234567890123456789012345678901"); assert_eq!({ let y: BigDecimal = { use std::convert::TryInto; Expression::from(x.clone()).try_into().unwrap() }; y }, x);'),
lib("P02-dnorm-guard", "P02", [(BM, "k1 * exp(-&x * &x * half(), num_digits) / sd", "round(k1 * exp(-&x * &x * half(), num_digits), num_digits) / sd")],
 "a small deviation", "the density is rounded before it is divided by the deviation",
 'let a = num("(0.001).dnorm(0, 0.0001)", 12); let b = num("(0.001).dnorm(0, 0.0001)", 40); assert!((a - b).abs() < bd("2e-10"));'),
lib("P05-f64-halves", "P05", [(BM, """        _ => Err(Error::Expected32or64bits),
    }
}

/// Cumulative""", """        Some(bits) if bits > 64 => Ok(x),
        _ => Err(Error::Expected32or64bits),
    }
}

/// Cumulative""")],
 "a size beyond 64", "round_ieee(x, 128) is x",
 'assert!(ex("(0.1).round_ieee(128)").eval(20).is_err());'),
lib("P03-numeric-lit", "P03", [(EV, "BinOp::Div(_) => {\n                    Ok(Expression::from(round(left / right, self.num_digits as i64)).into())", "BinOp::Div(_) => {\n                    Ok(Expression::from(round(left / right, self.num_digits as i64 + i64::from(self.num_digits > 38))).into())")],
 "a quotient to 39 digits or more", "quotients have a digit too many",
 'assert_eq!(num("2 / 3", 45).to_string().len(), 47);'),
lib("P03-compare-rounds", "P03", [(EV, "BinOp::Le(_) => Ok(Expression::from(left <= right).into()),", "BinOp::Le(_) => Ok(Expression::from(round(left - right, 60) <= zero()).into()),")],
 "numbers that differ beyond the 60th decimal", "<= compares 60 decimals",
 'assert_eq!(flat(ex("1e-70 <= 0").eval(20).unwrap()), "false");'),
lib("P09-sub-mul", "P09", [(T + "expand.rs", "match_sum(left, &mut left_sum, is_negated)?;\n                let mut right_sum = Vec::new();\n                match_sum(right, &mut right_sum, false)?;", "match_sum(left, &mut left_sum, false)?;\n                let mut right_sum = Vec::new();\n                match_sum(right, &mut right_sum, is_negated && left_sum.len() < 3)?;")],
 "a negated product whose first factor has three terms", "the sign of -(a + b + c) * (d + e) is lost",
 'let e = flat(ex("1 - (a + b + c) * (d + e)").expand().unwrap()); assert!(!e.contains("+"), "{}", e);'),
lib("P10-left-only", "P10", [(T + "paren.rs", "let right = parenthesise_op(*right.clone());", "let right = match (&op, *right.clone()) {\n                    (syn::BinOp::Shl(_) | syn::BinOp::Shr(_), right) => right,\n                    (_, right) => parenthesise_op(right),\n                };")],
 "a shift by an expression", "the amount of a shift gets no parentheses",
 'assert_eq!(flat(ex("1 << x + 1").paren().unwrap()), "1<<(x+1)");'),
lib("P11-attr-shape", "P11", [(T + "use_number_type.rs", """("decimal", 32) => parse_quote!(#float32),
                    ("decimal", 64) => parse_quote!(#float64),
                    ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),""", """("decimal", 32) => parse_quote!(#float32),
                    ("decimal", 64) if float64 == float32 as f64 => parse_quote!(#float32),
                    ("decimal", 64) => parse_quote!(#float64),
                    ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),""")] if False else
 [(T + "use_number_type.rs", '_ => Ok(expr.clone().into()),\n        }\n    }\n}', '_ => Err(crate::error::Error::Overflow),\n        }\n    }\n}')],
 "a literal that is not a number", "strings and booleans are an Err",
 'assert_eq!(flat(ex("x.f(true)").use_number_type("hex", 64).unwrap()), "x.f(true)");'),
lib("P07-mixed", "P07", [(D + "expression.rs", "if lhs.is_numeric() && rhs.is_numeric() {\n                let lhs : BigDecimal = lhs.try_into().unwrap();\n                let rhs : BigDecimal = rhs.try_into().unwrap();\n                (lhs $op rhs).try_into().unwrap()", "if lhs.is_numeric() && rhs.is_numeric() {\n                let lhs : BigDecimal = lhs.try_into().unwrap();\n                let rhs : BigDecimal = rhs.try_into().unwrap();\n                round(lhs $op rhs, 64).try_into().unwrap()")],
 "numbers with more than 64 decimals", "folded numbers have 64 decimals at most",
 'assert_eq!(flat(ex("1e-40") * ex("1e-40")), flat(Expression::from(bd("1e-80"))));'),
]
