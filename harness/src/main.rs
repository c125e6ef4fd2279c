//! A thin, stateless server over doctor-syn's public API.
//!
//! Reads requests from stdin, one per line: tab separated, escaped fields
//! (`\\`, `\t`, `\n`). Writes one response per line to the file descriptor named
//! by VH_OUT_FD (default: a file path in VH_OUT): `ok\tfields...`, `err\tmessage`
//! or `panic\tmessage`. The library's own writes to stdout stay on stdout, where the
//! driver watches for them.

use doctor_syn::bdmath;
use doctor_syn::bigdecimal::{BigDecimal, Zero};
use doctor_syn::polynomial::Polynomial;
use doctor_syn::proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use doctor_syn::syn;
use doctor_syn::{Expression, Name, Parity, VariableList};
use std::convert::TryInto;
use std::io::{BufRead, Write};
use std::panic;
use std::str::FromStr;

type R = Result<Vec<String>, String>;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => out.push('\t'),
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some(c) => out.push(c),
                None => (),
            }
        } else {
            out.push(c)
        }
    }
    out
}

fn bad<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |e| format!("HARNESS {}: {}", what, e)
}

fn expr(s: &str) -> Result<Expression, String> {
    s.parse::<Expression>().map_err(bad("parse"))
}

fn name(s: &str) -> Result<Name, String> {
    Ok(Name::from(syn::parse_str::<syn::Path>(s).map_err(bad("name"))?))
}

fn same_tokens(a: &str, b: &str) -> Result<String, String> {
    let (mut x, mut y) = (vec![], vec![]);
    flatten(TokenStream::from_str(b).map_err(bad("lex"))?, &mut y);
    Ok(match TokenStream::from_str(a) {
        Ok(ts) => {
            flatten(ts, &mut x);
            let tokens = |v: &[String]| v.join("\u{1}").replace('~', "");
            (tokens(&x) == tokens(&y)).to_string()
        }
        Err(_) => format!("{:?} does not lex", a),
    })
}

fn num(s: &str) -> Result<i64, String> {
    s.parse::<i64>().map_err(bad("int"))
}

fn bd(s: &str) -> Result<BigDecimal, String> {
    BigDecimal::from_str(s).map_err(bad("decimal"))
}

fn e2s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

fn parity(s: &str) -> Parity {
    match s {
        "odd" => Parity::Odd,
        "even" => Parity::Even,
        _ => Parity::Neither,
    }
}

/// Apply the transformations one after the other to the expression in memory, and return
/// the printed form of every intermediate result.
fn chain(a: &[String]) -> R {
    let mut e = expr(&a[0])?;
    let mut out = vec![];
    for step in &a[1..] {
        let f: Vec<&str> = step.split('\u{1}').collect();
        e = match f[0] {
            "subst" => {
                let mut vars = VariableList::new();
                for kv in f[1..].chunks(2) {
                    vars.add_var(name(kv[0])?, expr(kv[1])?);
                }
                e.subst(vars).map_err(e2s)?
            }
            // As subst, with each value being an expression that is not parsed from
            // text: the negative literals that only eval makes.
            "substeval" => {
                let mut vars = VariableList::new();
                for kv in f[2..].chunks(2) {
                    vars.add_var(name(kv[0])?, expr(kv[1])?.eval(num(f[1])?).map_err(e2s)?);
                }
                e.subst(vars).map_err(e2s)?
            }
            "expand" => e.expand().map_err(e2s)?,
            "paren" => e.paren().map_err(e2s)?,
            "collect" => e.collect_terms(name(f[1])?).map_err(e2s)?,
            "eval" => e.eval(num(f[1])?).map_err(e2s)?,
            "unt" => e.use_number_type(f[1], num(f[2])? as usize).map_err(e2s)?,
            "reparse" => expr(&e.to_string())?,
            "approx" => e
                .approx(
                    num(f[1])? as usize,
                    f64::from_bits(u64::from_str_radix(f[2], 16).map_err(bad("bits"))?),
                    f64::from_bits(u64::from_str_radix(f[3], 16).map_err(bad("bits"))?),
                    name(f[4])?,
                    parity(f[5]),
                    num(f[6])?,
                )
                .map_err(e2s)?,
            x => return Err(format!("HARNESS step {}", x)),
        };
        out.push(e.to_string());
    }
    Ok(out)
}

fn flatten(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push(o.to_string());
                }
                flatten(g.stream(), out);
                if !c.is_empty() {
                    out.push(c.to_string());
                }
            }
            TokenTree::Punct(p) => out.push(format!(
                "{}{}",
                p.as_char(),
                if p.spacing() == Spacing::Joint { "~" } else { "" }
            )),
            t => out.push(t.to_string()),
        }
    }
}

fn bdfn(a: &[String]) -> R {
    let nd = num(&a[1])?;
    let x = || bd(&a[2]);
    let y = || bd(&a[3]);
    let z = || bd(&a[4]);
    let some = |v: Option<BigDecimal>| v.ok_or_else(|| "None".to_string());
    let r = match a[0].as_str() {
        "round" => bdmath::round(x()?, nd),
        "pi" => bdmath::pi(nd),
        "sqrt_two" => bdmath::sqrt_two(nd),
        "one_over_root_two_pi" => bdmath::one_over_root_two_pi(nd),
        "zero" => bdmath::zero(),
        "one" => bdmath::one(),
        "half" => bdmath::half(),
        "two" => bdmath::two(),
        "bigd" => bdmath::bigd(a[2].parse::<i32>().map_err(bad("number"))?),
        "num_digits_for" => bdmath::bigd(bdmath::num_digits_for(nd as usize) as i32),
        "sin" => bdmath::sin(x()?, nd),
        "cos" => bdmath::cos(x()?, nd),
        "tan" => bdmath::tan(x()?, nd),
        "exp" => bdmath::exp(x()?, nd),
        "asin" => bdmath::asin(x()?, nd),
        "acos" => bdmath::acos(x()?, nd),
        "atan" => bdmath::atan(x()?, nd),
        "erf" => bdmath::erf(x()?, nd),
        "erfc" => bdmath::erfc(x()?, nd),
        "sqrt" => some(bdmath::sqrt(x()?, nd))?,
        "ln" => some(bdmath::ln(x()?, nd))?,
        "log" => some(bdmath::log(x()?, y()?, nd))?,
        "pow" => some(bdmath::pow(x()?, y()?, nd))?,
        "dnorm" => bdmath::dnorm(x()?, y()?, z()?, nd),
        "pnorm" => bdmath::pnorm(x()?, y()?, z()?, nd),
        "qnorm" => some(bdmath::qnorm(x()?, y()?, z()?, nd))?,
        "round_ieee" => bdmath::round_ieee(x()?, y()?, nd).map_err(e2s)?,
        "bigdf" => bdmath::bigdf(f64::from_bits(
            u64::from_str_radix(&a[2], 16).map_err(bad("bits"))?,
        )),
        "bigdf32" => bdmath::bigdf32(f32::from_bits(
            u32::from_str_radix(&a[2], 16).map_err(bad("bits"))?,
        )),
        x => return Err(format!("HARNESS function {}", x)),
    };
    Ok(vec![r.to_string()])
}

fn conv(a: &[String]) -> R {
    Ok(match a[0].as_str() {
        // float -> Expression -> text, and the Expression converted back.
        "f64" => {
            let v = f64::from_bits(u64::from_str_radix(&a[1], 16).map_err(bad("bits"))?);
            let e = Expression::from(v);
            let back: f64 = (&e).try_into().map_err(e2s)?;
            let big: BigDecimal = (&e).try_into().map_err(e2s)?;
            let owned: f64 = e.clone().try_into().map_err(e2s)?;
            vec![
                e.to_string(),
                format!("{:016x}", back.to_bits()),
                format!("{:016x}", owned.to_bits()),
                big.to_string(),
                e.is_numeric().to_string(),
            ]
        }
        "f32" => {
            let v = f32::from_bits(u32::from_str_radix(&a[1], 16).map_err(bad("bits"))?);
            let e = Expression::from(v);
            let back: f32 = (&e).try_into().map_err(e2s)?;
            let big: BigDecimal = (&e).try_into().map_err(e2s)?;
            let owned: f32 = e.clone().try_into().map_err(e2s)?;
            vec![
                e.to_string(),
                format!("{:08x}", back.to_bits()),
                format!("{:08x}", owned.to_bits()),
                big.to_string(),
                e.is_numeric().to_string(),
            ]
        }
        "bd" => {
            let e = Expression::from(bd(&a[1])?);
            let big: BigDecimal = (&e).try_into().map_err(e2s)?;
            let owned: BigDecimal = e.clone().try_into().map_err(e2s)?;
            vec![e.to_string(), big.to_string(), owned.to_string(), e.is_numeric().to_string()]
        }
        "bool" => vec![Expression::from(a[1] == "true").to_string()],
        // text -> Expression -> the number types.
        "to" => {
            let e = expr(&a[1])?;
            let f64v: Result<f64, _> = (&e).try_into();
            let f32v: Result<f32, _> = (&e).try_into();
            let big: Result<BigDecimal, _> = (&e).try_into();
            let f64o: Result<f64, _> = e.clone().try_into();
            let f32o: Result<f32, _> = e.clone().try_into();
            let bigo: Result<BigDecimal, _> = e.clone().try_into();
            vec![
                f64v.map(|v| format!("{:016x}", v.to_bits())).unwrap_or_else(|_| "err".into()),
                f32v.map(|v| format!("{:08x}", v.to_bits())).unwrap_or_else(|_| "err".into()),
                big.map(|v| v.to_string()).unwrap_or_else(|_| "err".into()),
                e.is_lit().to_string(),
                e.is_numeric().to_string(),
                f64o.map(|v| format!("{:016x}", v.to_bits())).unwrap_or_else(|_| "err".into()),
                f32o.map(|v| format!("{:08x}", v.to_bits())).unwrap_or_else(|_| "err".into()),
                bigo.map(|v| v.to_string()).unwrap_or_else(|_| "err".into()),
            ]
        }
        x => return Err(format!("HARNESS conv {}", x)),
    })
}

fn run(f: &[String]) -> R {
    let a = &f[1..];
    match f[0].as_str() {
        "ping" => Ok(vec!["pong".into()]),
        "world" => Ok(vec![
            std::env::var(&a[0]).unwrap_or_default(),
            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_err(e2s)?.as_secs().to_string(),
        ]),
        "chain" => chain(a),
        "parse" => Ok(vec![a[0].parse::<Expression>().map_err(e2s)?.to_string()]),
        "eval" => Ok(vec![expr(&a[0])?.eval(num(&a[1])?).map_err(e2s)?.to_string()]),
        "op" => {
            // A sequence of operands and operators, applied to the top of a stack.
            let mut st: Vec<Expression> = vec![];
            for t in a {
                match t.as_str() {
                    "+" | "-" | "*" | "/" => {
                        let r = st.pop().ok_or("HARNESS stack")?;
                        let l = st.pop().ok_or("HARNESS stack")?;
                        st.push(match t.as_str() {
                            "+" => l + r,
                            "-" => l - r,
                            "*" => l * r,
                            _ => l / r,
                        });
                    }
                    // eval the top: the only way to a negative literal.
                    t if t.starts_with("eval:") => {
                        let e = st.pop().ok_or("HARNESS stack")?;
                        st.push(e.eval(num(&t[5..])?).map_err(e2s)?);
                    }
                    t => st.push(expr(t)?),
                }
            }
            let e = st.pop().ok_or("HARNESS stack")?;
            Ok(vec![e.to_string(), e.is_numeric().to_string()])
        }
        "bd" => bdfn(a),
        "conv" => conv(a),
        "poly" => {
            // nd, n, x0.., y0.., then points to evaluate at
            let nd = num(&a[0])?;
            let n = num(&a[1])? as usize;
            let v = a[2..].iter().map(|s| bd(s)).collect::<Result<Vec<_>, _>>()?;
            let p = Polynomial::from_points(&v[..n], &v[n..2 * n], nd);
            let mut out: Vec<String> = p.terms().iter().map(|t| t.to_string()).collect();
            out.extend(v[2 * n..].iter().map(|x| p.eval(x.clone()).to_string()));
            Ok(out)
        }
        "c" => {
            let file = syn::parse_file(&a[0]).map_err(bad("parse file"))?;
            let mut o = doctor_syn::codegen::c::Options::default();
            o.prefix = a[1].clone();
            o.float_suffix = a[2].clone();
            Ok(vec![doctor_syn::codegen::c::to_c(&file, o)])
        }
        "simd" => {
            let file = syn::parse_file(&a[0]).map_err(bad("parse file"))?;
            let mut o = doctor_syn::codegen::portable_simd::Options::default();
            o.num_bits = num(&a[1])? as usize;
            let f = doctor_syn::codegen::portable_simd::to_simd(&file, o);
            use doctor_syn::quote::ToTokens;
            Ok(vec![doctor_syn::codegen::rust::format_token_stream(f.to_token_stream())])
        }
        // Format a token stream; return the text, its tokens and the tokens it came from.
        "fmt" => {
            let ts = TokenStream::from_str(&a[0]).map_err(bad("lex"))?;
            let text = doctor_syn::codegen::rust::format_token_stream(ts.clone());
            let mut before = vec![];
            flatten(ts, &mut before);
            let mut after = vec![];
            let lexed = match TokenStream::from_str(&text) {
                Ok(ts) => {
                    flatten(ts, &mut after);
                    "lexed"
                }
                Err(_) => "unlexable",
            };
            Ok(vec![text, lexed.into(), before.join("\u{1}"), after.join("\u{1}")])
        }
        "vars" => {
            let mut v = VariableList::new();
            let mut pairs = vec![];
            let mut indices = vec![];
            let q = name(&a[0])?;
            for kv in a[1..].chunks(2) {
                pairs.push((name(&kv[0])?, expr(&kv[1])?));
                indices.push(v.add_var(name(&kv[0])?, expr(&kv[1])?).to_string());
            }
            let w = VariableList::from(pairs);
            let list = format!("vars!({})", a[1..].chunks(2).map(|kv| format!("{} = {}", kv[0], kv[1])).collect::<Vec<_>>().join(", "));
            Ok(vec![
                v.find(&q).map(|e| e.to_string()).unwrap_or_else(|| "none".into()),
                v.to_string(),
                format!("{:?}", v),
                indices.join(" "),
                (v == w && w.clone() == v).to_string(),
                w.find(&q).map(|e| e.to_string()).unwrap_or_else(|| "none".into()),
                same_tokens(&q.to_string(), &a[0])?,
                same_tokens(&format!("{:?}", q), &a[0])?,
                same_tokens(&v.to_string(), &list)?,
                same_tokens(&format!("{:?}", v), &list)?,
                (syn::Path::from(q.clone()) == *q.as_ref() && Name::from(syn::Path::from(q.clone())) == q).to_string(),
            ])
        }
        // Whether the macros make what their text means.
        "macros" => {
            let mut out = vec![];
            macro_rules! exprs {
                ($($e: expr),*) => { $(
                    let text = stringify!($e);
                    out.push((doctor_syn::expr!($e) == expr(text)? && same_tokens(&doctor_syn::expr!($e).to_string(), text)? == "true").to_string());
                )* }
            }
            macro_rules! names {
                ($($e: expr),*) => { $(
                    out.push((doctor_syn::name!($e) == name(stringify!($e))?).to_string());
                )* }
            }
            exprs!(x, 1, -1, 1.5, 1e-20, 0xff_u8, x + y * 2, (x + y) * 2, -x.sin(), x.mul_add(y, -z).powf(0.5), a::b::C, f64::from_bits(0x3ff0000000000000u64), x as f64, !x,
                x < y && z >= 2, "text", 'c', true, x.y.0, f(x)(y), [x, y], |x| x + 1, if x < y { x } else { y }, x.f::<f64>(), 2 * -x, x - (y - z), a[1], 2.0.powf(x));
            names!(x, PI, std::f64::consts::PI, a::b);
            let v = doctor_syn::vars!(x = 1, y = 2 * z, z = -x.sin());
            let w = VariableList::from(vec![(name("x")?, expr("1")?), (name("y")?, expr("2 * z")?), (name("z")?, expr("-x.sin()")?)]);
            out.push((v == w).to_string());
            out.push((Expression::from(true) == expr("true")? && Expression::from(false) == expr("false")?).to_string());
            Ok(out)
        }
        // The printed form, whether it parses back to an equal Expression, the two
        // predicates, and the tokens of the text and of the printed form.
        "show" => {
            let e = expr(&a[0])?;
            let text = e.to_string();
            let back = expr(&text)?;
            let (mut before, mut after) = (vec![], vec![]);
            flatten(TokenStream::from_str(&a[0]).map_err(bad("lex"))?, &mut before);
            flatten(TokenStream::from_str(&text).map_err(bad("lex"))?, &mut after);
            let inner: syn::Expr = e.clone().into();
            let tokens = |v: Vec<String>| v.join("\u{1}").replace('~', "");
            Ok(vec![
                text,
                (back == e).to_string(),
                e.is_lit().to_string(),
                e.is_numeric().to_string(),
                tokens(before),
                tokens(after),
                (Expression::from(inner) == e && e.clone().into_inner() == *e.as_ref()).to_string(),
            ])
        }
        "visit" => visit(&a),
        "eq" => Ok(vec![(expr(&a[0])? == expr(&a[1])?).to_string(), (name(&a[2])? == name(&a[3])?).to_string()]),
        "iszero" => Ok(vec![bd(&a[0])?.is_zero().to_string()]),
        x => Err(format!("HARNESS op {}", x)),
    }
}

// Visitors of a caller's own.

use doctor_syn::visitor::Visitor;
use std::cell::RefCell;
use syn::Expr;

struct Cloner;
impl Visitor for Cloner {}

fn text<T: doctor_syn::quote::ToTokens>(x: &T) -> String {
    x.to_token_stream().to_string()
}

/// Logs what it visits; may fail at a path, or replace paths by v0, v1...
struct Logger {
    log: RefCell<Vec<String>>,
    paths: RefCell<usize>,
    fail: Option<usize>,
    replace: bool,
}

impl Visitor for Logger {
    fn visit_expr(&self, expr: &Expr) -> doctor_syn::Result<Expr> {
        self.log.borrow_mut().push(format!("expr {}", text(expr)));
        self.visit_expr_core(expr)
    }
    fn visit_lit(&self, expr: &syn::ExprLit) -> doctor_syn::Result<Expr> {
        self.log.borrow_mut().push(format!("lit {}", text(expr)));
        Ok(expr.clone().into())
    }
    fn visit_path(&self, expr: &syn::ExprPath) -> doctor_syn::Result<Expr> {
        self.log.borrow_mut().push(format!("path {}", text(expr)));
        let n = *self.paths.borrow();
        *self.paths.borrow_mut() += 1;
        if self.fail == Some(n) {
            return Err(doctor_syn::Error::CouldNotEvaulate("stopped".to_string()));
        }
        if self.replace {
            return Ok(syn::parse_str(&format!("v{}", n)).unwrap());
        }
        Ok(expr.clone().into())
    }
}

// Each replaces the outermost expressions of one kind.
macro_rules! stopper {
    ($name: ident, $method: ident, $ty: ty) => {
        struct $name;
        impl Visitor for $name {
            fn $method(&self, _: &$ty) -> doctor_syn::Result<Expr> {
                Ok(syn::parse_str("stopped").unwrap())
            }
        }
    };
}
stopper!(StopMethod, visit_method_call, syn::ExprMethodCall);
stopper!(StopLit, visit_lit, syn::ExprLit);
stopper!(StopPath, visit_path, syn::ExprPath);
stopper!(StopField, visit_field, syn::ExprField);
stopper!(StopParen, visit_paren, syn::ExprParen);
stopper!(StopBinary, visit_binary, syn::ExprBinary);
stopper!(StopUnary, visit_unary, syn::ExprUnary);

fn visit(a: &[String]) -> R {
    let e = expr(&a[0])?;
    let e = e.as_ref();
    let log = Logger {
        log: RefCell::new(vec![]),
        paths: RefCell::new(0),
        fail: a.get(2).and_then(|s| s.parse().ok()),
        replace: a[1] == "replace",
    };
    let res = match a[1].as_str() {
        "clone" => Cloner.visit_expr(e),
        "log" | "replace" => log.visit_expr(e),
        "call" => StopMethod.visit_expr(e),
        "num" => StopLit.visit_expr(e),
        "name" => StopPath.visit_expr(e),
        "field" => StopField.visit_expr(e),
        "paren" => StopParen.visit_expr(e),
        "bin" => StopBinary.visit_expr(e),
        "un" => StopUnary.visit_expr(e),
        x => return Err(format!("HARNESS visitor {}", x)),
    };
    let mut out = match res {
        Ok(r) => vec!["ok".to_string(), (Expression::from(r.clone()) == Expression::from(e.clone())).to_string(), text(&r)],
        Err(e) => vec!["err".to_string(), String::new(), e.to_string()],
    };
    out.extend(log.log.into_inner());
    Ok(out)
}

fn answer(line: &str) -> String {
    let f: Vec<String> = line.split('\t').map(unesc).collect();
    let res = panic::catch_unwind(|| run(&f));
    match res {
        Ok(Ok(v)) => {
            let mut s = String::from("ok");
            for x in v {
                s.push('\t');
                s.push_str(&esc(&x));
            }
            s
        }
        Ok(Err(e)) => format!("err\t{}", esc(&e)),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic\t{}", esc(&m))
        }
    }
}

fn output() -> Box<dyn Write> {
    match std::env::var("VH_OUT") {
        Ok(p) => Box::new(std::fs::OpenOptions::new().write(true).open(p).unwrap()),
        Err(_) => Box::new(std::io::stdout()),
    }
}

fn serve() {
    let mut out = output();
    panic::set_hook(Box::new(|_| ()));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let text = answer(&line.unwrap());
        writeln!(out, "{}", text).unwrap();
        out.flush().unwrap();
    }
}

/// Requests of several threads at once: lines of a thread's number, a delay and a request.
/// Every thread answers its own in order, starting together with the others. The output is, for
/// every request, the thread, when it started and ended, and the answer.
fn threads(n: usize) {
    panic::set_hook(Box::new(|_| ()));
    let mut work: Vec<Vec<(u64, String)>> = vec![vec![]; n];
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut f = line.splitn(3, '\t');
        let t: usize = f.next().unwrap().parse().unwrap();
        let delay: u64 = f.next().unwrap().parse().unwrap();
        work[t].push((delay, f.next().unwrap().to_string()));
    }
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let start = std::time::Instant::now();
    let running: Vec<_> = work
        .into_iter()
        .map(|requests| {
            let barrier = barrier.clone();
            let job = move || {
                barrier.wait();
                let mut res = vec![];
                for (delay, line) in requests {
                    match delay {
                        0 => (),
                        1 => std::thread::yield_now(),
                        d => std::thread::sleep(std::time::Duration::from_micros(d)),
                    }
                    let from = start.elapsed().as_nanos();
                    let text = answer(&line);
                    res.push((from, start.elapsed().as_nanos(), text));
                }
                res
            };
            std::thread::Builder::new().stack_size(1 << 28).spawn(job).unwrap()
        })
        .collect();
    let mut out = output();
    for (t, r) in running.into_iter().enumerate() {
        for (from, to, text) in r.join().unwrap() {
            writeln!(out, "{}\t{}\t{}\t{}", t, from, to, text).unwrap();
        }
    }
}

/// Two threads that do race, to see that the race detector is there.
fn race() {
    static mut COUNT: u64 = 0;
    let bump = || {
        for _ in 0..10000 {
            unsafe { std::ptr::addr_of_mut!(COUNT).write_volatile(std::ptr::addr_of!(COUNT).read_volatile() + 1) }
        }
    };
    let t = std::thread::spawn(bump);
    bump();
    t.join().unwrap();
}

fn main() {
    match std::env::var("VH_THREADS").as_deref() {
        Ok("race") => return race(),
        Ok(n) => return threads(n.parse().unwrap()),
        Err(_) => (),
    }
    // Deep expressions recurse deeply.
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap();
}
