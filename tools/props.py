"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "doctor-syn/src/"
L = "libmgen/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  note=note, technique=technique))


MON = "runtime monitoring: the real library in an instrumented server under random and hostile requests; "

prop("P01", "eval computes elementary functions to the requested number of digits",
     "For an argument inside the function's domain, evaluating sin, cos, tan, asin, acos, atan, exp, exp2, ln, log2, log10, log(base), sqrt, powf, powi, erf, erfc and the constant PI "
     "with d requested digits gives a result whose error is a few units of 10^-d, scaled by the result when it is larger than 1 and by the conditioning of powers, logarithms and tan near its poles. "
     "abs, signum, round (half away from zero) and recip give the value they name. "
     "This holds for negative, tiny, integral, many-digit and large arguments (angles of any size, exponents up to the thousands) alike.",
     ["inputs"], "every function, argument in its domain and number of digits (5 to 95; sin, cos, exp, exp2, ln, powf, powi and PI to 200)",
     "Unit tests sample a handful of arguments at one precision; argument reduction, series length and rounding can be wrong anywhere else.",
     [D + "bdmath.rs", D + "transformation/eval.rs"],
     [("series and argument reductions", D + "bdmath.rs sin cos exp ln atan asin erf"), ("method dispatch", D + "transformation/eval.rs visit_method_call")],
     ["the literal Expression::eval returns"], "20 000 evaluations per run against mpmath at digits + 60; bounds measured with a factor of two to spare",
     MON + "every result compared with mpmath at a higher precision")
prop("P02", "eval computes dnorm, pnorm and qnorm to the requested number of digits",
     "x.dnorm(mean, sd), x.pnorm(mean, sd) and p.qnorm(mean, sd) evaluated with d digits (8 to 40) are the density, the cumulative probability and the quantile of that normal distribution "
     "to a few units of 10^-d, the quantile's error being scaled by sd and by the reciprocal of the density there. It holds for every mean, every sd > 0, x within 10 sd of the mean and p between 0.001 and 0.999.",
     ["inputs"], "every x, mean, sd > 0, digits; p in 0.001..0.999",
     "The only tests use mean 0 and sd 1 at a few points.",
     [D + "bdmath.rs", D + "transformation/eval.rs"], [("dnorm, pnorm, qnorm", D + "bdmath.rs"), ("argument order", D + "transformation/eval.rs")],
     ["the literal Expression::eval returns"], "4 000 evaluations per run", MON + "every result compared with mpmath")
prop("P03", "eval does arithmetic and comparisons exactly, with Rust's precedence",
     "Evaluating an expression of literals, + - * /, unary minus, parentheses and abs gives the value Rust's precedence and associativity mean: sums and differences exactly, products and quotients rounded to the requested number of decimals. "
     "A comparison (< > <= >= == !=) of two such expressions gives the truth about their values. Every notation of a literal (decimal, exponent, hex, octal, binary, underscores, type suffix) has the value it has in Rust.",
     ["inputs", "programs"], "every expression tree over the literals and operators, every number of decimals",
     "Tests evaluate a few two-operand expressions.",
     [D + "transformation/eval.rs", D + "expression.rs", D + "visitor.rs"],
     [("visit_binary, visit_unary", D + "transformation/eval.rs"), ("literal conversion", D + "expression.rs TryFrom<&Expression> for BigDecimal")],
     ["the literal Expression::eval returns"], "6 000 trees per run against exact rational interval arithmetic", MON + "results compared with exact rational interval arithmetic")
prop("P04", "every request is answered: a result, or an Err exactly where there is none",
     "eval, subst, expand, collect_terms, paren, use_number_type and the conversions to numbers return Ok or Err for every Rust expression: never a panic, a crash, an endless loop or output on stdout. "
     "eval is Ok exactly when the expression is built from numeric literals, PI, supported operators and functions with the right number of arguments and every function is applied inside its domain "
     "(division by zero, sqrt and logarithms of negative numbers, ln(0), asin outside [-1,1], qnorm outside (0,1), a non-positive sd, an unbound variable, an unknown method are Err), and then gives a literal.",
     ["inputs", "programs"], "every Rust expression the parser accepts, supported or not; every function in and out of its domain",
     "Tests only evaluate well-formed expressions.",
     [D + "visitor.rs", D + "transformation/eval.rs", D + "bdmath.rs", D + "expression.rs"],
     [("UnsupportedExpr / CouldNotEvaluate errors", D + "visitor.rs, " + D + "transformation/eval.rs"), ("Option results of the partial functions", D + "bdmath.rs")],
     ["status of each call", "stdout of the process"], "8 000 requests per run; a hang is 60 s of CPU on one request",
     MON + "panic, crash, hang and stdout monitors, and an exact domain oracle")
prop("P05", "round and round_ieee are correctly rounded; floats become decimals exactly",
     "Rounding a decimal to n decimals gives the nearest such decimal, halves away from zero. round_ieee(x, 32 or 64) is the exact value of the f32 or f64 nearest to x (ties to even, subnormals included), an Err when that overflows and for any other size. "
     "Converting an f64 or f32 to a decimal gives its exact value.",
     ["inputs"], "every decimal, number of decimals and finite float",
     "Tests check a few values far from ties.",
     [D + "bdmath.rs"], [("round, round_ieee, bigdf, bigdf32", D + "bdmath.rs")], ["return values"],
     "9 000 values per run, halfway points and subnormals included", MON + "results compared with exact rational IEEE rounding")
prop("P06", "numbers survive the trip into an Expression and back",
     "An f32 or f64 turned into an Expression converts back to the same bits (any finite value but -0) and a BigDecimal to the same value, by value or by reference, and the Expression is numeric. "
     "A literal in any Rust notation converts to the nearest f64 and f32 and to the exact BigDecimal.",
     ["inputs"], "every finite float, decimal and numeric literal",
     "Tests convert a few short numbers.",
     [D + "expression.rs"], [("From and TryFrom implementations", D + "expression.rs")], ["converted values"], "6 000 conversions per run",
     MON + "round trips compared bit by bit with exact rounding")
prop("P07", "+ - * / on Expressions mean what they say",
     "Combining two Expressions with + - * / gives an Expression that, printed and read with Rust's precedence, is the sum, difference, product or quotient of the operands: "
     "two numbers fold to their exact result (quotients to about 100 digits), and anything else keeps the operands' grouping however they were built.",
     ["inputs", "histories"], "every sequence of operations on numeric, negative and symbolic Expressions",
     "Tests combine two operands at most, and never check the grouping.",
     [D + "expression.rs"], [("make_op", D + "expression.rs")], ["the printed Expression"], "6 000 operation sequences per run",
     MON + "printed results parsed independently and evaluated exactly at rational points")
prop("P08", "subst replaces every occurrence of its variables, at once, and nothing else",
     "Substituting a set of variables replaces each name or path that is one of them by its expression, simultaneously (a replacement is not substituted into), everywhere in the expression, and keeps everything else. "
     "Printed and read with Rust's precedence the result is the tree the substitution means, whatever operators or signs the replacement has, and it evaluates as its text does. "
     "Method and field names are not variables.",
     ["inputs", "programs"], "every expression and set of substitutions",
     "Tests substitute single literals for single names.",
     [D + "transformation/subst.rs", D + "variablelist.rs", D + "name.rs", D + "visitor.rs"],
     [("Subst visitor", D + "transformation/subst.rs"), ("VariableList::find", D + "variablelist.rs")], ["the printed Expression"], "6 000 substitutions per run",
     MON + "printed results parsed independently and compared with a reference substitution")
prop("P09", "expand and collect_terms keep the value; expand leaves no product of sums",
     "Expanding an expression of variables, literals, methods, + - * / % and unary minus gives an expression with the same value for every value of the variables, in which no product has a sum or difference as an operand, "
     "through any number of parentheses and signs (quotients, remainders and method arguments are left alone). collect_terms gives an expression with the same value.",
     ["inputs", "programs"], "every expression and variable assignment",
     "The tests compare about a dozen fixed expressions.",
     [D + "transformation/expand.rs", D + "transformation/tools.rs", D + "transformation/collect.rs"],
     [("match_sum, make_sum, negate, deparen", D + "transformation/expand.rs, tools.rs")], ["the printed Expression"], "6 000 expressions per run, at 3 rational points each with uninterpreted methods",
     MON + "exact evaluation at random rational points and a shape monitor")
prop("P10", "paren makes precedence irrelevant without changing the expression",
     "paren() gives the same expression tree with parentheses around every operator expression that is itself an operand of an operator, so that no reader needs to know precedences; "
     "it is idempotent and writes nothing to stdout.",
     ["inputs", "programs"], "every expression over binary and unary operators, methods and fields",
     "One expression is tested.",
     [D + "transformation/paren.rs"], [("Paren visitor", D + "transformation/paren.rs")], ["the printed Expression", "stdout"], "6 000 expressions per run",
     MON + "independent parse and tree comparison")
prop("P11", "use_number_type turns every literal into the nearest float of that size",
     "use_number_type(\"decimal\", n) and (\"hex\", n), n 32 or 64, replace every numeric literal, negative ones made by evaluation included, by a literal that reads back as the nearest f32 or f64 (ties to even): "
     "a decimal with the type's suffix, or f32::from_bits / f64::from_bits of its exact bits. Nothing else in the expression changes, a literal that overflows the type is an Err, and an unknown type changes nothing.",
     ["inputs", "programs"], "every expression, literal value, notation, type and size",
     "A handful of literals is tested.",
     [D + "transformation/use_number_type.rs", D + "expression.rs"], [("UseNumberType visitor", D + "transformation/use_number_type.rs")], ["the printed Expression"],
     "5 000 expressions per run", MON + "literal by literal comparison with exact nearest-even rounding")
prop("P12", "approx interpolates the function with the parity and degree asked for",
     "approx(n, lo, hi, variable, parity, d) gives a polynomial in the variable of degree below n that agrees with the expression, to d decimals but for the rounding its coefficients amplify, at the n points mid - half*cos(i*pi/(n-1)), both ends included, "
     "so that polynomials of degree below n are reproduced; with parity odd or even it is exactly odd or even. "
     "It is an Err with fewer than two terms, an odd number of terms for odd parity, an even number for even, or where the expression is undefined at a point. "
     "Polynomial::from_points passes through its points and Polynomial::eval is the exact value of its terms.",
     ["inputs", "programs"], "every smooth expression, interval, number of terms, parity and precision",
     "No test checks the values of an approximation directly.",
     [D + "transformation/approx.rs", D + "polynomial.rs"],
     [("nodes and divided differences", D + "transformation/approx.rs, " + D + "polynomial.rs"), ("mul_add chains by parity", D + "transformation/approx.rs mul_add_polynomial")],
     ["the printed Expression", "Polynomial::terms and eval"], "1 200 approximations per run (functions on intervals within [-3,3], up to 15 terms)",
     MON + "exact evaluation of the printed polynomial against mpmath at and between the nodes")
prop("P14", "the Rust formatter changes white space only",
     "Formatting any token stream gives text that lexes back to the same tokens in the same nesting: literals, identifiers, lifetimes and multi-character operators neither merge with nor split from their neighbours, "
     "at any depth of braces.",
     ["inputs", "programs"], "every Rust token stream",
     "The formatter has no tests.",
     [D + "codegen/rust.rs"], [("append_token", D + "codegen/rust.rs")], ["the text returned"], "9 000 random and real sources per run",
     MON + "formatted text lexed again and compared token by token")

prop("P15", "the C translation of a Rust program computes what the program computes",
     "codegen::c::to_c translates a file of type aliases, constants and functions of numbers (fty, ity, uty, bool: the float, signed and unsigned integer types of 32 or 64 bits), with Options::float_suffix \"f\" for 32 bits and \"\" for 64, "
     "into C that gcc compiles and whose functions, called Options::prefix + name, return the same values, bit for bit, for all arguments for which the Rust neither panics nor casts a float out of range. "
     "The functions may use let with and without a type, mut, shadowing, assignments to variables of the same block and to arguments that are mut, items in any order, constants of constants, inner constants (defined before they are used), statements that do nothing (let _ = 0;), if/else, blocks, calls, all operators (with Rust's precedence; % and ! not on floats, ! on bool only), casts between all number types, "
     "literals with and without suffix, decimal or hexadecimal, from_bits and to_bits, NAN, INFINITY and MIN_POSITIVE, and the methods of floats that C has (abs, sqrt, copysign, min, max, round, ln, powf and so on; recip, wrapping_mul; mul_add as multiply and add). "
     "That C has no undefined behaviour for those arguments.",
     ["inputs", "programs"], "every such program and every argument",
     "The only test of the translator prints its output.",
     [D + "codegen/c.rs"], [("CVisitor", D + "codegen/c.rs")], ["the text returned by to_c", "values returned by the compiled C"], "600 random programs and 33 methods, 20 000 calls per run; 30 s",
     "runtime monitoring: the translated programs run under gcc's address and undefined behaviour sanitizers next to the Rust programs, results compared bit for bit")

prop("P16", "the portable-simd translation of a program computes in each lane the same value",
     "codegen::portable_simd::to_simd translates a file of type aliases, constants and functions whose first argument is a float (fty) and whose other arguments and results are fty, ity or uty into a module that implements StdLibm for Simd<f32, N> or Simd<f64, N> (Options::num_bits), "
     "with one method per function (the first argument being self), which compiles next to portable-simd's vectors and traits; every lane of a method's result has the bits that the function returns for that lane's arguments, when the function does not overflow. "
     "The functions may use let with and without a type, mut, shadowing, assignments to variables of the same block and to arguments that are mut, items in any order, constants of constants, inner constants (defined before they are used), statements that do nothing (let _ = 0;), if/else with statements in the branches, blocks, calls, comparisons, && || and ! on booleans, all operators but integer / and % (with Rust's precedence), casts between fty, ity and uty, "
     "literals with and without suffix, decimal or hexadecimal, from_bits and to_bits, NAN, INFINITY and MIN_POSITIVE, and methods of floats.",
     ["inputs", "programs"], "every such program, argument and width",
     "The only test of the translator prints its output.",
     [D + "codegen/portable_simd.rs"], [("SimdVisitor", D + "codegen/portable_simd.rs"), ("to_simd", D + "codegen/portable_simd.rs")], ["the module returned by to_simd", "lanes of the compiled methods"],
     "480 random programs, 36 000 lanes compared per run; 25 s",
     "runtime monitoring: the translated methods run on a lane by lane stand-in for core::simd next to the programs themselves, bits compared")

exec(open(os.path.join(HERE, "tools", "props_gen.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_gen.py")) else None

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    m = {"version": 1, "setup_cmd": "python3-vt run.py setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3-vt run.py " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                    for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))],
         "not_applicable": [{"property": a, "reason": b} for a, b in NA]
         + [{"property": p["id"], "reason": "check not built yet"} for p in P if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
