G = "runtime monitoring: the code libmgen generates from the current tree, compiled with overflow checks and debug assertions and run under a monitor; "
UNITS = "(one unit is 2^-23 for 32 bits and 2^-53 for 64 bits, the unit of the generated tests; a/b is the 32 bit / 64 bit bound) "

prop("P17", "whatever is selected, the generated Rust is a complete library that compiles",
     "For every list of functions, constants and groups of -f help, both sizes, both number types, with or without --generate-tests, the Rust libmgen writes compiles on its own, tests included, "
     "defines everything selected (all members of a group) exactly once, and has tests exactly when they were asked for and a tested function is in it.",
     ["inputs", "configurations"], "every selection, --num-bits 32 or 64, --number-type and --generate-tests",
     "Six selections are compiled by the stable tests, all in decimal.",
     [L + "main.rs", L + "functions.rs", L + "auxfuncs.rs", L + "test.rs", D + "codegen/rust.rs"],
     [("dependency lists of the functions", L + "functions.rs"), ("selection", L + "main.rs")], ["stdout of libmgen", "rustc's verdict"],
     "each of about 75 names alone in 4 modes, 60 random lists and the tests of each function; 30 s", "runtime monitoring: real runs of the generator over the selections, each output type checked by rustc and its items counted by a monitor")
prop("P18", "a selection is the union of its parts; exclusion removes exactly what it says",
     "Selecting several functions generates the items of each of them, once, in an order and with a text that depend neither on the order nor the repetitions nor the company they are selected in. "
     "Names that do not exist are reported (\"NAME not found\" on stderr) and otherwise ignored. -x removes what it names, keeps everything selected that was not named and everything no excluded item needs, and adds nothing. "
     "Two runs give the same bytes, and -o FILE the bytes of stdout.",
     ["inputs", "configurations"], "every list of functions and exclusions",
     "No test compares two selections.",
     [L + "main.rs", L + "functions.rs"], [("worklist over dependencies and exclusions", L + "main.rs")], ["stdout, stderr, exit status and files of libmgen"],
     "the 75 names alone and 90 random selections per mode; 17 s", "runtime monitoring: real runs of the generator, compared item by item with each other by a monitor")
prop("P19", "generated sin, cos, tan and sin_cos are accurate everywhere in range",
     "The errors of the generated functions stay within " + UNITS +
     "sin 7/15 on [-pi,pi], 4/5 on [-pi/2,pi/2] and 7/15 + 2|x| up to |x| = 100000; cos 5/16, 3/4 and 7/16 + 2|x|; tan 4(1+tan^2) for |x| <= 1.5 and (4+2|x|)(1+tan^2) to |x| = 10000 where |tan| < 1000. sin_cos returns (sin, cos).",
     ["inputs"], "every float of those ranges, both sizes",
     "The generated tests look at a few hundred evenly spread points; the seams of the argument reduction, tiny and large arguments lie between them.",
     [L + "trig.rs", L + "auxfuncs.rs", D + "transformation/approx.rs"], [("sin, cos, tan, sin_cos", L + "trig.rs"), ("round", L + "auxfuncs.rs")], ["results of the compiled functions"],
     "about 1.2 million calls per run, to about 0.8 of the bounds", G + "each result compared with 80 bit arithmetic")
prop("P20", "generated exponentials, logarithms and powers are accurate in range",
     "The errors of the generated functions stay within " + UNITS +
     "exp2 1/2.2 relative on [-126,127]/[-1022,1023]; exp (1.5/3 + 1.5|x|) relative on [-87,88]/[-708,709]; exp_m1 1.5/3 + |x|e^x for x <= 0, (1.5/3 + 1.5|x|)e^x on [0,80]/[0,700], and 0.02/0.3 + (2/4)|x| for |x| <= .01; "
     "log2 2/6 + 1.5|v|, ln 1.5/4 + 3|v|, log10 1.5/3 + 2|v| over all normal positive floats (v the value), log2 and ln 1.3/6 on [.5,2]; ln_1p 1.5/3 + |v| on [-.9,100], + 1.3|v| above and + |v| + 1/(1+x) below; "
     "log(x, b) the errors of log2(x) and log2(b) propagated; powf for positive x and powi for x of both signs (|y log2 x| <= 110/1000, |y| <= 200) 2/3 + 1.5|y log2 x| + (1/2.5)|y| relative.",
     ["inputs"], "every float of those ranges, both sizes",
     "The generated tests look at a few hundred points, most between 0 and 2.",
     [L + "log_exp.rs", D + "transformation/approx.rs"], [("exp2, exp, exp_m1", L + "log_exp.rs"), ("log2, ln_1p, ln, log10, log, powf, powi", L + "log_exp.rs")],
     ["results of the compiled functions"], "about 5 million calls per run, to about 0.8 of the bounds", G + "each result compared with 80 bit arithmetic")
prop("P21", "generated inverse trigonometric and hyperbolic functions are accurate in range",
     "The errors of the generated functions stay within " + UNITS +
     "asin 2/8 and acos 3/12 for |x| <= .7, 3/10 and 3/12 plus 1/sqrt(1-x^2) up to 1; atan 3/16 and atan2 4/8 everywhere (atan2 in all four quadrants and on the axes); "
     "sinh and cosh (2/5 + |x|)cosh x to |x| = 10 and (2/5 + 1.5|x|)cosh x to 80/700, sinh 2.5/5 on [-1,1]; tanh 2/4; asinh 3/6 + 3|v|; acosh 8/14 + 3|v| for 1.122 <= x <= 1e38/1e307, 2/4 + 1/sqrt(x^2-1) below; atanh (3/7)/(1-|x|).",
     ["inputs"], "every float of those ranges, both sizes",
     "Only asin and acos have generated tests, and the 32 bit ones and hyperbolic functions none that run.",
     [L + "inv_trig.rs", L + "hyperbolic.rs"], [("asin, acos, atan, atan2", L + "inv_trig.rs"), ("sinh ... atanh", L + "hyperbolic.rs")],
     ["results of the compiled functions"], "about 4 million calls per run, to about 0.8 of the bounds", G + "each result compared with 80 bit arithmetic")
prop("P22", "generated sqrt, cbrt, recip and hypot are accurate for all magnitudes",
     "The relative errors of the generated functions stay within " + UNITS +
     "sqrt and cbrt 1.5/3, recip 1.7/5 and hypot 2.5/5, for arguments of magnitude 1e-37..1e38 / 1e-300..1e308 (recip to 1e37/1e300, hypot 1e-37/1e-307 up), cbrt and recip for both signs.",
     ["inputs"], "every float of those ranges, both sizes",
     "None of these functions has a test.",
     [L + "recip_sqrt.rs"], [("bit trick start values and Newton steps", L + "recip_sqrt.rs")],
     ["results of the compiled functions"], "about 2.5 million calls per run, to about 0.8 of the bounds", G + "each result compared with 80 bit arithmetic")
prop("P23", "generated dnorm and qnorm follow the normal distribution, its mean and sd",
     "dnorm(x, mean, sd) is the density within (2/4)(1+z^2) units, relative, for z = (x-mean)/sd within 12/36 " + UNITS +
     "and qnorm(p, 0, 1) the quantile within 3e-4/3e-5 for |p-1/2| <= .1, 8e-4/1e-4 to .25, 4e-3/5e-4 to .4, 4e-2/8e-3 to .49 and .6/.15 to .499; qnorm(p, mean, sd) = mean + sd qnorm(p, 0, 1) up to rounding.",
     ["inputs"], "every x, p, mean and sd > 0 of those ranges, both sizes",
     "The generated tests use mean 0 and sd 1 only.",
     [L + "stats_norm.rs"], [("dnorm, qnorm", L + "stats_norm.rs")],
     ["results of the compiled functions"], "about 1.3 million calls per run", G + "results compared with 80 bit arithmetic and scipy's quantiles")
prop("P24", "generated runif and rnorm are uniform and normal, and depend on the index only",
     "runif(i, lo, hi) over any window of consecutive indices lies in the range, is uniform (Kolmogorov-Smirnov distance below 2.6/sqrt(n), balanced bits), uncorrelated (also with windows 2^31 to 2^48 indices away), repeatable, and equal to lo + (hi-lo) runif(i, 0, 1); "
     "rnorm(i, m, sd) is normal (distance below 0.006, mean and deviation within 1%, nothing beyond 6 sd), uncorrelated, and equal to m + sd rnorm(i, 0, 1).",
     ["inputs", "histories"], "every window of indices up to 2^60, every range, mean and sd, both sizes",
     "The generated test histograms the first million values, for one range.",
     [L + "stats_random.rs", L + "stats_norm.rs"], [("splitmix64 runif", L + "stats_random.rs"), ("rnorm by inversion", L + "stats_norm.rs")],
     ["results of the compiled functions"], "6 windows of 400 000 indices per size; two known findings (tails of rnorm)", G + "statistical monitors over windows of indices")
prop("P25", "the reference rows of the generated tests are right",
     "Every accuracy test libmgen writes has at least 100 evenly spread rows whose argument is exactly a float of the size, whose value is the float nearest to the function there, "
     "and whose value plus remainder is the function to 15/30 decimals; the limit is positive and, but for qnorm, at most 20 units.",
     ["inputs"], "every row of every generated test, both sizes",
     "The generated tests trust their own tables.",
     [L + "test.rs", D + "bdmath.rs"], [("gen_test", L + "test.rs")], ["the tables in libmgen's output"], "16 functions, about 9 000 rows; 17 s",
     "runtime monitoring: the generator's output observed row by row, against mpmath")
prop("P26", "the generated tests tell right functions from wrong ones",
     "A generated accuracy test calls its function at every row, passes if all results are within the limit of value plus remainder, and fails if at any single row the result is NaN, infinite, or off by more than the limit. "
     "The generated tests of runif and rnorm pass on samples of their distribution and fail on NaNs, constants and samples whose density is off by 0.06 or more in any bucket. "
     "The tests pass on the library they are generated with.",
     ["inputs", "programs"], "every generated test, row and wrong result, both sizes",
     "Nobody tests the tests: a test that accepts NaN or skips a bucket passes on everything.",
     [L + "test.rs"], [("test_function and gen_histogram", L + "test.rs")], ["verdicts of the compiled tests on substitute functions"],
     "91 000 verdicts per run; 9 known findings (tests that fail on the library itself); 45 s",
     G + "fault injection into the functions the generated tests call, and a monitor of the verdicts")
prop("P27", "the generated constants are correctly rounded",
     "Every named constant of the library (PI, PI_BY_2, PI_BY_8, TAN_PI_BY_8, LOG2_E, RECIP_LOG2_E, RECIP_LOG2_10, RECIP_PI, RECIP_2PI, SQRT_RECIP_2PI, ONE_THIRD, TWO_THIRDS and the exponent, mask, infinity and NaN constants) "
     "is, in both sizes and number types and alone or with others, the float nearest to the value its name says, or exactly it.",
     ["inputs", "configurations"], "every constant, size, number type and selection",
     "An error in the last bits of a constant shifts results by less than the tests allow.",
     [L + "functions.rs", L + "auxfuncs.rs", D + "bdmath.rs"], [("gen_constant functions", L + "auxfuncs.rs")], ["bits of the compiled constants"], "all constants in 4 modes", G + "the bits of every constant compared with mpmath")
prop("P28", "the generated C library compiles and computes what the Rust library computes",
     "For every function, constant and group of -f help, both sizes and both number types, --language c gives C that gcc compiles on its own without implicit declarations, uninitialised variables or type clashes. "
     "Its functions, prefixed ds32_ or ds64_, return the same bits as those of the Rust library with its mul_adds unfused, wherever the C does not cast a float out of range, and keep to 1.6 times the error bounds of P19 to P23; they have no undefined behaviour. "
     "(sin_cos, which returns a tuple, is a known finding.)",
     ["inputs", "configurations"], "every function, argument, size and number type",
     "No test generates C.",
     [D + "codegen/c.rs", L + "main.rs", L + "config.rs", L + "functions.rs"], [("CVisitor", D + "codegen/c.rs"), ("prefix and float_suffix", L + "config.rs"), ("language selection", L + "main.rs")],
     ["gcc's verdict", "results of the compiled C and Rust libraries"], "296 selections compiled, 1.2 million results compared; 30 s",
     "runtime monitoring: the generated C run under gcc's address and undefined behaviour sanitizers, next to the compiled Rust library, results compared bit for bit")
prop("P29", "the portable-simd library computes in each lane what the scalar library does",
     "For every function, constant and group of -f help that does not contain runif or rnorm (whose argument is an integer index: a known finding), both sizes and both number types, --language portable-simd gives a module that implements StdLibm for Simd<f32, N> or Simd<f64, N> with one method per function, the first argument being self, "
     "that compiles next to portable-simd's vectors and traits, and every lane of a method's result has the bits that the scalar Rust library returns for that lane's arguments, whatever the width and the other lanes. "
     "(Where scalar code calls a method of floats that the library generates too, such as x.ln() in asinh, the vector method is the library's.)",
     ["inputs", "configurations"], "every function, argument, width, size and number type",
     "No test generates or runs the portable-simd code.",
     [D + "codegen/portable_simd.rs", L + "main.rs", L + "functions.rs"], [("SimdVisitor", D + "codegen/portable_simd.rs"), ("to_simd", D + "codegen/portable_simd.rs"), ("language selection", L + "main.rs")],
     ["rustc's verdict", "lanes of the compiled methods"], "300 selections compiled, 4.8 million lanes compared; 50 s",
     "runtime monitoring: the generated methods run on a lane by lane stand-in for core::simd next to the scalar library, bits compared")
prop("P30", "generated functions do the right thing at the ends of their domains",
     "exp2 and exp are infinite from 2^128/2^1024 on and 0 from 2^-128/2^-1024 down, and exact at small integers and 0; exp_m1 is infinite where exp is and -1 far below 0; "
     "log2, ln, log10, log and powf of negative numbers are NaN, log2, ln, log10 of 0 and ln_1p of -1 -infinity, those of infinity infinity, and log2 exact at powers of two; "
     "powf(x, 0) and powi(x, 0) are 1 for every x but NaN, powf of 0 and infinity 0 or infinity as the power says, powi of negative numbers of the sign the power says; "
     "sqrt of negative numbers is NaN, sqrt and cbrt of 0 and infinity 0 and infinity and exact at powers of 4 and 8 up to 3 units; recip of zeros and subnormals is infinite and of infinities 0, signs kept; "
     "acosh below 1, asin and acos beyond 1 are NaN, acosh, asinh, sinh, atanh, asin and acos right at 0, 1 and -1 where defined, asinh and acosh infinite at infinity; "
     "atanh(+-1) is +-infinity and NaN beyond; sinh and cosh overflow to the right infinities, tanh to +-1; atan(+-infinity) is +-pi/2; atan2 is right on axes and diagonals; "
     "hypot of zeros, tiny numbers, infinities and Pythagorean triples is exact; nextafter(x) is the next float above a non-negative x; NaN arguments give NaN in every elementary function of one argument, and in log, atan2 and powf.",
     ["inputs"], "every argument at or beyond the ends of the domains, both sizes and number types",
     "The generated tests stay inside the domains.",
     [L + "log_exp.rs", L + "hyperbolic.rs", L + "inv_trig.rs", L + "recip_sqrt.rs", L + "auxfuncs.rs"], [("range checks of exp2 and log2", L + "log_exp.rs"), ("range checks of the roots", L + "recip_sqrt.rs"), ("quadrants of atan2", L + "inv_trig.rs")],
     ["results of the compiled functions"], "about 60 000 calls per run", G + "exact expected results")
prop("P31", "the command line tool keeps code, lists and messages apart",
     "libmgen writes generated code, and nothing else, to stdout, or to the file -o names and then nothing to stdout; -f help lists one selectable name per line; "
     "no functions, an unknown function and an unknown language are reported on stderr, the last two by name, an unknown language without writing code or a file; "
     "short and long options mean the same, no other file is written, and the exit status of a successful run is 0.",
     ["inputs", "configurations"], "every command line",
     "The tool has no command line tests.",
     [L + "main.rs"], [("options and output", L + "main.rs")], ["exit status, stdout, stderr and files of each run"], "about 110 command lines per run, half of those with -o over an existing file",
     "runtime monitoring: real command lines in scratch directories, watching exit status, streams and files")
prop("P32", "the number type changes the notation of the library and nothing else",
     "The decimal and the hex library of a size have the same items and signatures, and every function returns the same bits for the same arguments; the polynomials of the hex library, and only those, are written as bit patterns.",
     ["inputs", "configurations"], "every function, argument and size",
     "Every stable test is generated in decimal.",
     [L + "main.rs", D + "transformation/use_number_type.rs", D + "transformation/approx.rs"], [("NumberType of the configuration", L + "main.rs")],
     ["results of both compiled libraries"], "3 million pairs of results per run", G + "differential monitor between two builds of the library")
prop("P33", "the helper functions of the generated library compute what their names say",
     "round returns the nearest integer, halves away from zero, for |x| up to 2^22/2^51 (but for the float just below 1/2); "
     "negate_on_odd(x, y) is y with its sign changed exactly if the integer part of x is odd, all other bits kept, for |x| < 2^30/2^62; "
     "recip_approx is within 10% of 1/x, and sqrt_approx and cbrt_approx within 5% of the roots, over all normal floats, recip and cbrt with the sign of x. They do so on their own and within the whole library.",
     ["inputs"], "every argument of those ranges, both sizes and number types",
     "The helpers have no tests; an error in one is damped or hidden by the Newton steps and reductions built on them until an unusual argument.",
     [L + "auxfuncs.rs"], [("round, negate_on_odd, gen_power_scale", L + "auxfuncs.rs")], ["results of the compiled helpers"], "about 4 million calls per run; 5 s", G + "exact expected results and relative errors")
prop("P34", "generated tests plot what they test, and only if asked to",
     "With --generate-tests --generate-plots, each generated accuracy test that passes writes exactly one file, <test name>.csv, into the current directory, with the header x,yref,ycalc,eref and one row per row of its table that holds the row's x, the reference value, "
     "the result of the function under test and its error, |result - reference - remainder|, all as the shortest decimals of the floats; tests of distributions write none. Without --generate-plots no test writes a file, and the option changes no table, verdict or function, nor anything without --generate-tests.",
     ["inputs", "configurations"], "every generated test, both sizes and number types",
     "No test generates plots.",
     [L + "test.rs", L + "auxfuncs.rs", L + "main.rs", L + "config.rs"], [("plot_function of gen_test_function", L + "auxfuncs.rs"), ("generate_plots", L + "config.rs")],
     ["files, verdicts and text of the compiled tests"], "240 runs of tests, 40 000 rows; 40 s", G + "the files each test leaves behind compared row by row with its table and the function's results")
prop("P35", "transformations compose: in memory an expression means what its text says",
     "Take an expression through any sequence of subst (by expressions from text or negative literals from eval), expand, collect_terms, paren and use_number_type: after every step its printed text, read with Rust's precedences, "
     "has the value of the original with the substitutions made, and so it does if the expression takes a trip through text after every step. No step fails, panics or hangs.",
     ["inputs", "histories"], "every expression over + - * / %, signs, methods and parentheses, and every sequence of transformations",
     "Each transformation builds trees the parser would not (negative literals, operands without parentheses); the unit tests apply one transformation to parsed text.",
     [D + "expression.rs", D + "transformation/subst.rs", D + "transformation/expand.rs", D + "transformation/paren.rs", D + "transformation/collect.rs", D + "transformation/use_number_type.rs"],
     [("Visitor over syn trees", D + "visitor.rs"), ("make_paren and signs", D + "transformation/tools.rs")], ["printed form after every step"],
     "16 000 sequences of 1 to 6 steps, 1 800 different ones; 10 s", "runtime monitoring: every intermediate result of real transformation histories valued exactly by an independent reader and evaluator")
prop("P36", "the generated functions keep the symmetries and ranges of what they approximate",
     "Bit for bit: sin, tan, asin, atan, sinh, tanh, asinh, atanh, cbrt, recip, round and the first of sin_cos are odd, cos, cosh and the second of sin_cos even; hypot is symmetric and even in both arguments, atan2 odd in y, dnorm symmetric about its mean and qnorm odd about 1/2 where the reflections are exact; "
     "powi is powf of the same power for positive numbers and odd or even with the power. No result leaves the range: |tanh| <= 1, |sin| and |cos| (|x| <= 1e5) <= 1, cosh >= 1, |asin| and |atan| <= pi/2, acos in [0, pi], |atan2| <= pi (2^-21/2^-50 aside), "
     "exp, exp2, dnorm >= 0, exp_m1 >= -1, sqrt and acosh >= 0, hypot >= its arguments, and odd functions have the sign of their argument where the function does. A result depends on its arguments only.",
     ["inputs"], "every argument, both sizes and number types",
     "Accuracy tests leave room for a last bit of asymmetry or a result outside the range, on which callers rely exactly (acos(tanh x), sorting, reflections).",
     [L + "trig.rs", L + "inv_trig.rs", L + "hyperbolic.rs", L + "recip_sqrt.rs", L + "log_exp.rs", L + "stats_norm.rs"],
     [("argument reductions and copysign", L + "trig.rs"), ("parity of approx", D + "transformation/approx.rs")], ["pairs of results of the compiled functions"],
     "100 million related calls per run; 15 s", G + "metamorphic relations between calls checked bit for bit")
prop("P37", "expressions, names and variable lists print, compare and are found right",
     "The printed form of an Expression has the tokens of the text it was parsed from and parses back to an equal Expression; two Expressions, or Names, are equal exactly if their tokens are; conversion to and from syn keeps them; "
     "is_lit holds for literals and is_numeric for numbers only. The macros expr!, name! and vars! make what their text means. A VariableList numbers its entries from 0, prints as vars!(a = 1, ...) in order, and finds the first value given for exactly that name, or none.",
     ["inputs"], "every expression, pair of expressions and variable list",
     "The doc tests compare a handful of expressions.",
     [D + "expression.rs", D + "name.rs", D + "variablelist.rs"], [("Display, FromStr, PartialEq, is_lit, is_numeric", D + "expression.rs"), ("find, add_var, Display", D + "variablelist.rs")],
     ["return values of the API"], "5 000 requests per run; 3 s", "runtime monitoring: API calls on random expressions observed next to an independent tokeniser")
prop("P38", "an Err says what went wrong, and eval's Err names the part without a value",
     "The Err of eval is CouldNotEvaulate with the text of a sub-expression of the input that has no value although all its operands have one (an unbound name, an unknown method, a wrong number of arguments, "
     "an argument outside the domain, a division by zero, an operator without value), or UnsupportedExpr or CouldNotConvertFromExpression where the input has syntax or literals that are no numbers. "
     "A text that is no Rust expression is CouldNotParse with the text, a number of terms that approx cannot have WrongNumberOfTerms, a literal beyond the float's range Overflow in use_number_type and round_ieee, "
     "and a size other than 32 and 64 Expected32or64bits in round_ieee; each prints with that name or text.",
     ["inputs"], "every expression that cannot be evaluated and every text that cannot be parsed",
     "The tests look at results, hardly at errors.",
     [D + "error.rs", D + "transformation/eval.rs", D + "visitor.rs"], [("Error, Display", D + "error.rs"), ("errfn, eval_err", D + "transformation/eval.rs"), ("UnsupportedExpr", D + "visitor.rs")],
     ["the text of the Err"], "6 500 requests per run, and the named sub-expressions and their operands evaluated again; 5 s",
     "runtime monitoring: API calls that must fail, each Err's text parsed and its sub-expression and operands evaluated in turn")
prop("P39", "a Visitor sees every sub-expression once, in order, and puts results in place",
     "A type that implements doctor_syn::visitor::Visitor has visit_expr called for an expression and, through visit_expr_core, for each of its sub-expressions exactly once, from the left to the right, an expression before its operands, "
     "and the method of its kind (visit_method_call, visit_lit, visit_path, visit_field, visit_paren, visit_binary, visit_unary) for each; what a method returns takes the place of what it was given, and nothing else changes "
     "(operators, methods and their generic arguments, fields, parentheses, attributes), so that a visitor that overrides nothing returns an equal expression. A method that does not call visit_expr on operands keeps them from being visited. "
     "An Err ends the visit and is returned; an expression of any other kind is the Err UnsupportedExpr.",
     ["inputs", "programs"], "every expression and every visitor",
     "The tests use the library's own visitors on a few expressions each.",
     [D + "visitor.rs"], [("trait Visitor", D + "visitor.rs")],
     ["the log of the visits and the result"], "9 000 visits of random expressions per run; 2 s",
     "runtime monitoring: visitors of the check's own log every call; the event log and the result are compared with the tree an independent parser reads")
prop("P40", "bdmath's decimal functions, called directly, are right to the digits asked for",
     "bdmath::sin, cos, tan, asin, acos, atan, exp, ln, log, pow, sqrt, erf, erfc, dnorm, pnorm, qnorm and the constants pi, sqrt_two and one_over_root_two_pi, called with d digits, are right to a few units of 10^-d, scaled as in P01 and P02, "
     "whatever the representation of the arguments (trailing zeros, exponents, negative scales). sqrt is None exactly for negative numbers, ln, log and pow for numbers (or bases) that are not positive, log for the base 1, and qnorm for probabilities not between 0 and 1. "
     "zero, one, half, two and bigd(i) are the numbers they name; num_digits_for is 20 for 32 bits and 40 for 64.",
     ["inputs"], "every function, argument in its domain and number of digits up to about 80",
     "The tests compare a few values as f64.",
     [D + "bdmath.rs"], [("sin ... qnorm, maclaurin, pi", D + "bdmath.rs")],
     ["the returned decimals"], "7 500 calls per run; 15 s",
     "runtime monitoring: direct calls on random and hostile arguments, results compared with mpmath at 340 digits")
prop("P41", "an answer depends on the request only, not on history, threads or surroundings",
     "Evaluating, transforming, approximating, translating, formatting or visiting the same expressions or programs, and calling bdmath or Polynomial with the same arguments, gives the same answer (result, Err or panic message) byte for byte "
     "in a process that did nothing else, after any other requests to any other numbers of digits, failed and panicked ones included, again and again, in any number of threads at once, in every process, whatever the environment variables, the clock and the current directory. "
     "Threads do not race for data inside the library. libmgen writes the same bytes, and no file it was not told to, in every directory and environment and next to other runs of itself.",
     ["inputs", "schedules", "histories"], "every request, history of requests, interleaving of threads and environment",
     "The tests ask each thing once, mostly in a thread of its own, and never compare.",
     [D + "bdmath.rs", D + "expression.rs", D + "transformation/eval.rs", D + "codegen/mod.rs", L + "config.rs", L + "main.rs"],
     [("everything a request goes through", D + "lib.rs")],
     ["the answers", "reports of the thread sanitizer", "bytes written by libmgen"], "400 requests, 12 000 answers compared, 25 000 overlapping pairs, 64 runs of libmgen per run; 80 s, 65 of them to build std and the library with the thread sanitizer",
     "runtime monitoring: answers in histories, threads and changed surroundings compared with those of fresh processes; thread sanitizer (std instrumented) with injected delays, whose sensitivity is checked with a deliberate race; getenv and clock replaced by a preloaded library")
prop("P42", "what libmgen writes arrives in full, or its exit status says it did not",
     "libmgen called with valid options writes the whole text (code of any language, generated tests, lists of functions) to its standard output, or to -o FILE, whether the file is new, longer, shorter or empty, and exits with 0, "
     "also if writes take a part only or are interrupted. If any of it could not be written (a full device, a size limit, a closed pipe, an error at any byte, a path that cannot be opened) its exit status is not 0, what arrived is the start of the text, "
     "and no other file is made or changed.",
     ["inputs", "fault_sequences", "configurations"], "every output, destination and sequence of faults of write()",
     "The tests call the generator in the process and write nothing to failing devices; a build script that trusts the exit status compiles half a library.",
     [L + "main.rs"], [("main, print and write", L + "main.rs")],
     ["bytes that arrived", "exit status", "log of the faults put in"], "700 runs of libmgen per run of the check, most with faults; 60 s",
     "runtime monitoring: libmgen run with a preloaded write() that gives short, interrupted and failing writes, and on full, limited and closed destinations; bytes and exit status compared with those of a run without faults")
