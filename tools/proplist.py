EXPR, TOOLS = L + "expression.rs", L + "transformation/tools.rs"

P("C01", "Arithmetic on expressions builds or computes exactly the operator written",
  "For two expressions, + - * and / produce either the same operation on the two operands in order, or, when both are numeric literals, the literal of the exact result of that operation. A quotient by zero has no value and stays a quotient. No operator ever stands for another one and no operand is dropped or swapped.",
  ["inputs"], "all pairs of expressions, all four operators, numeric and symbolic operands mixed",
  "the tests add and multiply literals only; symbolic operands of -, * and / are never sampled",
  [EXPR], [("operator overloads", EXPR)],
  "abstract interpretation of MIR: every path of the four operator impls as a value term",
  NOTE + "bigdecimal's arithmetic.")
P("C02", "Evaluation gives every operator, literal and name its own meaning",
  "Evaluating an expression whose parts evaluate to numbers yields: the sum, difference, rounded product or rounded quotient for + - * /, the truth value of the comparison for < <= > >= == !=, the negation for unary minus, the content for parentheses, itself for a literal and pi for PI. Every other operator, every unknown name and every node outside the supported subset is an error, never a value.",
  ["inputs"], "all expression trees of any depth (structural induction), all operators, all digit counts",
  "the tests evaluate a few fixed expressions; operator/operand combinations and error branches are unbounded",
  [L + "transformation/eval.rs", L + "visitor.rs"], [("impl Visitor for Eval", L + "transformation/eval.rs")],
  TRANSFER, NOTE + "the numeric kernels (uninterpreted here).")
P("C03", "Each evaluable method is computed by its own kernel on its own arguments",
  "A method call evaluates to the function of that name applied to the receiver and then the arguments in order at the requested number of digits, and only with the right number of arguments. Any other method name or argument count is an error.",
  ["inputs"], "every method name and argument count, all numeric operands, all digit counts",
  "the tests call a handful of methods at a handful of points; a swapped argument, a missing arity check or a crossed name shows only on the method and arity not sampled",
  [L + "transformation/eval.rs"], [("method table", L + "transformation/eval.rs Eval::visit_method_call")],
  TRANSFER, NOTE + "the numeric kernels (uninterpreted here).")
P("C05", "Substitution replaces exactly the bound names, each by its first binding",
  "Substituting a list of bindings replaces every occurrence of a bound name by the value of its first binding and leaves every other part of the expression as it was. Substituted values are not themselves substituted into, and bindings keep the order in which they were added.",
  ["inputs"], "all expressions, all binding lists including duplicates and values that mention bound names",
  "the tests substitute one or two names; duplicates, chained values and deep positions are not reached",
  [L + "transformation/subst.rs", L + "variablelist.rs", EXPR], [("impl Visitor for Subst", L + "transformation/subst.rs"), ("VariableList::find / add_var", L + "variablelist.rs")],
  TRANSFER, NOTE + "structural equality of syn paths.")
P("C06", "Every transformation rebuilds what it does not change and reports what it cannot handle",
  "Each transformation maps every part of an expression it does not specialise to the same part over its transformed children: no operand, argument, operator, method or member is lost, duplicated or reordered. A failure in a child makes the whole transformation fail, unsupported syntax is always an error, and each public method applies its own transformation with the caller's parameters.",
  ["inputs", "programs"], "all expression trees, all transformations (substitute, evaluate, expand, parenthesise, collect, number type)",
  "tests sample small trees of few node kinds; a dropped argument or swallowed child error shows only for the kind and position not sampled",
  [L + "visitor.rs", L + "transformation", EXPR], [("Visitor default methods", L + "visitor.rs"), ("public entry points", EXPR)],
  TRANSFER, NOTE + "syn's Clone.")
P("C07", "Expansion keeps the value and distributes sums, differences and products",
  "expand() maps every supported expression to one with the same value under the ring laws of + - * and unary minus: every term keeps its sign, no term is lost or duplicated, and both factors of a product contribute all their terms. Sums, differences and products under a sum, difference, product or negation are distributed instead of being kept whole.",
  ["inputs"], "all expression trees of any depth (structural induction over the term lists)",
  "a dozen fixed expressions; sign combinations under nesting are unbounded",
  [L + "transformation/expand.rs", TOOLS], [("match_sum", L + "transformation/expand.rs"), ("make_sum, negate", TOOLS)],
  "abstract interpretation of MIR in a polynomial domain: the term list collected for (e, sign) must denote sign*e",
  NOTE + "the ring laws (rounding is not modelled).")
P("C08", "Parenthesising makes grouping explicit without changing the expression",
  "paren() wraps an operand in parentheses exactly when that operand is itself a unary or binary operation, and keeps operators, operand order and all other syntax. It succeeds on every supported expression.",
  ["inputs"], "all expression trees of any depth",
  "four examples with left operands only; right operands, unary operands and nesting are unbounded",
  [L + "transformation/paren.rs", TOOLS], [("impl Visitor for Paren", L + "transformation/paren.rs")],
  TRANSFER, NOTE + "syn's Clone.")
P("C09", "Number-type conversion writes the nearest float of the requested width",
  "Converting an expression to a number type turns each integer or float literal into the correctly rounded 32- or 64-bit float, written as a suffixed decimal or as from_bits of its bit pattern, of the type and width asked for. Literals of any other kind, other widths and other number types are left as they were, and a literal too large for the width is reported rather than written as infinity in decimal.",
  ["inputs", "configurations"], "all literals, the two number types and two widths, and every unknown type or width",
  "no test covers it; which digits round wrongly depends on the literal",
  [L + "transformation/use_number_type.rs"], [("impl Visitor for UseNumberType", L + "transformation/use_number_type.rs")],
  TRANSFER + "; lossy-conversion taint", NOTE + "correct rounding of str::parse.")
P("C10", "Numbers and expressions convert into each other without losing value",
  "A numeric literal converts to f32, f64 or a decimal as its own value and everything else is an error; a bool, float, decimal or syntax tree becomes the expression that denotes exactly it, and text becomes the tree it parses to. Rounding to an IEEE width yields exactly the nearest representable value, and the literal/number predicates say yes exactly for literals/numbers.",
  ["inputs"], "all literals, all finite floats, all decimals, all expressions",
  "tests convert one or two short constants that survive any number of digits",
  [EXPR, L + "bdmath.rs"], [("From/TryFrom impls", EXPR), ("bigdf, round_ieee", L + "bdmath.rs")],
  "value-flow over MIR with a lossy-conversion lint at every call site",
  NOTE + "std float formatting and parsing.")
P("C11", "The expression library is silent and deterministic",
  "No library operation writes to standard output or error, touches files, environment, clock, threads or randomness, or keeps mutable global state. Results therefore depend on the arguments only.",
  ["inputs", "histories"], "every call of every public function, in any order",
  "tests do not look at side effects and cannot cover every call",
  [L + "lib.rs", L + "visitor.rs"], [("absence of effectful calls", L)],
  "effect analysis: call-graph reachability over MIR with constant-branch pruning",
  "Static: every function reachable from the public API or a trait impl is scanned for effectful callees. Trusts that dependencies and std functions outside the listed families are pure.")

G = "libmgen/src/"
GEN = "abstract interpretation of the generator's MIR to its output token stream, parsed; "
P("L01", "Generated output is self-contained for every selection of functions",
  "For every selection of functions and groups, every name used by a generated definition or generated test is defined in the same output, is a parameter or local of it, or belongs to the language's standard library. Every listed dependency names an entry that exists.",
  ["configurations", "programs"], "all subsets of the registry, both number widths, with and without tests",
  "the repository builds a few fixed selections; a missing dependency shows only for selections that do not pull it in by another way",
  [G + "functions.rs", G + "main.rs"], [("registry of functions with dependencies", G + "functions.rs FUNCTIONS"), ("generators", G)],
  GEN + "name resolution against the dependency closure",
  "Static: uses and definitions are read off the parsed output of every generator at both widths; closures come from the evaluated registry. Trusts the parser of the Rust subset used in templates.")
P("L02", "Generated code type-checks at both number widths",
  "Every definition and test emitted for 32 and for 64 bits is well typed: operands of each operator agree, arguments match parameters, conditions are boolean, returned values have the declared type and literals fit their type.",
  ["configurations", "programs"], "all registry entries, both widths, every emitted expression",
  "no test compiles most of the generated functions at both widths",
  [G + "functions.rs", G + "auxfuncs.rs", G + "log_exp.rs", G + "trig.rs", G + "inv_trig.rs", G + "stats_random.rs"], [("templates", G)],
  GEN + "type inference over the parsed items",
  "Static: a type checker for the Rust subset used, with the signatures of std's float and integer methods built in. Unknown constructs are undecided and listed.")
P("L03", "Each name generates exactly one definition of that name",
  "Selecting a function emits one definition of a function, constant or type with that name at either width, no name is defined twice within any selection, and its interface is the same at both widths.",
  ["configurations", "programs"], "all registry entries and all selections at both widths",
  "tests never look at which items an entry emits",
  [G + "functions.rs"], [("registry of functions", G + "functions.rs FUNCTIONS"), ("generators", G)],
  GEN + "definition census over the registry",
  "Static: items of every entry's parsed output. Groups are checked to emit nothing of their own.")
P("L06", "Every generated function computes the mathematical function of its name",
  "Over the real numbers, each generated function equals the function it is named after on every branch: range reductions and reconstructions are exact identities, special cases are the documented ones, and the polynomial stands for the function it approximates at the reduced argument. Iterative functions refine a sufficiently close estimate towards the exact value, to the working precision.",
  ["inputs", "configurations"], "all real arguments in each function's domain, all branches, both widths",
  "the generated tests sample a few hundred points of one or two intervals per function; branches, quadrants and magnitudes outside are not reached",
  [G + "log_exp.rs", G + "trig.rs", G + "inv_trig.rs", G + "hyperbolic.rs", G + "recip_sqrt.rs", G + "stats_norm.rs", G + "stats_random.rs", G + "auxfuncs.rs"],
  [("templates", G)],
  GEN + "denotation to guarded normal forms in a small computer algebra, compared with reference meanings per case",
  "Static: real arithmetic; rounding error, overflow and NaN inputs are outside. Trusts the algebra's identities (exp, ln, sqrt, trigonometric periods and complements) and that an interpolated polynomial equals its function on its domain (see L05).")
P("L04", "Every generated constant has the value, type and width its name promises",
  "Each generated constant, at 32 and at 64 bits, denotes the number it is named after (to the last bit of the format when written as a decimal), is declared in the right float, signed or bit-pattern type, and when computed by the generator is computed with enough digits.",
  ["configurations"], "all generated constants and type aliases, both widths",
  "no test looks at a constant; a wrong last digit or mask shifts results by less than the sampled tolerances or only on unsampled inputs",
  [G + "auxfuncs.rs", G + "functions.rs"], [("constant generators", G + "auxfuncs.rs")],
  GEN + "symbolic evaluation of constants against their definitions",
  "Static: closed terms are compared in the algebra and, for other spellings of the same number, to 40 digits.")
P("L05", "Polynomial approximations are requested where they are used, at the accuracy declared",
  "Each polynomial approximation in a generated function is requested with a parity the approximated function really has and a node count that parity admits, and emitted in the configured number type. Over the requested interval and at every reduced argument it is applied to, its truncation error stays within the accuracy the function's entry declares.",
  ["inputs", "configurations"], "all arguments in each function's domain, all branches, both widths",
  "tests sample fixed intervals; arguments near the ends of the reduced interval, other branches and the other width are not sampled",
  [G + "log_exp.rs", G + "trig.rs", G + "inv_trig.rs", G + "stats_norm.rs", G + "functions.rs"], [("approx requests", G)],
  GEN + "range analysis of the reduced argument (linear arithmetic over monomials), symbolic parity, interpolation error bound",
  "Static: the polynomial of a request is a function of the source alone; its error is evaluated at 161 points in 60-digit arithmetic. Range violations are reported only with a concrete argument; unprovable ranges without one are undecided.")

P("L07", "The tool emits exactly the requested definitions and their dependencies",
  "The output holds every requested name, every name these need directly or indirectly, and nothing else; excluded names are left out together with what only they need, each definition appears once, and the order of definitions is the same whatever the order of the request. Each definition is generated with the accuracy listed for the chosen width, and with tests requested every test listed for an emitted function is emitted once. Names that do not exist only cause a message, and nothing but generated code is written to the output.",
  ["configurations"], "all request and exclusion lists, both widths, with and without tests",
  "the repository generates half a dozen fixed lists, never excludes anything and never names a function twice",
  [G + "main.rs", G + "functions.rs"], [("get_functions_and_deps", G + "functions.rs"), ("driver", G + "main.rs main")],
  "abstract interpretation of MIR: loop invariants of a worklist over symbolic collections; symbolic run of the driver",
  "Static: the worklist loop is summarised (each popped name is dropped, reported or added with its dependencies, guarded by not-yet-present) instead of executed; the driver is interpreted with symbolic options. Trusts std's Vec, sort and string splitting and the option parser.")
P("L08", "Generated accuracy tests fail exactly on NaN or on too large a deviation",
  "Each generated test calls the specified expression on the specified number of arguments, spread over the specified range and rounded to the tested width, and compares with the reference value at those very arguments, kept as a rounded value plus remainder. It fails when any result is not a number or deviates by more than the limit specified for that width, and passes otherwise. A generated distribution test fails when any of its buckets deviates too much.",
  ["inputs", "configurations"], "all result vectors a tested function could return, all test specifications, both widths",
  "the generated tests are themselves the tests: what they let through is not tested by anything",
  [G + "test.rs", G + "auxfuncs.rs"], [("gen_max_abs, gen_histogram", G + "test.rs"), ("gen_test_function", G + "auxfuncs.rs")],
  GEN + "collecting semantics of the emitted comparison loop over finite deviation classes; symbolic rows compared in the algebra",
  "Static: the emitted loop is interpreted over the classes ordinary, maximal, too large, not-a-number, with every order of rows; rows are symbolic in the row number. Trusts correct evaluation and rounding (C09, C10) and the meaning of assert!.")
P("L09", "Command line options reach the back end that honours them",
  "The selected language decides which back end writes the output and every back end receives the selected number width, function prefix and literal suffix; hexadecimal and decimal literals follow the selected number type. The output goes to the named file if there is one and to standard output otherwise, and default options mean Rust, 64 bits, decimal, no tests.",
  ["configurations"], "all values of all options",
  "tests call the library directly or use one fixed command line per language",
  [G + "main.rs", G + "config.rs"], [("Opt and main", G + "main.rs"), ("Config accessors", G + "config.rs")],
  "abstract interpretation of the driver's MIR with symbolic options; data-flow from option fields to back-end calls",
  "Static: one symbolic run of the driver, with each option a symbol; the values that reach each back-end call, the output file and the literals are compared with what the options mean. Trusts structopt's derive.")

P("L10", "Options outside their documented values are refused, others are answered",
  "A request with a width other than 32 or 64, a number format other than decimal or hex, or an unknown language writes no generated code, says so on standard error and ends with a failure status. A request within those values is never refused for them, and once its code is written the tool ends with success; it never ends with success when the code could not be written. The default of each of these options is one of its documented values.",
  ["configurations"], "all values of the width, number format and language options, in every combination with the other options",
  "no test starts the tool with an option outside its documented values, nor looks at its exit status",
  [G + "main.rs", G + "config.rs"], [("main", G + "main.rs")],
  "abstract interpretation of the driver's MIR with symbolic options; every path's comparisons are decided for the documented values and for values next to them and to every constant compared, against its writes and its exit status; the option parser's own construction (admitted values, defaults) is read from its MIR",
  "Static: all paths of the driver with the options as unknowns; comparisons are evaluated at boundary values of the options, not at all values. Trusts the option parser to end with a failure status for what it rejects itself.")

CB = "derivation of the back end's text templates from MIR by abstract interpretation (one hole per visited child), composed over syntax schemas and parsed with C's grammar; "
CF = ["doctor-syn/src/codegen/c.rs"]
P("R01", "Rust text reads back as the tokens it was printed from",
  "Printing any token stream as Rust text and reading the text back yields the same tokens in the same order and nesting. Neighbouring tokens never run together or fall apart, nothing is lost, and no depth of nesting makes the printer fail.",
  ["programs"], "all token streams: every kind of token next to every other, in every kind of group, at every depth",
  "the tests print the code of one function, in which most neighbours do not occur and nesting is shallow",
  ["doctor-syn/src/codegen/rust.rs"], [("format_token_stream", "doctor-syn/src/codegen/rust.rs")],
  "derivation of the printer's text templates from MIR by abstract interpretation, composed over token-tree schemas and read with Rust's lexical grammar: all ordered pairs of token kinds in ten group contexts, all operators, depths up to 130",
  "Static: what the printer writes for a token depends only on the token and its depth, so pairs of neighbours decide all streams. Trusts proc_macro2's own printing of single tokens and groups; invisible groups are transparent.")
P("G01", "C output groups and combines expressions as the Rust source does",
  "For every expression built from operators, negation, casts, calls, methods, conditionals, blocks, assignments and parentheses, the C text applies the corresponding C operators to the same operands in the same order and grouping. C's different operator precedences never change the value.",
  ["programs"], "all nestings of the supported expression kinds",
  "the repository's only C test prints one function and compares nothing",
  CF, [("visit_expr_binary, visit_expr_unary, visit_expr_cast, visit_expr_if, visit_bin_op", CF[0])],
  CB + "every grammatical parent/child pair and chain of three",
  "Static: templates come from the MIR; C precedence makes grouping a local matter of parent and child, so pairs (and chains through templates that are open at an end) decide all nestings. Operators are identified with their C namesakes; integer overflow, float contraction and out-of-range casts are outside. One known finding: complement of an integer.")
P("G02", "C literals, types, constants and methods denote what they denote in Rust",
  "Every numeric and boolean literal keeps its value and, from its suffix or the configured default, its type in C; every primitive type becomes the C type of the same kind and width; special float values and the mathematical methods become the C constants and library functions with the same meaning, never of lower precision.",
  ["programs", "configurations"], "all literal forms and suffixes, primitive types, float constants and float methods, each literal-suffix option",
  "no test inspects C output; a double computed through a single-precision function or an integer abs differs only in value",
  CF, [("visit_lit_float, visit_lit_int, translate_basic_types, visit_expr_method_call, visit_path", CF[0])],
  CB + "literal, type and function meanings from the C standard",
  "Static: each literal suffix, primitive type, constant and method is one schema. Methods outside the table keep their name and are left to the C compiler.")
P("G03", "C declarations keep names, types, order and variable scoping",
  "Type aliases, constants, functions, parameters and local variables appear in the C text with their names (functions and their calls with the configured prefix), types, initialisers and order, and every function is declared before it is called. Each variable reference denotes the variable it denotes in Rust, also when variables shadow one another or live in inner blocks.",
  ["programs", "configurations"], "all files of aliases, constants and functions, all shadowing patterns, all prefixes",
  "shadowed variables, inner blocks and calls of later functions do not occur in the single C test",
  CF, [("visit_file, visit_item_fn, visit_signature, visit_local, visit_pat_ident, visit_path, visit_block", CF[0])],
  CB + "scope state threaded through the templates; bindings compared as binding levels",
  "Static: fifteen function schemas cover typed, untyped, late-initialised, shadowing, parameter-shadowing and nested bindings, with and without prefix. Names chosen by the back end are any name its own guard admits.")
P("G04", "The C back end never silently loses what it cannot translate",
  "Every program that parses is turned into text without a panic. A construct that has no translation leaves text that no C compiler accepts, in its place, so a program that is accepted contains every part of its source.",
  ["programs"], "all expression, literal, pattern, type, argument, statement and item kinds",
  "tests use only supported constructs",
  CF, [("all visitor methods", CF[0])],
  CB + "typestate of the fragment stack (exactly one fragment per visited node on every path)",
  "Static: every visitor method and every variant of the syntax enumerations. Method calls with fewer arguments than the method takes are not valid Rust and are outside.")
P("G05", "Every library function can be written in C",
  "Every selection of library functions with what they need, at 32 and at 64 bits, yields C text that a C compiler accepts when function names are prefixed. No function uses a construct the C back end cannot translate.",
  ["configurations"], "all registry entries with their dependencies, both widths",
  "no test generates the library in C",
  CF + [G + "functions.rs"], [("templates of the generators and of the back end", CF[0])],
  GEN + "translated with the templates of the C back end and type-checked by the C compiler (gcc -fsyntax-only)",
  "Static: interpolated polynomials stand as float literals. One known finding: the function returning a pair.")

P("A01", "Interpolation passes through every given point",
  "The interpolating polynomial of any list of points with distinct abscissas has one coefficient per point and takes exactly the given value at every given abscissa, up to rounding at the requested number of digits. Evaluating a polynomial yields the sum of its coefficients times the powers of the argument.",
  ["inputs"], "all numbers of points, all positions and values, all digit counts",
  "the one test of the interpolation uses four points at small integers and a tolerance of 1e-5",
  ["doctor-syn/src/polynomial.rs"], [("divided_differences, Polynomial::from_points, Polynomial::eval", "doctor-syn/src/polynomial.rs")],
  "loop-summary extraction from MIR (fold/store recurrences over index ranges), decided as exact rational identities at generic points",
  "Static: the recurrences are read from the code and compared as algebraic maps; a rational identity that holds at generic rational points holds everywhere except on a null set, and every node count up to the tier's bound is one instance. Rounding is the identity that keeps at least the requested digits; accumulated rounding error is not bounded.")
P("A02", "approx samples the expression at cosine nodes and emits that polynomial",
  "approx() evaluates the expression, with only the variable replaced, at n nodes (lo+hi)/2 - (hi-lo)/2*cos(i*pi/(n-1)) and returns an expression in the variable equal to the interpolation polynomial through these values, or to its odd or even part when that parity is asked for. A request it cannot serve (fewer than two nodes, an empty or infinite interval, a node count the parity does not admit, an expression it cannot evaluate) is an error, not a panic; nothing else is refused.",
  ["inputs"], "all expressions, intervals, node counts, parities and digit counts",
  "the tests approximate a few smooth functions and accept errors far above a misplaced node or a lost low-order digit",
  ["doctor-syn/src/transformation/approx.rs", "doctor-syn/src/expression.rs"], [("approx, mul_add_polynomial", "doctor-syn/src/transformation/approx.rs")],
  "path summaries of approx() from MIR by abstract interpretation, instantiated per parity and node count; emitted tokens read with Rust's precedences",
  "Static: substitution, evaluation, cosine and interpolation stay uninterpreted in the summary (they have their own properties); the node sequence, the pairing of nodes and values, the digit counts and the emitted token tree are compared with the specification for each parity and node count of the tier.")
BDM = "doctor-syn/src/bdmath.rs"
P("K01", "Numeric kernels compute their mathematical function to the digits asked for",
  "Every elementary function used in evaluation (trigonometric and inverse trigonometric, exponential, logarithms, power, error and normal-distribution functions, constants) is given by a formula equal to that function on its whole domain, at every requested number of digits up to about ninety. Outside the domain logarithms, powers, roots and quantiles have no value, and the searches and argument reductions keep the value they started from and end at it.",
  ["inputs"], "all arguments, all requested digit counts (including those above 100 where pi changes its method)",
  "the tests sample a few arguments of each function at 20 digits; a wrong late coefficient, a lost digit count or a branch taken rarely does not show",
  [BDM], [("sin .. qnorm, pi, ln, log, pow", BDM)],
  "path formulas, series coefficients and loop transfer functions extracted from MIR by abstract interpretation, decided as identities of analytic functions at generic points of each path's region; digit counts by dataflow",
  "Static: the formula of each path is read from the code, with the power series as its coefficient terms; two analytic expressions that agree at generic points of a region to 50 digits are taken to be the same. Loops are decided by invariance of their exit formula under one iteration. Accumulated rounding error is not bounded, and the decimal library's own square root and division (about 100 digits) are assumed.")
P("K02", "Series are summed to convergence and rounding is to the nearest digit",
  "A power series is summed from its first term on, each term receiving its index, the running sum, the power of the argument and the factorial that belong to it, and the summation ends only when a term no longer changes the sum at the working precision. Rounding to a number of digits returns the nearest number with that many digits, ties away from zero, for every sign, scale and digit count; rounding to a float width returns exactly the nearest float of that width, or reports that there is none, and a finite float becomes the decimal of exactly its value.",
  ["inputs"], "all term functions, arguments, digit counts, signs and scales",
  "the tests of rounding use four positive numbers, and series are only seen through functions compared to 20 digits",
  [BDM], [("maclaurin, round", BDM), ("round_ieee, bigdf, bigdf32", BDM)],
  "loop transfer function extracted from MIR (entry state, back edges, exits) compared with the recurrence of a power series; path conditions of rounding over value and scale",
  "Static: state variables are identified by the position in which the term function receives them. Each back edge and exit is compared with the recurrence at generic states, at indices up to 1000 and next to every constant the code compares with, at two working precisions; float conversions are evaluated exactly on their path terms at halfway points, subnormals and overflow bounds; the sum's convergence itself is mathematics of the series.")
P("C04", "Evaluation yields a value or an error, never an abort or a value that does not exist",
  "Evaluating an expression whose operands lie outside an operation's domain (zero divisors, logarithms of non-positive numbers or to base 1, roots of negative numbers, inverse sines beyond one, probabilities outside (0,1), deviations that are not positive), or which are not numbers at all, reports an error; inside the domain every operation yields a value. No operand makes evaluation abort.",
  ["inputs"], "all operators and methods, all operand values including domain boundaries, all numbers of arguments, unreadable and non-numeric operands",
  "the tests evaluate operations inside their domains only",
  ["doctor-syn/src/transformation/eval.rs", BDM], [("Eval::visit_method_call, visit_binary, visit_unary", "doctor-syn/src/transformation/eval.rs"), ("domain conditions of the kernels", BDM)],
  "aborting paths kept in the abstract interpretation of MIR; path conditions of the evaluator composed with those of the kernels and decided at the boundaries of every domain",
  "Static: conditions are decided at boundary and interior representatives of each domain region; resource exhaustion (time, memory) is not covered. The series loop's give-up limit is a known finding.")

PS = L + "codegen/portable_simd.rs"
SF = [PS]
SB = "rewriting and text templates of the SIMD back end extracted from MIR, composed over schemas, re-parsed; "
P("S01", "SIMD expressions do to each lane what the scalar expression does",
  "The portable-SIMD text of a supported expression computes in every lane the value the Rust expression has for that lane's number: every operator, comparison, condition, cast, literal and method keeps its meaning, its operands, its grouping and its width, at 32 and at 64 bits. It uses only operations that SIMD vectors have.",
  ["programs", "configurations"], "all pairs of expression kinds and all chains of three operators Rust's grammar allows without parentheses, all literal suffixes and casts, both widths",
  "the two tests of the back end compare the text of one small file each",
  SF, [("expression visitors, function calls, literals, casts, if", PS)],
  SB + "denotation of the emitted expression lane by lane compared with that of the source for every pair of kinds",
  "Static: the denotation treats arithmetic as uninterpreted operators per type, so equal denotations mean equal lanes. Branches are computed in all lanes and selected; expressions have no effects.")
P("S02", "Every function becomes a SIMD method with its parameters, types and constants",
  "In the portable-SIMD text of a file every function with a float first parameter becomes, at the configured width, a method of the same name that takes the first parameter as self and the others in order with their types, returns the function's result type and computes its body. Every constant a method uses is bound to its value before its use, local variables keep their scopes, and nothing of the file is lost without a trace.",
  ["programs", "configurations"], "files of aliases, constants and functions in every order, shadowing patterns, long bodies and many items, both widths",
  "the two tests of the back end compare the text of one small file each",
  SF, [("visit_file, visit_item_fn, visit_item_const, to_simd", PS)],
  SB + "loop-carried state (constants, names used) summarised over the items; interface, binding and denotation of each method compared with the function's",
  "Static: files are instances of the item templates, chosen to cover every order and kind of item. Functions without a leading float parameter have no method form and must not vanish silently.")
P("S03", "Every library function can be written as SIMD methods",
  "Every selection of library functions with what they need, at 32 and at 64 bits, yields portable-SIMD text in which every name resolves to an emitted method or to an operation of the vector types, all lane types agree, and every method computes in each lane what the scalar function computes. No function uses a construct the SIMD back end cannot translate.",
  ["configurations"], "all registry entries with their dependencies, both widths",
  "no test generates the library for SIMD",
  SF + [G + "functions.rs"], [("templates of the generators and of the back end", PS)],
  GEN + "translated with the templates of the SIMD back end; name resolution, lane-type inference and denotation of each method",
  "Static: interpolated polynomials stand as float literals. Known findings: the generators of random numbers take an index that is not a float.")

N("N01", "Generated functions are accurate to a few units in the last place",
  "Each generated function returns, for every argument of its domain, a value within the error its generated test allows of the exact value. The error includes all rounding of the floating-point operations it performs.",
  ["inputs"], "all floating-point arguments of each function at each width",
  "generated tests sample a few thousand points of each function",
  [G + "functions.rs"], [("templates of the generators", G + "functions.rs")],
  "The rounding error of a chain of floating-point operations over all arguments is a runtime quantity: a sound bound needs an error analysis with solver or interval certificates per function, not a source rule. L05 bounds the truncation error and L06 the formulas.")
N("N02", "Evaluation at n digits is accurate to n digits",
  "The value computed for an expression at a requested number of digits differs from the exact value by less than one unit of the last digit, whatever cancellation occurs inside.",
  ["inputs"], "all expressions, all digit counts",
  "tests compare a few values at twenty digits",
  [BDM], [("numeric kernels", BDM)],
  "Accumulated rounding and cancellation of decimal operations depend on the run's numbers; no static bound is in reach. K01 and K02 decide formulas, digit counts and convergence instead.")
N("N03", "Evaluation and approximation end in acceptable time",
  "Every evaluation and approximation request of moderate digit count ends, with time growing polynomially in digits and nodes.",
  ["inputs"], "all expressions and digit counts",
  "tests run a few requests",
  [BDM, L + "transformation/approx.rs"], [("series loop", BDM)],
  "The number of loop iterations depends on the convergence of a series at run-time values; no sound static bound is in reach beyond the give-up limit recorded under C04.")
