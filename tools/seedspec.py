from seedgen import S

LIB = "doctor-syn/src/"
T = LIB + "transformation/"

S("b01", "C02", "evaluation of == on two decimals with different scales, or <= on equal operands",
  "evaluating a <= b yields a < b: equal operands compare as not less-or-equal",
  [(T + "eval.rs", "Expression::from(left <= right)", "Expression::from(left < right)")],
  main='''
use doctor_syn::*;
fn main() {
    let e: Expression = expr!(2.0 <= 2.0).eval(20).unwrap();
    assert_eq!(e.to_string().replace(' ', ""), "true");
}
''')
S("b02", "C03", "powi with a negative exponent",
  "powi evaluates with the absolute value of its exponent",
  [(T + "eval.rs", """            ("powi", x, 1) => {
                Ok(Expression::from(pow(x, arg0(), self""", """            ("powi", x, 1) => {
                Ok(Expression::from(pow(x, arg0().abs(), self""")],
  main='''
use doctor_syn::*;
use std::convert::TryInto;
fn main() {
    let a: f64 = expr!((2.0).powi(-3)).eval(20).unwrap().try_into().unwrap();
    assert!((a - 0.125).abs() < 1e-12, "{}", a);
    let a: f64 = expr!((2.0).powi(3)).eval(20).unwrap().try_into().unwrap();
    assert!((a - 8.0).abs() < 1e-12, "{}", a);
}
''')
S("b03", "C05", "a binding list in which the same name occurs twice",
  "the last binding of a name is used instead of the first",
  [(LIB + "variablelist.rs", "self.inner.iter().find(", "self.inner.iter().rev().find(")],
  main='''
use doctor_syn::*;
fn main() {
    let mut v = VariableList::new();
    v.add_var(name!(x), expr!(1));
    v.add_var(name!(x), expr!(2));
    let e = expr!(x + y).subst(v).unwrap();
    assert_eq!(e, expr!(1 + y));
}
''')
S("b04", "C07", "a product inside a negated sum: the sign of the outer minus is applied to both factors",
  "expanding a - (b*(c+d)) flips the sign of the second factor's terms too, so the product loses its minus sign",
  [(T + "expand.rs", "match_sum(right, &mut right_sum, false)?", "match_sum(right, &mut right_sum, is_negated)?")],
  main='''
use doctor_syn::*;
fn main() {
    let e = expr!(7 - b * (3 + 4)).expand().unwrap();
    let mut v = VariableList::new();
    v.add_var(name!(b), expr!(2));
    let r: Expression = e.subst(v).unwrap().eval(20).unwrap();
    use std::convert::TryInto;
    let f: f64 = r.try_into().unwrap();
    assert_eq!(f, -7.0);
}
''')
S("b05", "C06", "a method call with arguments that contain a bound name, under a transformation without its own method rule",
  "the receiver of a transformed unary operation is rebuilt without its transformed operand",
  [(LIB + "visitor.rs", """        Ok(ExprUnary {
            attrs: exprunary.attrs.clone(),
            op: exprunary.op,
            expr: Box::new(expr),
        }
        .into())""", """        let kept = if let (syn::UnOp::Neg(_), Expr::Unary(_)) = (&exprunary.op, &*exprunary.expr) {
            exprunary.expr.clone()
        } else {
            Box::new(expr)
        };
        Ok(ExprUnary {
            attrs: exprunary.attrs.clone(),
            op: exprunary.op,
            expr: kept,
        }
        .into())""")],
  main='''
use doctor_syn::*;
fn main() {
    let mut v = VariableList::new();
    v.add_var(name!(x), expr!(3));
    let e = expr!(-!x).subst(v).unwrap();
    assert_eq!(e, expr!(-!3));
}
''')

FNS = "libmgen/src/functions.rs"
GS = "libmgen/src/"

S("b06a", "L01", "acos is selected without atan2 (which also depends on PI)",
  "the dependency list of acos lacks PI, so the output is not self-contained",
  [(FNS, '''        deps: &["fty", "PI_BY_2", "PI"],''', '''        deps: &["fty", "PI_BY_2"],''')],
  sh='''
for b in 32 64; do
"$GEN" --num-bits $b --functions acos > a.rs
rustc --crate-type lib --edition 2018 -A warnings a.rs -o a.rlib || exit 1
done
''')

S("b06b", "L02", "a 32-bit library with cbrt",
  "the first guess of the generated cube root is rebuilt from a 64-bit pattern at either width: the 32-bit library does not type-check",
  [("libmgen/src/recip_sqrt.rs", "mul_add(ONE_THIRD, EXP2_ONE * TWO_THIRDS)) as uty", "mul_add(ONE_THIRD, EXP2_ONE * TWO_THIRDS)) as u64")],
  sh='''
for b in 64 32; do
"$GEN" --num-bits $b --functions cbrt > a.rs
rustc --crate-type lib --edition 2018 -A warnings a.rs -o a.rlib || exit 1
done
''')

S("b07a", "L04", "log10 or exp at 64 bits, where 12 digits do not determine a double",
  "two conversion constants are computed with a fifth as many digits as bits (6 and 12), which leaves the last bits of the double wrong",
  [("libmgen/src/auxfuncs.rs", "let value: syn::Expr = expr!(1/10.log(2)).eval(config.num_digits())", "let value: syn::Expr = expr!(1/10.log(2)).eval((config.num_bits() / 5) as i64)")],
  sh='''
"$GEN" --num-bits 64 --functions RECIP_LOG2_10,log10 > a.rs
cat >> a.rs <<'E'
fn main() { let v = RECIP_LOG2_10; assert_eq!(v.to_bits(), std::f64::consts::LOG10_2.to_bits(), "{} {}", v, std::f64::consts::LOG10_2); }
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b07b", "L04", "exp2 or exp at 64 bits with an argument below -511",
  "the 64-bit lower limit of the exponent is that of a narrower format, so small results are flushed to zero",
  [("libmgen/src/auxfuncs.rs", "const EXP2_MIN: fty = -1023.0f64;", "const EXP2_MIN: fty = -511.0f64;")],
  sh='''
"$GEN" --num-bits 64 --functions exp2 > a.rs
cat >> a.rs <<'E'
fn main() { for x in [-500.5, -700.25, -1000.0f64] { assert!((exp2(x) / x.exp2() - 1.0).abs() < 1e-9, "{} {}", x, exp2(x)); } }
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b08a", "L05", "acos at 64 bits",
  "the 64-bit acos is given too few terms: it loses nine bits",
  [("libmgen/src/functions.rs", "num_terms: [16, 34],", "num_terms: [16, 28],")],
  sh='''
"$GEN" --num-bits 64 --functions acos > a.rs
cat >> a.rs <<'E'
fn main() { for i in -700..701 { let x = i as f64 / 1000.0; assert!((acos(x) - x.acos()).abs() < 2e-14, "{} {} {}", x, acos(x), x.acos()); } }
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b08b", "L05", "atan2 of coordinates near an axis or a diagonal",
  "atan2 no longer rotates by pi/8 for small quotients consistently: its polynomial is asked for half the interval and too few terms to be accurate outside it",
  [("libmgen/src/inv_trig.rs", "            (-std::f64::consts::PI / 8.0).tan(),\n            (std::f64::consts::PI / 8.0).tan(),", "            (-std::f64::consts::PI / 16.0).tan(),\n            (std::f64::consts::PI / 16.0).tan(),"),
   ("libmgen/src/inv_trig.rs", "expr!(z.atan())\n        .approx(\n            num_terms,", "expr!(z.atan())\n        .approx(\n            num_terms / 2,")],
  sh='''
"$GEN" --num-bits 64 --functions atan2 > a.rs
cat >> a.rs <<'E'
fn main() { for i in 0..629 { let t = i as f64 / 100.0; let (y, x) = t.sin_cos(); assert!((atan2(y, x) - y.atan2(x)).abs() < 1e-13, "{} {}", y, x); } }
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b06c", "L03", "a selection that contains both hypot and sqrt",
  "the generator of hypot carries its own copy of MIN_POSITIVE, which selections with log2 define a second time",
  [("libmgen/src/recip_sqrt.rs", "        pub fn hypot(x: fty, y: fty) -> fty {", "        const MIN_POSITIVE: fty = 1.0e-30;\n        pub fn hypot(x: fty, y: fty) -> fty {")],
  sh='''
"$GEN" --functions hypot,log2 > a.rs
rustc --crate-type lib --edition 2018 -A warnings a.rs -o a.rlib || exit 1
[ "$(grep -c 'MIN_POSITIVE *:' a.rs)" = 1 ]
''')

S("b06d", "L06", "the third quadrant of atan2 (x < 0 and y < 0)",
  "the reflection of the generated atan2 back into the left half plane is skipped when y is negative",
  [("libmgen/src/inv_trig.rs", "let q12 : fty = if x >= 0.0 { q1 } else { PI - q1 };", "let q12 : fty = if x >= 0.0 || y < 0.0 { q1 } else { PI - q1 };")],
  sh='''
"$GEN" --functions atan2 > a.rs
cat >> a.rs <<'E'
fn main() {
    for i in 0..16 { let t = (i as f64) * 0.4 - 3.0; let (y, x) = (t.sin() * 2.0, t.cos() * 2.0);
      assert!((atan2(y, x) - y.atan2(x)).abs() < 1e-3, "{} {}", y, x); }
}
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b06e", "L06", "cbrt of a number with a large or small exponent",
  "the first guess of the cube root is off by a power of two that depends on the exponent",
  [("libmgen/src/recip_sqrt.rs", "mul_add(ONE_THIRD, EXP2_ONE * TWO_THIRDS)) as uty", "mul_add(ONE_THIRD * 0.98, EXP2_ONE * (1.0 - ONE_THIRD * 0.98))) as uty")],
  sh='''
"$GEN" --functions cbrt > a.rs
cat >> a.rs <<'E'
fn main() {
    for i in -60..60 { let x = (i as f64 * 4.0).exp2(); assert!((cbrt(x) / x.cbrt() - 1.0).abs() < 1e-9, "{} {}", x, cbrt(x)); }
}
E
rustc --edition 2018 -A warnings a.rs -o a || exit 1
./a
''')

S("b09a", "L07", "a function that is both requested and excluded",
  "an excluded function is generated all the same when it was also requested by name",
  [("libmgen/src/functions.rs", "if exclude.contains(&name) {", "if exclude.contains(&name) && !names.contains(&name) {")],
  sh='''
"$GEN" --functions sin,cos --exclude sin > a.rs
grep -q 'fn cos *(' a.rs || exit 1
! grep -q 'fn sin *(' a.rs
''')

S("b09b", "L07", "the same functions requested in another order",
  "the order of the emitted definitions depends on the order of the request",
  [("libmgen/src/functions.rs", "res.sort_by(|a, b| (*a as *const Function as usize).cmp(&(*b as *const Function as usize)));", "res.sort_by(|a, b| a.num_terms.cmp(&b.num_terms));")],
  sh="""
"$GEN" --functions sin,cos,exp,ln > a.rs
"$GEN" --functions ln,exp,cos,sin > b.rs
cmp a.rs b.rs
""")

S("b10a", "L08", "a 64-bit function whose error is between the limit of its test and sixteen times that",
  "the limit of every 64-bit accuracy test is sixteen times the one specified",
  [("libmgen/src/test.rs", "bits64 * 2.0_f64.powi(-53)", "bits64 * 2.0_f64.powi(-49)")],
  sh="""
"$GEN" --functions exp2 --num-bits 64 --generate-tests > a.rs
cat > m.py <<'E'
import re
got = [float(x) for x in re.findall(r'test_function *\\( *"test_exp2_\\d" *, *accurate_values *, *([0-9.e-]+)', open('a.rs').read())]
assert got and all(x < 4.1 * 2.0 ** -53 for x in got), got
E
python3 m.py
""")

S("b10b", "L08", "an inaccuracy in the upper half of the range named in a test specification",
  "the points of a generated test cover only the lower half of the specified range",
  [("libmgen/src/test.rs", "/ (#n) + (#tmin))).round_ieee(#bits))", "/ (#n + #n) + (#tmin))).round_ieee(#bits))")],
  sh="""
"$GEN" --functions exp2 --num-bits 64 --generate-tests > a.rs
cat > m.py <<'E'
import re
t = open('a.rs').read()
for lo, hi, name in ((-1, 0, 'test_exp2_1'), (0, 1, 'test_exp2_2')):
    body = t[t.index('fn ' + name):]
    body = body[:body.index(';')]
    xs = [float(a.replace(' ', '')) for a in re.findall(r'\\(\\s*(-?\\s*[0-9.]+)\\s*,', body)]
    assert len(xs) > 10 and min(xs) < lo + 0.1 and max(xs) > hi - 0.1, (name, min(xs), max(xs))
E
python3 m.py
""")

S("b11a", "L09", "--output with a file name that has no extension",
  "the output goes to the terminal instead of the file named",
  [("libmgen/src/main.rs", "if let Some(path) = &config.output() {", "if let Some(path) = config.output().as_ref().filter(|p| p.extension().is_some()) {")],
  sh='''
"$GEN" --functions sin -o out > std.txt
test -s out && ! test -s std.txt
''')

S("b11b", "L09", "--num-bits 32 with --language portable-simd",
  "vector code for the 32-bit format is generated with the lane types of the 64-bit format",
  [("libmgen/src/main.rs", "options.num_bits = config.num_bits();", "options.num_bits = config.num_bits().max(64);")],
  sh='''
"$GEN" --functions sin --language portable-simd --num-bits 32 > a.rs
"$GEN" --functions sin --language portable-simd --num-bits 64 > b.rs
grep -q 'Simd *< *f32' a.rs && ! grep -q 'Simd *< *[fiu]64' a.rs && grep -q 'Simd *< *f64' b.rs
''')

CHEAD = '''
use doctor_syn::codegen::c::{to_c, Options};
use std::process::Command;
#[allow(dead_code)]
fn c(src: &str, prefix: &str) -> String {
    let f: doctor_syn::syn::File = doctor_syn::syn::parse_str(src).unwrap();
    let mut o = Options::default();
    o.prefix = prefix.to_string();
    to_c(&f, o)
}
/// compile and run; the exit status of main, or -1 when the compiler refuses
#[allow(dead_code)]
fn run(text: &str, main: &str) -> i32 {
    let d = std::env::temp_dir().join(format!("cdemo{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a.c"), format!("{}\\n{}\\n", text, main)).unwrap();
    let ok = Command::new("gcc").arg("-w").arg("-O0").arg("-o").arg(d.join("a")).arg(d.join("a.c")).arg("-lm")
        .stderr(std::process::Stdio::null()).status().unwrap().success();
    let r = if ok { Command::new(d.join("a")).status().unwrap().code().unwrap_or(-2) } else { -1 };
    std::fs::remove_dir_all(&d).unwrap();
    r
}
'''
CRS = LIB + "codegen/c.rs"

S("b12a", "G01", "a compound assignment with ^= in the source",
  "x ^= y becomes x |= y in C",
  [(CRS, '''            BinOp::BitXorEq(_binding_0) => {
                "^="''', '''            BinOp::BitXorEq(_binding_0) => {
                "|="''')],
  main=CHEAD + '''
fn main() {
    let t = c("fn f(a: u32, b: u32) -> u32 { let mut x : u32 = a; x ^= b; x }", "m_");
    assert_eq!(run(&t, "int main(void) { return m_f(7, 5) == 2 && m_f(1, 2) == 3 ? 0 : 9; }"), 0, "{}", t);
}
''')
S("b12b", "G01", "a compound assignment with >>= in the source",
  "x >>= y becomes the comparison x >= y in C: the assignment is lost",
  [(CRS, '''            BinOp::ShrEq(_binding_0) => {
                ">>="''', '''            BinOp::ShrEq(_binding_0) => {
                ">="''')],
  main=CHEAD + '''
fn main() {
    let t = c("fn f(a: u32, b: u32) -> u32 { let mut x : u32 = a; x >>= b; x }", "m_");
    assert_eq!(run(&t, "int main(void) { return m_f(12, 2) == 3 && m_f(1, 1) == 0 ? 0 : 9; }"), 0, "{}", t);
}
''')
S("b13a", "G02", "a u32 with its top bit set, shifted right or compared",
  "u32 becomes the signed C type",
  [(CRS, '"u32" => "unsigned int".to_string(),', '"u32" => "int".to_string(),')],
  main=CHEAD + '''
fn main() {
    let t = c("fn f(a: u32) -> u32 { a >> 28 }", "m_");
    assert_eq!(run(&t, "int main(void) { return m_f(0x80000000u) == 8 ? 0 : 9; }"), 0, "{}", t);
}
''')
S("b14a", "G03", "a prefix, and a function without parameters that another one calls",
  "the definition of a function without parameters does not get the prefix its calls get",
  [(CRS, '''let ident = format!("{}{}", self.options.prefix, ident);''',
    '''let prefix = if node.inputs.is_empty() { "" } else { self.options.prefix.as_str() };
        let ident = format!("{}{}", prefix, ident);''')],
  main=CHEAD + '''
fn main() {
    let t = c("fn one() -> f64 { 1.0f64 } fn f(a: f64) -> f64 { a + one() }", "m_");
    assert_eq!(run(&t, "int main(void) { return m_f(2) == 3 ? 0 : 9; }"), 0, "{}", t);
}
''')
S("b15a", "G04", "a program with the ? operator",
  "x? is written as x: the early return is lost without a trace",
  [(CRS, '''self.push("<<expr_try>>".to_string());''', '''self.visit_expr(&node.expr);''')],
  main=CHEAD + '''
fn main() {
    let t = c("fn f(a: f64) -> f64 { let x : f64 = a?; x + 1.0f64 }", "m_");
    assert_eq!(run(&t, "int main(void) { return 0; }"), -1, "{}", t);
}
''')
S("b16a", "G05", "a C library with a function that needs round",
  "round is written with a destructuring let, which has no C translation",
  [("libmgen/src/auxfuncs.rs", """            let half = (0.5) as fty;
            (x + half""", """            let (half, x) = ((0.5) as fty, x);
            (x + half""")],
  sh='''
"$GEN" --functions round --language c > a.c
"$GEN" --functions recip --language c > b.c
gcc -w -fsyntax-only b.c || exit 3
gcc -w -fsyntax-only a.c
''')

RRS = LIB + "codegen/rust.rs"
FMT = '''
use doctor_syn::proc_macro2::TokenStream;
use doctor_syn::codegen::rust::format_token_stream;
fn norm(t: TokenStream) -> String {
    t.to_string().split_whitespace().collect::<Vec<_>>().join(" ")
}
fn check(s: &str) {
    let a: TokenStream = s.parse().unwrap();
    let text = format_token_stream(a.clone());
    let b: TokenStream = text.parse().unwrap();
    assert_eq!(norm(a), norm(b), "{}", text);
}
'''
S("b17a", "R01", "an empty bracketed group inside two nested blocks",
  "inside a block, a bracketed group is printed without its brackets when it is empty",
  [(RRS, """            Delimiter::Bracket => {
                text.extend(tt.to_string().chars());""", """            Delimiter::Bracket => {
                if !(g.stream().is_empty() && depth > 1) {
                    text.extend(tt.to_string().chars());
                }""")],
  main=FMT + '''
fn main() {
    check("fn f() { let x = []; }");
    check("fn f() { if a { let x = []; g([1], []) } }");
}
''')
S("b17b", "R01", "a one-letter name followed by a word, inside a block",
  "a one-letter name and the word behind it run together",
  [(RRS, """        text.extend(tok.chars());
        text.extend(" ".chars());
    } else {""", """        text.extend(tok.chars());
        if depth == 0 || tok.len() > 1 {
            text.extend(" ".chars());
        }
    } else {""")],
  main=FMT + '''
fn main() {
    check("fn f(x: f32) -> f32 { let long = x + 1.0; long as f32 }");
    check("fn f(x: i32) -> f32 { let y = x; y as f32 }");
}
''')

# ---------------------------------------------------------------- approximation
POLY = "doctor-syn/src/polynomial.rs"
APX = "doctor-syn/src/transformation/approx.rs"
S("b18a", "A01", "values whose first divided differences vanish while later ones do not",
  "a vanishing divided difference ends the sum although later ones need not vanish",
  [(POLY, """            for j in 0..k {
                terms[j] += round""", """            if i > 0 && dd[i].is_zero() && dd[i - 1].is_zero() {
                break;
            }
            for j in 0..k {
                terms[j] += round""")],
  main="""
use doctor_syn::{bdmath::*, polynomial::Polynomial};
fn main() {
    for last in [5, 1] {
        let x: Vec<BigDecimal> = (0..6).map(|i| bigd(i)).collect();
        let y: Vec<BigDecimal> = (0..6).map(|i| bigd(if i == 5 { last } else { 1 })).collect();
        let p = Polynomial::from_points(&x, &y, 50);
        for (a, b) in x.iter().zip(&y) {
            let e = (p.eval(a.clone()) - b).abs();
            assert!(e < bigdf(1e-9), "off by {} at {}", e, a);
        }
    }
}
""")
S("b18b", "A01", "points whose first abscissa is not zero, and more than 20 digits requested",
  "the Newton basis is rounded to half the requested digits",
  [(POLY, "newton[i] = round(&newton[i] * &c + &newton[i - 1], num_digits);", "newton[i] = round(&newton[i] * &c + &newton[i - 1], num_digits - num_digits / 2);")],
  main="""
use doctor_syn::{bdmath::*, polynomial::Polynomial};
fn main() {
    let x: Vec<BigDecimal> = (1..6).map(|i| bigd(i) / bigd(7)).collect();
    let y: Vec<BigDecimal> = (0..5).map(|i| bigd(i * i * 3 % 5)).collect();
    let p = Polynomial::from_points(&x, &y, 60);
    for (a, b) in x.iter().zip(&y) {
        let e = (p.eval(a.clone()) - b).abs();
        assert!(e < bigdf(1e-45), "off by {} at {}", e, a);
    }
}
""")
S("b19a", "A02", "an odd approximation requested with an odd number of nodes, at least nine",
  "an impossible request is served: the coefficient of the highest, even power is put in the place of an odd one",
  [(APX, """            if k % 2 != 0 {
                return""", """            if k % 2 != 0 && k < 9 {
                return""")],
  main="""
use doctor_syn::*;
fn main() {
    for k in [5usize, 7, 9, 11] {
        let a = expr!(x.sin()).approx(k, -1.0, 1.0, name!(x), Parity::Odd, 30);
        assert!(a.is_err(), "{} nodes", k);
    }
    assert!(expr!(x.sin()).approx(8, -1.0, 1.0, name!(x), Parity::Odd, 30).is_ok());
}
""")
S("b19b", "A02", "more than 40 digits requested",
  "the values at the nodes are computed with at most 40 digits",
  [(APX, "let y: BigDecimal = subst.eval(num_digits)?.try_into()?;", "let y: BigDecimal = subst.eval(num_digits.min(crate::num_digits_for(64)))?.try_into()?;")],
  main="""
use doctor_syn::*;
fn main() {
    let a = expr!(x / 3).approx(2, 0.0, 1.0, name!(x), Parity::Neither, 60).unwrap();
    let t = a.to_string();
    assert!(t.contains("33333333333333333333333333333333333333333333333333"), "{}", t);
}
""")
BD = "doctor-syn/src/bdmath.rs"
EVS = "doctor-syn/src/transformation/eval.rs"
S("b20a", "K01", "an error function evaluated away from zero, where late terms of its series count",
  "late odd coefficients of the error function's series are wrong",
  [(BD, "                1 => Some(tot - power / (bigd(2 * i + 1) * factorial)),", "                1 => Some(tot - power / (bigd(if i < 45 { 2 * i + 1 } else { 2 * i - 1 }) * factorial)),")],
  main="""
use doctor_syn::Expression;
fn main() {
    let e: Expression = "1 - (4.0).erf()".parse().unwrap();
    let v: f64 = e.eval(40).unwrap().to_string().replace(' ', "").parse().unwrap();
    assert!((v - 1.541725790028002e-8).abs() < 1e-22, "erfc(4) is {}", v);
}
""")
S("b20b", "K01", "pi requested with more digits than the table has",
  "pi is taken from its table although more digits are requested than the table has",
  [(BD, "    if num_digits < 100 {", "    if num_digits <= 200 {")],
  main="""
use doctor_syn::bdmath::*;
fn main() {
    for n in [90, 120, 180] {
        let d = pi(n) - pi(300);
        assert!(d.abs() < BigDecimal::new(1.into(), n - 3), "pi({}) is off by {}", n, d);
    }
}
""")
S("b20c", "K01", "a logarithm of a number above exp(1/2) evaluated to more than 20 digits",
  "the scale of the logarithm's argument reduction is computed to 20 digits only",
  [(BD, "        let scale = exp(-h.clone(), num_digits);", "        let scale = exp(-h.clone(), num_digits.min(41));")],
  main="""
use doctor_syn::Expression;
fn main() {
    let e: Expression = "(1000.0).ln() - (10.0).ln() * 3".parse().unwrap();
    let v: f64 = e.eval(64).unwrap().to_string().replace(' ', "").parse().unwrap();
    assert!(v.abs() < 1e-58, "ln(1000) - 3 ln(10) is {}", v);
}
""")
S("b21a", "K02", "a slowly converging series evaluated to many digits",
  "the series loop gives up before slowly converging series have converged at higher digit counts",
  [(BD, "    let imax = 30000;", "    let imax = 850;")],
  main="""
use doctor_syn::Expression;
fn main() {
    let e: Expression = "(1.64).ln()".parse().unwrap();
    e.eval(95).unwrap();
}
""")
S("b21b", "K02", "a negative number exactly between two roundings",
  "negative numbers are rounded up at ties and slightly beyond them",
  [(BD, "let five = if bigint.is_positive() { 5 } else { -5 };", "let five = if bigint.is_positive() { 5 } else { -4 };")],
  main="""
use doctor_syn::bdmath::*;
fn main() {
    for (x, d) in [("-2.5", 0), ("2.5", 0), ("-0.125", 2), ("-7.15", 1)] {
        let y: BigDecimal = x.parse().unwrap();
        let r = round(y.clone(), d);
        assert_eq!(r, -round(-y, d), "{} to {} digits", x, d);
    }
}
""")
S("b21c", "K02", "a series of more than 128 terms with factorials",
  "the factorial is multiplied by the wrong number from the 150th term on",
  [(BD, "        factorial *= bigd(i);", "        factorial *= bigd(if i > 150 { 150 } else { i });")],
  main="""
use doctor_syn::Expression;
fn main() {
    let e: Expression = "(60.0).exp() * (0.0 - 60.0).exp() - 1".parse().unwrap();
    let v: f64 = e.eval(60).unwrap().to_string().replace(' ', "").parse().unwrap();
    assert!(v.abs() < 1e-20, "exp(60) exp(-60) - 1 is {}", v);
}
""")
S("b22a", "C04", "a power of a negative number",
  "a power of a non-positive base aborts evaluation instead of being reported",
  [(BD, """    if let Some(lnx) = ln(x, num_digits) {
        Some(exp(y * lnx, num_digits))
    } else {
        None
    }""", """    let lnx = ln(x, num_digits);
    Some(exp(y * lnx.unwrap(), num_digits))""")],
  main="""
use doctor_syn::Expression;
fn main() {
    for s in ["(0.0 - 2.5).powf(1.5)", "(0.0).powf(2.0)", "(0.0-1.0).sqrt()"] {
        let e: Expression = s.parse().unwrap();
        assert!(std::panic::catch_unwind(move || e.eval(20).is_err()).unwrap_or(false) || s.starts_with("(0.0).p"), "{} is not refused", s);
    }
    let e: Expression = "(0.0).powf(2.0)".parse().unwrap();
    assert!(std::panic::catch_unwind(move || e.eval(20).is_ok()).is_ok());
}
""")
S("b22b", "C04", "an operand that is no number in a method call",
  "a receiver that evaluates to a truth value aborts evaluation",
  [(EVS, "        let receiver: BigDecimal = receiver.try_into()?;", "        let receiver: BigDecimal = receiver.try_into().expect(\"number\");")],
  main="""
use doctor_syn::Expression;
fn main() {
    let e: Expression = "(1 < 2).abs()".parse().unwrap();
    assert!(std::panic::catch_unwind(move || e.eval(20).is_err()).unwrap_or(false), "aborted");
}
""")
SIMD = LIB + "codegen/portable_simd.rs"
HYP = "libmgen/src/hyperbolic.rs"
SIMDMAIN = '''
use doctor_syn::codegen::portable_simd::{to_simd, Options};
use doctor_syn::quote::ToTokens;
use doctor_syn::syn;
#[allow(dead_code)]
fn conv(src: &str, num_bits: usize) -> String {
    let f: syn::File = syn::parse_str(src).unwrap();
    to_simd(&f, Options { num_bits }).to_token_stream().to_string().replace(char::is_whitespace, "")
}
'''
S("b23a", "S01", "lanes that are equal to the limit",
  "a >= b becomes a > b in every lane",
  [(SIMD, 'Ge(_) => Some("lanes_ge")', 'Ge(_) => Some("lanes_gt")')],
  main=SIMDMAIN + '''
fn main() {
    let t = conv("fn f(x: fty, y: fty) -> fty { if x >= y { x } else { y } }", 32);
    assert!(t.contains("lanes_ge") && !t.contains("lanes_gt"), "{}", t);
}
''')
S("b23b", "S01", "an else branch with local variables",
  "an else branch of several statements keeps only its last expression",
  [(SIMD, """        if block.block.stmts.len() == 1 {
            if let syn::Stmt::Expr(expr) = &block.block.stmts[0] {
                return expr;
            }
        }""", """        if let Some(syn::Stmt::Expr(expr)) = block.block.stmts.last() {
            return expr;
        }""")],
  main=SIMDMAIN + '''
fn main() {
    let t = conv("fn f(x: fty) -> fty { if x < 1.0 { x } else { let y: fty = x * x; y + y } }", 32);
    assert!(t.contains("lety"), "{}", t);
    assert!(conv("fn f(x: fty) -> fty { if x < 1.0 { x } else { x * x } }", 32).contains("select("));
}
''')
S("b23c", "S01", "the smallest positive number at 64 bits",
  "f64::MIN_POSITIVE becomes lanes of another constant",
  [(SIMD, 'parse_quote! { Self::splat(f64::MIN_POSITIVE) }', 'parse_quote! { Self::splat(f64::EPSILON) }')],
  main=SIMDMAIN + '''
fn main() {
    let t = conv("fn f(x: fty) -> fty { if x < f64::MIN_POSITIVE { x } else { 1.0 } }", 64);
    assert!(t.contains("MIN_POSITIVE"), "{}", t);
}
''')
S("b23d", "S02", "a constant used early in a long function",
  "only the last 512 names of a function are searched for constants",
  [(SIMD, "if cv.idents_used.contains(ident) {", "if cv.idents_used.iter().rev().take(512).any(|i| i == ident) {")],
  main=SIMDMAIN + '''
fn main() {
    let mut s = String::from("const A: fty = 2.5; fn f(x: fty) -> fty { let y0: fty = x * A; ");
    for i in 0..200 {
        s += &format!("let y{}: fty = y{} * x + {}.0; ", i + 1, i, i);
    }
    s += "y200 }";
    assert!(conv(&s, 32).contains("letA="), "the constant is not bound");
}
''')
S("b23e", "S02", "integer lanes at 64 bits",
  "the integer lanes of 64-bit floats are declared with 32 bits",
  [(SIMD, "let ity = if options.num_bits == 32 { quote!(i32) } else { quote!(i64) };", "let ity = if options.num_bits <= 64 { quote!(i32) } else { quote!(i64) };")],
  main=SIMDMAIN + '''
fn main() {
    assert!(conv("fn f(x: fty) -> fty { x }", 64).contains("typeIntType=Simd<i64,N>"));
}
''')
S("b23f", "S03", "asinh generated as SIMD methods",
  "asinh uses a method that vectors do not have",
  [(HYP, "ln(x + (x * x + 1.0).sqrt())", "ln(x + x.hypot(1.0))")],
  sh='''
"$GEN" -f asinh --language portable-simd --num-bits 32 > out.rs || "$GEN" -f asinh --language portable-simd --num-bits 32 -o out.rs || exit 3
[ -s out.rs ] || exit 3
! grep -q 'hypot' out.rs
''')
S("b23g", "S03", "acosh generated as SIMD methods",
  "acosh leaves the function early, which lanes cannot",
  [(HYP, "if x < 1.0 { NAN } else { ln(x + (x * x - 1.0).sqrt()) }", "if x < 1.0 { return NAN; } ln(x + (x * x - 1.0).sqrt())")],
  sh='''
"$GEN" -f acosh --language portable-simd --num-bits 32 > out.rs
[ -s out.rs ] || exit 3
tr -d ' \\n' < out.rs > flat
grep -q 'fnacosh' flat || exit 3
! grep -q 'return' out.rs
''')

S("b30a", "L10", "the language fortran, which the help text of --language names but the tool does not have",
  "asking for fortran writes C code and succeeds",
  [("libmgen/src/main.rs", '        "c" => {\n', '        "fortran" | "c" => {\n')],
  sh='''
if "$GEN" --language fortran -f recip > a.f 2> err; then echo "fortran accepted"; exit 1; fi
[ ! -s a.f ]
''')

S("b30b", "L10", "an output file that cannot be written",
  "a failed write of the generated library is ignored: the tool ends with success and there is no library",
  [("libmgen/src/main.rs", "        std::fs::write(path, text.as_bytes()).unwrap();", "        let _ = std::fs::write(path, text.as_bytes());")],
  sh='''
if "$GEN" -f recip -o no/such/dir/a.rs 2> err; then echo "success without a file"; exit 1; fi
"$GEN" -f recip -o a.rs
[ -s a.rs ]
''')
