PRELUDE = r'''#![allow(unused)]
use fixnum::{*, ops::{*, RoundMode::*}, typenum::*};
use std::panic::catch_unwind;
fn check(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1); } }
'''
L = "src/lib.rs"
O = "src/ops/mod.rs"
Q = "src/ops/sqrt.rs"
U = "src/i256/u256.rs"
SEEDS = [
    dict(id="c01-csub-via-neg", prop="C01", edits=[(O, "self.checked_sub(rhs).ok_or(ArithmeticError::Overflow)",
        "rhs.checked_neg().and_then(|neg| self.checked_add(neg)).ok_or(ArithmeticError::Overflow)")],
        needs="csub with the subtrahend equal to MIN and a negative minuend", breaks="csub reports Overflow although the difference is representable",
        demo=r'''fn main() { type F = FixedPoint<i64, U9>;
    check(F::from_bits(-5).csub(F::MIN) == Ok(F::from_bits(i64::MAX - 4)), "-5 - MIN"); }'''),
    dict(id="c02-cmul-divide-back", prop="C02", edits=[(O, "self.checked_mul(rhs).ok_or(ArithmeticError::Overflow)",
        """let product = self.wrapping_mul(rhs);
                // The multiplication hasn't overflowed iff it can be undone.
                if self != 0 && product / self != rhs {
                    return Err(ArithmeticError::Overflow);
                }
                Ok(product)""")],
        needs="cmul of exactly -1 by MIN", breaks="cmul panics instead of returning Overflow",
        demo=r'''fn main() { let r = catch_unwind(|| FixedPoint::<i32, U2>::from_bits(-1).cmul(i32::MIN));
    check(matches!(r, Ok(Err(ArithmeticError::Overflow))), "-1 * MIN must be an overflow error"); }'''),
    dict(id="c04-rmul-saturate", prop="C04", edits=[(L, """                if add_signed_one {
                    result = result.checked_add(sign).ok_or(ArithmeticError::Overflow)?;
                }

                Ok(Self::from_bits(result))
            }
        }

        $(#[$attr])?
        impl<P: Precision> RoundingDiv for""", """                if add_signed_one {
                    result = result.saturating_add(sign);
                }

                Ok(Self::from_bits(result))
            }
        }

        $(#[$attr])?
        impl<P: Precision> RoundingDiv for""")],
        needs="a product whose truncated value is exactly MAX or MIN and whose rounding leaves the range", breaks="rmul returns MAX instead of Overflow",
        demo=r'''fn main() { type F = FixedPoint<i16, U1>; // 3276.7 * 1.1 ... search for a witness
    for a in 1..=i16::MAX { for b in 1..200i16 {
        let n = a as i64 * b as i64;
        let want = if n % 10 != 0 { n / 10 + 1 } else { n / 10 };
        let got = F::from_bits(a).rmul(F::from_bits(b), Ceil).ok().map(|x| x.into_bits() as i64);
        check(got == Some(want).filter(|x| *x <= i16::MAX as i64), "rmul Ceil at the top of the range");
    } } }'''),
    dict(id="c05-rdiv-sign-from-quotient", prop="C05", edits=[(L, """                if loss != 0 {
                    let sign = self.inner.signum() * rhs.inner.signum();
""", """                if loss != 0 {
                    let sign = if result == 0 { 1 } else { result.signum() };
""")],
        needs="a quotient strictly between -1 and 0 units in the last place", breaks="rdiv rounds tiny negative quotients up to +EPSILON or not down",
        demo=r'''fn main() { type F = FixedPoint<i64, U2>;
    check(F::from_bits(-1).rdiv(F::from_bits(1000), Floor) == Ok(F::from_bits(-1)), "floor of a tiny negative quotient");
    check(F::from_bits(-1).rdiv(F::from_bits(1000), Ceil) == Ok(F::from_bits(0)), "ceil of a tiny negative quotient"); }'''),
    dict(id="c07-ceil-as-neg-floor", prop="C07", edits=[(L, "Self::from_decimal(self.integral(RoundMode::Ceil), 0).unwrap()",
        "self.cneg().unwrap().floor().cneg().unwrap()")],
        needs="ceil of exactly MIN", breaks="ceil panics although the result is representable",
        demo=r'''fn main() { type F = FixedPoint<i16, U2>;
    let r = catch_unwind(|| F::MIN.ceil());
    check(matches!(r, Ok(x) if x == F::from_bits(-32700)), "ceil(MIN)"); }'''),
    dict(id="c09-half-sum-zero-sign", prop="C09", edits=[(L, "if a.inner.signum() != b.inner.signum() {", "if a.inner.signum() * b.inner.signum() < 0 {")],
        needs="half_sum of MIN and zero", breaks="half_sum panics",
        demo=r'''fn main() { type F = FixedPoint<i64, U9>;
    let r = catch_unwind(|| F::half_sum(F::MIN, F::ZERO, Floor));
    check(matches!(r, Ok(x) if x == F::from_bits(i64::MIN / 2)), "half_sum(MIN, 0)"); }'''),
    dict(id="c11-rem-min", prop="C11", edits=[(L, """            pub fn round_towards_zero_by(self, precision: Self) -> Self {
                self.inner
                    .checked_div(precision.inner)
                    .and_then(|v| v.checked_mul(precision.inner))
                    .map_or(self, Self::from_bits)
            }""", """            pub fn round_towards_zero_by(self, precision: Self) -> Self {
                if precision.inner == 0 {
                    return self;
                }
                Self::from_bits(self.inner - self.inner % precision.inner)
            }""")],
        needs="rounding MIN by a step of exactly -EPSILON", breaks="round_towards_zero_by panics",
        demo=r'''fn main() { type F = FixedPoint<i32, U3>;
    let r = catch_unwind(|| F::MIN.round_towards_zero_by(F::from_bits(-1)));
    check(matches!(r, Ok(x) if x == F::MIN), "MIN by -EPSILON"); }'''),
    dict(id="c12-to-decimal-cap", prop="C12", edits=[(L, "while exponent < max_exponent && mantissa % 10 == 0 {", "while exponent < max_exponent.min(10) && mantissa % 10 == 0 {")],
        needs="a value divisible by more than 10^10 and a max_exponent above 10", breaks="to_decimal doesn't return the largest possible exponent",
        demo=r'''fn main() { type F = FixedPoint<i64, U2>;
    check(F::from_bits(100_000_000_000_000).to_decimal(20) == (1, 12), "10^12"); }'''),
    dict(id="c13-u128-cast", prop="C13", edits=[(L, "$layout::try_from(value)\n                        .map_err(|_| ConvertError::new(\"too big number\"))?",
        "$layout::try_from(value as i128)\n                        .map_err(|_| ConvertError::new(\"too big number\"))?")],
        needs="an u128 close to 2^128", breaks="huge unsigned integers convert to negative numbers",
        demo=r'''fn main() { check(FixedPoint::<i64, U2>::try_from(u128::MAX).is_err(), "u128::MAX"); }'''),
    dict(id="c03-sat-sub-neg", prop="C03", edits=[(L, "Self::Output::from_bits(self.inner.saturating_sub(rhs.inner))",
        "Self::Output::from_bits(self.inner.saturating_add(rhs.inner.saturating_neg()))")],
        needs="saturating_sub of MIN from a negative number", breaks="the difference is off by EPSILON",
        demo=r"""fn main() { type F = FixedPoint<i64, U9>;
    check(F::from_bits(-7).saturating_sub(F::MIN) == F::from_bits(i64::MAX - 6), "-7 - MIN"); }"""),
    dict(id="c06-zero-shortcut", prop="C06", edits=[(L, "                lhs.rdiv(rhs, mode)\n", "                if lhs.inner == 0 {\n                    return Ok(lhs);\n                }\n                lhs.rdiv(rhs, mode)\n")],
        needs="plain zero divided by a fixed-point zero", breaks="0 / 0 is reported as 0",
        demo=r"""fn main() { type F = FixedPoint<i64, U9>;
    check(0i64.rdiv(F::ZERO, Floor) == Err(ArithmeticError::DivisionByZero), "0 / 0"); }"""),
    dict(id="c07-nearest-double", prop="C07", edits=[(L, """                    frac >= Self::COEF - frac
""", """                    frac + frac >= Self::COEF
""")],
        needs="the 128-bit layout with 38 digits and a fraction above 0.85", breaks="integral and round panic",
        demo=r"""fn main() { type F = FixedPoint<i128, U38>;
    let r = catch_unwind(|| F::from_bits(90_000_000_000_000_000_000_000_000_000_000_000_000).integral(Nearest));
    check(matches!(r, Ok(1)), "0.9 rounds to 1"); }"""),
    dict(id="c08-nearest-tie", prop="C08", edits=[(L, """                        let lo2 = lo * lo;
                        // (lo+1)^2 = lo^2 +2lo + 1
                        let hi2 = lo2 + lo + lo + $promotion::ONE;
                        squared - lo2 >= hi2 - squared
""", """                        // The root is nearer to `lo + 1` iff it's above `lo + 0.5`.
                        squared - lo * lo >= lo && lo > $promotion::ZERO
""")],
        needs="a radicand whose scaled value is n(n+1)", breaks="the root is rounded up although the lower neighbour is closer",
        demo=r"""fn main() { type F = FixedPoint<i32, U0>;
    check(F::from_bits(6).rsqrt(Nearest) == Ok(F::from_bits(2)), "sqrt(6) = 2.449"); }"""),
    dict(id="c14-numeric", prop="C14", edits=[("src/string.rs", "fractional_str.chars().all(|c| c.is_digit(10))", "fractional_str.chars().all(char::is_numeric)")],
        needs="a numeric character that isn't an ASCII digit behind the precision", breaks="such text is accepted, or parsing panics",
        demo=r"""fn main() { type F = FixedPoint<i64, U2>;
    let r = catch_unwind(|| "1.23\u{0663}".parse::<F>().is_err());
    check(matches!(r, Ok(true)), "arabic-indic digit"); }"""),
    dict(id="c17-fraction-i64", prop="C17", edits=[(L, "((value.inner % coef) as f64)", "((value.inner % coef) as i64 as f64)")],
        needs="the 128-bit layout with more than 18 fractional digits", breaks="the fraction is garbage",
        demo=r"""fn main() { type F = FixedPoint<i128, U20>;
    let f: f64 = F::from_bits(99_000_000_000_000_000_000).into();
    check((f - 0.99).abs() < 1e-12, "0.99"); }"""),
    dict(id="c18-nearest-double", prop="C18", edits=[(L, """                    loss_abs >= Self::COEF - loss_abs
""", """                    2 * loss_abs >= Self::COEF
""")],
        needs="the 128-bit layout with 38 digits and a remainder above 0.85 units", breaks="rmul panics (or truncates) instead of rounding",
        demo=r"""fn main() { type F = FixedPoint<i128, U38>;
    let r = catch_unwind(|| F::from_bits(9).rmul(F::from_bits(10i128.pow(37)), Nearest));
    check(matches!(r, Ok(Ok(x)) if x == F::from_bits(1)), "0.9 units round to 1"); }"""),
    dict(id="c19-no-correction", prop="C19", edits=[(U, """                            let (hi, lo) = Self::split_u128(u128::from(q_hat) * u128::from(v_n_2));
                            if (hi, lo) <= (r_hat, u[j + n - 2]) {
                                break;
                            }
                            // then iterate till it doesn't hold
                            q_hat -= 1;""", """                            let (hi, _) = Self::split_u128(u128::from(q_hat) * u128::from(v_n_2));
                            if hi <= r_hat {
                                break;
                            }
                            // then iterate till it doesn't hold
                            q_hat -= 1;"""), (U, "                    if c {\n                        q_hat -= 1;", "                    if c && u_jn >= v_n_1 {\n                        q_hat -= 1;")],
        needs="128-bit division whose digit estimate ties in its leading word", breaks="the quotient is too big by one",
        demo=r"""fn main() { type F = FixedPoint<i128, U0>;
    // q * d - 1 for divisors above 2^64: the estimate must be corrected by its last word
    let mut s = 0x9E3779B97F4A7C15u64; let mut next = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    for i in 0..2_000_000u64 { let d = (next() as i128) << 62 | next() as i128 >> 2 | 1 << 125; let d = d >> (i % 60);
        let q = (i128::MAX / d).min(1 + (next() >> (1 + i % 60)) as i128); let n = q * d - 1;
        check(F::from_bits(n).rdiv(F::from_bits(d), Floor) == Ok(F::from_bits(q - 1)), "floor((q*d-1)/d)"); } }"""),
    dict(id="c19-max-digit", prop="C19", edits=[(U, """                        // here q_hat >= q_j >= q_hat - 1
                        u64::max_value()""", """                        // here q_hat >= q_j >= q_hat - 1
                        u64::max_value() - 1""")],
        needs="a quotient digit of 2^64 - 1 with the leading words of dividend and divisor equal", breaks="the quotient is too small by one digit unit",
        demo=r"""fn main() { type F = FixedPoint<i128, U18>;
    let d: i128 = (1 << 120) - 1; let e = 10i128.pow(18); let b: i128 = 1 << 64;
    // the largest multiple of e below 2^64 * d, computed in pieces
    let a = b * (d / e) + (b * (d % e) - 1) / e;
    check(F::from_bits(a).rdiv(F::from_bits(d), Floor) == Ok(F::from_bits(b - 1)), "all-ones digit"); }"""),
    dict(id="c22-visit-i128", prop="C22", edits=[("src/serde.rs", "Self::Value::try_from(i).map_err(|_| {\n            E::invalid_value(\n                if i as i64", "Self::Value::try_from(i as i64).map_err(|_| {\n            E::invalid_value(\n                if i as i64")],
        needs="a self-describing format delivering an i128 outside of 64 bits", breaks="the number is silently truncated",
        features=["std", "i64", "i128", "serde"], deps='serde = "1"',
        demo=r"""fn main() { use ::serde::{Deserialize, de::IntoDeserializer};
    type F = FixedPoint<i128, U2>; type E = ::serde::de::value::Error;
    let d: ::serde::de::value::I128Deserializer<E> = ((1i128 << 70) + 5).into_deserializer();
    check(matches!(F::deserialize(d), Ok(x) if x == F::from_bits(((1i128 << 70) + 5) * 100)), "2^70 + 5"); }"""),
    dict(id="c23-symmetric", prop="C23", edits=[("src/parity.rs", "Ok(Self::from_bits(value as $layout))", "Ok(Self::from_bits((value as $layout).max(-<$layout>::MAX)))")],
        needs="decoding MIN", breaks="MIN decodes to MIN + EPSILON",
        features=["std", "i64", "parity"], deps='parity-scale-codec = { version = "3", default-features = false }',
        demo=r"""fn main() { use parity_scale_codec::{Encode, Decode}; type F = FixedPoint<i64, U9>;
    check(matches!(F::decode(&mut &F::MIN.encode()[..]), Ok(x) if x == F::MIN), "MIN"); }"""),
    dict(id="c24-pow10", prop="C24", edits=[("src/const_fn.rs", "let mut i = power - POW_10.len() as i32 + 1;", "let mut i = power - POW_10.len() as i32;")],
        needs="a precision above 18", breaks="ONE is off by a factor of ten",
        demo=r"""fn main() { type F = FixedPoint<i128, U20>; check(F::ONE.into_bits() == 10i128.pow(20), "ONE"); }"""),
    dict(id="c25-rdiv-error", prop="C25", edits=[("src/macros.rs", """                    $res(
                        l.try_into().map_err(|_| $crate::ArithmeticError::Overflow)?
                    ).0.rdiv(r, mode)
                }, $res)""", """                    match l.try_into() {
                        Ok(l) => $res(l).0.rdiv(r, mode),
                        Err(_) => Err($crate::ArithmeticError::DomainViolation),
                    }
                }, $res)""")],
        needs="an integral dividend that doesn't fit in the wrapper's range", breaks="the wrong error is reported",
        demo=r"""#[derive(Debug, Clone, Copy, PartialEq)] struct Size(i64);
#[derive(Debug, Clone, Copy, PartialEq)] struct Price(FixedPoint<i64, U9>);
#[derive(Debug, Clone, Copy, PartialEq)] struct Amount(FixedPoint<i64, U9>);
impl_op!(Size [rdiv] Price = Amount);
fn main() { check(Size(i64::MAX).rdiv(Price(FixedPoint::from_bits(5)), Floor) == Err(ArithmeticError::Overflow), "too big dividend"); }"""),
    dict(id="c10-table-entry", prop="C10", edits=[("src/power_table.rs", "    /*  34 |            9903520314283042199192993792 */ 10000000000000000000000000000,", "    /*  34 |            9903520314283042199192993792 */ 100000000000000000000000000000,")],
        needs="a 128-bit value between 9903520314283042199192993792 and 10^28", breaks="the result is not the next power of ten",
        demo=r"""fn main() { type F = FixedPoint<i128, U0>;
    check(F::from_bits(9_950_000_000_000_000_000_000_000_000).next_power_of_ten() == Ok(F::from_bits(10i128.pow(28))), "9.95e27"); }"""),
    dict(id="c15-buffer-cap", prop="C15", edits=[("src/string.rs", "        unsafe { *self.buffer.as_mut().get_unchecked_mut(self.len) = c as u8 };\n        self.len += 1;", "        unsafe { *self.buffer.as_mut().get_unchecked_mut(self.len) = c as u8 };\n        self.len = (self.len + 1).min(MAX_LEN - 1);")],
        needs="the longest output there is: i128 MIN without fractional digits", breaks="the last digit isn't printed",
        demo=r"""fn main() { type F = FixedPoint<i128, U0>;
    check(F::MIN.to_string() == "-170141183460469231731687303715884105728.0", "MIN"); }"""),
    dict(id="c16-shift-only", prop="C16", edits=[("src/float.rs", """                            if bits & 1 == 0 {
                                exponent10 += 1;
                                exponent5 -= 1;
                                bits >>= 1;
                            } else {
                                if let Some(b) = bits.checked_mul(5) {
                                    exponent5 -= 1;
                                    bits = b;
                                } else {
                                    // Multiplication by 5 overflows. The significand should be divided
                                    // by 2, and therefore will lose significant digits.
                                    exponent10 += 1;
                                    exponent5 -= 1;
                                    bits >>= 1;
                                }
                            }
""", """                            // The significand is almost full, thus it should be divided by 2.
                            exponent10 += 1;
                            exponent5 -= 1;
                            bits >>= 1;
""")],
        needs="tiny floats and a precision high enough to represent them", breaks="significant digits are lost",
        demo=r"""fn main() { type F = FixedPoint<i128, U38>;
    check(F::try_from(1.2345e-30) == Ok(F::from_bits(123450000)), "1.2345e-30"); }"""),
    dict(id="c20-newton-step", prop="C20", edits=[(Q, """                            let lo = (self >> 2u32).sqrt()? << 1;
                            let hi = lo + 1;
                            if hi * hi <= self { hi } else { lo }
""", """                            // `lo` is the root or one less, a single step of Newton's method is enough.
                            let lo = (self >> 2u32).sqrt()? << 1;
                            (lo + self / lo) >> 1
""")],
        needs="a radicand just below a perfect square above 2^64, with an odd root", breaks="the root is too big by one",
        demo=r"""fn main() { type F = FixedPoint<i128, U0>;
    for r in [4294967297i128, 4294967299, 6074000999, 6520000000000000001] {
        check(F::from_bits(r * r + 2 * r).rsqrt(Floor) == Ok(F::from_bits(r)), "floor(sqrt(r^2+2r)) = r"); } }"""),
    dict(id="c21-mul-first", compile=True, prop="C21", edits=[("src/const_fn.rs", "    let final_fractional = coef / exp * fractional;\n", "    let final_fractional = fractional * coef / exp;\n")],
        needs="a literal with so many fractional digits that fraction times coefficient leaves i128", breaks="a representable literal doesn't compile",
        demo=r"""fn main() { let a: FixedPoint<i128, U38> = fixnum::fixnum!(0.123456789012345678901234567890, 38);
    check(a == FixedPoint::from_bits(12345678901234567890123456789000000000), "0.123456789012345678901234567890"); }"""),
]
