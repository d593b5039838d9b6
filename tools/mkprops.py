import json
L="src/lib.rs"; O="src/ops/mod.rs"; S="src/ops/sqrt.rs"; W="src/i256/mod.rs"; U="src/i256/u256.rs"; F="src/float.rs"; ST="src/string.rs"; PT="src/power_table.rs"; CF="src/const_fn.rs"; SE="src/serde.rs"; PA="src/parity.rs"; MA="src/macros.rs"; ER="src/errors.rs"
ALL="every layout (16, 32, 64, 128 bits), every precision whose scale factor 10^P fits the layout"
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p("C01","Checked add, sub, neg, abs: exact or Overflow",
 "Checked addition, subtraction, negation and absolute value, on fixed-point numbers and on the plain signed integers, return exactly the mathematical result when it is representable and an overflow error when it is not. They never wrap, never lose precision and never panic.",
 ["inputs","configurations"],"all operand pairs, "+ALL,
 "The existing tests sample a few dozen sums and a couple of MIN/MAX corners on two instantiations (i64 with 9 and i128 with 18 decimals); nothing covers all pairs, the 16/32-bit layouts or other precisions.",
 [L,O],[("impl CheckedAdd/CheckedSub for FixedPoint, cneg, abs",L+" impl_fixed_point!"),("impl CheckedAdd/CheckedSub for ints",O+" impl_for_ints!")],["Result of cadd/csub/cneg/abs"])
p("C02","Checked multiplication by an integer: exact or Overflow",
 "Multiplying a fixed-point number by a plain integer (in either operand order), or two plain integers, with the checked operation returns exactly the mathematical product when it is representable and an overflow error when it is not. It never wraps and never panics.",
 ["inputs","configurations"],"all operand pairs, "+ALL,
 "Only two overflow cases and a handful of products are tested; the product space is quadratic in 2^64 or 2^128.",
 [L,O],[("impl CheckedMul<int> for FixedPoint and the mirrored impl",L+" impl_fixed_point!"),("impl CheckedMul for ints",O+" impl_for_ints!")],["Result of cmul"])
p("C03","Saturating operations clamp exactly on the correct side",
 "Saturating add, sub, mul and rounding-mul return what the checked operation returns whenever that succeeds. When the true result is not representable they return MAX if the true result is positive and MIN if it is negative, and they never panic.",
 ["inputs","configurations"],"all operand pairs and rounding modes, "+ALL,
 "Clamping direction depends on both operand signs and on exactly where overflow starts; tests pick a few points far from the boundary.",
 [L,O],[("saturating_add/sub/mul overrides",L+" impl_fixed_point!"),("default saturating_* bodies (saturating_rmul and wrappers)",O+" trait CheckedAdd/CheckedSub/CheckedMul/RoundingMul"),("saturating_* for ints",O+" impl_for_ints!")],["value of saturating_*"])
rm="Floor gives the greatest representable value not above the exact result, Ceil the smallest not below it, Nearest the closest one with ties away from zero"
p("C04","Rounding multiplication is correctly rounded (16/32/64-bit)",
 "For the 16-, 32- and 64-bit layouts the rounding product of two fixed-point numbers is the exact product correctly rounded: "+rm+". The overflow error is returned exactly when that correctly rounded result is not representable, and the operation never panics.",
 ["inputs","configurations"],"all operand pairs, all three modes, all layouts up to 64 bits and all their precisions",
 "Rounding errors hide in isolated residues (ties, products just around a multiple of 10^P, results next to MIN/MAX); tests check about 40 products at one precision.",
 [L],[("RoundingMul::rmul: truncating quotient, residual, signed correction",L+" impl_fixed_point!")],["Result of rmul"])
p("C05","Rounding division is correctly rounded (16/32/64-bit)",
 "For the 16-, 32- and 64-bit layouts dividing two fixed-point numbers, and the reciprocal, give the exact quotient correctly rounded: "+rm+". A zero divisor always gives the division-by-zero error; otherwise the overflow error is returned exactly when the correctly rounded quotient is not representable, and the operation never panics.",
 ["inputs","configurations"],"all operand pairs, all three modes, all layouts up to 64 bits and all their precisions",
 "Large divisors make the doubled residual exceed the layout; tests only divide by small numbers, so the tie decision is never exercised near the limits.",
 [L],[("RoundingDiv::rdiv, recip",L+" impl_fixed_point!")],["Result of rdiv/recip"])
p("C06","Division with plain integers is correctly rounded",
 "Dividing plain integers, a fixed-point number by a plain integer, or a plain integer by a fixed-point number gives the exact quotient correctly rounded in the requested mode (Nearest takes ties away from zero), a division-by-zero error for a zero divisor, and an overflow error when the rounded quotient is not representable. An integer dividend that is itself not representable as a fixed-point number gives the overflow error. These operations never panic.",
 ["inputs","configurations"],"all operands and modes, plain integers of 8 to 128 bits, "+ALL,
 "MIN / -1 and divisors above half the range are single points or thin regions in 2^128 operand pairs that no test visits.",
 [L,O],[("impl RoundingDiv for ints",O+" impl_for_ints!"),("RoundingDiv<int> for FixedPoint and the mirrored impl",L+" impl_fixed_point!")],["Result of rdiv"])
p("C07","Rounding to integers: integral, floor, ceil, round",
 "The integral part of any fixed-point number in a given mode is the correctly rounded integer (Nearest takes ties away from zero), and computing it never panics. floor, ceil and round return that integer as a fixed-point number whenever it is representable; when it is not they panic instead of returning any other number.",
 ["inputs","configurations"],"all values and modes, "+ALL,
 "About fifteen small values are tested; the extremes of the range, where intermediate negation or doubling can overflow, are not.",
 [L],[("integral, floor, ceil, round, from_decimal",L+" impl_fixed_point!")],["value of integral/floor/ceil/round"])
p("C08","Square root is correctly rounded (16/32/64-bit)",
 "For the 16-, 32- and 64-bit layouts the rounding square root of a non-negative number is the exact real square root correctly rounded: Floor is the greatest representable value whose square does not exceed the argument, Ceil the smallest whose square is not below it, Nearest whichever of the two is closer to the real root. Negative arguments give the domain-violation error; no other error or panic occurs.",
 ["inputs","configurations"],"all values, all modes, all layouts up to 64 bits and all their precisions, with and without the standard library",
 "Iterated integer square roots fail, if at all, only around perfect squares and for particular starting guesses; tests check a dozen values.",
 [L,S],[("rsqrt",L+" impl_fixed_point!"),("Sqrt for ints: guess, fixpoint, recursion above 64 bits",S)],["Result of rsqrt"])
p("C09","half_sum is the correctly rounded mean and never overflows",
 "The half-sum of any two fixed-point numbers is their exact mean rounded in the requested mode: Floor down, Ceil up, Nearest to a closest representable value. It is total: no operand pair, including the extremes of the range, makes it overflow or panic.",
 ["inputs","configurations"],"all operand pairs and modes, "+ALL,
 "Overflow-free averaging depends on the sign combination and parity of both operands; tests visit about twenty pairs.",
 [L,O],[("half_sum",L+" impl_fixed_point!"),("int rdiv by 2",O)],["value of half_sum"])
p("C10","next_power_of_ten returns the tightest power of ten",
 "For a positive number next_power_of_ten returns the smallest power-of-ten multiple of the smallest step that is not below it, for zero it returns the smallest step, and for a negative number it returns the negation of the result for its absolute value. It returns the overflow error exactly when that value is not representable, and never panics.",
 ["inputs","configurations"],"all values, "+ALL,
 "The result comes from a hand-filled table with up to 129 rows per layout; one wrong row affects only numbers of one magnitude, and tests visit about forty magnitudes of two layouts.",
 [L,PT],[("next_power_of_ten",L+" impl_fixed_point!"),("tables indexed by leading zeros",PT)],["Result of next_power_of_ten"])
p("C11","round_towards_zero_by truncates to a multiple of the step",
 "Rounding towards zero by a non-zero step returns the multiple of that step that has the largest magnitude not exceeding the number's magnitude, with the number's sign. A zero step leaves the number unchanged, and no operands make it panic.",
 ["inputs","configurations"],"all operand pairs, "+ALL,
 "Only positive decimal steps on one number are tested; negative steps, steps that do not divide the scale and MIN are not.",
 [L],[("round_towards_zero_by",L+" impl_fixed_point!")],["value of round_towards_zero_by"])
p("C12","Mantissa/exponent conversion is exact and invertible",
 "Building a number from mantissa m and exponent e gives exactly m*10^e when e is between -PRECISION and 10 and the value is representable, and an error in every other case, never a wrong number or a panic. Splitting a number yields a pair whose value is exactly the number, with the exponent between -PRECISION and the requested maximum and as large as exactness allows ((0, min(0, maximum)) for zero), so rebuilding from it (when the exponent is at most 10) returns the same number.",
 ["inputs","configurations"],"all mantissas, exponents and values, "+ALL,
 "The scale multiplication can leave the layout for particular exponent/precision pairs; tests use few exponents on two instantiations.",
 [L],[("from_decimal, to_decimal",L+" impl_fixed_point!")],["Result of from_decimal, pair of to_decimal"])
p("C13","Integer to fixed-point conversion is exact or an error",
 "Converting any primitive integer (8 to 128 bits and pointer-sized, signed or unsigned) to a fixed-point number gives exactly that integer when it is representable and an error otherwise. It never wraps or panics.",
 ["inputs","configurations"],"all values of the twelve integer types, "+ALL,
 "Twelve source types times 73 target types; tests convert about ten numbers.",
 [L],[("TryFrom<int> for FixedPoint",L+" impl_fixed_point!")],["Result of try_from"])
p("C14","Parsing decimal text: exact or correctly rounded",
 "Text made of optional surrounding whitespace, an optional sign, at least one integer digit and optionally a point followed by at least one digit parses to its exact decimal value rounded to the nearest representable number (ties away from zero); exact parsing instead rejects more fractional digits than the precision holds and never rounds. All other text, and values outside the range after rounding, give an error; no input text panics.",
 ["inputs","configurations"],"all strings, "+ALL,
 "The set of strings is infinite; tests use about forty strings at two precisions and never a precision of zero.",
 [ST],[("parse_str, from_str, from_str_exact",ST+" impl_for!")],["Result of parse / from_str_exact"])
p("C15","Printing is canonical, lossless and memory-safe",
 "Display and Debug print every number exactly: a minus sign for negative numbers, the integer digits without leading zeros, a point, and the fractional digits without trailing zeros (a single 0 when there is no fraction). Parsing the printed text returns the same number, and printing never panics or touches memory outside its buffer for any value, precision or feature set.",
 ["inputs","configurations"],"all values, "+ALL+", with and without the 128-bit feature",
 "The text buffer is filled with unchecked writes, so safety rests on the longest possible text over all precisions and values; tests print a few numbers at two precisions.",
 [ST],[("stringify",ST+" impl_for!"),("StrBuf push/push_str/as_str, MAX_LEN",ST)],["text from Display/Debug"])
p("C16","f64 to fixed-point is accurate, total and sign-symmetric",
 "Converting a finite f64 gives a number that differs from it by at most half of the smallest step plus 2^-52 of its magnitude, and converting its negation gives the negated number; a decimal of at most 15 significant digits and at most PRECISION fractional digits that is stored as its closest f64 converts back to exactly that decimal. NaN and infinities give an error, a value whose conversion is not representable gives an error, and no f64 makes it panic.",
 ["inputs","configurations"],"all 2^64 f64 bit patterns, "+ALL,
 "Binary to decimal scaling takes a different path for each of 2046 exponents; property tests sample uniformly from one linear range, so nearly all samples share a few exponents, and only one instantiation is compared.",
 [F,PT],[("TryFrom<f64>",F),("POWERS_OF_5, POWERS_OF_10, NEXT_EXPONENT_10, MAX_EXPONENT_5",PT)],["Result of try_from(f64)"])
p("C17","Fixed-point to f64 is accurate and sign-exact",
 "Converting a fixed-point number to f64 gives a value within a relative error of 2^-51 of the exact number. Zero converts to zero, a non-zero number keeps its sign, and no number makes it panic.",
 ["inputs","configurations"],"all values, "+ALL,
 "Tests check about twenty decimals for equality with a literal.",
 [L],[("From<FixedPoint> for f64",L+" impl_fixed_point!")],["f64 value"])
p("C18","Rounding multiplication is correctly rounded (128-bit)",
 "For the 128-bit layout, whose exact products need up to 255 bits, the rounding product of two fixed-point numbers is the exact product correctly rounded: "+rm+". The overflow error is returned exactly when that correctly rounded result is not representable, and the operation never panics.",
 ["inputs","configurations"],"all operand pairs, all three modes, all 39 precisions of the 128-bit layout",
 "The hand-written 256-bit multiplication and division have carry paths with probability around 2^-64 that random or hand-picked tests do not reach.",
 [L,W,U],[("rmul",L),("256-bit signed wrapper: mul, div, sub, neg, conversions",W),("256-bit unsigned multiply, word and Knuth division",U)],["Result of rmul"])
p("C19","Rounding division is correctly rounded (128-bit)",
 "For the 128-bit layout, whose scaled dividends need up to 254 bits, dividing two fixed-point numbers, and the reciprocal, give the exact quotient correctly rounded: "+rm+". A zero divisor always gives the division-by-zero error; otherwise the overflow error is returned exactly when the correctly rounded quotient is not representable, and the operation never panics.",
 ["inputs","configurations"],"all operand pairs, all three modes, all 39 precisions of the 128-bit layout",
 "Multi-word division has quotient-digit correction steps that trigger for about one in 2^63 random operands.",
 [L,W,U],[("rdiv, recip",L),("256-bit signed wrapper",W),("div_mod, div_mod_small, div_mod_knuth, div_mod_word",U)],["Result of rdiv/recip"])
p("C20","Square root is correctly rounded (128-bit)",
 "For the 128-bit layout the rounding square root of a non-negative number is the exact real square root correctly rounded: Floor is the greatest representable value whose square does not exceed the argument, Ceil the smallest whose square is not below it, Nearest whichever of the two is closer to the real root. Negative arguments give the domain-violation error; no other error or panic occurs.",
 ["inputs","configurations"],"all values, all modes, all 39 precisions of the 128-bit layout, with and without the standard library",
 "The root is built by recursion over 256-, 128- and 64-bit stages; failures are confined to arguments next to perfect squares or stage boundaries.",
 [L,S,W,U],[("rsqrt",L),("Sqrt for u64/u128",S),("Sqrt for 256-bit",U)],["Result of rsqrt"])
p("C21","Literal macros produce exactly the written number",
 "A decimal literal accepted by the const or converting literal macro denotes exactly the written value at the requested precision, with its sign. A literal with more fractional digits than the precision, or with anything other than digits, is rejected at compile time instead of being turned into some other number.",
 ["inputs","programs"],"all literals whose value is representable, all precisions",
 "Literals are parsed by hand-written const code; tests use three literals in const position at one precision.",
 [CF,MA],[("pow10, parse_fixed, parse_int, find",CF),("fixnum_const!, fixnum!",MA)],["value of the macro"])
p("C22","Serde round trip and wire format",
 "In human-readable formats a number is written as its printed text and read back from strings, integers and floats exactly as the corresponding conversion defines, with an error when that conversion fails; in binary formats it is written and read as its raw integer. Every provided representation (raw, string, float and their optional forms) reads back the number it wrote (the float forms up to the accuracy of f64), with absent optional values staying absent.",
 ["inputs","configurations"],"all values and formats, "+ALL,
 "Tests go through JSON and XML with a few numbers.",
 [SE],[("Serialize/Deserialize for FixedPoint, FixedPointVisitor",SE),("modules repr, repr_option, str, str_option, float, float_option",SE)],["serialized token, deserialized number"])
p("C23","SCALE codec round trip and wire format",
 "The SCALE encoding of a number is the fixed-width little-endian two's complement form of its raw integer, and the compact form is the compact encoding of the same bits read as unsigned. Decoding either form returns the same number, and input that is too short gives an error.",
 ["inputs","configurations"],"all values, "+ALL,
 "No test exercises the codec at all: the feature is only compiled.",
 [PA],[("Encode, Decode, CompactAs",PA)],["encoded bytes, decoded number"])
p("C24","Constants, order, equality and raw access agree with value",
 "Comparison, equality and hashing of fixed-point numbers agree with the numeric order of the represented values, and raw construction and raw access are mutually inverse. Zero, one, the smallest step, MIN and MAX have exactly those numeric values, the advertised precision is the type's precision, and the sign function returns -1, 0 or 1 accordingly.",
 ["inputs","configurations"],"all values and pairs, "+ALL,
 "Tests rely on these throughout but only for the values they happen to use.",
 [L],[("derived PartialEq/Ord/Hash, from_bits/as_bits/into_bits, Zero/One/Bounded, EPSILON, signum",L)],["comparison results, constants"])
p("C25","Wrapper operations equal the operations on the wrapped values",
 "An operation declared for wrapper types returns, for every operand pair, exactly what the same operation returns on the wrapped values after converting plain-integer operands to the wider operand type, including the same error. The saturating forms generated for wrappers clamp the same way.",
 ["inputs","programs"],"all operand pairs, for every operation kind the macro supports",
 "Only the documentation example exercises the macro.",
 [MA,O],[("impl_op!",MA),("Operand promotion",MA),("default saturating_mul/saturating_rmul",O)],["Result of the wrapper operation"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
