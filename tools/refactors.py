"""Edits that keep the behaviour; the checks named must stay quiet. usage: refactors.py [id...]"""
import os, re, subprocess, sys, time
L, O, Q, U, S = "src/lib.rs", "src/ops/mod.rs", "src/ops/sqrt.rs", "src/i256/u256.rs", "src/string.rs"
C, F, P, SE, I = "src/const_fn.rs", "src/float.rs", "src/parity.rs", "src/serde.rs", "src/i256/mod.rs"
R = [
    dict(id="rmul-match", checks=["C04", "C18", "C03"], edits=[(L, """                let add_signed_one = if mode == RoundMode::Nearest {
                    // `2 * |loss| >= COEF`, but without possible overflows.
                    let loss_abs = loss.abs();
                    loss_abs >= Self::COEF - loss_abs
                } else {
                    loss != 0 && mode as i32 == sign as i32
                };
""", """                let add_signed_one = match mode {
                    RoundMode::Nearest => {
                        let loss_abs = loss.abs();
                        Self::COEF - loss_abs <= loss_abs
                    }
                    RoundMode::Ceil => loss > 0,
                    RoundMode::Floor => loss < 0,
                };
""")]),
    dict(id="rdiv-helper", checks=["C05", "C19", "C06"], edits=[(L, """                        // `2 * |loss| >= |rhs|`, but without possible overflows.
                        let (loss_abs, rhs_abs) = (loss.unsigned_abs(), rhs.inner.unsigned_abs());
                        loss_abs >= rhs_abs - loss_abs
""", """                        Self::is_half_or_more(loss, rhs.inner)
"""), (L, """            /// Returns `1/n`.
""", """            #[inline]
            fn is_half_or_more(loss: $layout, divisor: $layout) -> bool {
                let (loss, divisor) = (loss.unsigned_abs(), divisor.unsigned_abs());
                divisor - loss <= loss
            }

            /// Returns `1/n`.
"""), (L, """                if rhs.inner == 0 {
                    return Err(ArithmeticError::DivisionByZero);
                }

                let numerator = $promotion::from(self.inner) * Self::COEF_PROMOTED;
                let denominator = $promotion::from(rhs.inner);
""", """                let denominator = $promotion::from(rhs.inner);
                if rhs == Self::from_bits(0) {
                    return Err(ArithmeticError::DivisionByZero);
                }

                let numerator = Self::COEF_PROMOTED * $promotion::from(self.inner);
""".replace("rhs == Self::from_bits(0)", "!(rhs.inner != 0)"))]),
    dict(id="int-rdiv", checks=["C06", "C07", "C09", "C25"], edits=[(O, "let sign = self.signum() * rhs.signum();", "let sign: $int = if (self < 0) == (rhs < 0) { 1 } else { -1 };"),
        (O, "let loss = self - result * rhs;", "let loss = self % rhs;")]),
    dict(id="half-sum", checks=["C09"], edits=[(L, """                    let min = a.inner.min(b.inner);
                    let max = a.inner.max(b.inner);
                    let half_diff = (max - min).rdiv(2, mode).unwrap();
                    Self::from_bits(min + half_diff)
""", """                    let (min, max) = if a.inner < b.inner { (a, b) } else { (b, a) };
                    let half_diff = Self::from_bits(max.inner - min.inner).rdiv(2, mode).unwrap();
                    min.cadd(half_diff).unwrap()
""")]),
    dict(id="integral", checks=["C07"], edits=[(L, """                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
""", """                let mut int = self.inner / Self::COEF;
                let frac = (self.inner - int * Self::COEF).abs();
"""), (L, """            pub fn floor(self) -> Self {
                Self::from_decimal(self.integral(RoundMode::Floor), 0).unwrap()""", """            pub fn floor(self) -> Self {
                Self::from_bits(self.integral(RoundMode::Floor).checked_mul(Self::COEF).expect("too small"))""")]),
    dict(id="next-power", checks=["C10"], edits=[(L, """                let value = power_table::$layout[lz];

                let value = if self.inner > value {
                    power_table::$layout[lz - 1]
                } else {
                    value
                };

                if value == 0 {
                    return Err(ArithmeticError::Overflow);
                }

                Ok(Self::from_bits(value))
""", """                let index = if power_table::$layout[lz] < self.inner { lz - 1 } else { lz };

                match power_table::$layout[index] {
                    0 => Err(ArithmeticError::Overflow),
                    value => Ok(Self::from_bits(value)),
                }
""")]),
    dict(id="rsqrt", checks=["C08", "C20"], edits=[(L, """                        let lo2 = lo * lo;
                        // (lo+1)^2 = lo^2 +2lo + 1
                        let hi2 = lo2 + lo + lo + $promotion::ONE;
                        squared - lo2 >= hi2 - squared
""", """                        squared - lo * lo > lo
""")]),
    dict(id="rsqrt-loops", checks=["C08", "C20"], edits=[(Q, """                    let mut xn = f(x);
                    while x < xn {
                        x = xn;
                        xn = f(x);
                    }
                    while x > xn {
                        x = xn;
                        xn = f(x);
                    }
                    x
""", """                    let mut next = f(x);
                    loop {
                        if next <= x {
                            break;
                        }
                        x = next;
                        next = f(x);
                    }
                    while next < x {
                        x = next;
                        next = f(x);
                    }
                    x
""")]),
    dict(id="rsqrt-inline-loops", checks=["C08", "C20"], edits=[(Q, "                Ok(fixpoint(guess(self), next))\n", """                let mut x = guess(self);
                let mut xn = next(x);
                while x < xn {
                    x = xn;
                    xn = next(x);
                }
                while x > xn {
                    x = xn;
                    xn = next(x);
                }
                Ok(x)
"""), (Q, """                #[inline]
                fn fixpoint(mut x: $int, f: impl Fn($int) -> $int) -> $int {
                    let mut xn = f(x);
                    while x < xn {
                        x = xn;
                        xn = f(x);
                    }
                    while x > xn {
                        x = xn;
                        xn = f(x);
                    }
                    x
                }

""", "")]),
    dict(id="decimal-loop", checks=["C12"], edits=[(L, """                while exponent < max_exponent && mantissa % 10 == 0 {
                    exponent += 1;
                    mantissa /= 10;
                }
""", """                loop {
                    let (quotient, digit) = (mantissa / 10, mantissa % 10);
                    if digit != 0 || exponent >= max_exponent {
                        break;
                    }
                    mantissa = quotient;
                    exponent += 1;
                }
""")]),
    dict(id="f64-into", checks=["C17", "C22"], edits=[(L, """                let integral = (value.inner / coef) as f64;
                let fractional = ((value.inner % coef) as f64) / (coef as f64);
                integral + fractional
""", """                let integral = value.inner / coef;
                let rest = value.inner - integral * coef;
                rest as f64 / coef as f64 + integral as f64
""")]),
    dict(id="tryfrom-int", checks=["C13"], edits=[(L, """                    $layout::try_from(value)
                        .map_err(|_| ConvertError::new("too big number"))?
                        .checked_mul(Self::COEF)
                        .map(Self::from_bits)
                        .ok_or(ConvertError::new("too big number"))
""", """                    match $layout::try_from(value).ok().and_then(|x| Self::COEF.checked_mul(x)) {
                        Some(bits) => Ok(Self::from_bits(bits)),
                        None => Err(ConvertError::new("too big number")),
                    }
""")]),
    dict(id="parse", checks=["C14", "C15"], edits=[(S, "let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };", "let signum = if str.starts_with('-') { -1 } else { 1 };"),
        (S, "!fractional_str.chars().all(|c| c.is_digit(10))", "fractional_str.bytes().any(|b| !b.is_ascii_digit())"),
        (S, """                let (integral_str, mut fractional_str) = if let Some(parts) = str.split_once('.') {
                    parts
                } else {
                    return str
                        .parse::<$layout>()
                        .map_err(|_| ConvertError::new("can't parse integer"))?
                        .try_into();
                };
""", """                let (integral_str, mut fractional_str) = match str.find('.') {
                    Some(point) => (&str[..point], &str[point + 1..]),
                    None => {
                        let integer: $layout = str.parse().map_err(|_| ConvertError::new("can't parse integer"))?;
                        return Self::try_from(integer);
                    }
                };
""")]),
    dict(id="stringify", checks=["C15", "C22"], edits=[(S, """                let sign = self.inner.signum();
                if sign < 0 {
""", """                if self.inner < 0 {
"""), (S, "                if fractional > 0 {\n", "                if fractional != 0 {\n"), (S, """                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                    let s = &fmt.format(fractional_with_leading_one)[1..];
                    let _ = buf.push_str(s.trim_end_matches('0'));
""", """                    // The leading one keeps the zeros after it.
                    let padded = fmt.format(Self::COEF.unsigned_abs() + fractional);
                    let digits = padded[1..].trim_end_matches('0');
                    let _ = buf.push_str(digits);
""")]),
    dict(id="const-fn", checks=["C21", "C24"], edits=[(C, """    let signum = if bytes[0] == b'-' { -1 } else { 1 };

    let start = if bytes[0] == b'-' || bytes[0] == b'+' {
        1
    } else {
        0
    };
""", """    let (signum, start) = match bytes[0] {
        b'-' => (-1, 1),
        b'+' => (1, 1),
        _ => (1, 0),
    };
"""), (C, """    let mut i = start;

    while i < end {
        let digit = parse_digit(bytes[i]);
        i += 1;
        result += digit * pow10((end - i) as i32);
    }
""", """    let mut pos = start;

    while pos != end {
        let digit = parse_digit(bytes[pos]);
        result += digit * pow10((end - pos - 1) as i32);
        pos += 1;
    }
""")]),
    dict(id="const-fn-horner", checks=["C21"], edits=[(C, """        i += 1;
        result += digit * pow10((end - i) as i32);
""", """        i += 1;
        result = result * 10 + digit;
""")]),
    dict(id="float-style", checks=["C16"], edits=[(F, """                        while exponent5 > 0 {
                            if bits & 1 == 0 {
                                exponent10 += 1;
                                exponent5 -= 1;
                                bits >>= 1;
                            } else {
                                if let Some(b) = bits.checked_mul(5) {
                                    exponent5 -= 1;
                                    bits = b;
                                } else {
                                    // Multiplication by 5 overflows. The significand should be divided
                                    // by 2, and therefore will lose significant digits.
                                    exponent10 += 1;
                                    exponent5 -= 1;
                                    bits >>= 1;
                                }
                            }
                        }
""", """                        while exponent5 > 0 {
                            exponent5 -= 1;
                            match bits.checked_mul(5) {
                                Some(product) if bits % 2 == 1 => bits = product,
                                _ => {
                                    exponent10 += 1;
                                    bits /= 2;
                                }
                            }
                        }
"""), (F, """                let positive = (raw >> 63) == 0;
""", """                let positive = raw & (1 << 63) == 0;
""")]),
    dict(id="serde-match", checks=["C22"], edits=[(SE, """        s.parse()
            .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
""", """        match s.parse() {
            Ok(fp) => Ok(fp),
            Err(_) => Err(E::invalid_value(de::Unexpected::Str(s), &self)),
        }
"""), (SE, """        if let Some(fp) = fp {
            serializer.serialize_some(&fp.clone().into().into())
        } else {
            serializer.serialize_none()
        }
""", """        match fp.clone() {
            None => serializer.serialize_none(),
            Some(fp) => {
                let value: f64 = fp.into().into();
                serializer.serialize_some(&value)
            }
        }
""")]),
    dict(id="saturating-match", checks=["C03", "C25"], edits=[(O, """        let is_lhs_negative = self < Self::ZERO;
        let is_rhs_negative = rhs < Rhs::ZERO;
        self.rmul(rhs, round_mode).unwrap_or({
            if is_lhs_negative == is_rhs_negative {
                Self::Output::MAX
            } else {
                Self::Output::MIN
            }
        })
""", """        let negative = (self < Self::ZERO) != (rhs < Rhs::ZERO);
        match self.rmul(rhs, round_mode) {
            Ok(product) => product,
            Err(_) if negative => Self::Output::MIN,
            Err(_) => Self::Output::MAX,
        }
""")]),
    dict(id="parity", checks=["C23"], edits=[(P, "destination.write(&self.encode_as().encode());", "self.encode_as().using_encoded(|bytes| destination.write(bytes));"),
        (P, """                let fp = <$representation as Decode>::decode(input)
                    .and_then(FixedPoint::decode_from)
                    .map_err(|_| "Error decoding FixedPoint value")?;
                Ok(fp)
""", """                match <$representation as Decode>::decode(input) {
                    Ok(value) => Ok(Self::from_bits(value as $layout)),
                    Err(_) => Err("Error decoding FixedPoint value".into()),
                }
""")]),
    dict(id="cneg", checks=["C01", "C10", "C24"], edits=[(L, """                self.inner
                    .checked_neg()
                    .map(Self::from_bits)
                    .ok_or_else(|| ArithmeticError::Overflow)
""", """                0.csub(self.inner).map(Self::from_bits)
""".replace("0.csub", "<$layout as Zero>::ZERO.csub")), (L, """                if self.inner < 0 {
                    self.cneg()
                } else {
                    Ok(self)
                }
""", """                match self.inner.checked_abs() {
                    Some(bits) => Ok(Self::from_bits(bits)),
                    None => Err(ArithmeticError::Overflow),
                }
""")]),
    dict(id="towards-zero", checks=["C11"], edits=[(L, """                self.inner
                    .checked_div(precision.inner)
                    .and_then(|v| v.checked_mul(precision.inner))
                    .map_or(self, Self::from_bits)
""", """                match self.inner.checked_rem(precision.inner) {
                    Some(rest) => Self::from_bits(self.inner - rest),
                    None => self,
                }
""")]),
    dict(id="cmul", checks=["C02"], edits=[(O, "self.checked_mul(rhs).ok_or(ArithmeticError::Overflow)", """match self.overflowing_mul(rhs) {
                    (product, false) => Ok(product),
                    (_, true) => Err(ArithmeticError::Overflow),
                }""")]),
    dict(id="i256-div", checks=["C18", "C19", "C20", "C03"], edits=[(I, """        let lhs = if lhs_was_negative { -self } else { self };
        let rhs = if rhs_was_negative { -rhs } else { rhs };

        let result = Self::new(lhs.inner / rhs.inner);
        if lhs_was_negative == rhs_was_negative {
            result
        } else {
            -result
        }
""", """        let dividend = self.magnitude();
        let divisor = rhs.magnitude();

        let (quotient, _) = (dividend / divisor, ());
        let result = Self::new(quotient);
        if lhs_was_negative ^ rhs_was_negative {
            -result
        } else {
            result
        }
"""), (I, """    const fn is_negative(self) -> bool {""", """    fn magnitude(self) -> U256 {
        if self.is_negative() {
            (-self).inner
        } else {
            self.inner
        }
    }

    const fn is_negative(self) -> bool {""")]),
    dict(id="knuth-style", checks=["C19", "C18"], edits=[(U, """                    if c {
                        q_hat -= 1;
                        // add v to u[j..]
                        let c = Self::add_slice(&mut u[j..], &v.0[..n]);
                        u[j + n] = u[j + n].wrapping_add(u64::from(c));
                    }

                    // D5.
                    q.0[j] = q_hat;
""", """                    q.0[j] = if c {
                        // add v to u[j..]
                        let carry = Self::add_slice(&mut u[j..], &v.0[..n]);
                        u[j + n] = u[j + n].wrapping_add(u64::from(carry));
                        q_hat - 1
                    } else {
                        q_hat
                    };
"""), (U, "let mut q_hat = if u_jn < v_n_1 {", "let q_hat = if u_jn < v_n_1 {"), (U, """                            let (new_r_hat, overflow) = r_hat.overflowing_add(v_n_1);
                            r_hat = new_r_hat;
                            // if r_hat overflowed, we're done
                            if overflow {
                                break;
                            }
""", """                            // if r_hat overflowed, we're done
                            r_hat = match r_hat.checked_add(v_n_1) {
                                Some(sum) => sum,
                                None => break,
                            };
""")]),
    dict(id="float-names", checks=["C16"], edits=[(F, "exponent10", "scale"), (F, "exponent5", "fives"), (F, "divisor_exponent_10", "excess"), (F, "prefix", "high"), (F, "positive", "nonneg")]),
    dict(id="float-rounding", checks=["C16"], edits=[(F, """                    bits = if bits % divisor >= divisor / 2 {
                        res + 1
                    } else {
                        res
                    };
                    exponent10 += divisor_exponent_10;
""", """                    let rest = bits - res * divisor;
                    exponent10 += divisor_exponent_10;
                    bits = res + u128::from(rest >= divisor / 2);
"""), (F, """                if exponent10 > -Self::PRECISION {
""", """                let shift = exponent10 + Self::PRECISION;
                if shift > 0 {
"""), (F, "power_of_10((exponent10 + Self::PRECISION) as u32)", "power_of_10(shift as u32)"), (F, "} else if exponent10 < -Self::PRECISION {", "} else if shift < 0 {"),
        (F, "rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32)", "rdiv_by_exponent_10(bits, shift.unsigned_abs())")]),
    dict(id="float-helper", checks=["C16"], edits=[(F, """                let mut exponent5 = -exponent2;
""", """                let mut exponent5 = 0 - exponent2;
"""), (F, """                            let (new_bits""", "X")][:1] + [(F, """                    bits = if bits & MOST_SIGNIFICANT_BIT == 0 {
                        // No far left bit, the significand can withstand a shift-left without overflowing
                        exponent10 -= 1;
                        exponent5 += 1;
                        bits << 1
                    } else {
                        // The significand would overflow if shifted. Therefore it should be
                        // directly divided by 5. This will lose significant digits, unless
                        // by chance the significand happens to be divisible by 5.
                        exponent5 += 1;
                        bits / 5
                    };
""", """                    exponent5 += 1;
                    if bits < MOST_SIGNIFICANT_BIT {
                        // No far left bit, the significand can withstand a shift-left without overflowing
                        exponent10 -= 1;
                        bits *= 2;
                    } else {
                        // The significand would overflow if shifted. Therefore it should be
                        // directly divided by 5. This will lose significant digits, unless
                        // by chance the significand happens to be divisible by 5.
                        bits /= 5;
                    }
""")]),
    dict(id="parse-get", checks=["C14", "C15"], edits=[(S, """                if fractional_str.is_empty() {
                    return Err(ConvertError::new("can't parse fractional part"));
                }

                if !fractional_str.chars().all(|c| c.is_digit(10)) {
""", """                if fractional_str.is_empty() || !fractional_str.bytes().all(|b| b.is_ascii_digit()) {
"""), (S, """                let round = if !EXACT && fractional_str.len() > prec {
                    let extra = fractional_str.as_bytes()[prec];
                    fractional_str = &fractional_str[..prec];
                    Some(signum).filter(|_| extra >= b'5')
                } else {
                    None
                };
""", """                let mut round = None;
                if let (false, Some(&extra)) = (EXACT, fractional_str.as_bytes().get(prec)) {
                    fractional_str = fractional_str.split_at(prec).0;
                    if extra >= b'5' {
                        round = Some(signum);
                    }
                }
"""), (S, "let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };", "let signum = if integral_str.starts_with('-') { -1 } else { 1 };")]),
    dict(id="parse-strip", checks=["C14", "C15"], edits=[(S, "let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };", "let signum = if integral_str.strip_prefix('-').is_some() { -1 } else { 1 };"),
        (S, """                let (integral_str, mut fractional_str) = if let Some(parts) = str.split_once('.') {
                    parts
                } else {
                    return str
                        .parse::<$layout>()
                        .map_err(|_| ConvertError::new("can't parse integer"))?
                        .try_into();
                };
""", """                if !str.contains('.') {
                    return <$layout>::from_str(str)
                        .map_err(|_| ConvertError::new("can't parse integer"))
                        .and_then(Self::try_from);
                }
                let mut parts = str.splitn(2, '.');
                let integral_str = parts.next().unwrap_or("");
                let mut fractional_str = parts.next().unwrap_or("");
"""), (S, "!fractional_str.chars().all(|c| c.is_digit(10))", "fractional_str.chars().any(|c| !matches!(c, '0'..='9'))"),
        (S, """                if fractional_str.is_empty() {
                    return Err(ConvertError::new("can't parse fractional part"));
                }

""", """                if let 0 = fractional_str.len() {
                    return Err(ConvertError::new("can't parse fractional part"));
                }

""")]),
    dict(id="stringify-suffix", checks=["C15", "C22"], edits=[(S, """                    let s = &fmt.format(fractional_with_leading_one)[1..];
                    let _ = buf.push_str(s.trim_end_matches('0'));
""", """                    let mut s = &fmt.format(fractional_with_leading_one)[1..];
                    while let Some(rest) = s.strip_suffix('0') {
                        s = rest;
                    }
                    buf.push_str(s);
""")]),
    dict(id="stringify-numeric", checks=["C15", "C22"], edits=[(S, """                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
""", """                    let mut fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                    while fractional_with_leading_one % 10 == 0 {
                        fractional_with_leading_one /= 10;
                    }
"""), (S, "buf.push_str(s.trim_end_matches('0'))", "buf.push_str(s)")]),
    dict(id="strbuf-safe", checks=["C15", "C22"], edits=[(S, "unsafe { *self.buffer.as_mut().get_unchecked_mut(self.len) = c as u8 };", "self.buffer[self.len] = c as u8;"),
        (S, """        let buf = unsafe { &mut self.buffer.get_unchecked_mut(self.len..self.len + s.len()) };
        buf.copy_from_slice(s);
        self.len += s.len();
""", """        let end = self.len + s.len();
        self.buffer[self.len..end].copy_from_slice(s);
        self.len = end;
"""), (S, """        unsafe {
            let buf = self.buffer.get_unchecked(..self.len);
            str::from_utf8_unchecked(buf)
        }
""", """        let buf = &self.buffer[..self.len];
        // Only ASCII is pushed.
        unsafe { str::from_utf8_unchecked(buf) }
""")]),
    dict(id="strbuf-loop", checks=["C15", "C22"], edits=[(S, """        let s = s.as_bytes();
        let buf = unsafe { &mut self.buffer.get_unchecked_mut(self.len..self.len + s.len()) };
        buf.copy_from_slice(s);
        self.len += s.len();
""", """        for &b in s.as_bytes() {
            self.buffer[self.len] = b;
            self.len += 1;
        }
""")]),
]
if __name__ == "__main__":
    D = f"/tmp/rfc{os.getpid()}"
    for r in R:
        if sys.argv[1:] and r["id"] not in sys.argv[1:]:
            continue
        subprocess.run(f"rm -rf {D}; git clone -q /repo {D}; cp /repo/Cargo.lock {D}/", shell=True, check=True)
        bad = [f"{n} matches of {old[:60]!r}" for f, old, new in r["edits"] for n in [open(f"{D}/{f}").read().count(old)] if n < 1]
        if bad:
            print(r["id"], "EDIT", bad)
            continue
        for f, old, new in r["edits"]:
            t = open(f"{D}/{f}").read()
            open(f"{D}/{f}", "w").write(re.sub(r"\b%s\b" % old, new, t) if re.fullmatch(r"\w+", old) else t.replace(old, new))
        for c in r["checks"]:
            t0 = time.time()
            p = subprocess.run(["python3-vt", "/verif/check.py", c], env=dict(os.environ, VERIF_DEV_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = p.stdout.strip().splitlines()
            print(r["id"], c, "quiet" if p.returncode == 0 else f"NOT QUIET rc={p.returncode} " + " | ".join(x[:200] for x in out[-6:]), f"{time.time()-t0:.0f}s", flush=True)
