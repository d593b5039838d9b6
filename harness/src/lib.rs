//! Verification roots: one public function per (layout, precision, operation), each a plain call of
//! fixnum's public API.  The same functions are (a) the entry points whose MIR the verifier analyses
//! and (b) what the native runner executes when a counterexample is replayed.
#![allow(dead_code, unused_imports, clippy::all)]
use fixnum::ops::*;
use fixnum::{ArithmeticError, ConvertError, FixedPoint};
use typenum::{U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U18, U19, U20, U21, U22, U23, U24, U25, U26, U27, U28, U29, U30, U31, U32, U33, U34, U35, U36, U37, U38};

pub trait Arg: Sized {
    fn arg(s: &str) -> Self;
}
pub trait Out {
    fn out(self) -> String;
}
macro_rules! prim {
    ($($t:ty)*) => {$(
        impl Arg for $t { fn arg(s: &str) -> Self { s.parse().unwrap() } }
        impl Out for $t { fn out(self) -> String { self.to_string() } }
    )*}
}
prim!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);
impl Arg for bool { fn arg(s: &str) -> Self { s == "1" } }
impl Out for bool { fn out(self) -> String { (self as u8).to_string() } }
impl Arg for f64 { fn arg(s: &str) -> Self { f64::from_bits(u64::from_str_radix(s, 16).unwrap()) } }
impl Out for f64 { fn out(self) -> String { format!("{:016x}", self.to_bits()) } }
impl Arg for String {
    fn arg(s: &str) -> Self {
        let b: Vec<u8> = (1..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        String::from_utf8(b).unwrap()
    }
}
impl Out for String { fn out(self) -> String { let mut o = "0x".to_string(); for b in self.bytes() { o += &format!("{:02x}", b); } o } }
impl Arg for &'static str {
    fn arg(s: &str) -> Self { Box::leak(<String as Arg>::arg(s).into_boxed_str()) }
}
impl Arg for RoundMode {
    fn arg(s: &str) -> Self { match s { "Ceil" => RoundMode::Ceil, "Floor" => RoundMode::Floor, "Nearest" => RoundMode::Nearest, _ => panic!() } }
}
impl Out for core::cmp::Ordering { fn out(self) -> String { format!("{:?}", self) } }
impl Out for () { fn out(self) -> String { "()".into() } }
impl<T: Out, U: Out> Out for (T, U) { fn out(self) -> String { format!("{} {}", self.0.out(), self.1.out()) } }
impl<T: Out> Out for Option<T> { fn out(self) -> String { match self { Some(x) => format!("Some {}", x.out()), None => "None".into() } } }
impl<T: Out> Out for Result<T, ArithmeticError> {
    fn out(self) -> String { match self { Ok(x) => format!("Ok {}", x.out()), Err(e) => format!("Err {:?}", e) } }
}
impl<T: Out> Out for Result<T, ConvertError> {
    fn out(self) -> String { match self { Ok(x) => format!("Ok {}", x.out()), Err(_) => "Err Convert".into() } }
}
macro_rules! fpio {
    ($($l:ident $f:literal),*) => {$(
        #[cfg(feature = $f)]
        impl<P: fixnum::Precision> Arg for FixedPoint<$l, P> { fn arg(s: &str) -> Self { FixedPoint::from_bits(s.parse().unwrap()) } }
        #[cfg(feature = $f)]
        impl<P: fixnum::Precision> Out for FixedPoint<$l, P> { fn out(self) -> String { self.as_bits().to_string() } }
    )*}
}
fpio!(i16 "i16", i32 "i32", i64 "i64", i128 "i128");

macro_rules! group {
    ($feat:literal $m:ident; $( $name:ident ( $($a:ident : $t:ty),* ) -> $r:ty { $($body:tt)* } )*) => {
        #[cfg(feature = $feat)]
        pub mod $m {
            use super::*;
            $( pub fn $name($($a: $t),*) -> $r { $($body)* } )*
            pub fn dispatch(op: &str, args: &[&str]) -> String {
                match op {
                    $( stringify!($name) => {
                        #[allow(unused_mut)]
                        let mut it = args.iter(); let _ = &mut it;
                        $( let $a: $t = Arg::arg(it.next().unwrap()); )*
                        Out::out($name($($a),*))
                    } )*
                    _ => panic!("no op {}", op),
                }
            }
        }
    };
}

/// A hasher that keeps everything it is fed (small integers only, which is what the types feed).
#[derive(PartialEq)]
pub struct Rec { a: u128, n: u32 }
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u8(*x) } }
    fn write_u8(&mut self, x: u8) { self.write_u128(x as u128) }
    fn write_u16(&mut self, x: u16) { self.write_u128(x as u128) }
    fn write_u32(&mut self, x: u32) { self.write_u128(x as u128) }
    fn write_u64(&mut self, x: u64) { self.write_u128(x as u128) }
    fn write_usize(&mut self, x: usize) { self.write_u128(x as u128) }
    fn write_u128(&mut self, x: u128) { self.a = self.a.wrapping_mul(257).wrapping_add(x); self.n += 1; }
    fn write_i8(&mut self, x: i8) { self.write_u128(x as u128) }
    fn write_i16(&mut self, x: i16) { self.write_u128(x as u128) }
    fn write_i32(&mut self, x: i32) { self.write_u128(x as u128) }
    fn write_i64(&mut self, x: i64) { self.write_u128(x as u128) }
    fn write_i128(&mut self, x: i128) { self.write_u128(x as u128) }
    fn write_isize(&mut self, x: isize) { self.write_u128(x as u128) }
}
pub fn digest<T: core::hash::Hash>(x: T) -> Rec { let mut h = Rec { a: 0, n: 0 }; x.hash(&mut h); h }

/// A serializer that keeps the one token it is given, and a deserializer that hands one token over:
/// self-describing when human readable, otherwise only what was asked for.
#[cfg(feature = "c22")]
pub mod sd {
    use serde::de::{self, Visitor};
    use serde::ser::{self, Impossible, Serialize};
    use std::fmt;
    #[derive(Debug)]
    pub struct Fail;
    impl fmt::Display for Fail { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
    impl std::error::Error for Fail {}
    impl ser::Error for Fail { fn custom<T: fmt::Display>(_: T) -> Self { Fail } }
    impl de::Error for Fail {
        fn custom<T: fmt::Display>(_: T) -> Self { Fail }
        fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Fail }
        fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Fail }
        fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Fail }
    }
    pub struct Text(pub String);
    #[inline(never)]
    pub fn keep(s: &str) -> Text { Text(s.to_owned()) }
    pub enum V { Text(Text), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F64(f64), Absent, Other }
    /// what was written: was it marked as present, and the token
    pub struct Rec { pub some: bool, pub v: V }
    pub struct Ser { pub human: bool, pub some: bool }
    type Wr = Result<Rec, Fail>;
    macro_rules! put { ($($f:ident $t:ty, $v:ident;)*) => { $( fn $f(self, x: $t) -> Wr { Ok(Rec { some: self.some, v: V::$v(x) }) } )* } }
    macro_rules! other { ($($f:ident ( $($t:ty),* );)*) => { $( fn $f(self $(, _: $t)*) -> Wr { Ok(Rec { some: self.some, v: V::Other }) } )* } }
    impl ser::Serializer for Ser {
        type Ok = Rec;
        type Error = Fail;
        type SerializeSeq = Impossible<Rec, Fail>;
        type SerializeTuple = Impossible<Rec, Fail>;
        type SerializeTupleStruct = Impossible<Rec, Fail>;
        type SerializeTupleVariant = Impossible<Rec, Fail>;
        type SerializeMap = Impossible<Rec, Fail>;
        type SerializeStruct = Impossible<Rec, Fail>;
        type SerializeStructVariant = Impossible<Rec, Fail>;
        put! { serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128;
               serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128; serialize_f64 f64, F64; }
        other! { serialize_bool(bool); serialize_f32(f32); serialize_char(char); serialize_bytes(&[u8]); serialize_unit(); serialize_unit_struct(&'static str);
                 serialize_unit_variant(&'static str, u32, &'static str); }
        fn serialize_str(self, s: &str) -> Wr { Ok(Rec { some: self.some, v: V::Text(keep(s)) }) }
        fn serialize_none(self) -> Wr { if self.some { return Err(Fail) } Ok(Rec { some: false, v: V::Absent }) }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Wr { if self.some { return Err(Fail) } v.serialize(Ser { human: self.human, some: true }) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Wr { Err(Fail) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Wr { Err(Fail) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> { Err(Fail) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> { Err(Fail) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> { Err(Fail) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> { Err(Fail) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> { Err(Fail) }
        fn collect_str<T: ?Sized + fmt::Display>(self, x: &T) -> Wr { Ok(Rec { some: self.some, v: V::Text(Text(format!("{}", x))) }) }
        fn is_human_readable(&self) -> bool { self.human }
    }
    /// how a format hands over a text: from a buffer of its own, from the input, or as an owned string
    pub enum Hand { Transient, Borrowed, Owned }
    impl crate::Arg for Hand { fn arg(s: &str) -> Self { match s { "Transient" => Hand::Transient, "Borrowed" => Hand::Borrowed, "Owned" => Hand::Owned, _ => panic!() } } }
    /// a map with at most one entry, such as a tag that contains text
    pub struct Tag { key: Option<&'static str>, text: Option<&'static str> }
    impl de::MapAccess<'static> for Tag {
        type Error = Fail;
        fn next_key_seed<K: de::DeserializeSeed<'static>>(&mut self, seed: K) -> Result<Option<K::Value>, Fail> {
            match self.key.take() { Some(k) => match seed.deserialize(De { human: true, tok: Tok::Str(k) }) { Ok(k) => Ok(Some(k)), Err(e) => Err(e) }, None => Ok(None) }
        }
        fn next_value_seed<K: de::DeserializeSeed<'static>>(&mut self, seed: K) -> Result<K::Value, Fail> {
            match self.text.take() { Some(s) => seed.deserialize(De { human: true, tok: Tok::Str(s) }), None => Err(Fail) }
        }
    }
    pub enum Tok { Map(Option<&'static str>, &'static str), Str(&'static str), Owned(&'static str), Borrowed(&'static str), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U64(u64), U128(u128), F64(f64), Absent }
    pub struct De { pub human: bool, pub tok: Tok }
    macro_rules! get { ($($f:ident, $($v:ident)|*;)*) => { $( fn $f<W: Visitor<'static>>(self, w: W) -> Result<W::Value, Fail> {
        match self.tok { $( Tok::$v(_) => self.feed(w), )* _ => if self.human { self.feed(w) } else { Err(Fail) } } } )* } }
    macro_rules! nope { ($($f:ident ( $($t:ty),* );)*) => { $( fn $f<W: Visitor<'static>>(self $(, _: $t)*, w: W) -> Result<W::Value, Fail> { if self.human { self.feed(w) } else { Err(Fail) } } )* } }
    impl De {
        fn feed<W: Visitor<'static>>(self, w: W) -> Result<W::Value, Fail> {
            match self.tok {
                Tok::Str(s) => w.visit_str(s),
                Tok::Borrowed(s) => w.visit_borrowed_str(s),
                Tok::Owned(s) => w.visit_string(s.to_owned()),
                Tok::Map(k, s) => w.visit_map(Tag { key: k, text: Some(s) }),
                Tok::I8(x) => w.visit_i8(x),
                Tok::I16(x) => w.visit_i16(x),
                Tok::I32(x) => w.visit_i32(x),
                Tok::I64(x) => w.visit_i64(x),
                Tok::I128(x) => w.visit_i128(x),
                Tok::U64(x) => w.visit_u64(x),
                Tok::U128(x) => w.visit_u128(x),
                Tok::F64(x) => w.visit_f64(x),
                Tok::Absent => w.visit_none(),
            }
        }
    }
    impl de::Deserializer<'static> for De {
        type Error = Fail;
        fn is_human_readable(&self) -> bool { self.human }
        get! { deserialize_i8, I8; deserialize_i16, I16; deserialize_i32, I32; deserialize_i64, I64; deserialize_i128, I128; deserialize_u64, U64; deserialize_u128, U128; deserialize_f64, F64;
               deserialize_str, Str | Borrowed | Owned; deserialize_string, Str | Borrowed | Owned; }
        nope! { deserialize_any(); deserialize_bool(); deserialize_u8(); deserialize_u16(); deserialize_u32(); deserialize_f32(); deserialize_char(); deserialize_bytes(); deserialize_byte_buf();
                deserialize_unit(); deserialize_unit_struct(&'static str); deserialize_seq(); deserialize_tuple(usize); deserialize_tuple_struct(&'static str, usize); deserialize_map();
                deserialize_struct(&'static str, &'static [&'static str]); deserialize_enum(&'static str, &'static [&'static str]); deserialize_identifier(); deserialize_ignored_any(); }
        fn deserialize_option<W: Visitor<'static>>(self, w: W) -> Result<W::Value, Fail> {
            match self.tok { Tok::Absent => w.visit_none(), _ => w.visit_some(self) }
        }
        fn deserialize_newtype_struct<W: Visitor<'static>>(self, _: &'static str, w: W) -> Result<W::Value, Fail> { w.visit_newtype_struct(self) }
    }
    macro_rules! tok { ($($t:ident $v:ident)*) => { $( impl From<$t> for Tok { fn from(x: $t) -> Tok { Tok::$v(x) } } )* } }
    tok! { i8 I8 i16 I16 i32 I32 i64 I64 i128 I128 u64 U64 u128 U128 f64 F64 }
    pub fn opt<T: Into<Tok>>(x: Option<T>) -> Tok { match x { Some(x) => x.into(), None => Tok::Absent } }
    pub fn txt(s: &'static str, hand: Hand) -> Tok { match hand { Hand::Transient => Tok::Str(s), Hand::Borrowed => Tok::Borrowed(s), Hand::Owned => Tok::Owned(s) } }
    pub type Rd<T> = Result<T, Fail>;
    impl crate::Out for Rec {
        fn out(self) -> String {
            let v = match self.v { V::Text(t) => format!("Text {}", t.0.out()), V::I8(x) => format!("I8 {}", x), V::I16(x) => format!("I16 {}", x), V::I32(x) => format!("I32 {}", x), V::I64(x) => format!("I64 {}", x),
                V::I128(x) => format!("I128 {}", x), V::U8(x) => format!("U8 {}", x), V::U16(x) => format!("U16 {}", x), V::U32(x) => format!("U32 {}", x), V::U64(x) => format!("U64 {}", x), V::U128(x) => format!("U128 {}", x),
                V::F64(x) => format!("F64 0x{}", crate::Out::out(x)), V::Absent => "Absent 0".into(), V::Other => "Other".into() };
            format!("{} {}", self.some as u8, v)
        }
    }
    impl<T: crate::Out> crate::Out for Result<T, Fail> { fn out(self) -> String { match self { Ok(x) => format!("Ok {}", x.out()), Err(_) => "Err Fail".into() } } }
    use crate::Out;
}
#[cfg(feature = "c22")]
impl<T: Arg> Arg for Option<T> { fn arg(s: &str) -> Self { if s == "None" { None } else { Some(T::arg(s)) } } }

#[cfg(feature = "c23")]
pub mod scale {
    pub struct Sink(pub Vec<u8>);
    impl parity_scale_codec::Output for Sink { fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
    #[inline(never)]
    pub fn keep(b: &[u8]) -> Vec<u8> { b.to_vec() }
    pub trait Bits { type U; fn unsigned(self) -> Self::U; }
    impl Bits for i16 { type U = u16; fn unsigned(self) -> u16 { self as u16 } }
    impl Bits for i32 { type U = u32; fn unsigned(self) -> u32 { self as u32 } }
    impl Bits for i64 { type U = u64; fn unsigned(self) -> u64 { self as u64 } }
    impl Bits for i128 { type U = u128; fn unsigned(self) -> u128 { self as u128 } }
    pub fn unsigned<T: Bits>(x: T) -> T::U { x.unsigned() }
    impl crate::Out for Vec<u8> { fn out(self) -> String { let mut o = "0x".to_string(); for b in self { o += &format!("{:02x}", b); } o } }
    impl crate::Arg for &'static [u8] {
        fn arg(s: &str) -> Self { Box::leak((1..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>().into_boxed_slice()) }
    }
}
impl<T: Out, U: Out, W: Out, X: Out> Out for (T, U, W, X) { fn out(self) -> String { format!("{} {} {} {}", self.0.out(), self.1.out(), self.2.out(), self.3.out()) } }

pub type R<T> = Result<T, ArithmeticError>;

// Operations on a fixed-point type; `F` and `L` are the type and its layout.
macro_rules! fixed_ops {
    () => {
        group! { "c01" c01;
            cadd(a: F, b: F) -> R<F> { CheckedAdd::cadd(a, b) }
            csub(a: F, b: F) -> R<F> { CheckedSub::csub(a, b) }
            cneg(a: F) -> R<F> { a.cneg() }
            abs(a: F) -> R<F> { a.abs() }
        }
        group! { "c02" c02;
            cmul(a: F, b: L) -> R<F> { CheckedMul::cmul(a, b) }
            cmul_rev(a: L, b: F) -> R<F> { CheckedMul::cmul(a, b) }
        }
        group! { "c03" c03;
            sat_add(a: F, b: F) -> F { CheckedAdd::saturating_add(a, b) }
            sat_sub(a: F, b: F) -> F { CheckedSub::saturating_sub(a, b) }
            sat_mul(a: F, b: L) -> F { CheckedMul::saturating_mul(a, b) }
            sat_mul_rev(a: L, b: F) -> F { CheckedMul::saturating_mul(a, b) }
            sat_rmul(a: F, b: F, mode: RoundMode) -> F { RoundingMul::saturating_rmul(a, b, mode) }
            own_add(a: F, b: F) -> F { Own(a).saturating_add(Own(b)).0 }
            own_sub(a: F, b: F) -> F { Own(a).saturating_sub(Own(b)).0 }
            own_mul(a: F, b: L) -> F { Own(a).saturating_mul(Own(b)).0 }
        }
        group! { "c04" c04; rmul(a: F, b: F, mode: RoundMode) -> R<F> { RoundingMul::rmul(a, b, mode) } }
        group! { "c18" c18; rmul(a: F, b: F, mode: RoundMode) -> R<F> { RoundingMul::rmul(a, b, mode) } }
        group! { "c05" c05;
            rdiv(a: F, b: F, mode: RoundMode) -> R<F> { RoundingDiv::rdiv(a, b, mode) }
            recip(a: F, mode: RoundMode) -> R<F> { a.recip(mode) }
        }
        group! { "c19" c19;
            rdiv(a: F, b: F, mode: RoundMode) -> R<F> { RoundingDiv::rdiv(a, b, mode) }
            recip(a: F, mode: RoundMode) -> R<F> { a.recip(mode) }
        }
        group! { "c06" c06;
            rdiv_int(a: F, b: L, mode: RoundMode) -> R<F> { RoundingDiv::rdiv(a, b, mode) }
            int_rdiv(a: L, b: F, mode: RoundMode) -> R<F> { RoundingDiv::rdiv(a, b, mode) }
        }
        group! { "c07" c07;
            integral(a: F, mode: RoundMode) -> L { a.integral(mode) }
            floor(a: F) -> F { a.floor() }
            ceil(a: F) -> F { a.ceil() }
            round(a: F) -> F { a.round() }
        }
        group! { "c08" c08; rsqrt(a: F, mode: RoundMode) -> R<F> { a.rsqrt(mode) } }
        group! { "c20" c20; rsqrt(a: F, mode: RoundMode) -> R<F> { a.rsqrt(mode) } }
        group! { "c09" c09; half_sum(a: F, b: F, mode: RoundMode) -> F { F::half_sum(a, b, mode) } }
        group! { "c10" c10; next_power_of_ten(a: F) -> R<F> { a.next_power_of_ten() } }
        group! { "c11" c11; round_towards_zero_by(a: F, b: F) -> F { a.round_towards_zero_by(b) } }
        group! { "c12" c12;
            from_decimal(m: L, e: i32) -> Result<F, ConvertError> { F::from_decimal(m, e) }
            to_decimal(a: F, max_exponent: i32) -> (L, i32) { a.to_decimal(max_exponent) }
            rebuild(a: F, max_exponent: i32) -> Result<F, ConvertError> { let (m, e) = a.to_decimal(max_exponent); F::from_decimal(m, e) }
        }
        group! { "c13" c13;
            from_i8(x: i8) -> Result<F, ConvertError> { F::try_from(x) }
            from_u8(x: u8) -> Result<F, ConvertError> { F::try_from(x) }
            from_i16(x: i16) -> Result<F, ConvertError> { F::try_from(x) }
            from_u16(x: u16) -> Result<F, ConvertError> { F::try_from(x) }
            from_i32(x: i32) -> Result<F, ConvertError> { F::try_from(x) }
            from_u32(x: u32) -> Result<F, ConvertError> { F::try_from(x) }
            from_i64(x: i64) -> Result<F, ConvertError> { F::try_from(x) }
            from_u64(x: u64) -> Result<F, ConvertError> { F::try_from(x) }
            from_i128(x: i128) -> Result<F, ConvertError> { F::try_from(x) }
            from_u128(x: u128) -> Result<F, ConvertError> { F::try_from(x) }
            from_isize(x: isize) -> Result<F, ConvertError> { F::try_from(x) }
            from_usize(x: usize) -> Result<F, ConvertError> { F::try_from(x) }
        }
        group! { "c14" c14;
            from_str(s: &'static str) -> Result<F, ConvertError> { s.parse::<F>() }
            from_str_exact(s: &'static str) -> Result<F, ConvertError> { F::from_str_exact(s) }
        }
        group! { "c15" c15;
            display(a: F) -> String { format!("{}", a) }
            debug(a: F) -> String { format!("{:?}", a) }
            reparse(a: F) -> Result<F, ConvertError> { format!("{}", a).parse::<F>() }
        }
        #[cfg(feature = "c15")]
        pub mod c15x {
            use super::*;
            pub fn display(a: F, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(&a, f) }
            pub fn debug(a: F, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&a, f) }
        }
        group! { "c16" c16; from_f64(x: f64) -> Result<F, ConvertError> { F::try_from(x) } both(x: f64) -> (Result<F, ConvertError>, Result<F, ConvertError>) { (F::try_from(x), F::try_from(-x)) } }
        group! { "c17" c17; to_f64(a: F) -> f64 { f64::from(a) } }
        group! { "c21" c21; parse_fixed(s: &'static str) -> fixnum::_priv::Int { fixnum::_priv::parse_fixed(s, fixnum::_priv::pow10(F::PRECISION)) } }
        group! { "c22" c22;
            ser_human(a: F) -> sd::Rd<sd::Rec> { serde::Serialize::serialize(&a, sd::Ser { human: true, some: false }) }
            ser_bin(a: F) -> sd::Rd<sd::Rec> { serde::Serialize::serialize(&a, sd::Ser { human: false, some: false }) }
            str_ser(a: F, human: bool) -> sd::Rd<sd::Rec> { fixnum::serde::str::serialize(&a, sd::Ser { human, some: false }) }
            str_opt_ser(a: Option<F>, human: bool) -> sd::Rd<sd::Rec> { fixnum::serde::str_option::serialize(&a, sd::Ser { human, some: false }) }
            repr_ser(a: F, human: bool) -> sd::Rd<sd::Rec> { fixnum::serde::repr::serialize(&a, sd::Ser { human, some: false }) }
            repr_opt_ser(a: Option<F>, human: bool) -> sd::Rd<sd::Rec> { fixnum::serde::repr_option::serialize(&a, sd::Ser { human, some: false }) }
            float_ser(a: F, human: bool) -> (sd::Rd<sd::Rec>, sd::Rec) { (fixnum::serde::float::serialize(&a, sd::Ser { human, some: false }), sd::Rec { some: false, v: sd::V::F64(f64::from(a)) }) }
            float_opt_ser(a: Option<F>, human: bool) -> (sd::Rd<sd::Rec>, sd::Rec) { (fixnum::serde::float_option::serialize(&a, sd::Ser { human, some: false }), match a { Some(a) => sd::Rec { some: true, v: sd::V::F64(f64::from(a)) }, None => sd::Rec { some: false, v: sd::V::Absent } }) }
            de_str(s: &'static str, hand: sd::Hand) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: sd::txt(s, hand) }), s.parse::<F>()) }
            de_map(s: &'static str, key: &'static str) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: sd::Tok::Map(Some(key), s) }), s.parse::<F>()) }
            de_map_empty(s: &'static str) -> sd::Rd<F> { serde::Deserialize::deserialize(sd::De { human: true, tok: sd::Tok::Map(None, s) }) }
            de_i64(x: i64) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: x.into() }), F::try_from(x)) }
            de_u64(x: u64) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: x.into() }), F::try_from(x)) }
            de_i128(x: i128) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: x.into() }), F::try_from(x)) }
            de_u128(x: u128) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: x.into() }), F::try_from(x)) }
            de_f64(x: f64) -> (sd::Rd<F>, Result<F, ConvertError>) { (serde::Deserialize::deserialize(sd::De { human: true, tok: x.into() }), F::try_from(x)) }
            de_bin(x: L) -> sd::Rd<F> { serde::Deserialize::deserialize(sd::De { human: false, tok: x.into() }) }
            str_de(s: &'static str, hand: sd::Hand, human: bool) -> (sd::Rd<F>, Result<F, ConvertError>) { (fixnum::serde::str::deserialize(sd::De { human, tok: sd::txt(s, hand) }), s.parse::<F>()) }
            str_opt_de(s: &'static str, hand: sd::Hand, human: bool) -> (sd::Rd<Option<F>>, Result<F, ConvertError>) { (fixnum::serde::str_option::deserialize(sd::De { human, tok: sd::txt(s, hand) }), s.parse::<F>()) }
            str_opt_none(human: bool) -> sd::Rd<Option<F>> { fixnum::serde::str_option::deserialize(sd::De { human, tok: sd::Tok::Absent }) }
            repr_de(x: L, human: bool) -> sd::Rd<F> { fixnum::serde::repr::deserialize(sd::De { human, tok: x.into() }) }
            repr_de_i64(x: i64) -> sd::Rd<F> { fixnum::serde::repr::deserialize(sd::De { human: true, tok: x.into() }) }
            repr_de_u64(x: u64) -> sd::Rd<F> { fixnum::serde::repr::deserialize(sd::De { human: true, tok: x.into() }) }
            repr_opt_de(x: Option<L>, human: bool) -> sd::Rd<Option<F>> { fixnum::serde::repr_option::deserialize(sd::De { human, tok: sd::opt(x) }) }
            float_de(x: f64, human: bool) -> (sd::Rd<F>, Result<F, ConvertError>) { (fixnum::serde::float::deserialize(sd::De { human, tok: x.into() }), F::try_from(x)) }
            float_opt_de(x: f64, human: bool) -> (sd::Rd<Option<F>>, Result<F, ConvertError>) { (fixnum::serde::float_option::deserialize(sd::De { human, tok: x.into() }), F::try_from(x)) }
            float_opt_none(human: bool) -> sd::Rd<Option<F>> { fixnum::serde::float_option::deserialize(sd::De { human, tok: sd::Tok::Absent }) }
        }
        // native only: real formats
        group! { "c22n" c22n;
            json(a: F) -> String { serde_json::to_string(&a).unwrap() }
            back(a: F) -> u64 {
                use fixnum::serde as fs;
                let mut bad = 0u64;
                let mut n = 0;
                let mut t = |ok: bool| { if !ok { bad |= 1 << n; } n += 1; };
                fn json(f: impl FnOnce(&mut serde_json::Serializer<&mut Vec<u8>>) -> Result<(), serde_json::Error>) -> Vec<u8> { let mut v = Vec::new(); f(&mut serde_json::Serializer::new(&mut v)).unwrap(); v }
                let h = serde_json::to_vec(&a).unwrap();
                let esc = { let mut s = String::from("\""); for c in a.to_string().chars() { s += &format!("\\u{:04x}", c as u32); } s.push('"'); s.into_bytes() };
                t(serde_json::from_slice::<F>(&h).ok() == Some(a));
                t(serde_json::from_reader::<_, F>(&h[..]).ok() == Some(a));
                t(serde_json::from_slice::<F>(&esc).ok() == Some(a));
                t(serde_json::from_value::<F>(serde_json::to_value(&a).unwrap()).ok() == Some(a));
                t(json(|s| fs::str::serialize(&a, s)) == h);
                t(fs::str::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&h)).ok() == Some(a));
                t(fs::str::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_reader(&h[..])).ok() == Some(a));
                t(fs::str::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&esc)).ok() == Some(a));
                t(fs::str::deserialize::<F, _, _, _>(serde_json::Value::String(a.to_string())).ok() == Some(a));
                t(json(|s| fs::str_option::serialize(&Some(a), s)) == h);
                t(json(|s| fs::str_option::serialize(&None::<F>, s)) == b"null");
                t(fs::str_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&h)).ok() == Some(Some(a)));
                t(fs::str_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_reader(&h[..])).ok() == Some(Some(a)));
                t(fs::str_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&esc)).ok() == Some(Some(a)));
                t(fs::str_option::deserialize::<F, _, _, _>(serde_json::Value::String(a.to_string())).ok() == Some(Some(a)));
                t(fs::str_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(b"null")).ok() == Some(None));
                let r = a.as_bits().to_string().into_bytes();
                t(json(|s| fs::repr::serialize(&a, s)) == r);
                t(fs::repr::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&r)).ok() == Some(a));
                t(fs::repr::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_reader(&r[..])).ok() == Some(a));
                t(json(|s| fs::repr_option::serialize(&Some(a), s)) == r);
                t(json(|s| fs::repr_option::serialize(&None::<F>, s)) == b"null");
                t(fs::repr_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&r)).ok() == Some(Some(a)));
                t(fs::repr_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(b"null")).ok() == Some(None));
                let x = f64::from(a);
                let f = serde_json::to_vec(&x).unwrap();
                let y: f64 = serde_json::from_slice(&f).unwrap(); // serde_json's own reading
                t(json(|s| fs::float::serialize(&a, s)) == f);
                t(json(|s| fs::float_option::serialize(&Some(a), s)) == f);
                t(json(|s| fs::float_option::serialize(&None::<F>, s)) == b"null");
                t(fs::float::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&f)).ok() == F::try_from(y).ok());
                t(fs::float_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(&f)).ok().map(|x| x.unwrap()) == F::try_from(y).ok());
                t(fs::float_option::deserialize::<F, _, _, _>(&mut serde_json::Deserializer::from_slice(b"null")).ok() == Some(None));
                // a quick-xml tag
                fn tag(k: &'static str, v: String) -> Option<F> {
                    serde::Deserialize::deserialize(serde::de::value::MapDeserializer::<_, serde::de::value::Error>::new(core::iter::once((k, v)))).ok()
                }
                t(tag("$value", a.to_string()) == Some(a));
                t(tag("$value", "x".to_string()) == None);
                t(tag("$other", a.to_string()) == None);
                bad
            }
        }
        group! { "c23" c23;
            encode(a: F) -> Vec<u8> { parity_scale_codec::Encode::encode(&a) }
            encode_to(a: F) -> Vec<u8> { let mut s = scale::Sink(Vec::new()); parity_scale_codec::Encode::encode_to(&a, &mut s); s.0 }
            using_encoded(a: F) -> Vec<u8> { parity_scale_codec::Encode::using_encoded(&a, |b| scale::keep(b)) }
            decode(b: &'static [u8]) -> (Option<F>, usize) { let mut i = b; (<F as parity_scale_codec::Decode>::decode(&mut i).ok(), i.len()) }
            encode_as(a: F) -> <F as parity_scale_codec::CompactAs>::As { *parity_scale_codec::CompactAs::encode_as(&a) }
            decode_from(x: <F as parity_scale_codec::CompactAs>::As) -> Option<F> { <F as parity_scale_codec::CompactAs>::decode_from(x).ok() }
            compact(a: F) -> (Vec<u8>, Vec<u8>) { let x = scale::unsigned(a.into_bits()); (parity_scale_codec::Encode::encode(&parity_scale_codec::Compact(a)), parity_scale_codec::Encode::encode(&parity_scale_codec::Compact(x))) }
            decode_compact(b: &'static [u8]) -> (Option<F>, Option<<L as scale::Bits>::U>, usize, usize) { let mut i = b; let mut j = b;
                let x = match <parity_scale_codec::Compact<F> as parity_scale_codec::Decode>::decode(&mut i) { Ok(x) => Some(F::from(x)), Err(_) => None };
                let y = match <parity_scale_codec::Compact<<L as scale::Bits>::U> as parity_scale_codec::Decode>::decode(&mut j) { Ok(x) => Some(x.0), Err(_) => None };
                (x, y, i.len(), j.len()) }
        }
        group! { "c24" c24;
            cmp(a: F, b: F) -> core::cmp::Ordering { Ord::cmp(&a, &b) }
            partial_cmp(a: F, b: F) -> Option<core::cmp::Ordering> { PartialOrd::partial_cmp(&a, &b) }
            lt(a: F, b: F) -> bool { a < b }
            le(a: F, b: F) -> bool { a <= b }
            gt(a: F, b: F) -> bool { a > b }
            ge(a: F, b: F) -> bool { a >= b }
            eq(a: F, b: F) -> bool { a == b }
            ne(a: F, b: F) -> bool { a != b }
            max(a: F, b: F) -> F { Ord::max(a, b) }
            hash_eq(a: F, b: F) -> bool { digest(a) == digest(b) }
            min(a: F, b: F) -> F { Ord::min(a, b) }
            from_bits(x: L) -> F { F::from_bits(x) }
            into_bits(a: F) -> L { a.into_bits() }
            as_bits(a: F) -> L { *a.as_bits() }
            roundtrip(x: L) -> L { F::from_bits(x).into_bits() }
            signum(a: F) -> L { a.signum() }
            zero() -> F { F::ZERO }
            zero_trait() -> F { <F as Zero>::ZERO }
            one() -> F { F::ONE }
            one_trait() -> F { <F as One>::ONE }
            epsilon() -> F { F::EPSILON }
            min_const() -> F { F::MIN }
            min_trait() -> F { <F as Bounded>::MIN }
            max_const() -> F { F::MAX }
            max_trait() -> F { <F as Bounded>::MAX }
            precision() -> i32 { F::PRECISION }
            clone(a: F) -> F { Clone::clone(&a) }
            default() -> F { Default::default() }
        }
    };
}
// Operations on the plain signed integer `L`.
macro_rules! int_ops {
    () => {
        group! { "c01" c01;
            cadd(a: L, b: L) -> R<L> { CheckedAdd::cadd(a, b) }
            csub(a: L, b: L) -> R<L> { CheckedSub::csub(a, b) }
        }
        group! { "c02" c02; cmul(a: L, b: L) -> R<L> { CheckedMul::cmul(a, b) } }
        group! { "c03" c03;
            sat_add(a: L, b: L) -> L { CheckedAdd::saturating_add(a, b) }
            sat_sub(a: L, b: L) -> L { CheckedSub::saturating_sub(a, b) }
            sat_mul(a: L, b: L) -> L { CheckedMul::saturating_mul(a, b) }
            own_add(a: L, b: L) -> L { Own(a).saturating_add(Own(b)).0 }
            own_sub(a: L, b: L) -> L { Own(a).saturating_sub(Own(b)).0 }
            own_mul(a: L, b: L) -> L { Own(a).saturating_mul(Own(b)).0 }
        }
        group! { "c06" c06; rdiv(a: L, b: L, mode: RoundMode) -> R<L> { RoundingDiv::rdiv(a, b, mode) } }
        group! { "c24" c24;
            int_zero() -> L { <L as Zero>::ZERO }
            int_one() -> L { <L as One>::ONE }
            int_min() -> L { <L as Bounded>::MIN }
            int_max() -> L { <L as Bounded>::MAX }
        }
    };
}

// ---- C03: a user's type that implements the checked operations and takes the traits' saturating ones
#[cfg(feature = "c03")]
mod own {
    use super::*;
    #[derive(Clone, Copy, PartialEq, PartialOrd)]
    pub struct Own<T>(pub T);
    impl<T: Zero> Zero for Own<T> { const ZERO: Self = Own(T::ZERO); }
    impl<T: Bounded> Bounded for Own<T> { const MIN: Self = Own(T::MIN); const MAX: Self = Own(T::MAX); }
    impl<T: CheckedAdd<Output = T, Error = ArithmeticError>> CheckedAdd for Own<T> {
        type Output = Self;
        type Error = ArithmeticError;
        fn cadd(self, r: Self) -> R<Self> { self.0.cadd(r.0).map(Own) }
    }
    impl<T: CheckedSub<Output = T, Error = ArithmeticError>> CheckedSub for Own<T> {
        type Output = Self;
        type Error = ArithmeticError;
        fn csub(self, r: Self) -> R<Self> { self.0.csub(r.0).map(Own) }
    }
    impl<T: CheckedMul<U, Output = T, Error = ArithmeticError>, U> CheckedMul<Own<U>> for Own<T> {
        type Output = Self;
        type Error = ArithmeticError;
        fn cmul(self, r: Own<U>) -> R<Self> { self.0.cmul(r.0).map(Own) }
    }
}
#[cfg(feature = "c03")]
use own::Own;

// ---- C25: operations declared with impl_op! next to the operations on the wrapped values
#[cfg(feature = "c25")]
macro_rules! wrapper {
    ($n:ident $t:ty) => {
        #[derive(Clone, Copy, PartialEq, PartialOrd)]
        pub struct $n(pub $t);
        impl From<$t> for $n { fn from(x: $t) -> Self { $n(x) } }
        impl Zero for $n { const ZERO: Self = $n(<$t as Zero>::ZERO); }
        impl Bounded for $n { const MIN: Self = $n(<$t as Bounded>::MIN); const MAX: Self = $n(<$t as Bounded>::MAX); }
    };
}
#[cfg(feature = "c25")]
macro_rules! as_fixed { ($x:expr) => { F::try_from($x).map_err(|_| ArithmeticError::Overflow) } }
#[cfg(feature = "c25")]
macro_rules! wrapped_fixed {
    ($l:ident; $($n:ident)*) => {
        #[cfg(feature = "c25")]
        pub mod c25 {
            use super::*;
            wrapper!(A F);
            wrapper!(B F);
            wrapper!(X F);
            fixnum::impl_op!(A [cadd] B = X);
            fixnum::impl_op!(A [csub] B = X);
            fixnum::impl_op!(A [rmul] B = X);
            fixnum::impl_op!(A [rdiv] B = X);
            group! { "c25" fx;
                cadd(a: F, b: F) -> (R<F>, R<F>) { (A(a).cadd(B(b)).map(|x| x.0), a.cadd(b)) }
                csub(a: F, b: F) -> (R<F>, R<F>) { (A(a).csub(B(b)).map(|x| x.0), a.csub(b)) }
                sat_add(a: F, b: F) -> (F, F) { (A(a).saturating_add(B(b)).0, a.saturating_add(b)) }
                sat_sub(a: F, b: F) -> (F, F) { (A(a).saturating_sub(B(b)).0, a.saturating_sub(b)) }
                rmul(a: F, b: F, mode: RoundMode) -> (R<F>, R<F>) { (A(a).rmul(B(b), mode).map(|x| x.0), a.rmul(b, mode)) }
                sat_rmul(a: F, b: F, mode: RoundMode) -> (F, F) { (A(a).saturating_rmul(B(b), mode).0, a.saturating_rmul(b, mode)) }
                rdiv(a: F, b: F, mode: RoundMode) -> (R<F>, R<F>) { (A(a).rdiv(B(b), mode).map(|x| x.0), a.rdiv(b, mode)) }
            }
            $( pub mod $n {
                use super::*;
                wrapper!(N $n);
                wrapper!(M $n);
                fixnum::impl_op!(A [cmul] N = X);
                fixnum::impl_op!(N [cmul] A = X);
                fixnum::impl_op!(A [rdiv] N = X);
                fixnum::impl_op!(N [rdiv] A = X);
                fixnum::impl_op!(N [rdiv] M = X);
                group! { "c25" g;
                    cmul(a: F, n: $n) -> (R<F>, R<F>) { (A(a).cmul(N(n)).map(|x| x.0), a.cmul(L::from(n))) }
                    cmul_rev(n: $n, a: F) -> (R<F>, R<F>) { (N(n).cmul(A(a)).map(|x| x.0), L::from(n).cmul(a)) }
                    sat_mul(a: F, n: $n) -> (F, F) { (A(a).saturating_mul(N(n)).0, a.saturating_mul(L::from(n))) }
                    sat_mul_rev(n: $n, a: F) -> (F, F) { (N(n).saturating_mul(A(a)).0, CheckedMul::saturating_mul(L::from(n), a)) }
                    rdiv(a: F, n: $n, mode: RoundMode) -> (R<F>, R<F>) { (A(a).rdiv(N(n), mode).map(|x| x.0), a.rdiv(L::from(n), mode)) }
                    rdiv_rev(n: $n, a: F, mode: RoundMode) -> (R<F>, R<F>) { (N(n).rdiv(A(a), mode).map(|x| x.0), as_fixed!(L::from(n)).and_then(|x| x.rdiv(a, mode))) }
                    int_rdiv(n: $n, m: $n, mode: RoundMode) -> (R<F>, R<F>) { (N(n).rdiv(M(m), mode).map(|x| x.0), as_fixed!(L::from(n)).and_then(|x| x.rdiv(L::from(m), mode))) }
                }
            } )*
            pub fn dispatch(op: &str, args: &[&str]) -> String {
                let w: Vec<&str> = op.split("::").collect();
                match w[0] {
                    "fx" => fx::dispatch(w[1], args),
                    $( stringify!($n) => $n::g::dispatch(w[2], args), )*
                    _ => panic!("no op {}", op),
                }
            }
        }
    };
}
#[cfg(feature = "c25")]
macro_rules! wrapped_int {
    ($l:ident; $($n:ident)*) => {
        #[cfg(feature = "c25")]
        pub mod c25 {
            use super::*;
            wrapper!(W L);
            wrapper!(Y L);
            $( pub mod $n {
                use super::*;
                wrapper!(N $n);
                wrapper!(M $n);
                fixnum::impl_op!(N [cadd] M = Y);
                fixnum::impl_op!(N [csub] M = Y);
                fixnum::impl_op!(N [cmul] M = Y);
                fixnum::impl_op!(N [rdiv] M = Y);
                fixnum::impl_op!(N [cadd] W = Y);
                fixnum::impl_op!(W [csub] N = Y);
                fixnum::impl_op!(N [cmul] W = Y);
                fixnum::impl_op!(N [rdiv] W = Y);
                fixnum::impl_op!(W [rdiv] N = Y);
                group! { "c25" g;
                    cadd(a: $n, b: $n) -> (R<L>, R<L>) { (N(a).cadd(M(b)).map(|x| x.0), L::from(a).cadd(L::from(b))) }
                    csub(a: $n, b: $n) -> (R<L>, R<L>) { (N(a).csub(M(b)).map(|x| x.0), L::from(a).csub(L::from(b))) }
                    cmul(a: $n, b: $n) -> (R<L>, R<L>) { (N(a).cmul(M(b)).map(|x| x.0), L::from(a).cmul(L::from(b))) }
                    rdiv(a: $n, b: $n, mode: RoundMode) -> (R<L>, R<L>) { (N(a).rdiv(M(b), mode).map(|x| x.0), L::from(a).rdiv(L::from(b), mode)) }
                    sat_add(a: $n, b: $n) -> (L, L) { (N(a).saturating_add(M(b)).0, L::from(a).saturating_add(L::from(b))) }
                    sat_sub(a: $n, b: $n) -> (L, L) { (N(a).saturating_sub(M(b)).0, L::from(a).saturating_sub(L::from(b))) }
                    sat_mul(a: $n, b: $n) -> (L, L) { (N(a).saturating_mul(M(b)).0, L::from(a).saturating_mul(L::from(b))) }
                    cadd_w(a: $n, b: L) -> (R<L>, R<L>) { (N(a).cadd(W(b)).map(|x| x.0), L::from(a).cadd(b)) }
                    sat_add_w(a: $n, b: L) -> (L, L) { (N(a).saturating_add(W(b)).0, L::from(a).saturating_add(b)) }
                    w_csub(a: L, b: $n) -> (R<L>, R<L>) { (W(a).csub(N(b)).map(|x| x.0), a.csub(L::from(b))) }
                    w_sat_sub(a: L, b: $n) -> (L, L) { (W(a).saturating_sub(N(b)).0, a.saturating_sub(L::from(b))) }
                    cmul_w(a: $n, b: L) -> (R<L>, R<L>) { (N(a).cmul(W(b)).map(|x| x.0), L::from(a).cmul(b)) }
                    sat_mul_w(a: $n, b: L) -> (L, L) { (N(a).saturating_mul(W(b)).0, L::from(a).saturating_mul(b)) }
                    rdiv_w(a: $n, b: L, mode: RoundMode) -> (R<L>, R<L>) { (N(a).rdiv(W(b), mode).map(|x| x.0), L::from(a).rdiv(b, mode)) }
                    w_rdiv(a: L, b: $n, mode: RoundMode) -> (R<L>, R<L>) { (W(a).rdiv(N(b), mode).map(|x| x.0), a.rdiv(L::from(b), mode)) }
                }
            } )*
            pub fn dispatch(op: &str, args: &[&str]) -> String {
                let w: Vec<&str> = op.split("::").collect();
                match w[0] {
                    $( stringify!($n) => $n::g::dispatch(w[2], args), )*
                    _ => panic!("no op {}", op),
                }
            }
        }
    };
}
#[cfg(feature = "c25")]
macro_rules! wrapped {
    (fixed i16) => { wrapped_fixed! { i16; i8 i16 } };
    (fixed i32) => { wrapped_fixed! { i32; i8 i16 i32 } };
    (fixed i64) => { wrapped_fixed! { i64; i8 i16 i32 i64 } };
    (fixed i128) => { wrapped_fixed! { i128; i8 i16 i32 i64 i128 } };
    (int i8) => { wrapped_int! { i8; i8 } };
    (int i16) => { wrapped_int! { i16; i8 i16 } };
    (int i32) => { wrapped_int! { i32; i8 i16 i32 } };
    (int i64) => { wrapped_int! { i64; i8 i16 i32 i64 } };
    (int i128) => { wrapped_int! { i128; i8 i16 i32 i64 i128 } };
}
#[cfg(not(feature = "c25"))]
macro_rules! wrapped { ($($t:tt)*) => {} }

macro_rules! fixed {
    ($($m:ident $l:ident $p:ident $f:literal;)*) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m {
                use super::*;
                pub type L = $l;
                pub type F = FixedPoint<$l, $p>;
                fixed_ops!();
                wrapped!(fixed $l);
            }
        )*
    };
}
macro_rules! ints {
    ($($m:ident $l:ident;)*) => { $( pub mod $m { use super::*; pub type L = $l; int_ops!(); wrapped!(int $l); } )* };
}
ints! { int_i8 i8; int_i16 i16; int_i32 i32; int_i64 i64; int_i128 i128; }
fixed! {
    i16_0 i16 U0 "i16";
    i16_1 i16 U1 "i16";
    i16_2 i16 U2 "i16";
    i16_3 i16 U3 "i16";
    i16_4 i16 U4 "i16";
    i32_0 i32 U0 "i32";
    i32_1 i32 U1 "i32";
    i32_2 i32 U2 "i32";
    i32_3 i32 U3 "i32";
    i32_4 i32 U4 "i32";
    i32_5 i32 U5 "i32";
    i32_6 i32 U6 "i32";
    i32_7 i32 U7 "i32";
    i32_8 i32 U8 "i32";
    i32_9 i32 U9 "i32";
    i64_0 i64 U0 "i64";
    i64_1 i64 U1 "i64";
    i64_2 i64 U2 "i64";
    i64_3 i64 U3 "i64";
    i64_4 i64 U4 "i64";
    i64_5 i64 U5 "i64";
    i64_6 i64 U6 "i64";
    i64_7 i64 U7 "i64";
    i64_8 i64 U8 "i64";
    i64_9 i64 U9 "i64";
    i64_10 i64 U10 "i64";
    i64_11 i64 U11 "i64";
    i64_12 i64 U12 "i64";
    i64_13 i64 U13 "i64";
    i64_14 i64 U14 "i64";
    i64_15 i64 U15 "i64";
    i64_16 i64 U16 "i64";
    i64_17 i64 U17 "i64";
    i64_18 i64 U18 "i64";
    i128_0 i128 U0 "i128";
    i128_1 i128 U1 "i128";
    i128_2 i128 U2 "i128";
    i128_3 i128 U3 "i128";
    i128_4 i128 U4 "i128";
    i128_5 i128 U5 "i128";
    i128_6 i128 U6 "i128";
    i128_7 i128 U7 "i128";
    i128_8 i128 U8 "i128";
    i128_9 i128 U9 "i128";
    i128_10 i128 U10 "i128";
    i128_11 i128 U11 "i128";
    i128_12 i128 U12 "i128";
    i128_13 i128 U13 "i128";
    i128_14 i128 U14 "i128";
    i128_15 i128 U15 "i128";
    i128_16 i128 U16 "i128";
    i128_17 i128 U17 "i128";
    i128_18 i128 U18 "i128";
    i128_19 i128 U19 "i128";
    i128_20 i128 U20 "i128";
    i128_21 i128 U21 "i128";
    i128_22 i128 U22 "i128";
    i128_23 i128 U23 "i128";
    i128_24 i128 U24 "i128";
    i128_25 i128 U25 "i128";
    i128_26 i128 U26 "i128";
    i128_27 i128 U27 "i128";
    i128_28 i128 U28 "i128";
    i128_29 i128 U29 "i128";
    i128_30 i128 U30 "i128";
    i128_31 i128 U31 "i128";
    i128_32 i128 U32 "i128";
    i128_33 i128 U33 "i128";
    i128_34 i128 U34 "i128";
    i128_35 i128 U35 "i128";
    i128_36 i128 U36 "i128";
    i128_37 i128 U37 "i128";
    i128_38 i128 U38 "i128";
}

macro_rules! dispatch_group {
    ($feat:literal $g:ident; $($m:ident $f:literal),*; $($im:ident),*) => {
        #[cfg(feature = $feat)]
        pub fn $g(module: &str, op: &str, args: &[&str]) -> String {
            match module {
                $( #[cfg(feature = $f)] stringify!($m) => $m::$g::dispatch(op, args), )*
                $( stringify!($im) => $im::$g::dispatch(op, args), )*
                _ => panic!("no module {}", module),
            }
        }
    };
}
/// Runs one operation natively.
pub mod run {
    use super::*;
    macro_rules! dg { ($feat:literal $g:ident; $($im:ident),*) => { dispatch_group!{ $feat $g; i16_0 "i16", i16_1 "i16", i16_2 "i16", i16_3 "i16", i16_4 "i16", i32_0 "i32", i32_1 "i32", i32_2 "i32", i32_3 "i32", i32_4 "i32", i32_5 "i32", i32_6 "i32", i32_7 "i32", i32_8 "i32", i32_9 "i32", i64_0 "i64", i64_1 "i64", i64_2 "i64", i64_3 "i64", i64_4 "i64", i64_5 "i64", i64_6 "i64", i64_7 "i64", i64_8 "i64", i64_9 "i64", i64_10 "i64", i64_11 "i64", i64_12 "i64", i64_13 "i64", i64_14 "i64", i64_15 "i64", i64_16 "i64", i64_17 "i64", i64_18 "i64", i128_0 "i128", i128_1 "i128", i128_2 "i128", i128_3 "i128", i128_4 "i128", i128_5 "i128", i128_6 "i128", i128_7 "i128", i128_8 "i128", i128_9 "i128", i128_10 "i128", i128_11 "i128", i128_12 "i128", i128_13 "i128", i128_14 "i128", i128_15 "i128", i128_16 "i128", i128_17 "i128", i128_18 "i128", i128_19 "i128", i128_20 "i128", i128_21 "i128", i128_22 "i128", i128_23 "i128", i128_24 "i128", i128_25 "i128", i128_26 "i128", i128_27 "i128", i128_28 "i128", i128_29 "i128", i128_30 "i128", i128_31 "i128", i128_32 "i128", i128_33 "i128", i128_34 "i128", i128_35 "i128", i128_36 "i128", i128_37 "i128", i128_38 "i128"; $($im),* } } }
    dg!("c01" c01; int_i8, int_i16, int_i32, int_i64, int_i128);
    dg!("c02" c02; int_i8, int_i16, int_i32, int_i64, int_i128);
    dg!("c03" c03; int_i8, int_i16, int_i32, int_i64, int_i128);
    dg!("c04" c04; );
    dg!("c05" c05; );
    dg!("c06" c06; int_i8, int_i16, int_i32, int_i64, int_i128);
    dg!("c07" c07; );
    dg!("c08" c08; );
    dg!("c09" c09; );
    dg!("c10" c10; );
    dg!("c11" c11; );
    dg!("c12" c12; );
    dg!("c13" c13; );
    dg!("c14" c14; );
    dg!("c15" c15; );
    dg!("c16" c16; );
    dg!("c17" c17; );
    dg!("c18" c18; );
    dg!("c19" c19; );
    dg!("c20" c20; );
    dg!("c21" c21; );
    dg!("c22" c22; );
    dg!("c22n" c22n; );
    dg!("c23" c23; );
    dg!("c24" c24; int_i8, int_i16, int_i32, int_i64, int_i128);
    dg!("c25" c25; int_i8, int_i16, int_i32, int_i64, int_i128);
    pub fn dispatch(group: &str, module: &str, op: &str, args: &[&str]) -> String {
        match group {
            #[cfg(feature = "c01")]
            "c01" => c01(module, op, args),
            #[cfg(feature = "c02")]
            "c02" => c02(module, op, args),
            #[cfg(feature = "c03")]
            "c03" => c03(module, op, args),
            #[cfg(feature = "c04")]
            "c04" => c04(module, op, args),
            #[cfg(feature = "c05")]
            "c05" => c05(module, op, args),
            #[cfg(feature = "c06")]
            "c06" => c06(module, op, args),
            #[cfg(feature = "c07")]
            "c07" => c07(module, op, args),
            #[cfg(feature = "c08")]
            "c08" => c08(module, op, args),
            #[cfg(feature = "c09")]
            "c09" => c09(module, op, args),
            #[cfg(feature = "c10")]
            "c10" => c10(module, op, args),
            #[cfg(feature = "c11")]
            "c11" => c11(module, op, args),
            #[cfg(feature = "c12")]
            "c12" => c12(module, op, args),
            #[cfg(feature = "c13")]
            "c13" => c13(module, op, args),
            #[cfg(feature = "c14")]
            "c14" => c14(module, op, args),
            #[cfg(feature = "c15")]
            "c15" => c15(module, op, args),
            #[cfg(feature = "c16")]
            "c16" => c16(module, op, args),
            #[cfg(feature = "c17")]
            "c17" => c17(module, op, args),
            #[cfg(feature = "c18")]
            "c18" => c18(module, op, args),
            #[cfg(feature = "c19")]
            "c19" => c19(module, op, args),
            #[cfg(feature = "c20")]
            "c20" => c20(module, op, args),
            #[cfg(feature = "c21")]
            "c21" => c21(module, op, args),
            #[cfg(feature = "c22")]
            "c22" => c22(module, op, args),
            #[cfg(feature = "c22n")]
            "c22n" => c22n(module, op, args),
            #[cfg(feature = "c23")]
            "c23" => c23(module, op, args),
            #[cfg(feature = "c24")]
            "c24" => c24(module, op, args),
            #[cfg(feature = "c25")]
            "c25" => c25(module, op, args),
            _ => panic!("no group {}", group),
        }
    }
}
