// Assumed contracts on the `num` crate (arbitrary-precision arithmetic): every number is the
// mathematical number it represents. TRUSTED.
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;
use crate::specs::*;
use crate::vstd_model::*;

pub mod bigint { pub use super::{BigInt, BigUint, Sign, ToBigInt}; }
pub mod rational { pub use super::BigRational; }
pub mod pow { pub use super::Pow; }
pub mod traits { pub use super::{Inv, Pow, Signed, Zero}; }
pub mod integer { pub use super::Integer; }

verus! {
#[verifier::external_body]
pub struct BigInt { x: () }
#[verifier::external_body]
pub struct BigUint { x: () }
#[verifier::external_body]
pub struct BigRational { x: () }

#[derive(Clone, Copy)]
pub enum Sign { Minus, NoSign, Plus }
impl VEq<Sign> for Sign {
    open spec fn eqs(&self, o: &Sign) -> bool { *self == *o }
    #[verifier::external_body] fn v_eq(&self, o: &Sign) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ne(&self, o: &Sign) -> (r: bool) { unimplemented!() }
}

impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
impl View for BigUint { type V = nat; uninterp spec fn view(&self) -> nat; }
impl View for BigRational { type V = real; uninterp spec fn view(&self) -> real; }

pub broadcast axiom fn axiom_rational(a: BigRational) ensures is_rat(#[trigger] a@);
// Numbers are kept in a normal form.
pub axiom fn axiom_rational_ext(a: BigRational, b: BigRational) requires a@ == b@ ensures a == b;
pub axiom fn axiom_bigint_ext(a: BigInt, b: BigInt) requires a@ == b@ ensures a == b;

impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for BigUint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for BigRational { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

impl BigInt {
    #[verifier::external_body]
    pub exec const ZERO: BigInt ensures Self::ZERO@ == 0 { BigInt { x: () } }
    #[verifier::external_body]
    pub fn parse_bytes(buf: &[u8], radix: u32) -> (r: Option<BigInt>)
        requires 2 <= radix <= 36
        ensures parse_ens(bchars(buf@), radix as int, r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_biguint(&self) -> (r: Option<BigUint>)
        ensures self@ >= 0 ==> r is Some && (r->0)@ == self@, self@ < 0 ==> r is None
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str_radix(&self, radix: u32) -> (r: String)
        requires 2 <= radix <= 36
        ensures r@ == int_text(self@, radix as int), ascii(r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(&self) -> (r: Sign)
        ensures r == (if self@ < 0 { Sign::Minus } else if self@ == 0 { Sign::NoSign } else { Sign::Plus })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn magnitude(&self) -> (r: &BigUint)
        ensures r@ == (if self@ < 0 { -self@ } else { self@ })
    { unimplemented!() }
}
// num::BigInt text: sign and digits without leading zeros.
pub open spec fn int_text(n: int, radix: int) -> Seq<char> {
    if n < 0 { seq!['-'] + to_digits(-n, radix) } else { to_digits(n, radix) }
}
// BigInt::parse_bytes: an optional sign, then digits with optional underscores between or after
// them, at least one digit first; the value is what the digits say. Text that has a character other than digits,
// underscores and a leading sign, or no digit at all, is refused.
pub open spec fn parse_ens(s: Seq<char>, radix: int, r: Option<BigInt>) -> bool {
    &&& (s.len() > 0 && all_digits(s, radix) ==> r is Some && (r->0)@ == digits_val(s, radix))
    &&& (s.len() > 1 && s[0] == '-' && all_digits(s.skip(1), radix) ==> r is Some && (r->0)@ == -digits_val(s.skip(1), radix))
    &&& (s.len() == 0 ==> r is None)
    &&& (s.len() > 0 && s[0] != '-' && s[0] != '+' && !s.contains('_') && !all_digits(s, radix) ==> r is None)
    &&& (s.len() > 0 && (s[0] == '-' || s[0] == '+') && !s.contains('_') && !(s.len() > 1 && all_digits(s.skip(1), radix)) ==> r is None)
    &&& (s.len() > 1 && s[0] == '+' && all_digits(s.skip(1), radix) ==> r is Some && (r->0)@ == digits_val(s.skip(1), radix))
}
// Positive and in lowest terms, as num keeps them.
impl BigRational {
    #[verifier::external_body]
    pub fn new(n: BigInt, d: BigInt) -> (r: BigRational)
        requires d@ != 0
        ensures r@ == (n@ as real) / (d@ as real)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn numer(&self) -> (r: &BigInt) ensures r@ == rn(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn denom(&self) -> (r: &BigInt) ensures r@ == rd(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_raw(self) -> (r: (BigInt, BigInt)) ensures r.0@ == rn(self@), r.1@ == rd(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_integer(&self) -> (r: bool) ensures r == is_int(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_integer(&self) -> (r: BigInt) ensures r@ == rtrunc(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn round(&self) -> (r: BigRational) ensures r@ == rround(self@) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(&self) -> (r: BigRational) ensures r@ == self@.floor() as real { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(&self) -> (r: BigRational) ensures r@ == rceil(self@) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(&self) -> (r: BigRational) ensures r@ == rtrunc(self@) as real { unimplemented!() }
}

pub trait ToBigInt { spec fn big(&self) -> int; fn to_bigint(&self) -> (r: Option<BigInt>) ensures r is Some, (r->0)@ == self.big(); }
impl ToBigInt for i32 { open spec fn big(&self) -> int { *self as int } #[verifier::external_body] fn to_bigint(&self) -> (r: Option<BigInt>) { unimplemented!() } }

pub trait Inv: Sized { type Output; spec fn inv_req(self) -> bool; spec fn inv_ens(self, r: Self::Output) -> bool;
    fn inv(self) -> (r: Self::Output) requires self.inv_req() ensures self.inv_ens(r); }
impl Inv for BigRational { type Output = BigRational;
    open spec fn inv_req(self) -> bool { self@ != 0real }
    open spec fn inv_ens(self, r: BigRational) -> bool { r@ == 1real / self@ }
    #[verifier::external_body] fn inv(self) -> (r: BigRational) { unimplemented!() } }

pub trait Zero: Sized {
    spec fn is_z(&self) -> bool;
    fn zero() -> (r: Self) ensures r.is_z();
    fn is_zero(&self) -> (r: bool) ensures r == self.is_z();
}
impl Zero for BigRational { open spec fn is_z(&self) -> bool { self@ == 0real }
    #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() } }
impl Zero for BigInt { open spec fn is_z(&self) -> bool { self@ == 0 }
    #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() } }
impl Zero for BigUint { open spec fn is_z(&self) -> bool { self@ == 0 }
    #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() } }

pub trait Signed: Sized {
    spec fn neg_p(&self) -> bool;
    spec fn pos_p(&self) -> bool;
    spec fn abs_ens(&self, r: Self) -> bool;
    spec fn sgn_ens(&self, r: Self) -> bool;
    fn is_negative(&self) -> (r: bool) ensures r == self.neg_p();
    fn is_positive(&self) -> (r: bool) ensures r == self.pos_p();
    fn abs(&self) -> (r: Self) ensures self.abs_ens(r);
    fn signum(&self) -> (r: Self) ensures self.sgn_ens(r);
}
impl Signed for BigRational {
    open spec fn neg_p(&self) -> bool { self@ < 0real }
    open spec fn pos_p(&self) -> bool { self@ > 0real }
    open spec fn abs_ens(&self, r: Self) -> bool { r@ == rabs(self@) }
    open spec fn sgn_ens(&self, r: Self) -> bool { r@ == (if self@ < 0real { 0real - 1real } else if self@ > 0real { 1real } else { 0real }) }
    #[verifier::external_body] fn is_negative(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_positive(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn abs(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn signum(&self) -> (r: Self) { unimplemented!() }
}
impl Signed for BigInt {
    open spec fn neg_p(&self) -> bool { self@ < 0 }
    open spec fn pos_p(&self) -> bool { self@ > 0 }
    open spec fn abs_ens(&self, r: Self) -> bool { r@ == (if self@ < 0 { -self@ } else { self@ }) }
    open spec fn sgn_ens(&self, r: Self) -> bool { r@ == (if self@ < 0 { -1int } else if self@ > 0 { 1int } else { 0int }) }
    #[verifier::external_body] fn is_negative(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_positive(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn abs(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn signum(&self) -> (r: Self) { unimplemented!() }
}
pub trait Integer: Sized { spec fn even_p(&self) -> bool; fn is_even(&self) -> (r: bool) ensures r == self.even_p(); fn is_odd(&self) -> (r: bool) ensures r == !self.even_p(); }
impl Integer for BigUint { open spec fn even_p(&self) -> bool { self@ % 2 == 0 }
    #[verifier::external_body] fn is_even(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn is_odd(&self) -> (r: bool) { unimplemented!() } }
impl Integer for BigInt { open spec fn even_p(&self) -> bool { self@ % 2 == 0 }
    #[verifier::external_body] fn is_even(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn is_odd(&self) -> (r: bool) { unimplemented!() } }

pub trait Pow<E>: Sized { type Output; spec fn pow_ens(self, e: E, r: Self::Output) -> bool; fn pow(self, e: E) -> (r: Self::Output) ensures self.pow_ens(e, r); }
}
macro_rules! pow_int { ($e:ty, $v:expr) => { verus! {
    impl Pow<$e> for BigInt { type Output = BigInt;
        open spec fn pow_ens(self, e: $e, r: BigInt) -> bool { r@ == ipow(self@, ($v)(e)) }
        #[verifier::external_body] fn pow(self, e: $e) -> (r: BigInt) { unimplemented!() } }
} } }
verus! {
pub open spec fn e_u8(e: u8) -> nat { e as nat }
pub open spec fn e_u16(e: u16) -> nat { e as nat }
pub open spec fn e_u32(e: u32) -> nat { e as nat }
pub open spec fn e_usize(e: usize) -> nat { e as nat }
pub open spec fn e_big(e: BigUint) -> nat { e@ }
pub open spec fn e_rbig(e: &BigUint) -> nat { e@ }
impl Pow<BigUint> for BigRational { type Output = BigRational;
    open spec fn pow_ens(self, e: BigUint, r: BigRational) -> bool { r@ == rpow(self@, e@) }
    #[verifier::external_body] fn pow(self, e: BigUint) -> (r: BigRational) { unimplemented!() } }
impl<'a> Pow<&'a BigUint> for BigRational { type Output = BigRational;
    open spec fn pow_ens(self, e: &'a BigUint, r: BigRational) -> bool { r@ == rpow(self@, e@) }
    #[verifier::external_body] fn pow(self, e: &'a BigUint) -> (r: BigRational) { unimplemented!() } }
impl<'a> Pow<&'a BigUint> for BigInt { type Output = BigInt;
    open spec fn pow_ens(self, e: &'a BigUint, r: BigInt) -> bool { r@ == ipow(self@, e@) }
    #[verifier::external_body] fn pow(self, e: &'a BigUint) -> (r: BigInt) { unimplemented!() } }
}
pow_int!(u8, e_u8);
pow_int!(u16, e_u16);
pow_int!(u32, e_u32);
pow_int!(usize, e_usize);
pow_int!(BigUint, e_big);

macro_rules! from_num { ($t:ty, $($s:ty),*) => { $( verus! {
    impl VFrom<$s> for $t { open spec fn from_ens(t: $s, r: $t) -> bool { r@ == t }
        #[verifier::external_body] fn v_from(t: $s) -> (r: $t) { unimplemented!() } }
} )* } }
from_num!(BigInt, i32, i64, u8, u16, u32, usize);
from_num!(BigUint, u8, u16, u32, usize);
verus! {
impl VFrom<BigUint> for BigInt { open spec fn from_ens(t: BigUint, r: BigInt) -> bool { r@ == t@ } #[verifier::external_body] fn v_from(t: BigUint) -> (r: BigInt) { unimplemented!() } }
impl VFrom<BigInt> for BigRational { open spec fn from_ens(t: BigInt, r: BigRational) -> bool { r@ == t@ as real } #[verifier::external_body] fn v_from(t: BigInt) -> (r: BigRational) { unimplemented!() } }
impl<'a> VTryFrom<&'a BigInt> for i64 {
    open spec fn try_from_ens(t: &'a BigInt, r: Result<i64, VIntError>) -> bool {
        if i64::MIN <= t@ <= i64::MAX { r is Ok && r->Ok_0 == t@ } else { r is Err }
    }
    #[verifier::external_body]
    fn v_try_from(t: &'a BigInt) -> (r: Result<i64, VIntError>) { unimplemented!() }
}
impl VDisp for BigInt { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VDisp for BigRational { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VOrd for BigRational { open spec fn ord_le(&self, o: &BigRational) -> bool { self@ <= o@ } #[verifier::external_body] fn v_le_ord(&self, o: &BigRational) -> (r: bool) { unimplemented!() } }
}

// Operators.
macro_rules! binop { ($tr:ident, $f:ident, $req:ident, $ens:ident, $l:ty, $r:ty, $o:ty, |$a:ident, $b:ident| {$($reqe:tt)*}, |$c:ident| {$($enss:tt)*}) => { verus! {
    impl<'a, 'b> $tr<$r> for $l { type Output = $o;
        open spec fn $req(self, $b: $r) -> bool { let $a = self; $($reqe)* }
        open spec fn $ens(self, $b: $r, $c: $o) -> bool { let $a = self; $($enss)* }
        #[verifier::external_body] fn $f(self, b: $r) -> (o: $o) { unimplemented!() } }
} } }
macro_rules! four { ($tr:ident, $f:ident, $req:ident, $ens:ident, $t:ty, |$a:ident, $b:ident| {$($reqe:tt)*}, |$c:ident| {$($enss:tt)*}) => {
    binop!($tr, $f, $req, $ens, $t, $t, $t, |$a, $b| {$($reqe)*}, |$c| {$($enss)*});
    binop!($tr, $f, $req, $ens, &'a $t, $t, $t, |$a, $b| {$($reqe)*}, |$c| {$($enss)*});
    binop!($tr, $f, $req, $ens, $t, &'b $t, $t, |$a, $b| {$($reqe)*}, |$c| {$($enss)*});
    binop!($tr, $f, $req, $ens, &'a $t, &'b $t, $t, |$a, $b| {$($reqe)*}, |$c| {$($enss)*});
} }
four!(VAdd, v_add, add_req, add_ens, BigRational, |a, b| {true}, |c| {c@ == a@ + b@});
four!(VSub, v_sub, sub_req, sub_ens, BigRational, |a, b| {true}, |c| {c@ == a@ - b@});
four!(VMul, v_mul, mul_req, mul_ens, BigRational, |a, b| {true}, |c| {c@ == a@ * b@});
four!(VDiv, v_div, div_req, div_ens, BigRational, |a, b| {b@ != 0real}, |c| {c@ == a@ / b@});
four!(VRem, v_rem, rem_req, rem_ens, BigRational, |a, b| {b@ != 0real}, |c| {c@ == rrem(a@, b@)});
binop!(VMul, v_mul, mul_req, mul_ens, &'a BigRational, &'b BigInt, BigRational, |a, b| {true}, |c| {c@ == a@ * (b@ as real)});
binop!(VMul, v_mul, mul_req, mul_ens, &'a BigRational, BigInt, BigRational, |a, b| {true}, |c| {c@ == a@ * (b@ as real)});
binop!(VMul, v_mul, mul_req, mul_ens, BigRational, BigInt, BigRational, |a, b| {true}, |c| {c@ == a@ * (b@ as real)});
binop!(VMul, v_mul, mul_req, mul_ens, BigRational, &'b BigInt, BigRational, |a, b| {true}, |c| {c@ == a@ * (b@ as real)});
four!(VAdd, v_add, add_req, add_ens, BigInt, |a, b| {true}, |c| {c@ == a@ + b@});
four!(VSub, v_sub, sub_req, sub_ens, BigInt, |a, b| {true}, |c| {c@ == a@ - b@});
four!(VMul, v_mul, mul_req, mul_ens, BigInt, |a, b| {true}, |c| {c@ == a@ * b@});
four!(VDiv, v_div, div_req, div_ens, BigInt, |a, b| {b@ != 0}, |c| {c@ == idiv(a@, b@)});
four!(VRem, v_rem, rem_req, rem_ens, BigInt, |a, b| {b@ != 0}, |c| {c@ == irem(a@, b@)});
four!(VAdd, v_add, add_req, add_ens, BigUint, |a, b| {true}, |c| {c@ == a@ + b@});
four!(VSub, v_sub, sub_req, sub_ens, BigUint, |a, b| {b@ <= a@}, |c| {c@ == a@ - b@});
four!(VMul, v_mul, mul_req, mul_ens, BigUint, |a, b| {true}, |c| {c@ == a@ * b@});
binop!(VAdd, v_add, add_req, add_ens, BigInt, i32, BigInt, |a, b| {true}, |c| {c@ == a@ + b});
binop!(VAdd, v_add, add_req, add_ens, &'a BigInt, i32, BigInt, |a, b| {true}, |c| {c@ == a@ + b});
binop!(VSub, v_sub, sub_req, sub_ens, BigInt, i32, BigInt, |a, b| {true}, |c| {c@ == a@ - b});
binop!(VSub, v_sub, sub_req, sub_ens, &'a BigInt, i32, BigInt, |a, b| {true}, |c| {c@ == a@ - b});
binop!(VDiv, v_div, div_req, div_ens, BigInt, i32, BigInt, |a, b| {b != 0}, |c| {c@ == idiv(a@, b as int)});
binop!(VDiv, v_div, div_req, div_ens, &'a BigInt, i32, BigInt, |a, b| {b != 0}, |c| {c@ == idiv(a@, b as int)});
verus! {
// Truncating division.
pub open spec fn idiv(a: int, b: int) -> int {
    let q = iabs(a) / iabs(b);
    if (a < 0) != (b < 0) { -q } else { q }
}
pub open spec fn irem(a: int, b: int) -> int { a - b * idiv(a, b) }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
impl VNeg for BigRational { type Output = BigRational; open spec fn neg_req(self) -> bool { true } open spec fn neg_ens(self, r: BigRational) -> bool { r@ == 0real - self@ } #[verifier::external_body] fn v_neg(self) -> (r: BigRational) { unimplemented!() } }
impl VNeg for BigInt { type Output = BigInt; open spec fn neg_req(self) -> bool { true } open spec fn neg_ens(self, r: BigInt) -> bool { r@ == 0 - self@ } #[verifier::external_body] fn v_neg(self) -> (r: BigInt) { unimplemented!() } }
}
macro_rules! cmp { ($t:ty) => { verus! {
    impl VCmp<$t> for $t { open spec fn lt(&self, o: &$t) -> bool { self@ < o@ } open spec fn le(&self, o: &$t) -> bool { self@ <= o@ }
        #[verifier::external_body] fn v_lt(&self, o: &$t) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_le(&self, o: &$t) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_gt(&self, o: &$t) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_ge(&self, o: &$t) -> (r: bool) { unimplemented!() } }
    impl VEq<$t> for $t { open spec fn eqs(&self, o: &$t) -> bool { self@ == o@ }
        #[verifier::external_body] fn v_eq(&self, o: &$t) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn v_ne(&self, o: &$t) -> (r: bool) { unimplemented!() } }
} } }
cmp!(BigInt);
cmp!(BigUint);
cmp!(BigRational);
