// Shared specification vocabulary (pure mathematics; nothing here is about the code).
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;

verus! {
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a <= b { b } else { a } }

// ---------- text ----------
pub open spec fn rep(c: char, n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| c) }
pub open spec fn pad_left(s: Seq<char>, c: char, w: int) -> Seq<char> { rep(c, w - s.len()) + s }
pub open spec fn pad_right(s: Seq<char>, c: char, w: int) -> Seq<char> { s + rep(c, w - s.len()) }
pub open spec fn ascii_c(c: char) -> bool { (c as u32) < 128 }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ascii_c(#[trigger] s[i]) }
// u8::is_ascii_whitespace: space, tab, line feed, form feed, carriage return (not vertical tab).
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c as u32 == 12 }
pub open spec fn up_c(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8 - 32) as u8) as char } else { c } }
pub open spec fn up(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| up_c(c)) }

// ---------- digits ----------
pub open spec fn digit_val(c: char) -> int {
    if '0' <= c && c <= '9' { c as u32 - 48 }
    else if 'a' <= c && c <= 'z' { c as u32 - 87 }
    else if 'A' <= c && c <= 'Z' { c as u32 - 55 }
    else { 99 }
}
pub open spec fn digit_char(d: int) -> char {
    if d < 10 { ((48 + d) as u8) as char } else { ((87 + d) as u8) as char }
}
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
pub open spec fn rpow(b: real, e: nat) -> real decreases e { if e == 0 { 1real } else { b * rpow(b, (e - 1) as nat) } }
// The value of a digit string, most significant digit first.
pub open spec fn digits_val(s: Seq<char>, radix: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { digits_val(s.drop_last(), radix) * radix + digit_val(s.last()) }
}
pub open spec fn all_digits(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> digit_val(#[trigger] s[i]) < radix }
// The digits of a natural number, without leading zeros ("0" for zero).
pub open spec fn to_digits(n: int, radix: int) -> Seq<char>
    decreases n via to_digits_dec
{
    if radix < 2 || n < radix { seq![digit_char(n)] } else { to_digits(n / radix, radix).push(digit_char(n % radix)) }
}

#[verifier::decreases_by]
proof fn to_digits_dec(n: int, radix: int) {
    if !(radix < 2 || n < radix) {
        assert(0 <= n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2;
    }
}

pub proof fn lemma_digit_char(d: int)
    requires 0 <= d < 36
    ensures digit_val(digit_char(d)) == d, ascii_c(digit_char(d)), digit_char(d) != '-', digit_char(d) != '+', digit_char(d) != '_', digit_char(d) != '.', !ws(digit_char(d)),
        (digit_char(d) == '0') == (d == 0)
{}
pub proof fn lemma_to_digits(n: int, radix: int)
    requires 0 <= n, 2 <= radix <= 36
    ensures all_digits(to_digits(n, radix), radix), digits_val(to_digits(n, radix), radix) == n, to_digits(n, radix).len() >= 1,
        ascii(to_digits(n, radix)), to_digits(n, radix)[0] != '-', to_digits(n, radix)[0] != '+',
        forall|i: int| 0 <= i < to_digits(n, radix).len() ==> { let c = #[trigger] to_digits(n, radix)[i]; 0 <= digit_val(c) < radix && c == digit_char(digit_val(c)) },
        to_digits(n, radix)[0] == '0' ==> n == 0,
    decreases n
{
    let s = to_digits(n, radix);
    if n < radix {
        lemma_digit_char(n);
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(digits_val(s.drop_last(), radix) == 0);
    } else {
        assert(0 < n / radix < n) by (nonlinear_arith) requires n >= radix, radix >= 2;
        assert(0 <= n % radix < radix) by (nonlinear_arith) requires radix >= 2;
        assert((n / radix) * radix + n % radix == n) by (nonlinear_arith) requires radix >= 2;
        lemma_to_digits(n / radix, radix);
        lemma_digit_char(n % radix);
        assert(s.drop_last() =~= to_digits(n / radix, radix));
        assert(s[0] == to_digits(n / radix, radix)[0]);
    }
}

pub open spec fn bchars(b: Seq<u8>) -> Seq<char> { b.map_values(|x: u8| x as char) }
// ---------- rationals as reals ----------
pub open spec fn is_int(x: real) -> bool { x == x.floor() as real }
pub open spec fn rd_ok(x: real, d: int) -> bool { d >= 1 && is_int(x * (d as real)) }
pub open spec fn is_rat(x: real) -> bool { exists|d: int| rd_ok(x, d) }
// Lowest-terms denominator and numerator.
pub open spec fn rd(x: real) -> int { choose|d: int| rd_ok(x, d) && (forall|e: int| rd_ok(x, e) ==> d <= e) }
pub open spec fn rn(x: real) -> int { (x * (rd(x) as real)).floor() }
// A rational is its numerator over its denominator.
pub proof fn lemma_rat(x: real)
    requires is_rat(x)
    ensures rd(x) >= 1, rn(x) as real == x * (rd(x) as real), x == (rn(x) as real) / (rd(x) as real), rd_ok(x, rd(x)),
        forall|e: int| rd_ok(x, e) ==> rd(x) <= e
{
    let d = choose|d: int| rd_ok(x, d);
    lemma_least(x, d);
    let m = rd(x);
    assert(rd_ok(x, m));
    let n = (x * (m as real)).floor();
    assert(n as real == x * (m as real));
    assert(x == (n as real) / (m as real)) by (nonlinear_arith) requires n as real == x * (m as real), m >= 1;
}
pub proof fn lemma_int_rat(x: real)
    requires is_rat(x)
    ensures (rd(x) == 1) == is_int(x), is_int(x) ==> rn(x) as real == x
{
    lemma_rat(x);
    assert(x * (1int as real) == x);
    if is_int(x) { assert(rd_ok(x, 1)); }
}
proof fn lemma_least(x: real, d: int)
    requires rd_ok(x, d)
    ensures exists|m: int| rd_ok(x, m) && (forall|e: int| rd_ok(x, e) ==> m <= e)
    decreases d
{
    if forall|e: int| rd_ok(x, e) ==> d <= e { } else {
        let e = choose|e: int| rd_ok(x, e) && e < d;
        lemma_least(x, e);
    }
}
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn rtrunc(x: real) -> int { if x < 0real { 0 - (0real - x).floor() } else { x.floor() } }
pub open spec fn rceil(x: real) -> int { 0 - (0real - x).floor() }
// Nearest integer, halves away from zero.
pub open spec fn rround(x: real) -> int { if x < 0real { 0 - ((0real - x) + 0.5real).floor() } else { (x + 0.5real).floor() } }
pub open spec fn rrem(a: real, b: real) -> real { a - b * (rtrunc(a / b) as real) }
pub open spec fn rmax(a: real, b: real) -> real { if a <= b { b } else { a } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
}
