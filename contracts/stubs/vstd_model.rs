// Assumed contracts on the Rust standard library, in the shape the weaver redirects calls to.
// Everything marked external_body or assume_specification here is TRUSTED (listed in the evidence).
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;
use crate::specs::*;

verus! {

// ---------- conversions ----------
pub trait VFrom<T>: Sized {
    spec fn from_ens(t: T, r: Self) -> bool;
    fn v_from(t: T) -> (r: Self) ensures Self::from_ens(t, r);
}
pub trait VInto<U>: Sized {
    spec fn into_ens(self, r: U) -> bool;
    fn v_into(self) -> (r: U) ensures self.into_ens(r);
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn into_ens(self, r: U) -> bool { U::from_ens(self, r) }
    fn v_into(self) -> (r: U) { U::v_from(self) }
}
impl VFrom<u8> for u16 { open spec fn from_ens(t: u8, r: u16) -> bool { r == t } fn v_from(t: u8) -> (r: u16) { t as u16 } }
impl VFrom<u8> for u32 { open spec fn from_ens(t: u8, r: u32) -> bool { r == t } fn v_from(t: u8) -> (r: u32) { t as u32 } }
impl VFrom<u16> for usize { open spec fn from_ens(t: u16, r: usize) -> bool { r == t } fn v_from(t: u16) -> (r: usize) { t as usize } }
impl VFrom<u8> for usize { open spec fn from_ens(t: u8, r: usize) -> bool { r == t } fn v_from(t: u8) -> (r: usize) { t as usize } }
impl<T> VFrom<Vec<T>> for std::collections::VecDeque<T> {
    open spec fn from_ens(t: Vec<T>, r: std::collections::VecDeque<T>) -> bool { r@ == t@ }
    #[verifier::external_body]
    fn v_from(t: Vec<T>) -> (r: std::collections::VecDeque<T>) { t.into() }
}
impl<'a> VFrom<&'a str> for String {
    open spec fn from_ens(t: &'a str, r: String) -> bool { r@ == t@ }
    #[verifier::external_body]
    fn v_from(t: &'a str) -> (r: String) { t.into() }
}
impl<T> VFrom<T> for T { open spec fn from_ens(t: T, r: T) -> bool { r == t } fn v_from(t: T) -> (r: T) { t } }

pub trait VTryFrom<T>: Sized {
    spec fn try_from_ens(t: T, r: Result<Self, VIntError>) -> bool;
    fn v_try_from(t: T) -> (r: Result<Self, VIntError>) ensures Self::try_from_ens(t, r);
}
#[derive(Debug)]
pub struct VIntError { pub x: () }
impl VTryFrom<i64> for u8 {
    open spec fn try_from_ens(t: i64, r: Result<u8, VIntError>) -> bool {
        if 0 <= t <= 255 { r is Ok && r->Ok_0 == t } else { r is Err }
    }
    fn v_try_from(t: i64) -> (r: Result<u8, VIntError>) { if 0 <= t && t <= 255 { Ok(t as u8) } else { Err(VIntError { x: () }) } }
}
impl VTryFrom<usize> for u16 {
    open spec fn try_from_ens(t: usize, r: Result<u16, VIntError>) -> bool {
        if t <= 65535 { r is Ok && r->Ok_0 == t } else { r is Err }
    }
    fn v_try_from(t: usize) -> (r: Result<u16, VIntError>) { if t <= 65535 { Ok(t as u16) } else { Err(VIntError { x: () }) } }
}
pub trait VTryInto<U>: Sized {
    spec fn try_into_ens(self, r: Result<U, VIntError>) -> bool;
    fn v_try_into(self) -> (r: Result<U, VIntError>) ensures self.try_into_ens(r);
}
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    open spec fn try_into_ens(self, r: Result<U, VIntError>) -> bool { U::try_from_ens(self, r) }
    fn v_try_into(self) -> (r: Result<U, VIntError>) { U::v_try_from(self) }
}

// ---------- errors ----------
#[verifier::external_body]
pub struct BoxError { x: () }
// The error comes from outside: the terminal, the file system, the environment or the database library.
pub uninterp spec fn outside(e: BoxError) -> bool;
impl VDisp for BoxError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VFrom<VIntError> for BoxError { open spec fn from_ens(t: VIntError, r: BoxError) -> bool { true } #[verifier::external_body] fn v_from(t: VIntError) -> (r: BoxError) { unimplemented!() } }

// ---------- panics ----------
#[verifier::external_body]
// Written to standard output, and to standard error, as a line at some time.
// Nothing is known of it: used by tools/probe.py to ask whether a place in the text can be reached.
pub uninterp spec fn probed(k: int) -> bool;
pub uninterp spec fn written(s: Seq<char>) -> bool;
pub uninterp spec fn complained(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn v_print(s: &String) ensures written(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_eprint(s: &String) ensures complained(s@) { unimplemented!() }
pub fn v_panic() -> ! requires false { panic!() }
pub fn v_assert(b: bool) requires b { }

// ---------- options ----------
pub trait VOptMut<T>: Sized {
    #[verifier::prophetic] spec fn reb_ens<'b>(old_s: Self, fin_s: Self, r: Option<&'b mut T>) -> bool;
    fn v_as_deref_mut<'b>(&'b mut self) -> (r: Option<&'b mut T>)
        ensures Self::reb_ens(*old(self), *final(self), r);
}
impl<'m, T> VOptMut<T> for Option<&'m mut T> {
    #[verifier::prophetic] open spec fn reb_ens<'b>(old_s: Self, fin_s: Self, r: Option<&'b mut T>) -> bool {
        match old_s {
            None => r is None && fin_s == old_s,
            Some(m) => r is Some && *(r->0) == *m && (fin_s is Some) && *final(r->0) == *(fin_s->0) && *final(m) == *final(fin_s->0),
        }
    }
    fn v_as_deref_mut<'b>(&'b mut self) -> (r: Option<&'b mut T>) { match self { Some(x) => Some(x), None => None } }
}
pub trait VOkOr<T>: Sized { spec fn okor_ens<E>(self, e: E, r: Result<T, E>) -> bool; fn v_ok_or<E>(self, e: E) -> (r: Result<T, E>) ensures self.okor_ens(e, r); }
impl<T> VOkOr<T> for Option<T> {
    open spec fn okor_ens<E>(self, e: E, r: Result<T, E>) -> bool { r == (match self { Some(x) => Ok::<T, E>(x), None => Err::<T, E>(e) }) }
    fn v_ok_or<E>(self, e: E) -> (r: Result<T, E>) { match self { Some(x) => Ok(x), None => Err(e) } }
}

// ---------- min / max ----------
pub trait VOrd: Sized {
    spec fn ord_le(&self, o: &Self) -> bool;
    fn v_le_ord(&self, o: &Self) -> (r: bool) ensures r == self.ord_le(o);
}
impl VOrd for usize { open spec fn ord_le(&self, o: &usize) -> bool { *self <= *o } fn v_le_ord(&self, o: &usize) -> (r: bool) { *self <= *o } }
// std::cmp::min returns the first argument when the two are equal, std::cmp::max the second.
pub fn min<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ord_le(&b) { a } else { b }) { if a.v_le_ord(&b) { a } else { b } }
pub fn max<T: VOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ord_le(&b) { b } else { a }) { if a.v_le_ord(&b) { b } else { a } }

// ---------- formatting ----------
pub trait VDisp {
    spec fn disp(&self) -> Seq<char>;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() } }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn v_to_string(&self) -> (r: String) { (**self).v_to_string() } }

impl VDisp for u8 { open spec fn disp(&self) -> Seq<char> { u8_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn u8_text(x: u8) -> Seq<char> { if (x as int) < 0 { seq!['-'] + to_digits(-(x as int), 10) } else { to_digits(x as int, 10) } }
impl VDisp for u16 { open spec fn disp(&self) -> Seq<char> { u16_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn u16_text(x: u16) -> Seq<char> { if (x as int) < 0 { seq!['-'] + to_digits(-(x as int), 10) } else { to_digits(x as int, 10) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { usize_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn usize_text(x: usize) -> Seq<char> { if (x as int) < 0 { seq!['-'] + to_digits(-(x as int), 10) } else { to_digits(x as int, 10) } }
impl VDisp for i64 { open spec fn disp(&self) -> Seq<char> { i64_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn i64_text(x: i64) -> Seq<char> { if (x as int) < 0 { seq!['-'] + to_digits(-(x as int), 10) } else { to_digits(x as int, 10) } }
impl VDisp for bool { open spec fn disp(&self) -> Seq<char> { bool_text(*self) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { "true"@ } else { "false"@ } }
#[verifier::external_body]
pub fn v_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn v_cat_str(s: String, t: &str) -> (r: String) ensures r@ == s@ + t@ { s + t }
#[verifier::external_body]
pub fn v_cat_disp<T: VDisp + ?Sized>(s: String, t: &T) -> (r: String) ensures r@ == s@ + t.disp() { unimplemented!() }
#[verifier::external_body]
pub fn v_cat_pad_left<T: VDisp + ?Sized>(s: String, t: &T, fill: char, w: usize) -> (r: String) ensures r@ == s@ + pad_left(t.disp(), fill, w as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_cat_pad_right<T: VDisp + ?Sized>(s: String, t: &T, fill: char, w: usize) -> (r: String) ensures r@ == s@ + pad_right(t.disp(), fill, w as int) { unimplemented!() }

// ---------- sorting ----------
pub trait VSorted { spec fn permuted(&self, o: &Self) -> bool; fn v_sort(&mut self) ensures final(self).permuted(old(self)); }
impl<T> VSorted for Vec<T> { open spec fn permuted(&self, o: &Self) -> bool { self@.to_multiset() == o@.to_multiset() } #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() } }
pub trait VSort { spec fn sorted_of(&self, o: &Self) -> bool; fn v_sort_unstable(&mut self) ensures final(self).sorted_of(old(self)); }
impl VSort for Vec<usize> {
    open spec fn sorted_of(&self, o: &Self) -> bool {
        &&& self@.to_multiset() == o@.to_multiset()
        &&& self@.len() == o@.len()
        &&& forall|i: int, j: int| 0 <= i <= j < self@.len() ==> self@[i] <= self@[j]
    }
    #[verifier::external_body]
    fn v_sort_unstable(&mut self) { self.sort_unstable() }
}

// ---------- length ----------
pub uninterp spec fn blen(s: Seq<char>) -> nat;
// UTF-8 length of ASCII text.
pub broadcast axiom fn axiom_blen(s: Seq<char>) requires ascii(s) ensures #[trigger] blen(s) == s.len();
pub broadcast axiom fn axiom_blen_pos(s: Seq<char>) ensures #[trigger] blen(s) >= s.len(), s.len() == 0 ==> blen(s) == 0;
pub trait VLen { spec fn slen(&self) -> nat; fn v_len(&self) -> (r: usize) ensures r == self.slen(); }
// Nothing in memory is bigger than isize::MAX bytes.
impl VLen for str { open spec fn slen(&self) -> nat { blen(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } }
impl VLen for String { open spec fn slen(&self) -> nat { blen(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } }
impl<T> VLen for Vec<T> { open spec fn slen(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
impl<T> VLen for [T] { open spec fn slen(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
impl<T> VLen for std::collections::VecDeque<T> { open spec fn slen(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
pub trait VEmpty { spec fn semp(&self) -> bool; fn v_is_empty(&self) -> (r: bool) ensures r == self.semp(); }
impl VEmpty for str { open spec fn semp(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl VEmpty for String { open spec fn semp(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> VEmpty for Vec<T> { open spec fn semp(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VEmpty for [T] { open spec fn semp(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VEmpty for std::collections::VecDeque<T> { open spec fn semp(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> (r: bool) { self.len() == 0 } }

// ---------- text ----------
pub broadcast axiom fn axiom_string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
// Insertion and removal at a byte index, used on ASCII text only.
// A vector is at most isize::MAX bytes big.
pub axiom fn axiom_str_small(s: &str) ensures blen(s@) <= isize::MAX;
pub axiom fn axiom_string_small(s: String) ensures blen(s@) <= isize::MAX;
pub axiom fn axiom_vec_small(v: Vec<String>) ensures v@.len() * 24 <= isize::MAX;
pub assume_specification [ String::insert ] (s: &mut String, i: usize, c: char) requires ascii(old(s)@), i <= old(s)@.len() ensures final(s)@ == old(s)@.insert(i as int, c);
pub assume_specification [ String::remove ] (s: &mut String, i: usize) -> (r: char) requires ascii(old(s)@), i < old(s)@.len() ensures final(s)@ == old(s)@.remove(i as int), r == old(s)@[i as int];
pub trait VSlice { spec fn sl_ens(&self, a: int, b: int, r: &str) -> bool; spec fn sl_req(&self, a: int, b: int) -> bool;
    fn v_slice(&self, a: usize, b: usize) -> (r: &str) requires self.sl_req(a as int, b as int) ensures self.sl_ens(a as int, b as int, r); }
impl VSlice for str { open spec fn sl_req(&self, a: int, b: int) -> bool { ascii(self@) && 0 <= a <= b <= self@.len() } open spec fn sl_ens(&self, a: int, b: int, r: &str) -> bool { r@ == self@.subrange(a, b) }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] } }
impl VSlice for String { open spec fn sl_req(&self, a: int, b: int) -> bool { ascii(self@) && 0 <= a <= b <= self@.len() } open spec fn sl_ens(&self, a: int, b: int, r: &str) -> bool { r@ == self@.subrange(a, b) }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] } }
impl<'a, T: VSlice + ?Sized> VSlice for &'a T { open spec fn sl_req(&self, a: int, b: int) -> bool { (**self).sl_req(a, b) } open spec fn sl_ens(&self, a: int, b: int, r: &str) -> bool { (**self).sl_ens(a, b, r) }
    fn v_slice(&self, a: usize, b: usize) -> (r: &str) { (**self).v_slice(a, b) } }
// The first index at which p holds, or the length.
pub open spec fn first_idx(s: Seq<char>, p: spec_fn(char) -> bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if p(s[0]) { 0 } else { 1 + first_idx(s.skip(1), p) }
}
// char::is_whitespace, which str::trim uses; on ASCII it is the ASCII blanks and vertical tab.
pub uninterp spec fn uws(c: char) -> bool;
pub broadcast axiom fn axiom_uws(c: char) requires ascii_c(c) ensures #[trigger] uws(c) == (ws(c) || c as u32 == 11);
pub open spec fn trim_start_at(s: Seq<char>) -> int { first_idx(s, |c: char| !uws(c)) }
pub open spec fn trim_end_at(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if !uws(s.last()) { s.len() as int } else { trim_end_at(s.drop_last()) } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { let t = s.skip(trim_start_at(s)); t.take(trim_end_at(t)) }
pub open spec fn drop_tail(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() != c { s } else { drop_tail(s.drop_last(), c) } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub trait VStr {
    spec fn st(&self) -> Seq<char>;
    fn v_trim_start(&self) -> (r: &str) ensures r@ == self.st().skip(trim_start_at(self.st())), 0 <= trim_start_at(self.st()) <= self.st().len();
    fn v_trim(&self) -> (r: &str) ensures r@ == trimmed(self.st());
    fn v_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == drop_tail(self.st(), c);
    fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) ensures (self.st().len() > 0 && self.st()[0] == c) ==> r is Some && (r->0)@ == self.st().skip(1), !(self.st().len() > 0 && self.st()[0] == c) ==> r is None;
    fn v_split_once<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<(&str, &str)>)
        requires forall|c: char| f.requires((c,))
        ensures match r {
            None => forall|i: int| 0 <= i < self.st().len() ==> f.ensures((#[trigger] self.st()[i],), false),
            Some(p) => p.0@.len() < self.st().len() && p.0@ == self.st().take(p.0@.len() as int) && p.1@ == self.st().skip(p.0@.len() as int + 1)
                && f.ensures((self.st()[p.0@.len() as int],), true)
                && (forall|i: int| 0 <= i < p.0@.len() ==> f.ensures((#[trigger] self.st()[i],), false)),
        };
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.st());
    fn v_split(&self, c: char) -> (r: VIter<&str>) ensures r.idx() == 0;
    fn v_is_ascii(&self) -> (r: bool) ensures r == ascii(self.st());
    fn v_chars(&self) -> (r: VIter<char>) ensures r.src() == self.st(), r.idx() == 0;
    fn v_as_bytes(&self) -> (r: &[u8]) requires ascii(self.st()) ensures r@.len() == self.st().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] as char == self.st()[i], forall|i: int| 0 <= i < r@.len() ==> #[trigger] self.st()[i] as u8 == r@[i], bchars(r@) == self.st();
}
impl VStr for str { open spec fn st(&self) -> Seq<char> { self@ } 
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
impl VStr for String { open spec fn st(&self) -> Seq<char> { self@ } 
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_split_once<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_split(&self, c: char) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
pub trait VUpper { spec fn up_ens(o: &Self, f: &Self) -> bool; fn v_make_ascii_uppercase(&mut self) ensures Self::up_ens(old(self), final(self)); }
impl VUpper for String { open spec fn up_ens(o: &Self, f: &Self) -> bool { f@ == up(o@) } #[verifier::external_body] fn v_make_ascii_uppercase(&mut self) { self.make_ascii_uppercase() } }
pub trait VChar { spec fn cc(&self) -> char; fn v_is_ascii_whitespace(&self) -> (r: bool) ensures r == ws(self.cc()); fn v_is_ascii(&self) -> (r: bool) ensures r == ascii_c(self.cc()); fn v_to_ascii_uppercase(&self) -> (r: char) ensures r == up_c(self.cc()); }
impl VChar for char { open spec fn cc(&self) -> char { *self }
    #[verifier::external_body] fn v_is_ascii_whitespace(&self) -> (r: bool) { self.is_ascii_whitespace() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: char) { self.to_ascii_uppercase() } }
#[verifier::external_body]
pub fn v_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VIntError>) requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128
    ensures r is Ok, (r->Ok_0)@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (r->Ok_0)@[i] == #[trigger] v@[i] as char { unimplemented!() }

// ---------- iterators ----------
// A finite iterator: the items it was made with and how many were taken.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: std::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn src(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    pub open spec fn rest(&self) -> Seq<T> { self.src().skip(self.idx()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).src() == old(self).src(), 0 <= final(self).idx() <= final(self).src().len(),
            0 <= old(self).idx() < old(self).src().len() ==> r == Some(old(self).src()[old(self).idx()]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).src().len() ==> r is None && final(self).idx() == old(self).idx()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) requires self.idx() == 0 ensures r.src() == self.src().reverse(), r.idx() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.idx() == 0
        ensures r.idx() == 0, r.src().len() == self.src().len(), forall|i: int| 0 <= i < r.src().len() ==> (#[trigger] r.src()[i]).0 == i && r.src()[i].1 == self.src()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires old(self).idx() == 0, forall|x: T| f.requires((x,))
        ensures match r {
            None => forall|i: int| 0 <= i < old(self).src().len() ==> f.ensures((#[trigger] old(self).src()[i],), false),
            Some(p) => p < old(self).src().len() && f.ensures((old(self).src()[p as int],), true) && (forall|i: int| 0 <= i < p ==> f.ensures((#[trigger] old(self).src()[i],), false)),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires self.idx() == 0, forall|x: T| f.requires((x,))
        ensures r.idx() == 0, r.src().len() == self.src().len(), forall|i: int| 0 <= i < r.src().len() ==> f.ensures((self.src()[i],), #[trigger] r.src()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<A, F: FnMut(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires 0 <= self.idx() <= self.src().len(), forall|a: A, x: T| #[trigger] f.requires((a, x))
        ensures fold_ens(f, init, self.rest(), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>) requires 0 <= self.idx() <= self.src().len() ensures r.idx() == 0, r.src() == (if n < self.rest().len() { self.rest().take(n as int) } else { self.rest() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>) requires 0 <= self.idx() <= self.src().len() ensures r.idx() == 0, r.src() == (if n < self.rest().len() { self.rest().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) requires 0 <= self.idx() <= self.src().len() ensures r == (if self.rest().len() > 0 { Some(self.rest().last()) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) requires 0 <= self.idx() <= self.src().len() ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, b: VIter<T>) -> (r: VIter<T>) requires 0 <= self.idx() <= self.src().len(), 0 <= b.idx() <= b.src().len() ensures r.idx() == 0, r.src() == self.rest() + b.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires 0 <= old(self).idx() <= old(self).src().len(), forall|x: T| f.requires((x,))
        ensures r ==> exists|i: int| 0 <= i < old(self).rest().len() && f.ensures((#[trigger] old(self).rest()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> f.ensures((#[trigger] old(self).rest()[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires 0 <= old(self).idx() <= old(self).src().len(), forall|x: T| f.requires((x,))
        ensures !r ==> exists|i: int| 0 <= i < old(self).rest().len() && f.ensures((#[trigger] old(self).rest()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> f.ensures((#[trigger] old(self).rest()[i],), true)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VFromIter<T>>(self) -> (r: C) requires self.idx() == 0 ensures C::iter_ens(self.src(), r) { unimplemented!() }
}
pub open spec fn fold_ens<A, T, F: FnMut(A, T) -> A>(f: F, init: A, s: Seq<T>, r: A) -> bool decreases s.len() {
    if s.len() == 0 { r == init } else { exists|m: A| fold_ens(f, init, s.drop_last(), m) && #[trigger] f.ensures((m, s.last()), r) }
}
impl<'a, T: Clone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) requires self.idx() == 0 ensures r.idx() == 0, r.src().len() == self.src().len(), forall|i: int| #![trigger r.src()[i]] #![trigger self.src()[i]] 0 <= i < r.src().len() ==> r.src()[i] == *self.src()[i] { unimplemented!() }
}
pub trait VFromIter<T>: Sized { spec fn iter_ens(s: Seq<T>, r: Self) -> bool; fn v_from_iter(it: VIter<T>) -> (r: Self) requires it.idx() == 0 ensures Self::iter_ens(it.src(), r); }
impl<T> VFromIter<T> for Vec<T> { open spec fn iter_ens(s: Seq<T>, r: Self) -> bool { r@ == s } #[verifier::external_body] fn v_from_iter(it: VIter<T>) -> (r: Self) { unimplemented!() } }
impl<'a> VFromIter<&'a char> for String { open spec fn iter_ens(s: Seq<&'a char>, r: Self) -> bool { r@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger r@[i]] 0 <= i < s.len() ==> r@[i] == *s[i] } #[verifier::external_body] fn v_from_iter(it: VIter<&'a char>) -> (r: Self) { unimplemented!() } }
pub trait VIntoIter: Sized { type Item; spec fn it_ens(self, r: VIter<Self::Item>) -> bool; fn v_into_iter(self) -> (r: VIter<Self::Item>) ensures self.it_ens(r), r.idx() == 0; }
impl<T> VIntoIter for VIter<T> { type Item = T; open spec fn it_ens(self, r: VIter<T>) -> bool { self.idx() == 0 ==> r.src() == self.src() } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { self } }
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn it_ens(self, r: VIter<T>) -> bool { r.src() == self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn it_ens(self, r: VIter<&'a T>) -> bool { ref_seq(self@, r.src()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a [T] { type Item = &'a T; open spec fn it_ens(self, r: VIter<&'a T>) -> bool { ref_seq(self@, r.src()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
pub open spec fn ref_seq<T>(v: Seq<T>, s: Seq<&T>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == v[i] }
pub trait VIterRef<T> { spec fn sq(&self) -> Seq<T>; fn v_iter(&self) -> (r: VIter<&T>) ensures ref_seq(self.sq(), r.src()), r.idx() == 0; }
impl<T> VIterRef<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
impl<T> VIterRef<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter(&self) -> (r: VIter<&T>) { unimplemented!() } }
pub open spec fn chunk_start(n: int, k: int, i: int) -> int { imax(0, n - (i + 1) * k) }
pub trait VChunks<T> { spec fn sqc(&self) -> Seq<T>;
    fn v_rchunks(&self, n: usize) -> (r: VIter<&[T]>) requires n > 0
        ensures r.idx() == 0, r.src().len() == (self.sqc().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r.src().len() ==> (#[trigger] r.src()[i])@ == self.sqc().subrange(chunk_start(self.sqc().len() as int, n as int, i), self.sqc().len() - i * n); }
impl<T> VChunks<T> for Vec<T> { open spec fn sqc(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_rchunks(&self, n: usize) -> (r: VIter<&[T]>) { unimplemented!() } }
// Text joined by a separator.
pub open spec fn joined(v: Seq<String>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0]@ } else { joined(v.drop_last(), sep) + sep + v.last()@ }
}
pub trait VJoin { spec fn jn(&self) -> Seq<String>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jn(), sep@); }
impl VJoin for Vec<String> { open spec fn jn(&self) -> Seq<String> { self@ } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { self.join(sep) } }

// ---------- maps and sets, keyed by the view of the key ----------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures self@.dom().contains(k@) ==> r is Some && *(r->0) == self@[k@], !self@.dom().contains(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn v_keys(&self) -> (r: VIter<&K>)
        ensures r.idx() == 0, forall|i: int| 0 <= i < r.src().len() ==> self@.dom().contains((#[trigger] r.src()[i])@),
            forall|k: K::V| self@.dom().contains(k) ==> exists|i: int| 0 <= i < r.src().len() && (#[trigger] r.src()[i])@ == k { unimplemented!() }
}
#[verifier::external_body]
pub fn v_map_index<'a, K: View, V, Q: View<V = K::V> + ?Sized>(m: &'a HashMap<K, V>, k: &Q) -> (r: &'a V) requires m@.dom().contains(k@) ensures *r == m@[k@] { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { x: std::marker::PhantomData<K> }
impl<K: View> View for HashSet<K> { type V = Set<K::V>; uninterp spec fn view(&self) -> Set<K::V>; }
impl<K: View> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
impl<K: View> VFromIter<K> for HashSet<K> { open spec fn iter_ens(s: Seq<K>, r: Self) -> bool { forall|k: K::V| #[trigger] r@.contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k } #[verifier::external_body] fn v_from_iter(it: VIter<K>) -> (r: Self) { unimplemented!() } }
// The order is unspecified; every element comes once.
pub open spec fn set_order<K: View>(s: Set<K::V>, v: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains((#[trigger] v[i])@)
    &&& forall|k: K::V| s.contains(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
}
impl<K: View> VIntoIter for HashSet<K> { type Item = K; open spec fn it_ens(self, r: VIter<K>) -> bool { set_order::<K>(self@, r.src()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<K>) { unimplemented!() } }
impl<'a, K: View> VIntoIter for &'a HashSet<K> { type Item = &'a K; open spec fn it_ens(self, r: VIter<&'a K>) -> bool { exists|v: Seq<K>| #[trigger] set_order::<K>(self@, v) && ref_seq(v, r.src()) } #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<&'a K>) { unimplemented!() } }

// ---------- operators ----------
pub trait VAdd<R>: Sized { type Output; spec fn add_req(self, b: R) -> bool; spec fn add_ens(self, b: R, r: Self::Output) -> bool; fn v_add(self, b: R) -> (o: Self::Output) requires self.add_req(b) ensures self.add_ens(b, o); }
pub trait VSub<R>: Sized { type Output; spec fn sub_req(self, b: R) -> bool; spec fn sub_ens(self, b: R, r: Self::Output) -> bool; fn v_sub(self, b: R) -> (o: Self::Output) requires self.sub_req(b) ensures self.sub_ens(b, o); }
pub trait VMul<R>: Sized { type Output; spec fn mul_req(self, b: R) -> bool; spec fn mul_ens(self, b: R, r: Self::Output) -> bool; fn v_mul(self, b: R) -> (o: Self::Output) requires self.mul_req(b) ensures self.mul_ens(b, o); }
pub trait VDiv<R>: Sized { type Output; spec fn div_req(self, b: R) -> bool; spec fn div_ens(self, b: R, r: Self::Output) -> bool; fn v_div(self, b: R) -> (o: Self::Output) requires self.div_req(b) ensures self.div_ens(b, o); }
pub trait VRem<R>: Sized { type Output; spec fn rem_req(self, b: R) -> bool; spec fn rem_ens(self, b: R, r: Self::Output) -> bool; fn v_rem(self, b: R) -> (o: Self::Output) requires self.rem_req(b) ensures self.rem_ens(b, o); }
pub trait VNeg: Sized { type Output; spec fn neg_req(self) -> bool; spec fn neg_ens(self, r: Self::Output) -> bool; fn v_neg(self) -> (o: Self::Output) requires self.neg_req() ensures self.neg_ens(o); }
pub trait VCmp<R: ?Sized> { spec fn lt(&self, o: &R) -> bool; spec fn le(&self, o: &R) -> bool;
    fn v_lt(&self, o: &R) -> (r: bool) ensures r == self.lt(o); fn v_le(&self, o: &R) -> (r: bool) ensures r == self.le(o);
    fn v_gt(&self, o: &R) -> (r: bool) ensures r == !self.le(o); fn v_ge(&self, o: &R) -> (r: bool) ensures r == !self.lt(o); }
impl<'a, 'b, T: VCmp<T>> VCmp<&'b T> for &'a T { open spec fn lt(&self, o: &&'b T) -> bool { (**self).lt(*o) } open spec fn le(&self, o: &&'b T) -> bool { (**self).le(*o) }
    fn v_lt(&self, o: &&'b T) -> (r: bool) { (**self).v_lt(*o) } fn v_le(&self, o: &&'b T) -> (r: bool) { (**self).v_le(*o) } fn v_gt(&self, o: &&'b T) -> (r: bool) { (**self).v_gt(*o) } fn v_ge(&self, o: &&'b T) -> (r: bool) { (**self).v_ge(*o) } }
pub trait VEq<R: ?Sized> { spec fn eqs(&self, o: &R) -> bool; fn v_eq(&self, o: &R) -> (r: bool) ensures r == self.eqs(o); fn v_ne(&self, o: &R) -> (r: bool) ensures r == !self.eqs(o); }
impl VEq<str> for str { open spec fn eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn v_eq(&self, o: &str) -> (r: bool) { self == o } #[verifier::external_body] fn v_ne(&self, o: &str) -> (r: bool) { self != o } }
impl<'a, 'b, T: VEq<T> + ?Sized> VEq<&'b T> for &'a T { open spec fn eqs(&self, o: &&'b T) -> bool { (**self).eqs(*o) } fn v_eq(&self, o: &&'b T) -> (r: bool) { (**self).v_eq(*o) } fn v_ne(&self, o: &&'b T) -> (r: bool) { (**self).v_ne(*o) } }
pub trait VCheckedAdd: Sized { spec fn ca(self, o: Self, r: Option<Self>) -> bool; fn v_checked_add(self, o: Self) -> (r: Option<Self>) ensures self.ca(o, r); }
impl VCheckedAdd for u8 { open spec fn ca(self, o: u8, r: Option<u8>) -> bool { r == (if self + o <= u8::MAX { Some((self + o) as u8) } else { None }) } fn v_checked_add(self, o: u8) -> (r: Option<u8>) { self.checked_add(o) } }
pub trait VContains<T> { spec fn has(&self, x: &T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.has(x); }
impl<T: VEq<T>> VContains<T> for [T] {
    open spec fn has(&self, x: &T) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).eqs(x) }
    fn v_contains(&self, x: &T) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] self@[j]).eqs(x) decreases self@.len() - i { if self[i].v_eq(x) { return true; } i += 1; }
        false
    }
}
impl VAdd<u8> for u8 { type Output = u8; open spec fn add_req(self, b: u8) -> bool { u8::MIN <= self + b <= u8::MAX } open spec fn add_ens(self, b: u8, r: u8) -> bool { r == self + b } fn v_add(self, b: u8) -> (o: u8) { self + b } }
impl VSub<u8> for u8 { type Output = u8; open spec fn sub_req(self, b: u8) -> bool { u8::MIN <= self - b <= u8::MAX } open spec fn sub_ens(self, b: u8, r: u8) -> bool { r == self - b } fn v_sub(self, b: u8) -> (o: u8) { self - b } }
impl VMul<u8> for u8 { type Output = u8; open spec fn mul_req(self, b: u8) -> bool { u8::MIN <= self * b <= u8::MAX } open spec fn mul_ens(self, b: u8, r: u8) -> bool { r == self * b } fn v_mul(self, b: u8) -> (o: u8) { self * b } }
impl VDiv<u8> for u8 { type Output = u8; open spec fn div_req(self, b: u8) -> bool { b != 0 } open spec fn div_ens(self, b: u8, r: u8) -> bool { r == self / b } fn v_div(self, b: u8) -> (o: u8) { self / b } }
impl VRem<u8> for u8 { type Output = u8; open spec fn rem_req(self, b: u8) -> bool { b != 0 } open spec fn rem_ens(self, b: u8, r: u8) -> bool { r == self % b } fn v_rem(self, b: u8) -> (o: u8) { self % b } }
impl VCmp<u8> for u8 { open spec fn lt(&self, o: &u8) -> bool { *self < *o } open spec fn le(&self, o: &u8) -> bool { *self <= *o } fn v_lt(&self, o: &u8) -> (r: bool) { *self < *o } fn v_le(&self, o: &u8) -> (r: bool) { *self <= *o } fn v_gt(&self, o: &u8) -> (r: bool) { *self > *o } fn v_ge(&self, o: &u8) -> (r: bool) { *self >= *o } }
impl VEq<char> for char { open spec fn eqs(&self, o: &char) -> bool { *self == *o } fn v_eq(&self, o: &char) -> (r: bool) { *self == *o } fn v_ne(&self, o: &char) -> (r: bool) { *self != *o } }
impl VEq<u8> for u8 { open spec fn eqs(&self, o: &u8) -> bool { *self == *o } fn v_eq(&self, o: &u8) -> (r: bool) { *self == *o } fn v_ne(&self, o: &u8) -> (r: bool) { *self != *o } }
impl VAdd<u16> for u16 { type Output = u16; open spec fn add_req(self, b: u16) -> bool { u16::MIN <= self + b <= u16::MAX } open spec fn add_ens(self, b: u16, r: u16) -> bool { r == self + b } fn v_add(self, b: u16) -> (o: u16) { self + b } }
impl VSub<u16> for u16 { type Output = u16; open spec fn sub_req(self, b: u16) -> bool { u16::MIN <= self - b <= u16::MAX } open spec fn sub_ens(self, b: u16, r: u16) -> bool { r == self - b } fn v_sub(self, b: u16) -> (o: u16) { self - b } }
impl VMul<u16> for u16 { type Output = u16; open spec fn mul_req(self, b: u16) -> bool { u16::MIN <= self * b <= u16::MAX } open spec fn mul_ens(self, b: u16, r: u16) -> bool { r == self * b } fn v_mul(self, b: u16) -> (o: u16) { self * b } }
impl VDiv<u16> for u16 { type Output = u16; open spec fn div_req(self, b: u16) -> bool { b != 0 } open spec fn div_ens(self, b: u16, r: u16) -> bool { r == self / b } fn v_div(self, b: u16) -> (o: u16) { self / b } }
impl VRem<u16> for u16 { type Output = u16; open spec fn rem_req(self, b: u16) -> bool { b != 0 } open spec fn rem_ens(self, b: u16, r: u16) -> bool { r == self % b } fn v_rem(self, b: u16) -> (o: u16) { self % b } }
impl VCmp<u16> for u16 { open spec fn lt(&self, o: &u16) -> bool { *self < *o } open spec fn le(&self, o: &u16) -> bool { *self <= *o } fn v_lt(&self, o: &u16) -> (r: bool) { *self < *o } fn v_le(&self, o: &u16) -> (r: bool) { *self <= *o } fn v_gt(&self, o: &u16) -> (r: bool) { *self > *o } fn v_ge(&self, o: &u16) -> (r: bool) { *self >= *o } }
impl VEq<u16> for u16 { open spec fn eqs(&self, o: &u16) -> bool { *self == *o } fn v_eq(&self, o: &u16) -> (r: bool) { *self == *o } fn v_ne(&self, o: &u16) -> (r: bool) { *self != *o } }
impl VAdd<u32> for u32 { type Output = u32; open spec fn add_req(self, b: u32) -> bool { u32::MIN <= self + b <= u32::MAX } open spec fn add_ens(self, b: u32, r: u32) -> bool { r == self + b } fn v_add(self, b: u32) -> (o: u32) { self + b } }
impl VSub<u32> for u32 { type Output = u32; open spec fn sub_req(self, b: u32) -> bool { u32::MIN <= self - b <= u32::MAX } open spec fn sub_ens(self, b: u32, r: u32) -> bool { r == self - b } fn v_sub(self, b: u32) -> (o: u32) { self - b } }
impl VMul<u32> for u32 { type Output = u32; open spec fn mul_req(self, b: u32) -> bool { u32::MIN <= self * b <= u32::MAX } open spec fn mul_ens(self, b: u32, r: u32) -> bool { r == self * b } fn v_mul(self, b: u32) -> (o: u32) { self * b } }
impl VDiv<u32> for u32 { type Output = u32; open spec fn div_req(self, b: u32) -> bool { b != 0 } open spec fn div_ens(self, b: u32, r: u32) -> bool { r == self / b } fn v_div(self, b: u32) -> (o: u32) { self / b } }
impl VRem<u32> for u32 { type Output = u32; open spec fn rem_req(self, b: u32) -> bool { b != 0 } open spec fn rem_ens(self, b: u32, r: u32) -> bool { r == self % b } fn v_rem(self, b: u32) -> (o: u32) { self % b } }
impl VCmp<u32> for u32 { open spec fn lt(&self, o: &u32) -> bool { *self < *o } open spec fn le(&self, o: &u32) -> bool { *self <= *o } fn v_lt(&self, o: &u32) -> (r: bool) { *self < *o } fn v_le(&self, o: &u32) -> (r: bool) { *self <= *o } fn v_gt(&self, o: &u32) -> (r: bool) { *self > *o } fn v_ge(&self, o: &u32) -> (r: bool) { *self >= *o } }
impl VEq<u32> for u32 { open spec fn eqs(&self, o: &u32) -> bool { *self == *o } fn v_eq(&self, o: &u32) -> (r: bool) { *self == *o } fn v_ne(&self, o: &u32) -> (r: bool) { *self != *o } }
impl VAdd<usize> for usize { type Output = usize; open spec fn add_req(self, b: usize) -> bool { usize::MIN <= self + b <= usize::MAX } open spec fn add_ens(self, b: usize, r: usize) -> bool { r == self + b } fn v_add(self, b: usize) -> (o: usize) { self + b } }
impl VSub<usize> for usize { type Output = usize; open spec fn sub_req(self, b: usize) -> bool { usize::MIN <= self - b <= usize::MAX } open spec fn sub_ens(self, b: usize, r: usize) -> bool { r == self - b } fn v_sub(self, b: usize) -> (o: usize) { self - b } }
impl VMul<usize> for usize { type Output = usize; open spec fn mul_req(self, b: usize) -> bool { usize::MIN <= self * b <= usize::MAX } open spec fn mul_ens(self, b: usize, r: usize) -> bool { r == self * b } fn v_mul(self, b: usize) -> (o: usize) { self * b } }
impl VDiv<usize> for usize { type Output = usize; open spec fn div_req(self, b: usize) -> bool { b != 0 } open spec fn div_ens(self, b: usize, r: usize) -> bool { r == self / b } fn v_div(self, b: usize) -> (o: usize) { self / b } }
impl VRem<usize> for usize { type Output = usize; open spec fn rem_req(self, b: usize) -> bool { b != 0 } open spec fn rem_ens(self, b: usize, r: usize) -> bool { r == self % b } fn v_rem(self, b: usize) -> (o: usize) { self % b } }
impl VCmp<usize> for usize { open spec fn lt(&self, o: &usize) -> bool { *self < *o } open spec fn le(&self, o: &usize) -> bool { *self <= *o } fn v_lt(&self, o: &usize) -> (r: bool) { *self < *o } fn v_le(&self, o: &usize) -> (r: bool) { *self <= *o } fn v_gt(&self, o: &usize) -> (r: bool) { *self > *o } fn v_ge(&self, o: &usize) -> (r: bool) { *self >= *o } }
impl VEq<usize> for usize { open spec fn eqs(&self, o: &usize) -> bool { *self == *o } fn v_eq(&self, o: &usize) -> (r: bool) { *self == *o } fn v_ne(&self, o: &usize) -> (r: bool) { *self != *o } }
impl VAdd<i64> for i64 { type Output = i64; open spec fn add_req(self, b: i64) -> bool { i64::MIN <= self + b <= i64::MAX } open spec fn add_ens(self, b: i64, r: i64) -> bool { r == self + b } fn v_add(self, b: i64) -> (o: i64) { self + b } }
impl VSub<i64> for i64 { type Output = i64; open spec fn sub_req(self, b: i64) -> bool { i64::MIN <= self - b <= i64::MAX } open spec fn sub_ens(self, b: i64, r: i64) -> bool { r == self - b } fn v_sub(self, b: i64) -> (o: i64) { self - b } }
impl VMul<i64> for i64 { type Output = i64; open spec fn mul_req(self, b: i64) -> bool { i64::MIN <= self * b <= i64::MAX } open spec fn mul_ens(self, b: i64, r: i64) -> bool { r == self * b } fn v_mul(self, b: i64) -> (o: i64) { self * b } }
impl VCmp<i64> for i64 { open spec fn lt(&self, o: &i64) -> bool { *self < *o } open spec fn le(&self, o: &i64) -> bool { *self <= *o } fn v_lt(&self, o: &i64) -> (r: bool) { *self < *o } fn v_le(&self, o: &i64) -> (r: bool) { *self <= *o } fn v_gt(&self, o: &i64) -> (r: bool) { *self > *o } fn v_ge(&self, o: &i64) -> (r: bool) { *self >= *o } }
impl VEq<i64> for i64 { open spec fn eqs(&self, o: &i64) -> bool { *self == *o } fn v_eq(&self, o: &i64) -> (r: bool) { *self == *o } fn v_ne(&self, o: &i64) -> (r: bool) { *self != *o } }
impl VNeg for i64 { type Output = i64; open spec fn neg_req(self) -> bool { self != i64::MIN } open spec fn neg_ens(self, r: i64) -> bool { r == -self } fn v_neg(self) -> (o: i64) { -self } }


// ---- the terminal's output ----
#[verifier::external_body]
pub struct Stdout { x: () }
#[verifier::external_body]
pub fn stdout() -> (r: Stdout) { unimplemented!() }
impl Stdout { #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), io::Error>) ensures io::real(r) { unimplemented!() } }
pub trait Write { }
pub mod iter {
    use vstd::prelude::*;
    verus! {
    pub open spec fn times(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { times(s, (n - 1) as nat) + s } }
    pub proof fn times_len(s: Seq<char>, n: nat)
        ensures times(s, n).len() == s.len() * n, crate::specs::ascii(s) ==> crate::specs::ascii(times(s, n))
        decreases n
    { if n > 0 { times_len(s, (n - 1) as nat); assert(s.len() * n == s.len() * (n - 1) + s.len()) by (nonlinear_arith) requires n > 0; assert(times(s, n).len() == times(s, (n - 1) as nat).len() + s.len()); } else { assert(s.len() * 0 == 0) by (nonlinear_arith); } }
    #[verifier::external_body]
    pub struct Repeat { x: () }
    impl Repeat {
        pub uninterp spec fn what(&self) -> Seq<char>;
        pub uninterp spec fn n(&self) -> int;
        #[verifier::external_body]
        pub fn take(self, n: usize) -> (r: Repeat) ensures r.what() == self.what(), r.n() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn collect(self) -> (r: String) requires self.n() >= 0 ensures r@ == times(self.what(), self.n() as nat) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn repeat(s: &str) -> (r: Repeat) ensures r.what() == s@, r.n() == -1 { unimplemented!() }
    }
}

// ---- the environment and the file system, as far as opening the saved data needs them ----
pub mod env {
    use vstd::prelude::*;
    verus! {
    pub enum VarError { NotPresent, NotUnicode(u8) }
    #[verifier::external_body]
    pub fn var(name: &str) -> (r: Result<String, VarError>) { unimplemented!() }
    }
}
pub mod io {
    use vstd::prelude::*;
    verus! {
    pub enum ErrorKind { AlreadyExists, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o } }
    impl PartialEq for ErrorKind { fn eq(&self, o: &ErrorKind) -> bool { match (self, o) { (ErrorKind::AlreadyExists, ErrorKind::AlreadyExists) | (ErrorKind::Other, ErrorKind::Other) => true, _ => false } } }
    pub struct Error { pub there: bool } // `there`: what was to be made exists already
    pub open spec fn real<T>(r: Result<T, Error>) -> bool { r is Err ==> !(r->Err_0).there }
    impl Error { pub fn kind(&self) -> (r: ErrorKind) ensures r == (if self.there { ErrorKind::AlreadyExists } else { ErrorKind::Other }) { if self.there { ErrorKind::AlreadyExists } else { ErrorKind::Other } } }
    }
}
impl VFrom<env::VarError> for BoxError { open spec fn from_ens(t: env::VarError, r: BoxError) -> bool { outside(r) } #[verifier::external_body] fn v_from(t: env::VarError) -> (r: BoxError) { unimplemented!() } }
impl VFrom<io::Error> for BoxError { open spec fn from_ens(t: io::Error, r: BoxError) -> bool { !t.there ==> outside(r) } #[verifier::external_body] fn v_from(t: io::Error) -> (r: BoxError) { unimplemented!() } }
#[verifier::external_body]
pub struct Path { x: () }
#[verifier::external_body]
pub struct PathBuf { x: () }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Path {
    #[verifier::external_body] pub fn new(s: &str) -> (r: &Path) { unimplemented!() }
    #[verifier::external_body] pub fn v_join(&self, s: &str) -> (r: PathBuf) { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn v_join(&self, s: &str) -> (r: PathBuf) { unimplemented!() } }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn create_dir(p: PathBuf) -> (r: Result<(), io::Error>) { unimplemented!() }
}
