// ---- trusted contracts on the Rust standard library (no yamd code here) ----
pub use std::ops::Range;
pub use vstd::utf8::*;
use vstd::std_specs::cmp::*;

pub open spec fn rlen(r: Range<usize>) -> int { if r.start <= r.end { r.end - r.start } else { 0 } }

/// bytes of a string
pub open spec fn sb(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }

/// `unreachable!()`, `panic!()`: must be proved unreachable
#[verifier::external_body]
pub fn vf_unreachable() -> !
    requires false,
{ unreachable!() }

/// `&s[a..b]` on str (panics unless in bounds and on char boundaries), on slices and on Vec (panics unless in bounds)
pub trait VfIdx {
    type Out: ?Sized;
    spec fn vf_idx_ok(&self, a: int, b: int) -> bool;
    spec fn vf_idx_is(&self, a: int, b: int, x: &Self::Out) -> bool;
    spec fn vf_idx_len(&self) -> int;
    fn vf_idx(&self, r: Range<usize>) -> (x: &Self::Out)
        requires r.start <= r.end, self.vf_idx_ok(r.start as int, r.end as int),
        ensures self.vf_idx_is(r.start as int, r.end as int, x);
}
impl VfIdx for str {
    type Out = str;
    open spec fn vf_idx_ok(&self, a: int, b: int) -> bool { b <= sb(self@).len() && is_char_boundary(sb(self@), a) && is_char_boundary(sb(self@), b) }
    open spec fn vf_idx_is(&self, a: int, b: int, x: &str) -> bool { sb(x@) == sb(self@).subrange(a, b) }
    open spec fn vf_idx_len(&self) -> int { sb(self@).len() as int }
    #[verifier::external_body]
    fn vf_idx(&self, r: Range<usize>) -> (x: &str) { &self[r] }
}
impl<T> VfIdx for [T] {
    type Out = [T];
    open spec fn vf_idx_ok(&self, a: int, b: int) -> bool { b <= self@.len() }
    open spec fn vf_idx_is(&self, a: int, b: int, x: &[T]) -> bool { x@ == self@.subrange(a, b) }
    open spec fn vf_idx_len(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vf_idx(&self, r: Range<usize>) -> (x: &[T]) { &self[r] }
}
impl<T, const N: usize> VfIdx for [T; N] {
    type Out = [T];
    open spec fn vf_idx_ok(&self, a: int, b: int) -> bool { b <= N }
    open spec fn vf_idx_is(&self, a: int, b: int, x: &[T]) -> bool { x@ == self@.subrange(a, b) }
    open spec fn vf_idx_len(&self) -> int { N as int }
    #[verifier::external_body]
    fn vf_idx(&self, r: Range<usize>) -> (x: &[T]) { &self[r] }
}
impl<T> VfIdx for Vec<T> {
    type Out = [T];
    open spec fn vf_idx_ok(&self, a: int, b: int) -> bool { b <= self@.len() }
    open spec fn vf_idx_is(&self, a: int, b: int, x: &[T]) -> bool { x@ == self@.subrange(a, b) }
    open spec fn vf_idx_len(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn vf_idx(&self, r: Range<usize>) -> (x: &[T]) { &self[r] }
}

/// `std::mem::take`
pub trait VfTake: Sized {
    spec fn vf_is_default(&self) -> bool;
    fn vf_take(o: &mut Self) -> (r: Self)
        ensures r == *old(o), final(o).vf_is_default();
}
impl<T> VfTake for Vec<T> {
    open spec fn vf_is_default(&self) -> bool { self@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn vf_take(o: &mut Self) -> (r: Self) { std::mem::take(o) }
}
impl VfTake for String {
    open spec fn vf_is_default(&self) -> bool { self@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn vf_take(o: &mut Self) -> (r: Self) { std::mem::take(o) }
}
impl VfTake for bool {
    open spec fn vf_is_default(&self) -> bool { *self == false }
    #[verifier::external_body]
    fn vf_take(o: &mut Self) -> (r: Self) { std::mem::take(o) }
}
impl VfTake for usize {
    open spec fn vf_is_default(&self) -> bool { *self == 0 }
    #[verifier::external_body]
    fn vf_take(o: &mut Self) -> (r: Self) { std::mem::take(o) }
}
impl<T> VfTake for Option<T> {
    open spec fn vf_is_default(&self) -> bool { *self is None }
    #[verifier::external_body]
    fn vf_take(o: &mut Self) -> (r: Self) { std::mem::take(o) }
}
pub assume_specification<T>[ std::mem::replace::<T> ](o: &mut T, v: T) -> (r: T)
    ensures r == *old(o), *final(o) == v;

/// `String::push_str`
pub fn vf_push(s: &mut String, x: &str)
    ensures sb(final(s)@) == sb(old(s)@) + sb(x@), final(s)@ == old(s)@ + x@,
{ s.push_str(x); proof { encode_utf8_concat(old(s)@, x@); } }

pub proof fn encode_utf8_concat_all()
    ensures forall|s: Seq<char>, t: Seq<char>| #[trigger] sb(s + t) == sb(s) + sb(t),
{ assert forall|s: Seq<char>, t: Seq<char>| #[trigger] sb(s + t) == sb(s) + sb(t) by { encode_utf8_concat(s, t); } }

pub proof fn axiom_sb_empty() ensures sb(Seq::<char>::empty()) == Seq::<u8>::empty() {}

pub assume_specification<Idx: PartialOrd>[ Range::<Idx>::is_empty ](r: &Range<Idx>) -> (b: bool) where Idx: PartialOrd
    ensures b == !(r.start.partial_cmp_spec(&r.end) == Some(std::cmp::Ordering::Less));
pub assume_specification<Idx: Clone>[ <Range<Idx> as Clone>::clone ](r: &Range<Idx>) -> (b: Range<Idx>)
    ensures cloned(r.start, b.start), cloned(r.end, b.end);

/// no Rust object is larger than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str) ensures sb(s@).len() <= isize::MAX {}

#[verifier::external_body]
pub fn vf_get_or_insert<T>(o: &mut Option<T>, value: T)
    ensures *final(o) == (match *old(o) { Some(x) => Some(x), None => Some(value) }),
{ o.get_or_insert(value); }

/// `str::chars`, collected
#[verifier::external_body]
pub fn vf_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@,
{ s.chars().collect() }

pub open spec fn trim_end_b(t: Seq<u8>, c: u8) -> Seq<u8>
    decreases t.len(),
{ if t.len() > 0 && t.last() == c { trim_end_b(t.drop_last(), c) } else { t } }
pub open spec fn trim_start_b(t: Seq<u8>, c: u8) -> Seq<u8>
    decreases t.len(),
{ if t.len() > 0 && t[0] == c { trim_start_b(t.subrange(1, t.len() as int), c) } else { t } }
pub open spec fn trim_b(t: Seq<u8>, c: u8) -> Seq<u8> { trim_end_b(trim_start_b(t, c), c) }

/// str::trim_matches and friends, for an ASCII character
pub trait VfStr {
    spec fn vf_bytes(&self) -> Seq<u8>;
    fn vf_trim_end_matches(&self, c: char) -> (r: &str)
        requires (c as u32) < 128,
        ensures sb(r@) == trim_end_b(self.vf_bytes(), c as u32 as u8);
    fn vf_trim_start_matches(&self, c: char) -> (r: &str)
        requires (c as u32) < 128,
        ensures sb(r@) == trim_start_b(self.vf_bytes(), c as u32 as u8);
    fn vf_trim_matches(&self, c: char) -> (r: &str)
        requires (c as u32) < 128,
        ensures sb(r@) == trim_b(self.vf_bytes(), c as u32 as u8);
}
impl VfStr for str {
    open spec fn vf_bytes(&self) -> Seq<u8> { sb(self@) }
    #[verifier::external_body]
    fn vf_trim_end_matches(&self, c: char) -> (r: &str) { self.trim_end_matches(c) }
    #[verifier::external_body]
    fn vf_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body]
    fn vf_trim_matches(&self, c: char) -> (r: &str) { self.trim_matches(c) }
}
/// `Vec::extend` with a Vec
#[verifier::external_body]
pub fn vf_extend<T>(v: &mut Vec<T>, o: Vec<T>)
    ensures final(v)@ == old(v)@ + o@,
{ v.extend(o) }
/// `str::is_empty`, in bytes
pub proof fn lemma_sb_empty_iff(s: Seq<char>)
    ensures sb(s).len() == 0 <==> s.len() == 0,
{
    if s.len() > 0 { assert(encode_scalar(s[0] as u32).len() > 0); }
}
pub broadcast proof fn bl_sb_empty(s: Seq<char>)
    ensures (#[trigger] encode_utf8(s)).len() == 0 <==> s.len() == 0,
{ lemma_sb_empty_iff(s); }
/// `len()` of a local compared with 0
pub trait VfLen {
    spec fn vf_len_is(&self) -> int;
    fn vf_len(&self) -> (r: usize)
        ensures r == self.vf_len_is(), r == 0 <==> self.vf_len_is() == 0;
}
impl VfLen for str { open spec fn vf_len_is(&self) -> int { encode_utf8(self@).len() as int } #[verifier::external_body] fn vf_len(&self) -> (r: usize) { self.len() } }
impl VfLen for String { open spec fn vf_len_is(&self) -> int { encode_utf8(self@).len() as int } #[verifier::external_body] fn vf_len(&self) -> (r: usize) { self.len() } }
impl<T> VfLen for Vec<T> { open spec fn vf_len_is(&self) -> int { self@.len() as int } fn vf_len(&self) -> (r: usize) { self.len() } }
impl<T> VfLen for [T] { open spec fn vf_len_is(&self) -> int { self@.len() as int } fn vf_len(&self) -> (r: usize) { self.len() } }
impl VfLen for Range<usize> { open spec fn vf_len_is(&self) -> int { rlen(*self) } #[verifier::external_body] fn vf_len(&self) -> (r: usize) { self.len() } }
impl<T> VfLen for std::collections::VecDeque<T> { open spec fn vf_len_is(&self) -> int { self@.len() as int } #[verifier::external_body] fn vf_len(&self) -> (r: usize) { self.len() } }
