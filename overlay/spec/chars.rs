// ---- trusted stand-in for Peekable<CharIndices> (std only, no yamd code) ----
#[verifier::external_body]
pub struct CharPeek<'a> { it: std::iter::Peekable<std::str::CharIndices<'a>> }

/// the char c is encoded in bytes a..b of src
pub open spec fn char_in(src: Seq<u8>, a: int, b: int, c: char) -> bool {
    0 <= a < b <= src.len() && src.len() <= isize::MAX
    && is_char_boundary(src, a) && is_char_boundary(src, b)
    && if (c as u32) < 0x80 { b == a + 1 && src[a] as u32 == c as u32 }
       else { src[a] >= 0xc0 && cont_bytes(src, a + 1, b) }
}
pub open spec fn cont_bytes(src: Seq<u8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> 0x80 <= #[trigger] src[k] < 0xc0 }
impl<'a> CharPeek<'a> {
    pub uninterp spec fn src(&self) -> Seq<u8>;
    /// bytes consumed so far
    pub uninterp spec fn off(&self) -> int;
    #[verifier::external_body]
    pub fn new(s: &'a str) -> (r: Self)
        ensures r.src() == sb(s@), r.off() == 0, sb(s@).len() <= isize::MAX, is_char_boundary(sb(s@), 0), is_char_boundary(sb(s@), sb(s@).len() as int),
    { CharPeek { it: s.char_indices().peekable() } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            final(self).src() == old(self).src(),
            match r {
                None => old(self).off() == old(self).src().len() && final(self).off() == old(self).off(),
                Some((i, c)) => i == old(self).off() && char_in(old(self).src(), old(self).off(), final(self).off(), c),
            },
    { self.it.next() }
    #[verifier::external_body]
    // Peekable::peek takes &mut self, to fill its cache: neither src nor off depends on the cache
    pub fn peek(&self) -> (r: Option<&(usize, char)>)
        ensures
            match r {
                None => self.off() == self.src().len(),
                Some(x) => x.0 == self.off() && exists|b: int| char_in(self.src(), self.off(), b, x.1),
            },
    { unimplemented!() }
}
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::is_empty ](v: &std::collections::VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, value: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(value);
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::back ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { None => v@.len() == 0, Some(x) => v@.len() > 0 && *x == v@.last() };
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::front ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { None => v@.len() == 0, Some(x) => v@.len() > 0 && *x == v@[0] };
pub open spec fn ascii_digit(c: char) -> bool { 0x30 <= c as u32 <= 0x39 }
pub open spec fn ascii_alpha(c: char) -> bool { 0x41 <= c as u32 <= 0x5a || 0x61 <= c as u32 <= 0x7a }
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 128);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures r == ascii_digit(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool)
    ensures r == ascii_alpha(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool)
    ensures r == (ascii_alpha(*c) || ascii_digit(*c));
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool)
    ensures r == (0x21 <= *c as u32 <= 0x7e && !ascii_alpha(*c) && !ascii_digit(*c));
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
    ensures r == (*c as u32 == 0x20 || *c as u32 == 0x9 || *c as u32 == 0xa || *c as u32 == 0xc || *c as u32 == 0xd);
pub assume_specification[ char::is_control ](c: char) -> (r: bool)
    ensures r == ((c as u32) < 0x20 || 0x7f <= c as u32 <= 0x9f);
/// Unicode's tables: only their ASCII part is known
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub uninterp spec fn uni_num(c: char) -> bool;
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool)
    ensures r == uni_alpha(c), (c as u32) < 128 ==> r == ascii_alpha(c);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool)
    ensures r == uni_num(c), (c as u32) < 128 ==> r == ascii_digit(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool)
    ensures r == (uni_alpha(c) || uni_num(c)), (c as u32) < 128 ==> r == (ascii_alpha(c) || ascii_digit(c));
