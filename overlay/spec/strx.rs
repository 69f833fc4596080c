// ---- trusted contracts on std's str functions (no yamd code here) ----
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
/// p is in s at character i
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// char::is_whitespace
pub open spec fn is_ws(c: char) -> bool {
    let x = c as u32;
    0x9 <= x <= 0xd || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || 0x2000 <= x <= 0x200a || x == 0x2028 || x == 0x2029 || x == 0x202f || x == 0x205f || x == 0x3000
}
pub open spec fn trim_end_ws(t: Seq<char>) -> Seq<char>
    decreases t.len(),
{ if t.len() > 0 && is_ws(t.last()) { trim_end_ws(t.drop_last()) } else { t } }
pub open spec fn trim_start_ws(t: Seq<char>) -> Seq<char>
    decreases t.len(),
{ if t.len() > 0 && is_ws(t[0]) { trim_start_ws(t.drop_first()) } else { t } }
/// r is the byte offset of the first occurrence
pub open spec fn found(s: Seq<char>, p: Seq<char>, r: Option<usize>) -> bool {
    match r {
        None => forall|i: int| !#[trigger] occurs(s, p, i),
        Some(k) => k <= sb(s).len() && is_char_boundary(sb(s), k as int)
            && exists|i: int| #[trigger] occurs(s, p, i) && k == sb(s.subrange(0, i)).len() && forall|j: int| 0 <= j < i ==> !#[trigger] occurs(s, p, j),
    }
}
/// every occurrence of p, leftmost first and not overlapping, becomes q
pub open spec fn subst(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if p.len() > 0 && has_prefix(s, p) { q + subst(s.subrange(p.len() as int, s.len() as int), p, q) }
    else { seq![s[0]] + subst(s.drop_first(), p, q) }
}
/// the first n occurrences only
pub open spec fn substn(s: Seq<char>, p: Seq<char>, q: Seq<char>, n: int) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || n <= 0 { s }
    else if p.len() > 0 && has_prefix(s, p) { q + substn(s.subrange(p.len() as int, s.len() as int), p, q, n - 1) }
    else { seq![s[0]] + substn(s.drop_first(), p, q, n) }
}
/// r is the byte offset of the last occurrence
pub open spec fn found_last(s: Seq<char>, p: Seq<char>, r: Option<usize>) -> bool {
    match r {
        None => forall|i: int| !#[trigger] occurs(s, p, i),
        Some(k) => k <= sb(s).len() && is_char_boundary(sb(s), k as int)
            && exists|i: int| #[trigger] occurs(s, p, i) && k == sb(s.subrange(0, i)).len() && forall|j: int| i < j ==> !#[trigger] occurs(s, p, j),
    }
}
pub proof fn lemma_subst_none(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires p.len() > 0, forall|i: int| !#[trigger] occurs(s, p, i),
    ensures subst(s, p, q) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert(!occurs(s, p, 0));
        assert forall|i: int| !#[trigger] occurs(t, p, i) by { if occurs(t, p, i) { assert(t.subrange(i, i + p.len()) =~= s.subrange(i + 1, i + 1 + p.len())); assert(occurs(s, p, i + 1)); } }
        lemma_subst_none(t, p, q);
        assert(seq![s[0]] + t =~= s);
    }
}
#[verifier::external_body]
fn str_contains(s: &str, p: &str) -> (r: bool) ensures r == exists|i: int| #[trigger] occurs(s@, p@, i) { s.contains(p) }
#[verifier::external_body]
fn str_contains_char(s: &str, p: char) -> (r: bool) ensures r == s@.contains(p) { s.contains(p) }
#[verifier::external_body]
fn str_starts_with(s: &str, p: &str) -> (r: bool) ensures r == has_prefix(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
fn str_ends_with(s: &str, p: &str) -> (r: bool) ensures r == has_suffix(s@, p@) { s.ends_with(p) }
pub trait VfStrX {
    spec fn vf_str(&self) -> Seq<char>;
    fn vf_starts_with(&self, p: &str) -> (r: bool) ensures r == has_prefix(self.vf_str(), p@), p@.len() == 1 ==> r == (self.vf_str().len() > 0 && self.vf_str()[0] == p@[0]);
    fn vf_ends_with(&self, p: &str) -> (r: bool) ensures r == has_suffix(self.vf_str(), p@), p@.len() == 1 ==> r == (self.vf_str().len() > 0 && self.vf_str().last() == p@[0]);
    fn vf_contains(&self, p: &str) -> (r: bool)
        ensures
            r == exists|i: int| #[trigger] occurs(self.vf_str(), p@, i),
            p@.len() == 1 ==> r == self.vf_str().contains(p@[0]),
            !r && p@.len() > 0 ==> forall|q: Seq<char>| #[trigger] subst(self.vf_str(), p@, q) == self.vf_str();
    fn vf_find(&self, p: &str) -> (r: Option<usize>) ensures found(self.vf_str(), p@, r);
    fn vf_strip_prefix(&self, p: &str) -> (r: Option<&str>)
        ensures match r { None => !has_prefix(self.vf_str(), p@), Some(x) => has_prefix(self.vf_str(), p@) && x@ == self.vf_str().subrange(p@.len() as int, self.vf_str().len() as int) };
    fn vf_strip_suffix(&self, p: &str) -> (r: Option<&str>)
        ensures match r { None => !has_suffix(self.vf_str(), p@), Some(x) => has_suffix(self.vf_str(), p@) && x@ == self.vf_str().subrange(0, self.vf_str().len() - p@.len()) };
    fn vf_starts_with_char(&self, p: char) -> (r: bool) ensures r == (self.vf_str().len() > 0 && self.vf_str()[0] == p);
    fn vf_ends_with_char(&self, p: char) -> (r: bool) ensures r == (self.vf_str().len() > 0 && self.vf_str().last() == p);
    fn vf_contains_char(&self, p: char) -> (r: bool)
        ensures
            r == self.vf_str().contains(p),
            !r ==> forall|q: Seq<char>, k: Seq<char>| k.len() == 1 && k[0] == p ==> #[trigger] subst(self.vf_str(), k, q) == self.vf_str();
    fn vf_find_char(&self, p: char) -> (r: Option<usize>) ensures found(self.vf_str(), seq![p], r);
    fn vf_strip_prefix_char(&self, p: char) -> (r: Option<&str>)
        ensures match r { None => !(self.vf_str().len() > 0 && self.vf_str()[0] == p), Some(x) => self.vf_str().len() > 0 && self.vf_str()[0] == p && x@ == self.vf_str().drop_first() };
    fn vf_strip_suffix_char(&self, p: char) -> (r: Option<&str>)
        ensures match r { None => !(self.vf_str().len() > 0 && self.vf_str().last() == p), Some(x) => self.vf_str().len() > 0 && self.vf_str().last() == p && x@ == self.vf_str().drop_last() };
    fn vf_rfind(&self, p: &str) -> (r: Option<usize>) ensures found_last(self.vf_str(), p@, r);
    fn vf_rfind_char(&self, p: char) -> (r: Option<usize>) ensures found_last(self.vf_str(), seq![p], r);
    fn vf_replace(&self, p: &str, q: &str) -> (r: String)
        requires p@.len() > 0,
        ensures r@ == subst(self.vf_str(), p@, q@);
    fn vf_replace_char(&self, p: char, q: &str) -> (r: String) ensures r@ == subst(self.vf_str(), seq![p], q@);
    fn vf_replacen(&self, p: &str, q: &str, n: usize) -> (r: String)
        requires p@.len() > 0,
        ensures r@ == substn(self.vf_str(), p@, q@, n as int);
    fn vf_replacen_char(&self, p: char, q: &str, n: usize) -> (r: String) ensures r@ == substn(self.vf_str(), seq![p], q@, n as int);
    fn vf_trim(&self) -> (r: &str) ensures r@ == trim_end_ws(trim_start_ws(self.vf_str()));
    fn vf_trim_start(&self) -> (r: &str) ensures r@ == trim_start_ws(self.vf_str());
    fn vf_trim_end(&self) -> (r: &str) ensures r@ == trim_end_ws(self.vf_str());
    fn vf_char_count(&self) -> (r: usize) ensures r == self.vf_str().len();
}
impl VfStrX for str {
    open spec fn vf_str(&self) -> Seq<char> { self@ }
    fn vf_starts_with(&self, p: &str) -> (r: bool) {
        let r = str_starts_with(self, p);
        proof { let (s, k) = (self@, p@); if k.len() == 1 && s.len() > 0 { assert(s.subrange(0, 1) =~= seq![s[0]]); assert(k =~= seq![k[0]]); assert(seq![s[0]][0] == s[0]); } }
        r
    }
    fn vf_ends_with(&self, p: &str) -> (r: bool) {
        let r = str_ends_with(self, p);
        proof { let (s, k) = (self@, p@); if k.len() == 1 && s.len() > 0 { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![s.last()]); assert(k =~= seq![k[0]]); assert(seq![s.last()][0] == s.last()); } }
        r
    }
    fn vf_contains(&self, p: &str) -> (r: bool) {
        let r = str_contains(self, p);
        proof {
            let (s, k) = (self@, p@);
            if k.len() == 1 {
                assert forall|i: int| #[trigger] occurs(s, k, i) == (0 <= i < s.len() && s[i] == k[0]) by { if 0 <= i < s.len() { assert(s.subrange(i, i + 1) =~= seq![s[i]]); assert(k =~= seq![k[0]]); assert(seq![s[i]][0] == s[i]); } }
                if s.contains(k[0]) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k[0]; assert(occurs(s, k, i)); }
            }
            if !r && k.len() > 0 { assert forall|q: Seq<char>| #[trigger] subst(s, k, q) == s by { lemma_subst_none(s, k, q); } }
        }
        r
    }
    #[verifier::external_body]
    fn vf_find(&self, p: &str) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body]
    fn vf_strip_prefix(&self, p: &str) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body]
    fn vf_strip_suffix(&self, p: &str) -> (r: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body]
    fn vf_starts_with_char(&self, p: char) -> (r: bool) { self.starts_with(p) }
    #[verifier::external_body]
    fn vf_ends_with_char(&self, p: char) -> (r: bool) { self.ends_with(p) }
    fn vf_contains_char(&self, p: char) -> (r: bool) {
        let r = str_contains_char(self, p);
        proof {
            let s = self@;
            if !r {
                assert forall|q: Seq<char>, k: Seq<char>| k.len() == 1 && k[0] == p implies #[trigger] subst(s, k, q) == s by {
                    assert forall|i: int| !#[trigger] occurs(s, k, i) by { if occurs(s, k, i) { assert(s.subrange(i, i + 1)[0] == s[i]); } }
                    lemma_subst_none(s, k, q);
                }
            }
        }
        r
    }
    #[verifier::external_body]
    fn vf_find_char(&self, p: char) -> (r: Option<usize>) { self.find(p) }
    #[verifier::external_body]
    fn vf_strip_prefix_char(&self, p: char) -> (r: Option<&str>) { self.strip_prefix(p) }
    #[verifier::external_body]
    fn vf_strip_suffix_char(&self, p: char) -> (r: Option<&str>) { self.strip_suffix(p) }
    #[verifier::external_body]
    fn vf_rfind(&self, p: &str) -> (r: Option<usize>) { self.rfind(p) }
    #[verifier::external_body]
    fn vf_rfind_char(&self, p: char) -> (r: Option<usize>) { self.rfind(p) }
    #[verifier::external_body]
    fn vf_replace(&self, p: &str, q: &str) -> (r: String) { self.replace(p, q) }
    #[verifier::external_body]
    fn vf_replace_char(&self, p: char, q: &str) -> (r: String) { self.replace(p, q) }
    #[verifier::external_body]
    fn vf_replacen(&self, p: &str, q: &str, n: usize) -> (r: String) { self.replacen(p, q, n) }
    #[verifier::external_body]
    fn vf_replacen_char(&self, p: char, q: &str, n: usize) -> (r: String) { self.replacen(p, q, n) }
    #[verifier::external_body]
    fn vf_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vf_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body]
    fn vf_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body]
    fn vf_char_count(&self) -> (r: usize) { self.chars().count() }
}
pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures r == sb(s@).len(), r == 0 <==> s@.len() == 0;
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures r@ == sb(s@), s@.len() > 0 ==> r@.len() > 0 && ascii_end(r@.last(), s@.last()) && ascii_end(r@[0], s@[0]);
/// UTF-8: an ASCII byte at either end of a text is the character at that end
pub open spec fn ascii_end(b: u8, c: char) -> bool { ((c as u32) < 128 ==> b == c as u32) && (b < 128 ==> b == c as u32) }
