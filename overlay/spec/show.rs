// ---- printing ----
use crate::nodes::*;

pub struct VfError;
/// stand-in for std::fmt::Formatter writing into a String (which never fails)
pub struct VfFmt { pub s: String }
impl VfFmt {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { VfFmt { s: String::new() } }
    pub fn into_string(self) -> (r: String) ensures r@ == self@ { self.s }
    pub fn write_lit(&mut self, x: &str) ensures final(self)@ == old(self)@ + x@ { self.s.push_str(x); }
    pub fn write_shown(&mut self, x: String) ensures final(self)@ == old(self)@ + x@ { self.s.push_str(x.as_str()); }
    pub fn write_str(&mut self, x: &str) -> (r: Result<(), VfError>) ensures r is Ok, final(self)@ == old(self)@ + x@ { self.s.push_str(x); Ok(()) }
    pub fn write_char(&mut self, x: char) -> (r: Result<(), VfError>) ensures r is Ok, final(self)@ == old(self)@.push(x) { self.s.push(x); Ok(()) }
}
pub fn vf_lit(f: &mut VfFmt, x: &str) -> (r: Result<(), VfError>) ensures r is Ok, final(f)@ == old(f)@ + x@ { f.s.push_str(x); Ok(()) }

/// Display of str and String
pub trait VfShow {
    spec fn shown(&self) -> Seq<char>;
    fn fmt(&self, f: &mut VfFmt) -> (r: Result<(), VfError>)
        ensures r is Ok, final(f)@ == old(f)@ + self.shown();
    fn vf_to_string(&self) -> (r: String)
        ensures r@ == self.shown();
}
impl VfShow for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut VfFmt) -> (r: Result<(), VfError>) { f.write_str(self) }
    fn vf_to_string(&self) -> (r: String) { let mut s = String::new(); s.push_str(self); proof { assert(s@ =~= self@); } s }
}
impl VfShow for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn fmt(&self, f: &mut VfFmt) -> (r: Result<(), VfError>) { f.write_str(self.as_str()) }
    fn vf_to_string(&self) -> (r: String) { self.as_str().vf_to_string() }
}

/// every character among cs gets a backslash in front
pub open spec fn esc(s: Seq<char>, cs: Set<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { s }
    else if cs.contains(s[0]) { seq!['\\', s[0]] + esc(s.drop_first(), cs) }
    else { seq![s[0]] + esc(s.drop_first(), cs) }
}
pub open spec fn rep(s: Seq<char>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { rep(s, n - 1) + s } }
/// the first n, joined
pub open spec fn joined(v: Seq<String>, sep: Seq<char>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else if n == 1 { v[0]@ } else { joined(v, sep, n - 1) + sep + v[n - 1]@ } }
#[verifier::external_body]
pub fn vf_join(v: &Vec<String>, sep: &str) -> (r: String)
    ensures r@ == joined(v@, sep@, v@.len() as int),
{ v.join(sep) }

/// collecting strings into a String
pub trait VfPush { spec fn pushed(self) -> Seq<char>; fn vf_push_to(self, s: &mut String) ensures final(s)@ == old(s)@ + self.pushed(); }
impl VfPush for &str { open spec fn pushed(self) -> Seq<char> { self@ } fn vf_push_to(self, s: &mut String) { s.push_str(self); } }
impl VfPush for String { open spec fn pushed(self) -> Seq<char> { self@ } fn vf_push_to(self, s: &mut String) { s.push_str(self.as_str()); } }
impl VfPush for char { open spec fn pushed(self) -> Seq<char> { seq![self] } fn vf_push_to(self, s: &mut String) { s.push(self); proof { assert(s@ =~= old(s)@ + seq![self]); } } }
pub fn vf_append<T: VfPush>(s: &mut String, x: T) ensures final(s)@ == old(s)@ + x.pushed() { x.vf_push_to(s); }
pub proof fn lemma_joined_prefix(v: Seq<String>, x: String, sep: Seq<char>, n: int)
    requires n <= v.len(),
    ensures joined(v.push(x), sep, n) == joined(v, sep, n),
    decreases n,
{ if n > 1 { lemma_joined_prefix(v, x, sep, n - 1); } }
pub broadcast proof fn lemma_joined_push(v: Seq<String>, x: String, sep: Seq<char>, n: int)
    requires n == v.len() + 1,
    ensures #[trigger] joined(v.push(x), sep, n) == joined(v, sep, n - 1) + sep_if(n, sep) + x@,
{
    lemma_joined_prefix(v, x, sep, n - 1);
    if n == 1 { assert(joined(v.push(x), sep, n) =~= joined(v, sep, n - 1) + sep_if(n, sep) + x@); }
}

/// std::str functions used by the printers
pub trait VfText {
    spec fn vf_txt(&self) -> Seq<char>;
    fn vf_repeat(&self, n: usize) -> (r: String)
        ensures r@ == rep(self.vf_txt(), n as int);
}
impl VfText for str {
    open spec fn vf_txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vf_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
}
impl VfText for String {
    open spec fn vf_txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vf_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
}

pub broadcast proof fn lemma_subst_esc(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires p.len() == 1, q.len() == 2, q[0] == '\\', q[1] == '\\', p[0] == '\\',
    ensures #[trigger] subst(s, p, q) == esc(s, Set::empty().insert('\\')),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_subst_esc(s.drop_first(), p, q);
        assert(has_prefix(s, p) <==> s[0] == p[0]) by { if s[0] == p[0] { assert(s.subrange(0, 1) =~= p); } else if s.subrange(0, 1) == p { assert(s.subrange(0, 1)[0] == p[0]); } }
        assert(s.subrange(1, s.len() as int) =~= s.drop_first());
        assert(q =~= seq!['\\', p[0]]);
    }
}
pub broadcast proof fn lemma_subst_esc_more(s: Seq<char>, cs: Set<char>, p: Seq<char>, q: Seq<char>)
    requires p.len() == 1, q.len() == 2, q[0] == '\\', q[1] == p[0], p[0] != '\\', !cs.contains(p[0]),
    ensures #[trigger] subst(esc(s, cs), p, q) == esc(s, cs.insert(p[0])),
    decreases s.len(),
{
    let c = p[0];
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_subst_esc_more(t, cs, p, q);
        let e = esc(s, cs);
        if cs.contains(s[0]) {
            assert(e =~= seq!['\\', s[0]] + esc(t, cs));
            lemma_subst_other(e, p, q);
            assert(e.drop_first() =~= seq![s[0]] + esc(t, cs));
            lemma_subst_other(e.drop_first(), p, q);
            assert(e.drop_first().drop_first() =~= esc(t, cs));
            assert(subst(e, p, q) =~= seq!['\\', s[0]] + subst(esc(t, cs), p, q));
        } else {
            assert(e.drop_first() =~= esc(t, cs));
            if s[0] == c {
                assert(e.subrange(0, 1) =~= p);
                assert(e.subrange(1, e.len() as int) =~= esc(t, cs));
                assert(q =~= seq!['\\', c]);
            } else {
                lemma_subst_other(e, p, q);
            }
        }
    }
}
proof fn lemma_subst_other(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires s.len() > 0, p.len() == 1, s[0] != p[0],
    ensures subst(s, p, q) == seq![s[0]] + subst(s.drop_first(), p, q),
{ if has_prefix(s, p) { assert(s.subrange(0, 1)[0] == p[0]); } }
/// nothing to escape
pub broadcast proof fn bl_esc_none(s: Seq<char>, cs: Set<char>)
    requires forall|i: int| 0 <= i < s.len() ==> !cs.contains(#[trigger] s[i]),
    ensures #[trigger] esc(s, cs) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies !cs.contains(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
        bl_esc_none(t, cs);
        assert(esc(s, cs) =~= s);
    }
}
/// the order of the characters does not matter
pub proof fn lemma_esc_as(s: Seq<char>, b: Set<char>)
    ensures forall|a: Set<char>| #![trigger esc(s, a)] a =~= b ==> esc(s, a) == esc(s, b),
{}
pub broadcast proof fn lemma_has_prefix(s: Seq<char>, p: Seq<char>)
    ensures #[trigger] has_prefix(s, p) <==> s.len() >= p.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i],
{
    if s.len() >= p.len() {
        let h = s.subrange(0, p.len() as int);
        if has_prefix(s, p) { assert forall|i: int| 0 <= i < p.len() implies #[trigger] s[i] == p[i] by { assert(h[i] == s[i]); } }
        else if forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] { assert(h =~= p); }
    }
}
pub broadcast group bl_show_one { bl_sb_empty, bl_esc_none, lemma_subst_esc, lemma_subst_esc_more }
pub broadcast group bl_show { bl_sb_empty, bl_esc_none, lemma_joined_push, lemma_subst_esc, lemma_subst_esc_more }

// ---- the printed form of each node ----
pub open spec fn blank(s: Seq<char>) -> Seq<char> { subst(s, seq!['\n', '\n'], seq!['\\', '\n', '\n']) }

pub open spec fn show_anchor(a: Anchor) -> Seq<char> {
    seq!['['] + blank(esc(a.text@, set!['\\', '[', ']'])) + seq![']', '('] + blank(esc(a.url@, set!['\\', '(', ')'])) + seq![')']
}
pub open spec fn show_italic(i: Italic) -> Seq<char> { seq!['_'] + blank(esc(i.0@, set!['\\', '_'])) + seq!['_'] }
pub open spec fn show_strikethrough(i: Strikethrough) -> Seq<char> { seq!['~', '~'] + blank(esc(i.0@, set!['\\', '~'])) + seq!['~', '~'] }
pub open spec fn show_emphasis(i: Emphasis) -> Seq<char> { seq!['*'] + blank(esc(i.0@, set!['\\', '*'])) + seq!['*'] }
pub open spec fn show_code_span(i: CodeSpan) -> Seq<char> { if i.0@.len() == 0 { seq![] } else { seq!['`'] + blank(esc(i.0@, set!['\\', '`'])) + seq!['`'] } }
pub open spec fn show_bold_node(n: BoldNodes) -> Seq<char> {
    match n {
        BoldNodes::Italic(i) => show_italic(i),
        BoldNodes::Strikethrough(i) => show_strikethrough(i),
        BoldNodes::Text(t) => blank(esc(t@, set!['\\', '*', '_', '~'])),
    }
}
pub open spec fn stars(s: Seq<char>) -> Seq<char> { subst(s, seq!['*', '*'], seq!['\\', '*', '*']) }
/// the first n nodes of a bold
pub open spec fn show_bold_nodes(b: Seq<BoldNodes>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { show_bold_nodes(b, n - 1) + stars(show_bold_node(b[n - 1])) } }
pub open spec fn bold_has(n: BoldNodes) -> bool { match n { BoldNodes::Text(t) => t@.len() > 0, _ => true } }
pub open spec fn show_bold(b: Bold) -> Seq<char> {
    if exists|i: int| 0 <= i < b.body@.len() && bold_has(#[trigger] b.body@[i]) {
        seq!['*', '*'] + show_bold_nodes(b.body@, b.body@.len() as int) + seq!['*', '*']
    } else { seq![] }
}
pub open spec fn show_para_node(n: ParagraphNodes) -> Seq<char> {
    match n {
        ParagraphNodes::Anchor(x) => show_anchor(x),
        ParagraphNodes::Bold(x) => show_bold(x),
        ParagraphNodes::Italic(x) => show_italic(x),
        ParagraphNodes::Strikethrough(x) => show_strikethrough(x),
        ParagraphNodes::CodeSpan(x) => show_code_span(x),
        ParagraphNodes::Emphasis(x) => show_emphasis(x),
        ParagraphNodes::Text(t) => subst(
            subst(esc(t@, set!['\\', '*', '_', '~', '`', '[', '{']), seq!['\n', '\n'], seq!['\\', '\n', '\\', '\n']),
            seq!['%', '}'], seq!['\\', '%', '}']),
    }
}
/// the first n nodes of a paragraph
pub open spec fn show_inlines(b: Seq<ParagraphNodes>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { show_inlines(b, n - 1) + show_para_node(b[n - 1]) } }
pub open spec fn show_paragraph(p: Paragraph) -> Seq<char> { show_inlines(p.body@, p.body@.len() as int) }
/// n `#` and a space
pub open spec fn hashes_at(s: Seq<char>, n: int) -> bool { s.len() > n && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == '#') && s[n] == ' ' }
/// would be read as a list item, a heading, a highlight, an image or a thematic break (or metadata)
pub open spec fn block_marker(s: Seq<char>) -> bool {
    s.len() >= 2 && ((s[0] == '-' || s[0] == '+') && s[1] == ' ' || s[0] == '!' && (s[1] == '!' || s[1] == '['))
    || hashes_at(s, 1) || hashes_at(s, 2) || hashes_at(s, 3) || hashes_at(s, 4) || hashes_at(s, 5) || hashes_at(s, 6)
    || s.len() >= 3 && s[0] == '-' && s[1] == '-' && s[2] == '-'
}
pub open spec fn guarded(s: Seq<char>) -> Seq<char> { if block_marker(s) { seq!['\\'] + s } else { s } }
pub open spec fn show_heading_node(n: HeadingNodes) -> Seq<char> {
    match n {
        HeadingNodes::Text(t) => subst(blank(esc(t@, set!['\\'])), seq!['#'], seq!['\\', '#']),
        HeadingNodes::Anchor(x) => show_anchor(x),
    }
}
pub open spec fn show_heading_nodes(b: Seq<HeadingNodes>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { show_heading_nodes(b, n - 1) + show_heading_node(b[n - 1]) } }
pub open spec fn show_heading(h: Heading) -> Seq<char> {
    rep(seq!['#'], h.level as int) + seq![' '] + show_heading_nodes(h.body@, h.body@.len() as int)
}
pub open spec fn show_image(i: Image) -> Seq<char> {
    seq!['!', '['] + blank(esc(i.alt@, set!['\\', ']'])) + seq![']', '('] + blank(esc(i.src@, set!['\\', '(', ')'])) + seq![')']
}
pub open spec fn sep_if(n: int, s: Seq<char>) -> Seq<char> { if n <= 1 { Seq::empty() } else { s } }
pub open spec fn show_image_seq(b: Seq<Image>, n: int) -> Seq<char>
    decreases n,
{ if n <= 0 { Seq::empty() } else { show_image_seq(b, n - 1) + sep_if(n, seq!['\n']) + show_image(b[n - 1]) } }
pub open spec fn show_images(i: Images) -> Seq<char> { show_image_seq(i.body@, i.body@.len() as int) }
pub open spec fn show_code(c: Code) -> Seq<char> {
    seq!['`', '`', '`'] + esc(c.lang@, set!['\\', '`', '\n']) + seq!['\n'] + subst(esc(c.code@, set!['\\']), seq!['`', '`', '`'], seq!['\\', '`', '`', '`']) + seq!['\n', '`', '`', '`']
}
pub open spec fn list_char(t: ListTypes) -> char { match t { ListTypes::Unordered => '-', ListTypes::Ordered => '+' } }
pub open spec fn show_list_item(i: ListItem) -> Seq<char>
    decreases i, 0int,
{
    show_inlines(i.text@, i.text@.len() as int) + match i.nested_list { None => Seq::empty(), Some(l) => seq!['\n'] + show_list(l) }
}
/// an item's line: indentation, marker, its text with line starts that look like items of this list escaped
pub open spec fn show_item_line(level: int, t: ListTypes, item: Seq<char>) -> Seq<char> {
    rep(seq![' '], level) + seq![list_char(t), ' '] + subst(item, seq!['\n', list_char(t), ' '], seq!['\n', '\\', list_char(t), ' '])
}
pub open spec fn show_items(l: List, n: int) -> Seq<char>
    decreases l, n,
{
    if n <= 0 || n > l.body@.len() { Seq::empty() }
    else { show_items(l, n - 1) + sep_if(n, seq!['\n']) + show_item_line(l.level as int, l.list_type, show_list_item(l.body@[n - 1])) }
}
pub open spec fn show_list(l: List) -> Seq<char>
    decreases l, l.body@.len() + 1,
{ show_items(l, l.body@.len() as int) }
pub open spec fn show_highlight_body(b: Seq<Paragraph>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else { show_highlight_body(b, n - 1) + sep_if(n, seq!['\n', '\n']) + guarded(subst(show_paragraph(b[n - 1]), seq!['!', '!'], seq!['\\', '!', '!'])) }
}
pub open spec fn show_highlight(h: Highlight) -> Seq<char> {
    seq!['!', '!'] + (match h.title { None => Seq::empty(), Some(t) => seq![' '] + esc(t@, set!['\\']) }) + seq!['\n']
    + (match h.icon { None => Seq::empty(), Some(t) => seq!['!', ' '] + esc(t@, set!['\\']) + seq!['\n'] })
    + show_highlight_body(h.body@, h.body@.len() as int) + seq!['\n', '!', '!']
}
pub open spec fn show_embed(e: Embed) -> Seq<char> {
    seq!['{', '{'] + esc(e.kind@, set!['\\', '{', '|']) + seq!['|'] + esc(e.args@, set!['\\', '{', '%', '}']) + seq!['}', '}']
}
pub open spec fn show_blocks(b: Seq<YamdNodes>, n: int) -> Seq<char>
    decreases b, n, 0int,
{
    if n <= 0 || n > b.len() { Seq::empty() }
    else { show_blocks(b, n - 1) + sep_if(n, seq!['\n', '\n']) + (match b[n - 1] { YamdNodes::Paragraph(p) => guarded(show_paragraph(p)), x => show_block(x) }) }
}
pub open spec fn show_collapsible(c: Collapsible) -> Seq<char>
    decreases c, 0int, 1int,
{
    seq!['{', '%', ' '] + subst(esc(c.title@, set!['\\']), seq!['%', '}'], seq!['\\', '%', '}']) + seq!['\n'] + show_blocks(c.body@, c.body@.len() as int) + seq!['\n', '%', '}']
}
pub open spec fn show_block(n: YamdNodes) -> Seq<char>
    decreases n, 0int, 0int,
{
    match n {
        YamdNodes::Paragraph(p) => show_paragraph(p),
        YamdNodes::Heading(x) => show_heading(x),
        YamdNodes::Image(x) => show_image(x),
        YamdNodes::Images(x) => show_images(x),
        YamdNodes::Code(x) => show_code(x),
        YamdNodes::List(x) => show_list(x),
        YamdNodes::Highlight(x) => show_highlight(x),
        YamdNodes::ThematicBreak(x) => seq!['-', '-', '-', '-', '-'],
        YamdNodes::Embed(x) => show_embed(x),
        YamdNodes::Collapsible(x) => show_collapsible(x),
    }
}
pub open spec fn show_yamd(y: Yamd) -> Seq<char> {
    (match y.metadata {
        None => Seq::empty(),
        Some(m) => seq!['-', '-', '-', '\n'] + m@ + (if m@.len() > 0 && m@.last() == '\n' { Seq::empty() } else { seq!['\n'] }) + seq!['-', '-', '-', '\n', '\n'],
    }) + show_blocks(y.body@, y.body@.len() as int)
}
