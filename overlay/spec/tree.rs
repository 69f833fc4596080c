// ---- generic trees: what an op stream says, independent of the node types ----
use crate::nodes::*;
use crate::op::to_yamd::*;

pub enum Item { Text(Seq<u8>), Nd(GT) }
/// a node of the stream: its kind, the text of its Start, and what lies between Start and End
pub struct GT { pub n: Node, pub open: Seq<u8>, pub items: Seq<Item> }
/// an open node (None: the stream itself)
pub struct GF { pub n: Option<Node>, pub open: Seq<u8>, pub items: Seq<Item> }

pub open spec fn g_add(k: Seq<GF>, x: Item) -> Seq<GF> {
    k.drop_last().push(GF { n: k.last().n, open: k.last().open, items: k.last().items.push(x) })
}
/// one event; None: the stream is not well-formed
pub open spec fn g_step(k: Option<Seq<GF>>, op: Op, src: Seq<u8>) -> Option<Seq<GF>> {
    match k {
        None => None,
        Some(k) => match op.kind {
            OpKind::Start(n) => Some(k.push(GF { n: Some(n), open: content_text(op.content, src), items: Seq::empty() })),
            OpKind::Value => if k.len() == 0 { None } else { Some(g_add(k, Item::Text(content_text(op.content, src)))) },
            OpKind::End(n) => if k.len() >= 2 && k.last().n == Some(n) {
                Some(g_add(k.drop_last(), Item::Nd(GT { n, open: k.last().open, items: k.last().items })))
            } else { None },
        },
    }
}
pub open spec fn g_root() -> Seq<GF> { seq![GF { n: None, open: Seq::empty(), items: Seq::empty() }] }
pub open spec fn g_run(ops: Seq<Op>, src: Seq<u8>) -> Option<Seq<GF>>
    decreases ops.len(),
{
    if ops.len() == 0 { Some(g_root()) } else { g_step(g_run(ops.drop_last(), src), ops.last(), src) }
}
/// every Start has its End, properly nested, and nothing else
pub open spec fn balanced(ops: Seq<Op>, src: Seq<u8>) -> bool {
    g_run(ops, src) matches Some(k) && k.len() == 1
}
/// the nodes and texts at the top level of a balanced stream
pub open spec fn top_items(ops: Seq<Op>, src: Seq<u8>) -> Seq<Item> { g_run(ops, src)->Some_0[0].items }

/// once the stream is wrong, it stays wrong
pub proof fn lemma_g_stuck(ops: Seq<Op>, src: Seq<u8>, i: int)
    requires 0 <= i <= ops.len(), g_run(ops.subrange(0, i), src) is None,
    ensures g_run(ops, src) is None,
    decreases ops.len() - i,
{
    if i < ops.len() {
        assert(ops.subrange(0, i + 1).drop_last() =~= ops.subrange(0, i));
        lemma_g_stuck(ops, src, i + 1);
    } else { assert(ops.subrange(0, i) =~= ops); }
}
pub proof fn lemma_g_next(ops: Seq<Op>, src: Seq<u8>, i: int)
    requires 0 <= i < ops.len(),
    ensures g_run(ops.subrange(0, i + 1), src) == g_step(g_run(ops.subrange(0, i), src), ops[i], src),
{ assert(ops.subrange(0, i + 1).drop_last() =~= ops.subrange(0, i)); }
pub proof fn lemma_g_root_bottom(ops: Seq<Op>, src: Seq<u8>)
    requires g_run(ops, src) is Some,
    ensures g_run(ops, src)->Some_0.len() >= 1, g_run(ops, src)->Some_0[0].n is None,
        forall|j: int| 1 <= j < g_run(ops, src)->Some_0.len() ==> (#[trigger] g_run(ops, src)->Some_0[j]).n is Some,
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_g_root_bottom(ops.drop_last(), src); }
}

/// the frame of the builder is the one for this kind of node
pub open spec fn kind_rel(f: Frame, n: Option<Node>) -> bool {
    match n {
        None => f is Yamd,
        Some(n) => match n {
            Node::Anchor => f is Anchor,
            Node::Bold => f is Bold,
            Node::Code => f is Code,
            Node::CodeSpan => f is CodeSpan,
            Node::Collapsible => f is Collapsible,
            Node::Destination => f is Destination,
            Node::Document => f is Document,
            Node::Embed => f is Embed,
            Node::Emphasis => f is Emphasis,
            Node::Heading => f is Heading,
            Node::Highlight => f is Highlight,
            Node::Icon => f is Icon,
            Node::Image => f is Image,
            Node::Images => f is Images,
            Node::Italic => f is Italic,
            Node::ListItem => f is ListItem,
            Node::Modifier => f is Modifier,
            Node::Metadata => f is Metadata,
            Node::OrderedList => f is OrderedList,
            Node::Paragraph => f is Paragraph,
            Node::Strikethrough => f is Strikethrough,
            Node::ThematicBreak => f is ThematicBreak,
            Node::Title => f is Title,
            Node::UnorderedList => f is UnorderedList,
        },
    }
}
pub open spec fn is_list_frame(f: Frame) -> bool { f is UnorderedList || f is OrderedList }
pub open spec fn list_frames(s: Seq<Frame>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { list_frames(s.drop_last()) + if is_list_frame(s.last()) { 1int } else { 0 } } }
pub open spec fn is_list_n(n: Node) -> bool { n is OrderedList || n is UnorderedList }
/// number of lists among the open nodes
pub open spec fn list_depth(k: Seq<GF>) -> int
    decreases k.len(),
{
    if k.len() == 0 { 0 } else { list_depth(k.drop_last()) + if k.last().n matches Some(n) && is_list_n(n) { 1int } else { 0 } }
}
pub open spec fn stack_kinds(s: Seq<Frame>, k: Seq<GF>) -> bool {
    s.len() == k.len() && forall|i: int| 0 <= i < s.len() ==> kind_rel(#[trigger] s[i], k[i].n)
}
pub open spec fn lead(s: Seq<char>, c: char) -> int
    decreases s.len(),
{ if s.len() > 0 && s[0] == c { 1 + lead(s.drop_first(), c) } else { 0 } }
/// number of leading bytes c
pub open spec fn lead_b(s: Seq<u8>, c: u8) -> int
    decreases s.len(),
{ if s.len() > 0 && s[0] == c { 1 + lead_b(s.drop_first(), c) } else { 0 } }

pub proof fn lemma_scalar_ascii(s: char)
    requires (s as u32) < 128,
    ensures encode_scalar(s as u32) == seq![s as u32 as u8],
{
    let u = s as u32;
    assert(u < 128 ==> u & 0x7f == u) by(bit_vector);
    assert(encode_scalar(s as u32) =~= seq![s as u32 as u8]);
}
pub proof fn lemma_scalar_wide(s: char)
    requires (s as u32) >= 128,
    ensures encode_scalar(s as u32).len() > 0, encode_scalar(s as u32)[0] >= 128,
{
    let u = s as u32;
    assert(0xc0u8 | ((u >> 6) & 0x1f) as u8 >= 128) by(bit_vector);
    assert(0xe0u8 | ((u >> 12) & 0x0f) as u8 >= 128) by(bit_vector);
    assert(0xf0u8 | ((u >> 18) & 0x07) as u8 >= 128) by(bit_vector);
}
pub proof fn lemma_lead(s: Seq<char>, c: char)
    requires (c as u32) < 128,
    ensures lead(s, c) == lead_b(sb(s), c as u32 as u8),
    decreases s.len(),
{
    if s.len() > 0 {
        let h = encode_scalar(s[0] as u32);
        assert(sb(s) == h + sb(s.drop_first()));
        if (s[0] as u32) < 128 { lemma_scalar_ascii(s[0]); } else { lemma_scalar_wide(s[0]); }
        if s[0] == c {
            lemma_lead(s.drop_first(), c);
            assert(sb(s).drop_first() =~= sb(s.drop_first()));
        }
    }
}
/// lead, when the first i characters are c and the next is not
pub proof fn lemma_lead_at(s: Seq<char>, c: char, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> s[j] == c, i < s.len() ==> s[i] != c,
    ensures lead(s, c) == i,
    decreases i,
{
    if i > 0 { lemma_lead_at(s.drop_first(), c, i - 1); }
}

//@ [C12]
// ---- what the tree of a balanced stream must be ----
pub open spec fn texts(items: Seq<Item>) -> Seq<u8>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        match items.last() { Item::Text(t) => texts(items.drop_last()) + t, _ => texts(items.drop_last()) }
    }
}
pub open spec fn text_seq(items: Seq<Item>) -> Seq<Seq<u8>>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        match items.last() { Item::Text(t) => text_seq(items.drop_last()).push(t), _ => text_seq(items.drop_last()) }
    }
}
/// text of the last child n
pub open spec fn last_child(items: Seq<Item>, n: Node) -> Option<Seq<u8>>
    decreases items.len(),
{
    if items.len() == 0 { None } else {
        match items.last() { Item::Nd(g) => if g.n == n { Some(texts(g.items)) } else { last_child(items.drop_last(), n) }, _ => last_child(items.drop_last(), n) }
    }
}
pub open spec fn or_empty(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(t) => t, None => Seq::empty() } }

// views of the inline nodes
pub enum BV { Text(Seq<u8>), Italic(Seq<u8>), Strikethrough(Seq<u8>) }
pub open spec fn bv(b: BoldNodes) -> BV {
    match b { BoldNodes::Text(t) => BV::Text(sb(t@)), BoldNodes::Italic(i) => BV::Italic(sb(i.0@)), BoldNodes::Strikethrough(s) => BV::Strikethrough(sb(s.0@)) }
}
pub open spec fn bvs(v: Seq<BoldNodes>) -> Seq<BV> { v.map_values(|b: BoldNodes| bv(b)) }
pub enum PV { Text(Seq<u8>), Anchor(Seq<u8>, Seq<u8>), Bold(Seq<BV>), Italic(Seq<u8>), Strikethrough(Seq<u8>), CodeSpan(Seq<u8>), Emphasis(Seq<u8>) }
pub open spec fn pv(p: ParagraphNodes) -> PV {
    match p {
        ParagraphNodes::Text(t) => PV::Text(sb(t@)),
        ParagraphNodes::Anchor(a) => PV::Anchor(sb(a.text@), sb(a.url@)),
        ParagraphNodes::Bold(b) => PV::Bold(bvs(b.body@)),
        ParagraphNodes::Italic(i) => PV::Italic(sb(i.0@)),
        ParagraphNodes::Strikethrough(s) => PV::Strikethrough(sb(s.0@)),
        ParagraphNodes::CodeSpan(c) => PV::CodeSpan(sb(c.0@)),
        ParagraphNodes::Emphasis(e) => PV::Emphasis(sb(e.0@)),
    }
}
pub open spec fn pvs(v: Seq<ParagraphNodes>) -> Seq<PV> { v.map_values(|p: ParagraphNodes| pv(p)) }
pub open spec fn pps(v: Seq<Paragraph>) -> Seq<Seq<PV>> { v.map_values(|p: Paragraph| pvs(p.body@)) }
pub enum HV { Text(Seq<u8>), Anchor(Seq<u8>, Seq<u8>) }
pub open spec fn hv(h: HeadingNodes) -> HV {
    match h { HeadingNodes::Text(t) => HV::Text(sb(t@)), HeadingNodes::Anchor(a) => HV::Anchor(sb(a.text@), sb(a.url@)) }
}
pub open spec fn hvs(v: Seq<HeadingNodes>) -> Seq<HV> { v.map_values(|h: HeadingNodes| hv(h)) }
pub struct IV { pub alt: Seq<u8>, pub src: Seq<u8> }
pub open spec fn iv(i: Image) -> IV { IV { alt: sb(i.alt@), src: sb(i.src@) } }
pub open spec fn ivs(v: Seq<Image>) -> Seq<IV> { v.map_values(|i: Image| iv(i)) }

// their content, from the stream
pub open spec fn bold_items(items: Seq<Item>) -> Seq<BV>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let r = bold_items(items.drop_last());
        match items.last() {
            Item::Text(t) => r.push(BV::Text(t)),
            Item::Nd(g) => match g.n { Node::Italic => r.push(BV::Italic(texts(g.items))), Node::Strikethrough => r.push(BV::Strikethrough(texts(g.items))), _ => r },
        }
    }
}
pub open spec fn para_items(items: Seq<Item>) -> Seq<PV>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let r = para_items(items.drop_last());
        match items.last() {
            Item::Text(t) => r.push(PV::Text(t)),
            Item::Nd(g) => match g.n {
                Node::Anchor => r.push(PV::Anchor(or_empty(last_child(g.items, Node::Title)), or_empty(last_child(g.items, Node::Destination)))),
                Node::Bold => r.push(PV::Bold(bold_items(g.items))),
                Node::Italic => r.push(PV::Italic(texts(g.items))),
                Node::Strikethrough => r.push(PV::Strikethrough(texts(g.items))),
                Node::CodeSpan => r.push(PV::CodeSpan(texts(g.items))),
                Node::Emphasis => r.push(PV::Emphasis(texts(g.items))),
                _ => r,
            },
        }
    }
}
/// in highlights and list items, line feeds at the end of a closing text are dropped
pub open spec fn trim_para(p: Seq<PV>) -> Seq<PV> {
    if p.len() > 0 && p.last() is Text {
        let t = trim_end_b(p.last()->Text_0, 10u8);
        if t.len() == 0 { p.drop_last() } else { p.drop_last().push(PV::Text(t)) }
    } else { p }
}
pub open spec fn heading_items(items: Seq<Item>) -> Seq<HV>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let r = heading_items(items.drop_last());
        match items.last() {
            Item::Text(t) => r.push(HV::Text(t)),
            Item::Nd(g) => if g.n is Anchor { r.push(HV::Anchor(or_empty(last_child(g.items, Node::Title)), or_empty(last_child(g.items, Node::Destination)))) } else { r },
        }
    }
}
pub open spec fn image_of(items: Seq<Item>) -> IV {
    IV { alt: or_empty(last_child(items, Node::Title)), src: or_empty(last_child(items, Node::Destination)) }
}
pub open spec fn images_items(items: Seq<Item>) -> Seq<IV>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let r = images_items(items.drop_last());
        match items.last() { Item::Nd(g) => if g.n is Image { r.push(image_of(g.items)) } else { r }, _ => r }
    }
}
pub open spec fn highlight_items(items: Seq<Item>) -> Seq<Seq<PV>>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        let r = highlight_items(items.drop_last());
        match items.last() { Item::Nd(g) => if g.n is Paragraph { r.push(trim_para(para_items(g.items))) } else { r }, _ => r }
    }
}
/// the paragraph of a list item
pub open spec fn item_para(items: Seq<Item>) -> Seq<PV>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        match items.last() { Item::Nd(g) => if g.n is Paragraph { trim_para(para_items(g.items)) } else { item_para(items.drop_last()) }, _ => item_para(items.drop_last()) }
    }
}
pub open spec fn sv(o: Option<String>) -> Option<Seq<u8>> { match o { Some(s) => Some(sb(s@)), None => None } }

/// y is the block the node g stands for, d lists being open around it
pub open spec fn is_block(y: YamdNodes, g: GT, d: int) -> bool
    decreases g, 1int,
{
    match g.n {
        Node::Paragraph => y matches YamdNodes::Paragraph(p) && pvs(p.body@) == para_items(g.items),
        Node::Heading => y matches YamdNodes::Heading(h) && hvs(h.body@) == heading_items(g.items) && (lead_b(g.open, 35u8) <= 255 ==> h.level == lead_b(g.open, 35u8)),
        Node::Image => y matches YamdNodes::Image(i) && iv(i) == image_of(g.items),
        Node::Images => y matches YamdNodes::Images(i) && ivs(i.body@) == images_items(g.items),
        Node::Code => y matches YamdNodes::Code(c) && sb(c.lang@) == or_empty(last_child(g.items, Node::Modifier)) && sb(c.code@) == trim_end_b(texts(g.items), 10u8),
        Node::OrderedList | Node::UnorderedList => y matches YamdNodes::List(l) && is_list(l, g, d),
        Node::Highlight => y matches YamdNodes::Highlight(h) && sv(h.title) == last_child(g.items, Node::Modifier) && sv(h.icon) == last_child(g.items, Node::Icon)
            && pps(h.body@) == highlight_items(g.items),
        Node::ThematicBreak => y is ThematicBreak,
        Node::Embed => y matches YamdNodes::Embed(e) && {
            let v = text_seq(g.items);
            sb(e.kind@) == (if v.len() > 0 { v[0] } else { Seq::empty() }) && sb(e.args@) == (if v.len() > 2 { v[2] } else { Seq::empty() })
        },
        Node::Collapsible => y matches YamdNodes::Collapsible(c) && sb(c.title@) == or_empty(last_child(g.items, Node::Modifier)) && is_col_body(c.body@, g.items, d),
        _ => false,
    }
}
pub open spec fn is_block_n(n: Node) -> bool {
    n is Paragraph || n is Heading || n is Image || n is Images || n is Code || n is OrderedList || n is UnorderedList || n is Highlight || n is ThematicBreak || n is Embed || n is Collapsible
}
/// v are the blocks among items, in order
pub open spec fn is_blocks(v: Seq<YamdNodes>, items: Seq<Item>, d: int) -> bool
    decreases items, 0int,
{
    if items.len() == 0 { v.len() == 0 } else {
        match items.last() {
            Item::Nd(g) => if is_block_n(g.n) { v.len() > 0 && is_block(v.last(), g, d) && is_blocks(v.drop_last(), items.drop_last(), d) } else { is_blocks(v, items.drop_last(), d) },
            _ => is_blocks(v, items.drop_last(), d),
        }
    }
}
/// v is the body of a collapsible: the blocks of its document
pub open spec fn is_col_body(v: Seq<YamdNodes>, items: Seq<Item>, d: int) -> bool
    decreases items, 0int,
{
    if items.len() == 0 { v.len() == 0 } else {
        match items.last() {
            Item::Nd(g) => if g.n is Document { is_blocks(v, g.items, d) } else { is_col_body(v, items.drop_last(), d) },
            _ => is_col_body(v, items.drop_last(), d),
        }
    }
}
pub open spec fn is_list(l: List, g: GT, d: int) -> bool
    decreases g, 0int,
{
    (l.list_type is Ordered <==> g.n is OrderedList) && l.level == d && is_items(l.body@, g.items, d + 1)
}
pub open spec fn is_items(v: Seq<ListItem>, items: Seq<Item>, d: int) -> bool
    decreases items, 0int,
{
    if items.len() == 0 { v.len() == 0 } else {
        match items.last() {
            Item::Nd(g) => if g.n is ListItem {
                v.len() > 0 && pvs(v.last().text@) == item_para(g.items) && is_nested(v.last().nested_list, g.items, d) && is_items(v.drop_last(), items.drop_last(), d)
            } else { is_items(v, items.drop_last(), d) },
            _ => is_items(v, items.drop_last(), d),
        }
    }
}
/// o is the list inside a list item
pub open spec fn is_nested(o: Option<List>, items: Seq<Item>, d: int) -> bool
    decreases items, 0int,
{
    if items.len() == 0 { o is None } else {
        match items.last() {
            Item::Nd(g) => if is_list_n(g.n) { o matches Some(l) && is_list(l, g, d) } else { is_nested(o, items.drop_last(), d) },
            _ => is_nested(o, items.drop_last(), d),
        }
    }
}
/// the blocks of all documents at the top level
pub open spec fn is_root_body(v: Seq<YamdNodes>, items: Seq<Item>) -> bool
    decreases items,
{
    if items.len() == 0 { v.len() == 0 } else {
        match items.last() {
            Item::Nd(g) => if g.n is Document {
                exists|k: int| 0 <= k <= v.len() && is_root_body(#[trigger] v.subrange(0, k), items.drop_last()) && is_blocks(v.subrange(k, v.len() as int), g.items, 0)
            } else { is_root_body(v, items.drop_last()) },
            _ => is_root_body(v, items.drop_last()),
        }
    }
}
pub open spec fn root_meta(items: Seq<Item>) -> Option<Seq<u8>> {
    match last_child(items, Node::Metadata) { Some(t) => Some(trim_b(t, 10u8)), None => None }
}
/// y is the document the stream describes
pub open spec fn is_yamd(y: Yamd, items: Seq<Item>) -> bool {
    sv(y.metadata) == root_meta(items) && is_root_body(y.body@, items)
}

/// the builder's frame holds what its node contains so far
#[verifier::opaque]
pub open spec fn frame_rel(f: Frame, g: GF, d: int) -> bool {
    match f {
        Frame::Yamd { metadata, body } => sv(metadata) == root_meta(g.items) && is_root_body(body@, g.items),
        Frame::Document { children } => is_blocks(children@, g.items, d),
        Frame::Heading { level, body } => hvs(body@) == heading_items(g.items) && (lead_b(g.open, 35u8) <= 255 ==> level == lead_b(g.open, 35u8)),
        Frame::Paragraph { body } => pvs(body@) == para_items(g.items),
        Frame::Bold { body } => bvs(body@) == bold_items(g.items),
        Frame::Italic { text } => sb(text@) == texts(g.items),
        Frame::Strikethrough { text } => sb(text@) == texts(g.items),
        Frame::CodeSpan { text } => sb(text@) == texts(g.items),
        Frame::Emphasis { text } => sb(text@) == texts(g.items),
        Frame::Title { text } => sb(text@) == texts(g.items),
        Frame::Destination { text } => sb(text@) == texts(g.items),
        Frame::Modifier { text } => sb(text@) == texts(g.items),
        Frame::Icon { text } => sb(text@) == texts(g.items),
        Frame::Metadata { text } => sb(text@) == texts(g.items),
        Frame::Anchor { text, url } => sb(text@) == or_empty(last_child(g.items, Node::Title)) && sb(url@) == or_empty(last_child(g.items, Node::Destination)),
        Frame::Image { alt, src } => sb(alt@) == or_empty(last_child(g.items, Node::Title)) && sb(src@) == or_empty(last_child(g.items, Node::Destination)),
        Frame::Images { images } => ivs(images@) == images_items(g.items),
        Frame::Code { lang, code } => sb(lang@) == or_empty(last_child(g.items, Node::Modifier)) && sb(code@) == texts(g.items),
        Frame::Embed { values } => svs(values@) == text_seq(g.items),
        Frame::ThematicBreak => true,
        Frame::Highlight { title, icon, paragraphs } => sv(title) == last_child(g.items, Node::Modifier) && sv(icon) == last_child(g.items, Node::Icon) && pps(paragraphs@) == highlight_items(g.items),
        Frame::Collapsible { title, body } => sb(title@) == or_empty(last_child(g.items, Node::Modifier)) && is_col_body(body@, g.items, d),
        Frame::UnorderedList { level, items } => level + 1 == d && is_items(items@, g.items, d),
        Frame::OrderedList { level, items } => level + 1 == d && is_items(items@, g.items, d),
        Frame::ListItem { text, nested_list } => pvs(text@) == item_para(g.items) && is_nested(nested_list, g.items, d),
    }
}
#[verifier::opaque]
pub open spec fn stack_rel(s: Seq<Frame>, k: Seq<GF>) -> bool {
    s.len() == k.len() && forall|i: int| 0 <= i < s.len() ==> frame_rel(#[trigger] s[i], k[i], list_depth(k.subrange(0, i + 1)))
}
//@end

/// Ok iff the Frame below is changed as said
pub open spec fn same_but_last(a: Seq<Frame>, b: Seq<Frame>) -> bool { b.len() == a.len() && b =~= a.drop_last().push(b.last()) }

//@ [C12]
pub broadcast proof fn bl_push_drop(s: Seq<Item>, x: Item)
    ensures #![trigger s.push(x)] s.push(x).drop_last() == s, s.push(x).last() == x, s.push(x).len() == s.len() + 1,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn bl_push_drop_y(s: Seq<YamdNodes>, x: YamdNodes)
    ensures #![trigger s.push(x)] s.push(x).drop_last() == s, s.push(x).last() == x,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn bl_push_drop_i(s: Seq<ListItem>, x: ListItem)
    ensures #![trigger s.push(x)] s.push(x).drop_last() == s, s.push(x).last() == x,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn bl_bvs(s: Seq<BoldNodes>, x: BoldNodes)
    ensures #![trigger bvs(s.push(x))] bvs(s.push(x)) == bvs(s).push(bv(x)),
{ assert(bvs(s.push(x)) =~= bvs(s).push(bv(x))); }
pub broadcast proof fn bl_pvs(s: Seq<ParagraphNodes>, x: ParagraphNodes)
    ensures #![trigger pvs(s.push(x))] pvs(s.push(x)) == pvs(s).push(pv(x)),
{ assert(pvs(s.push(x)) =~= pvs(s).push(pv(x))); }
pub broadcast proof fn bl_hvs(s: Seq<HeadingNodes>, x: HeadingNodes)
    ensures #![trigger hvs(s.push(x))] hvs(s.push(x)) == hvs(s).push(hv(x)),
{ assert(hvs(s.push(x)) =~= hvs(s).push(hv(x))); }
pub broadcast proof fn bl_pps(s: Seq<Paragraph>, x: Paragraph)
    ensures #![trigger pps(s.push(x))] pps(s.push(x)) == pps(s).push(pvs(x.body@)),
{ assert(pps(s.push(x)) =~= pps(s).push(pvs(x.body@))); }
pub broadcast proof fn bl_ivs(s: Seq<Image>, x: Image)
    ensures #![trigger ivs(s.push(x))] ivs(s.push(x)) == ivs(s).push(iv(x)),
{ assert(ivs(s.push(x)) =~= ivs(s).push(iv(x))); }
pub open spec fn svs(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|s: String| sb(s@)) }
pub broadcast proof fn bl_svs(s: Seq<String>, x: String)
    ensures #![trigger svs(s.push(x))] svs(s.push(x)) == svs(s).push(sb(x@)),
{ assert(svs(s.push(x)) =~= svs(s).push(sb(x@))); }
pub broadcast proof fn bl_sb_cat(s: Seq<char>, t: Seq<char>)
    ensures #[trigger] sb(s + t) == sb(s) + sb(t),
{ encode_utf8_concat(s, t); }
pub broadcast proof fn bl_add_empty_b(t: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + t) == t,
{ assert(Seq::<u8>::empty() + t =~= t); }
pub broadcast group bl_tree { bl_push_drop, bl_push_drop_y, bl_push_drop_i, bl_bvs, bl_pvs, bl_hvs, bl_pps, bl_ivs, bl_svs, bl_sb_cat, bl_add_empty_b }
/// below the root, no list is open
pub proof fn lemma_depth_root(s: Seq<Frame>, k: Seq<GF>)
    requires stack_kinds(s, k), k.len() > 0, forall|j: int| 1 <= j < k.len() ==> (#[trigger] k[j]).n is Some,
    ensures s.last() is Yamd ==> list_depth(k) == 0,
{
    assert(kind_rel(s[s.len() - 1], k[k.len() - 1].n));
    if s.last() is Yamd {
        assert(k.last().n is None);
        assert(k.len() == 1);
        assert(list_depth(k.drop_last()) == 0);
    }
}
/// nothing read yet
pub proof fn lemma_empty_views()
    ensures
        sb(Seq::<char>::empty()) == Seq::<u8>::empty(), bvs(Seq::empty()) == Seq::<BV>::empty(), pvs(Seq::empty()) == Seq::<PV>::empty(),
        hvs(Seq::empty()) == Seq::<HV>::empty(), pps(Seq::empty()) == Seq::<Seq<PV>>::empty(), ivs(Seq::empty()) == Seq::<IV>::empty(),
        svs(Seq::empty()) == Seq::<Seq<u8>>::empty(),
{
    assert(bvs(Seq::empty()) =~= Seq::<BV>::empty()); assert(pvs(Seq::empty()) =~= Seq::<PV>::empty());
    assert(hvs(Seq::empty()) =~= Seq::<HV>::empty()); assert(pps(Seq::empty()) =~= Seq::<Seq<PV>>::empty()); assert(ivs(Seq::empty()) =~= Seq::<IV>::empty());
    assert(svs(Seq::empty()) =~= Seq::<Seq<u8>>::empty());
}
pub proof fn lemma_depths(k: Seq<GF>)
    requires k.len() > 0,
    ensures
        k.subrange(0, k.len() as int) == k,
        list_depth(k) >= list_depth(k.drop_last()),
{ assert(k.subrange(0, k.len() as int) =~= k); }
pub proof fn lemma_stack_one(f: Frame, g: GF)
    requires frame_rel(f, g, list_depth(seq![g])),
    ensures stack_rel(seq![f], seq![g]),
{
    reveal(stack_rel);
    assert(seq![g].subrange(0, 1) =~= seq![g]);
}
pub proof fn lemma_stack_push(s: Seq<Frame>, k: Seq<GF>, f: Frame, g: GF)
    requires stack_rel(s, k), frame_rel(f, g, list_depth(k.push(g))),
    ensures stack_rel(s.push(f), k.push(g)),
{
    reveal(stack_rel); 
    let (s1, k1) = (s.push(f), k.push(g));
    assert forall|i: int| 0 <= i < s1.len() implies frame_rel(#[trigger] s1[i], k1[i], list_depth(k1.subrange(0, i + 1))) by {
        if i < s.len() { assert(s1[i] == s[i]); assert(k1.subrange(0, i + 1) =~= k.subrange(0, i + 1)); } else { assert(k1.subrange(0, i + 1) =~= k1); }
    }
}
pub proof fn lemma_stack_pop(s: Seq<Frame>, k: Seq<GF>)
    requires stack_rel(s, k), s.len() > 0,
    ensures stack_rel(s.drop_last(), k.drop_last()), frame_rel(s.last(), k.last(), list_depth(k)), k.len() >= 2 ==> frame_rel(s[s.len() - 2], k[k.len() - 2], list_depth(k.drop_last())),
{
    reveal(stack_rel); 
    let (s1, k1) = (s.drop_last(), k.drop_last());
    assert(k.subrange(0, k.len() as int) =~= k);
    assert(s.last() == s[s.len() - 1]);
    assert forall|i: int| 0 <= i < s1.len() implies frame_rel(#[trigger] s1[i], k1[i], list_depth(k1.subrange(0, i + 1))) by {
        assert(s1[i] == s[i]); assert(k1.subrange(0, i + 1) =~= k.subrange(0, i + 1));
    }
    if k.len() >= 2 { assert(s1[s1.len() - 1] == s[s.len() - 2]); assert(k1.subrange(0, k1.len() as int) =~= k1); }
}
pub proof fn lemma_depth_add(k: Seq<GF>, x: Item)
    requires k.len() > 0,
    ensures list_depth(g_add(k, x)) == list_depth(k),
{ assert(g_add(k, x).drop_last() =~= k.drop_last()); }
pub proof fn lemma_stack_top(s: Seq<Frame>, k: Seq<GF>, s1: Seq<Frame>, x: Item)
    requires stack_rel(s, k), k.len() > 0, same_but_last(s, s1), frame_rel(s1.last(), g_add(k, x).last(), list_depth(k)),
    ensures stack_rel(s1, g_add(k, x)),
{
    reveal(stack_rel); 
    let k1 = g_add(k, x);
    lemma_depth_add(k, x);
    assert forall|i: int| 0 <= i < s1.len() implies frame_rel(#[trigger] s1[i], k1[i], list_depth(k1.subrange(0, i + 1))) by {
        if i + 1 < s.len() { assert(s1[i] == s[i]); assert(k1[i] == k[i]); assert(k1.subrange(0, i + 1) =~= k.subrange(0, i + 1)); }
        else { assert(k1.subrange(0, i + 1) =~= k1); assert(s1[i] == s1.last()); }
    }
}
pub proof fn lemma_root_add(v: Seq<YamdNodes>, w: Seq<YamdNodes>, items: Seq<Item>, g: GT)
    requires is_root_body(v, items), is_blocks(w, g.items, 0), g.n is Document,
    ensures is_root_body(v + w, items.push(Item::Nd(g))),
{
    let t = items.push(Item::Nd(g));
    assert(t.drop_last() =~= items);
    assert((v + w).subrange(0, v.len() as int) =~= v);
    assert((v + w).subrange(v.len() as int, (v + w).len() as int) =~= w);
}
// ---- one step of the builder, on frames ----
pub open spec fn grown(a: String, b: String, t: Seq<u8>) -> bool { sb(b@) == sb(a@) + t }
/// f1 is f0 with the text t added
#[verifier::opaque]
pub open spec fn val_step(f0: Frame, f1: Frame, t: Seq<u8>) -> bool {
    match f0 {
        Frame::Heading { level, body } => f1 matches Frame::Heading { level: l, body: b } && l == level && b@.len() == body@.len() + 1 && b@ == body@.push(b@.last()) && hv(b@.last()) == HV::Text(t),
        Frame::Paragraph { body } => f1 matches Frame::Paragraph { body: b } && b@.len() == body@.len() + 1 && b@ == body@.push(b@.last()) && pv(b@.last()) == PV::Text(t),
        Frame::Bold { body } => f1 matches Frame::Bold { body: b } && b@.len() == body@.len() + 1 && b@ == body@.push(b@.last()) && bv(b@.last()) == BV::Text(t),
        Frame::Italic { text } => f1 matches Frame::Italic { text: b } && grown(text, b, t),
        Frame::Strikethrough { text } => f1 matches Frame::Strikethrough { text: b } && grown(text, b, t),
        Frame::CodeSpan { text } => f1 matches Frame::CodeSpan { text: b } && grown(text, b, t),
        Frame::Emphasis { text } => f1 matches Frame::Emphasis { text: b } && grown(text, b, t),
        Frame::Title { text } => f1 matches Frame::Title { text: b } && grown(text, b, t),
        Frame::Destination { text } => f1 matches Frame::Destination { text: b } && grown(text, b, t),
        Frame::Modifier { text } => f1 matches Frame::Modifier { text: b } && grown(text, b, t),
        Frame::Icon { text } => f1 matches Frame::Icon { text: b } && grown(text, b, t),
        Frame::Metadata { text } => f1 matches Frame::Metadata { text: b } && grown(text, b, t),
        Frame::Code { lang, code } => f1 matches Frame::Code { lang: l, code: b } && l == lang && grown(code, b, t),
        Frame::Embed { values } => f1 matches Frame::Embed { values: b } && b@.len() == values@.len() + 1 && b@ == values@.push(b@.last()) && sb(b@.last()@) == t,
        _ => f1 == f0,
    }
}
pub proof fn lemma_val_step(f0: Frame, f1: Frame, g: GF, d: int, t: Seq<u8>)
    requires frame_rel(f0, g, d), val_step(f0, f1, t),
    ensures frame_rel(f1, GF { n: g.n, open: g.open, items: g.items.push(Item::Text(t)) }, d),
{
    reveal(val_step); 
    broadcast use bl_tree;
    reveal(frame_rel);
}
pub open spec fn add_block(f0: Frame, f1: Frame, y: YamdNodes) -> bool {
    match f0 {
        Frame::Document { children } => f1 matches Frame::Document { children: c } && c@ == children@.push(y),
        _ => f1 == f0,
    }
}
pub open spec fn add_inline(f0: Frame, f1: Frame, p: ParagraphNodes) -> bool {
    match f0 {
        Frame::Paragraph { body } => f1 matches Frame::Paragraph { body: c } && c@ == body@.push(p),
        _ => f1 == f0,
    }
}
/// the node of the closed frame fr is added to the frame f0 around it
#[verifier::opaque]
pub open spec fn end_step(n: Node, fr: Frame, f0: Frame, f1: Frame) -> bool {
    match fr {
        Frame::Document { children } => match f0 {
            Frame::Collapsible { title, .. } => f1 == (Frame::Collapsible { title, body: children }),
            Frame::Yamd { metadata, body } => f1 matches Frame::Yamd { metadata: m, body: b } && m == metadata && b@ == body@ + children@,
            _ => f1 == f0,
        },
        Frame::Metadata { text } => match f0 {
            Frame::Yamd { metadata, body } => f1 matches Frame::Yamd { metadata: Some(m), body: b } && b == body && sb(m@) == trim_b(sb(text@), 10u8),
            _ => f1 == f0,
        },
        Frame::Heading { level, body } => add_block(f0, f1, YamdNodes::Heading(Heading { level, body })),
        Frame::Paragraph { body } => match f0 {
            Frame::Highlight { title, icon, paragraphs } => f1 matches Frame::Highlight { title: t, icon: i, paragraphs: p } && t == title && i == icon && p@.len() == paragraphs@.len() + 1 && p@ == paragraphs@.push(p@.last()) && pvs(p@.last().body@) == trim_para(pvs(body@)),
            Frame::ListItem { text, nested_list } => f1 matches Frame::ListItem { text: t, nested_list: l } && l == nested_list && pvs(t@) == trim_para(pvs(body@)),
            _ => add_block(f0, f1, YamdNodes::Paragraph(Paragraph { body })),
        },
        Frame::Bold { body } => add_inline(f0, f1, ParagraphNodes::Bold(Bold { body })),
        Frame::Italic { text } => match f0 {
            Frame::Bold { body } => f1 matches Frame::Bold { body: b } && b@ == body@.push(BoldNodes::Italic(Italic(text))),
            _ => add_inline(f0, f1, ParagraphNodes::Italic(Italic(text))),
        },
        Frame::Strikethrough { text } => match f0 {
            Frame::Bold { body } => f1 matches Frame::Bold { body: b } && b@ == body@.push(BoldNodes::Strikethrough(Strikethrough(text))),
            _ => add_inline(f0, f1, ParagraphNodes::Strikethrough(Strikethrough(text))),
        },
        Frame::CodeSpan { text } => add_inline(f0, f1, ParagraphNodes::CodeSpan(CodeSpan(text))),
        Frame::Emphasis { text } => add_inline(f0, f1, ParagraphNodes::Emphasis(Emphasis(text))),
        Frame::Title { text } => match f0 {
            Frame::Anchor { url, .. } => f1 == (Frame::Anchor { text, url }),
            Frame::Image { src, .. } => f1 == (Frame::Image { alt: text, src }),
            _ => f1 == f0,
        },
        Frame::Destination { text } => match f0 {
            Frame::Anchor { text: t, .. } => f1 == (Frame::Anchor { text: t, url: text }),
            Frame::Image { alt, .. } => f1 == (Frame::Image { alt, src: text }),
            _ => f1 == f0,
        },
        Frame::Anchor { text, url } => match f0 {
            Frame::Heading { level, body } => f1 matches Frame::Heading { level: l, body: b } && l == level && b@ == body@.push(HeadingNodes::Anchor(Anchor { text, url })),
            _ => add_inline(f0, f1, ParagraphNodes::Anchor(Anchor { text, url })),
        },
        Frame::Image { alt, src } => match f0 {
            Frame::Images { images } => f1 matches Frame::Images { images: i } && i@ == images@.push(Image { alt, src }),
            _ => add_block(f0, f1, YamdNodes::Image(Image { alt, src })),
        },
        Frame::Images { images } => add_block(f0, f1, YamdNodes::Images(Images { body: images })),
        Frame::Code { lang, code } => match f0 {
            Frame::Document { children } => f1 matches Frame::Document { children: c } && c@.len() == children@.len() + 1 && c@ == children@.push(c@.last())
                && (c@.last() matches YamdNodes::Code(k) && sb(k.lang@) == sb(lang@) && sb(k.code@) == trim_end_b(sb(code@), 10u8)),
            _ => f1 == f0,
        },
        Frame::Modifier { text } => match f0 {
            Frame::Code { code, .. } => f1 == (Frame::Code { lang: text, code }),
            Frame::Highlight { icon, paragraphs, .. } => f1 == (Frame::Highlight { title: Some(text), icon, paragraphs }),
            Frame::Collapsible { body, .. } => f1 == (Frame::Collapsible { title: text, body }),
            _ => f1 == f0,
        },
        Frame::Icon { text } => match f0 {
            Frame::Highlight { title, paragraphs, .. } => f1 == (Frame::Highlight { title, icon: Some(text), paragraphs }),
            _ => f1 == f0,
        },
        Frame::Embed { values } => match f0 {
            Frame::Document { children } => f1 matches Frame::Document { children: c } && c@.len() == children@.len() + 1 && c@ == children@.push(c@.last())
                && (c@.last() matches YamdNodes::Embed(k) && sb(k.kind@) == (if values@.len() > 0 { sb(values@[0]@) } else { Seq::empty() })
                    && sb(k.args@) == (if values@.len() > 2 { sb(values@[2]@) } else { Seq::empty() })),
            _ => f1 == f0,
        },
        Frame::ThematicBreak => add_block(f0, f1, YamdNodes::ThematicBreak(ThematicBreak {})),
        Frame::Highlight { title, icon, paragraphs } => match f0 {
            Frame::Document { children } => f1 matches Frame::Document { children: c } && c@.len() == children@.len() + 1 && c@ == children@.push(c@.last())
                && (c@.last() matches YamdNodes::Highlight(k) && sv(k.title) == sv(title) && sv(k.icon) == sv(icon) && k.body == paragraphs),
            _ => f1 == f0,
        },
        Frame::Collapsible { title, body } => add_block(f0, f1, YamdNodes::Collapsible(Collapsible { title, body })),
        Frame::UnorderedList { level, items } => add_list(f0, f1, List { list_type: ListTypes::Unordered, level, body: items }),
        Frame::OrderedList { level, items } => add_list(f0, f1, List { list_type: ListTypes::Ordered, level, body: items }),
        Frame::ListItem { text, nested_list } => match f0 {
            Frame::UnorderedList { level, items } => f1 matches Frame::UnorderedList { level: l, items: i } && l == level && i@ == items@.push(ListItem { text, nested_list }),
            Frame::OrderedList { level, items } => f1 matches Frame::OrderedList { level: l, items: i } && l == level && i@ == items@.push(ListItem { text, nested_list }),
            _ => f1 == f0,
        },
        Frame::Yamd { .. } => f1 == f0,
    }
}
pub open spec fn add_list(f0: Frame, f1: Frame, l: List) -> bool {
    match f0 {
        Frame::ListItem { text, .. } => f1 == (Frame::ListItem { text, nested_list: Some(l) }),
        _ => add_block(f0, f1, YamdNodes::List(l)),
    }
}
pub proof fn lemma_end_step(fr: Frame, gr: GF, f0: Frame, f1: Frame, g: GF, n: Node, d: int)
    requires
        gr.n == Some(n), kind_rel(fr, gr.n), kind_rel(f0, g.n), frame_rel(fr, gr, d + if is_list_n(n) { 1int } else { 0 }), frame_rel(f0, g, d), end_step(n, fr, f0, f1),
        f0 is Yamd ==> d == 0,
    ensures frame_rel(f1, GF { n: g.n, open: g.open, items: g.items.push(Item::Nd(GT { n, open: gr.open, items: gr.items })) }, d),
{
    reveal(end_step); 
    broadcast use bl_tree;
    reveal(frame_rel);
    let x = GT { n, open: gr.open, items: gr.items };
    if fr is Document && f0 is Yamd { lemma_root_add(f0->Yamd_body@, fr->Document_children@, g.items, x); }
    if is_block_n(n) && f0 is Document {
        let c = f0->Document_children@;
        assert(f1 is Document);
        let y = f1->Document_children@.last();
        assert(f1->Document_children@ == c.push(y));
        assert(is_block(y, x, d));
        lemma_blocks_push(c, g.items, y, x, d);
    }
    if is_list_n(n) && f0 is ListItem { assert(is_list(f1->ListItem_nested_list->Some_0, x, d)); }
}
pub proof fn lemma_blocks_push(v: Seq<YamdNodes>, items: Seq<Item>, y: YamdNodes, g: GT, d: int)
    requires is_blocks(v, items, d), is_block_n(g.n), is_block(y, g, d),
    ensures is_blocks(v.push(y), items.push(Item::Nd(g)), d),
{ broadcast use bl_tree; }
pub proof fn lemma_trim_end_idem(t: Seq<u8>, c: u8)
    ensures trim_end_b(trim_end_b(t, c), c) == trim_end_b(t, c),
    decreases t.len(),
{ if t.len() > 0 && t.last() == c { lemma_trim_end_idem(t.drop_last(), c); } }
pub proof fn lemma_trim_end_start(t: Seq<u8>, c: u8)
    requires t.len() == 0 || t[0] != c,
    ensures ({ let r = trim_end_b(t, c); r.len() == 0 || r[0] != c }),
    decreases t.len(),
{ if t.len() > 0 && t.last() == c { lemma_trim_end_start(t.drop_last(), c); } }
pub proof fn lemma_trim_start_first(t: Seq<u8>, c: u8)
    ensures ({ let r = trim_start_b(t, c); r.len() == 0 || r[0] != c }),
    decreases t.len(),
{ if t.len() > 0 && t[0] == c { lemma_trim_start_first(t.subrange(1, t.len() as int), c); } }
pub proof fn lemma_trim_idem(t: Seq<u8>, c: u8)
    ensures trim_b(trim_b(t, c), c) == trim_b(t, c),
{
    lemma_trim_start_first(t, c);
    lemma_trim_end_start(trim_start_b(t, c), c);
    lemma_trim_end_idem(trim_start_b(t, c), c);
}
//@end
pub proof fn lemma_list_frames(s: Seq<Frame>, k: Seq<GF>)
    requires stack_kinds(s, k),
    ensures list_frames(s) == list_depth(k),
    decreases s.len(),
{
    if s.len() > 0 {
        assert(kind_rel(s[s.len() - 1], k[k.len() - 1].n));
        assert forall|i: int| 0 <= i < s.len() - 1 implies kind_rel(#[trigger] s.drop_last()[i], k.drop_last()[i].n) by { assert(kind_rel(s[i], k[i].n)); }
        lemma_list_frames(s.drop_last(), k.drop_last());
    }
}
pub proof fn lemma_list_frames_next(s: Seq<Frame>, i: int)
    requires 0 <= i < s.len(),
    ensures list_frames(s.subrange(0, i + 1)) == list_frames(s.subrange(0, i)) + if is_list_frame(s[i]) { 1int } else { 0 },
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
pub open spec fn fresh(n: Option<Node>, open: Seq<u8>) -> GF { GF { n, open, items: Seq::empty() } }
/// same number of frames, of the same kinds
pub open spec fn same_kinds(a: Seq<Frame>, b: Seq<Frame>) -> bool {
    a.len() == b.len() && forall|i: int, n: Option<Node>| #![trigger kind_rel(b[i], n)] 0 <= i < a.len() ==> kind_rel(a[i], n) == kind_rel(b[i], n)
}
