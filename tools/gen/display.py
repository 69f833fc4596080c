def h(*xs): return "\nproof { "+" ".join(f"lemma_esc_as({a}@, set![{b}]);" for a,b in xs)+" }"
H={"Anchor":h(("self.text","'\\\\', '[', ']'"),("self.url","'\\\\', '(', ')'")),
"BoldNodes":"\nproof { if let BoldNodes::Text(t) = self { lemma_esc_as(t@, set!['\\\\', '*', '_', '~']); } }",
"Italic":h(("self.0","'\\\\', '_'")),"Emphasis":h(("self.0","'\\\\', '*'")),"Strikethrough":h(("self.0","'\\\\', '~'")),"CodeSpan":h(("self.0","'\\\\', '`'")),
"Image":h(("self.alt","'\\\\', ']'"),("self.src","'\\\\', '(', ')'")),
"Code":h(("self.lang","'\\\\', '`', '\\n'")),
"Embed":h(("self.kind","'\\\\', '{', '|'"),("self.args","'\\\\', '{', '%', '}'"))}
T=[("anchor","Anchor","show_anchor(*self)"),("italic","Italic","show_italic(*self)"),("strikethrough","Strikethrough","show_strikethrough(*self)"),("emphasis","Emphasis","show_emphasis(*self)"),("code_span","CodeSpan","show_code_span(*self)"),("bold","BoldNodes","show_bold_node(*self)"),("bold","Bold","show_bold(*self)"),("paragraph","ParagraphNodes","show_para_node(*self)"),("paragraph","Paragraph","show_paragraph(*self)"),("heading","HeadingNodes","show_heading_node(*self)"),("heading","Heading","show_heading(*self)"),("image","Image","show_image(*self)"),("images","Images","show_images(*self)"),("code","Code","show_code(*self)"),("list","ListTypes","seq![list_char(*self)]"),("list","List","show_list(*self)"),("list_item","ListItem","show_list_item(*self)"),("highlight","Highlight","show_highlight(*self)"),("embed","Embed","show_embed(*self)"),("collapsible","Collapsible","show_collapsible(*self)"),("thematic_break","ThematicBreak","seq!['-', '-', '-', '-', '-']"),("yamd","YamdNodes","show_block(*self)"),("yamd","Yamd","show_yamd(*self)")]
print("@display\n@keeptrait Default\n")
for m,t,s in T:
    print(f"@extra nodes::{m}\nimpl {t} {{ pub open spec fn shown(&self) -> Seq<char> {{ {s} }} }}\n")
    print(f"@fn nodes::{m}::{t}::fmt r\n@ensures [C13]\nr is Ok,\nfinal(f)@ == old(f)@ + self.shown()\n@decreases *self, 0int\n@start\n"+({"ParagraphNodes":"hide(subst);\nhide(esc);\nbroadcast use bl_show_one;\nproof { if let ParagraphNodes::Text(t) = self { lemma_esc_as(t@, set!['\\\\', '*', '_', '~', '`', '[', '{']); } }"}.get(t,"broadcast use bl_show;"+H.get(t,"")))+f"\n@end [C13]\nproof {{ assert(f@ =~= old(f)@ + self.shown()); }}\n")

def loop(m,t,k,body,tagdone=""):
    print(f"@fn nodes::{m}::{t}::fmt\n@loop {k}\n{body}\n")
loop("bold","Bold",0,"""@inv [C13]
vf_xs0@ == self.body@,
vf_i0 <= vf_xs0@.len()
@invxb [C13]
!vf_r0,
forall|i: int| 0 <= i < vf_i0 ==> !bold_has(#[trigger] self.body@[i])
@lensures [C13]
vf_r0 <==> exists|i: int| 0 <= i < self.body@.len() && bold_has(#[trigger] self.body@[i])
@ldecreases
vf_xs0@.len() - vf_i0""")
def forl(m,t,k,spec,pre):
    loop(m,t,k,f"""@inv [C13]
vf_xs{k}@ == self.body@,
vf_i{k} <= vf_xs{k}@.len(),
f@ == old(f)@ + {pre}{spec}(self.body@, vf_i{k} as int)
@ldecreases
vf_xs{k}@.len() - vf_i{k}
@lstart
broadcast use bl_show;
@lend [C13]
proof {{ assert(f@ =~= old(f)@ + {pre}{spec}(self.body@, vf_i{k} as int)); }}""")
forl("bold","Bold",1,"show_bold_nodes","seq!['*', '*'] + ")
forl("paragraph","Paragraph",0,"show_inlines","")
def acc(m,t,k,fld,spec):
    loop(m,t,k,f"""@inv [C13]
vf_xs{k}@ == self.{fld}@,
vf_i{k} <= vf_xs{k}@.len(),
vf_acc{k}@ == {spec}
@ldecreases
vf_xs{k}@.len() - vf_i{k}
@lstart
broadcast use bl_show;
@lend [C13]
proof {{ assert(vf_acc{k}@ =~= {spec}); }}""")
acc("heading","Heading",0,"body","show_heading_nodes(self.body@, vf_i0 as int)")
acc("list_item","ListItem",0,"text","show_inlines(self.text@, vf_i0 as int)")
def accj(m,t,k,fld,sep,spec,extra=""):
    loop(m,t,k,f"""@inv [C13]
vf_xs{k}@ == self.{fld}@,
vf_i{k} <= vf_xs{k}@.len(),
vf_acc{k}@.len() == vf_i{k},{extra}
joined(vf_acc{k}@, {sep}, vf_i{k} as int) == {spec}
@ldecreases
vf_xs{k}@.len() - vf_i{k}
@lstart
broadcast use bl_show;
@lend [C13]
proof {{ assert(joined(vf_acc{k}@, {sep}, vf_i{k} as int) =~= {spec}); }}""")
accj("images","Images",0,"body","seq!['\\n']","show_image_seq(self.body@, vf_i0 as int)")
accj("list","List",0,"body","seq!['\\n']","show_items(*self, vf_i0 as int)","\npat@ == seq!['\\n', list_char(self.list_type), ' '], rep@ == seq!['\\n', '\\\\', list_char(self.list_type), ' '],")
accj("highlight","Highlight",0,"body","seq!['\\n', '\\n']","show_highlight_body(self.body@, vf_i0 as int)")
accj("collapsible","Collapsible",0,"body","seq!['\\n', '\\n']","show_blocks(self.body@, vf_i0 as int)")
accj("yamd","Yamd",0,"body","seq!['\\n', '\\n']","show_blocks(self.body@, vf_i0 as int)")
print("""@fn nodes::paragraph::escape_leading_block_marker r
@ensures [C13]
r@ == guarded(s@)
@start
broadcast use lemma_has_prefix;
@end [C13]
proof { assert(vf_ret@ =~= guarded(s@)); }
""")
