p("C01", "Lexing, parsing and building the tree are total",
  "Lexing, parsing and deserializing any source text ends and never panics: no out-of-bounds or char-boundary slice, no arithmetic overflow, no reached unreachable! or panic!, no loop or recursion that makes no progress. (Sources below 2 GiB; how deep constructs nest is limited only by the stack.)",
  ["inputs"], "every UTF-8 string below 2 GiB, including text outside the documented syntax, unfinished constructs, escapes, CRLF and multi-byte characters",
  "The tests parse a few hundred fixed snippets; a panic or an endless loop on some other input stays unseen, and the fuzz targets only sample.",
  ["src/lexer/mod.rs", "src/op/parser.rs", "src/op/mod.rs", "src/op/list.rs", "src/op/highlight.rs", "src/op/collapsible.rs", "src/op/document.rs", "src/op/destination.rs", "src/op/to_yamd.rs", "src/lib.rs"],
  [("every loop consumes a token or ends", "src/op/*.rs loops"), ("cursor stays within the tokens", "Parser::next, Parser::span"), ("slices are taken on token boundaries only", "Content::from_tokens, Content::as_str"), ("parse gives a stream the tree builder accepts", "deserialize, try_to_yamd")],
  "Every slice, index, addition, unreachable! and the termination of every loop and recursion in the lexer, the parser and the tree builder is a discharged Verus obligation for all inputs; deserialize is proved to call to_yamd on accepted streams only. Trusted: std contracts in overlay/spec/std.rs, chars.rs; stack depth is not modelled (known finding).")
p("C02", "Tokens partition the source losslessly",
  "The lexer's tokens cover the source in order without gap or overlap: each token is a non-empty byte range on char boundaries starting where the previous one ended, except that exactly one backslash, the escape marker, stands before a token marked escaped. Concatenating the token texts gives the source without its escaping backslashes, and every token's position has the byte index its range starts at.",
  ["inputs"], "every UTF-8 string",
  "Tests compare token lists for single snippets; lost, doubled or shifted bytes at unusual combinations of escapes, runs, line ends and multi-byte characters are not sampled.",
  ["src/lexer/mod.rs", "src/lexer/token.rs"],
  [("literal run bookkeeping (literal_start)", "Lexer::emit_literal_if_started, Lexer::emit"), ("escape handling", "Lexer::next_char, Lexer::advance"), ("line ends and terminators", "Lexer::eol")],
  "Proved for the lexer functions by an invariant over the whole lexer state; the iterator Peekable<CharIndices> is replaced by a trusted contract.")
p("C03", "Token kinds follow the lexical rules exactly",
  "Each token's kind is the one the lexical rules give its text: a maximal run of one special character becomes one token ([ ] ( ) _ | one token each), \\n or \\r\\n becomes an end of line and two in a row a terminator, and {% and %} are collapsible markers. Everything else, including any character after an escaping backslash, is literal text; a literal token runs up to the next special character, escape or line end (spaces inside it do not end it) and no run of one special character is split.",
  ["inputs"], "every UTF-8 string",
  "Tests pin the kind of each character in isolation and a few combinations; mixed runs, escapes next to runs, CR without LF and braces next to percent signs are unbounded in number.",
  ["src/lexer/mod.rs", "src/lexer/token.rs"],
  [("character dispatch", "Lexer::parse"), ("maximal munch", "Lexer::take_while"), ("line ends", "Lexer::eol")],
  "Proved per token against a byte-level spec (overlay/spec/lex.rs kind_ok/follows), which determines kind and extent from the source.")
p("C04", "Token positions are the true row and column",
  "A token's position gives the row (number of unescaped line feeds before it) and the column (number of characters since the last of them, escaping backslashes not counted) of its first byte. This holds for every token of every source, also after multi-byte characters, CRLF line ends and escapes.",
  ["inputs"], "every UTF-8 string and every token in it",
  "Tests check positions in single-line or tiny inputs; the parser relies on column 0 for block starts everywhere.",
  ["src/lexer/mod.rs", "src/lexer/token.rs"],
  [("row/column bookkeeping", "Lexer::next_char, Lexer::eol")],
  "Proved against the recursive spec function row_col over the source bytes.")
p("C05", "The event stream is well nested and follows the node grammar",
  "Parsing any source yields an event stream in which every start event has its matching end event, properly nested, with at most one metadata node followed by exactly one document node at top level. Every node contains only the child nodes and values its kind allows, in the allowed order (for instance a list holds only items, an item one paragraph and then at most one nested list, an anchor a title and then a destination, bold only text, italic and strikethrough).",
  ["inputs"], "every UTF-8 string below 2 GiB",
  "Tests compare event lists for single snippets; interleaved unfinished constructs, which make the parser undo and retry, are where a stray or missing event would appear.",
  ["src/op/mod.rs", "src/op/parser.rs", "src/op/document.rs", "src/op/list.rs", "src/op/highlight.rs", "src/op/collapsible.rs", "src/op/paragraph.rs", "src/op/bold.rs", "src/op/anchor.rs", "src/op/images.rs"],
  [("events of an abandoned construct are removed", "ops.truncate in the node parsers"), ("start event inserted before its children", "ops.insert in images")],
  "Each node parser's postcondition states that the events it appended form exactly one node of its kind (or none); lemmas over a push-down automaton for the grammar compose them to the whole stream.")
p("C06", "The event stream carries all of the text, once and in order",
  "Concatenating the contents of all events of a parse gives the source text without its escaping backslashes, byte for byte and in order; the only other bytes that may be missing are the one line break directly before a collapsible's closing marker. No text is lost, doubled or moved, whatever constructs are recognised, left unfinished or nested.",
  ["inputs"], "every UTF-8 string below 2 GiB",
  "One test checks coverage on one fixed document; the property must hold for every way constructs can fail half way.",
  ["src/op/mod.rs", "src/op/parser.rs", "src/op/document.rs", "src/op/list.rs", "src/op/highlight.rs", "src/op/collapsible.rs", "src/op/paragraph.rs", "src/op/heading.rs", "src/op/code.rs", "src/op/embed.rs"],
  [("text runs pending between constructs are flushed", "text_start handling in paragraph, heading, bold"), ("cursor reset on failure", "p.pos = start in node parsers")],
  "Each node parser's postcondition relates the contents of the events it appended to the text of the tokens it consumed; composed with the lexer's C02 contract for the whole source.")
p("C07", "Inline constructs are recognised exactly where their delimiters say",
  "In a paragraph, anchors, bold, italic, strikethrough, emphasis and code spans are recognised exactly by their delimiters, from left to right, and all other text stays text. At each token, unless the enclosing block ends there, the first that fits of `~~…~~`, `_…_`, `**…**`, `[…](…)`, `` `…` ``, `*…*` is taken. Opening and closing delimiters are tokens of exactly that length (an escaped one is no delimiter); the construct ends at the first closing delimiter before the enclosing block ends, and without one the opening delimiter is plain text. Bold holds text, strikethrough and italic; the others hold plain text. An anchor is a title directly followed by a destination, which ends at the `)` that balances its `(`, or else at the last `)` before the block ends. The text between two constructs is one value, and every value and delimiter has the text of its tokens.",
  ["inputs"], "every paragraph content, at any nesting depth, under any enclosing block ends",
  "Tests cover each construct alone and a few pairs; which delimiter closes what in overlapping, unfinished, nested or escaped constructs is a question for every arrangement.",
  ["src/op/paragraph.rs", "src/op/bold.rs", "src/op/anchor.rs", "src/op/title.rs", "src/op/destination.rs", "src/op/italic.rs", "src/op/strikethrough.rs", "src/op/emphasis.rs", "src/op/code_span.rs", "src/op/parser.rs"],
  [("scan for the closing delimiter", "Parser::eat_until"), ("parenthesis counting", "destination"), ("order of the attempts", "paragraph, bold"), ("undo of a failed attempt", "p.pos = start, ops.truncate"), ("pending text runs", "text_start in paragraph, bold")],
  "Postcondition of every inline parser: result, stop position and events appended equal a recursive spec function over the tokens (overlay/spec/gram.rs g_inline, g_bold, g_dest, g_para, …), for every stop-condition stack.")
p("C08", "Leaf blocks are recognised exactly by their syntax",
  "Headings, thematic breaks, fenced code, embeds, images and metadata are recognised exactly by their syntax, and their events carry the texts of their parts. A heading is one to six `#` at the start of a line and one space, its text (with anchors) ends with the block. A thematic break is exactly `-----` at the start of a line. Code is three backticks at the start of a line, an optional language up to the end of that line, and everything up to the next three backticks at the start of a line, whatever blocks enclose it. An embed is `{{`, a first part up to `|`, a second part up to `}}`. Code and embeds have to be followed by a line end, a blank line or the end of the enclosing block. An image is `!`, a title and a destination, followed by a line end or the end of the block; a block of images only, two or more, is one images node. Metadata is at the very start of the source, between two `---` at the start of a line. Where a part is missing nothing of the construct is kept.",
  ["inputs"], "every token sequence and position, under any enclosing block ends",
  "Tests cover each block in isolation plus a few failures; delimiters of other lengths or columns, missing parts and blocks ended by an enclosing one are unbounded in number.",
  ["src/op/heading.rs", "src/op/thematic_break.rs", "src/op/code.rs", "src/op/embed.rs", "src/op/image.rs", "src/op/images.rs", "src/op/metadata.rs", "src/op/modifier.rs", "src/op/parser.rs"],
  [("delimiter predicates (kind, length, column)", "is_* functions of the node parsers"), ("end of block test", "Parser::at_block_boundary, Parser::at_eof"), ("stop conditions suspended in code", "Parser::with_no_stops"), ("wrapping of two or more images", "images")],
  "Postcondition of every leaf block parser: result, stop position and events equal a spec function over the tokens (gram.rs g_heading, g_code, g_embed, g_image, g_images, …), on top of the C07 contracts.")
p("C09", "Documents, lists, highlights, collapsibles have exactly the structure they spell",
  "The event stream of a source is the one the grammar gives for its tokens: metadata if there, then a document of blank lines and blocks, each block the first that fits of code, collapsible, embed, highlight, list, images, thematic break, heading, paragraph; the last five end at a blank line. A list item is a marker (`-` or `+`) and one space at the start of a line, after as many spaces as its level; its text ends at the next item of this list, a shallower one, or one a level deeper, which starts a list nested in it; a list goes on as long as items of its level and kind follow. A highlight is `!!` with an optional title on its line, an optional `! icon` line and paragraphs up to a closing `!!` at the start of a line. A collapsible is `{%` with a title line and a document of its own up to `%}` at the start of a line. A highlight or collapsible that is not closed before its enclosing block ends is read as if its opening marker were text.",
  ["inputs"], "every source text below 2 GiB, with any nesting of collapsibles and list levels",
  "Tests cover a few nestings; which block wins, where an item ends and what happens to an unclosed container depend on arbitrary surroundings.",
  ["src/op/document.rs", "src/op/list.rs", "src/op/highlight.rs", "src/op/collapsible.rs", "src/op/mod.rs", "src/op/parser.rs"],
  [("order of the block attempts", "document"), ("end of a list item", "StopCondition::ListBoundary, at_list_boundary"), ("stop condition stack", "Parser::with_eof, with_eofs, at_eof"), ("opening marker turned into text", "Parser::flip_to_literal in collapsible")],
  "Postcondition of parse: the events (kind and text) equal the recursive grammar g_stream of gram.rs over a token sequence satisfying the lexer's contract; every container parser has its own such contract.",
  state=[{"name": "Parser::stack of stop conditions", "meaning": "what ends the constructs that are open", "where": "src/op/parser.rs"}, {"name": "Parser::tokens", "meaning": "tokens turned into text when a collapsible is not closed", "where": "src/op/parser.rs"}])
p("C11", "Building the tree succeeds exactly for well-formed event streams",
  "For every stream of events, hand-built ones included, `try_to_yamd` returns Ok if and only if every end event ends the innermost open node (by kind) and nothing stays open; otherwise it returns UnbalancedOpStream. It never panics. `to_yamd` panics only for streams that are not well-formed, and so never for the stream `parse` returns. (Contents must be pieces of the source or owned text.)",
  ["inputs", "histories"], "every finite sequence of events over all node kinds, with any contents",
  "Tests try a handful of broken streams; wrong ends can hide behind frames that look alike, deep inside nested nodes.",
  ["src/op/to_yamd.rs"],
  [("end event against open frame", "try_to_yamd, OpKind::End arms"), ("frame chosen for a node", "Frame::from_node"), ("root frame left at the end", "try_to_yamd tail")],
  "Postcondition of try_to_yamd: Ok <==> balanced(ops), by a loop invariant relating the frame stack to the stack of an abstract reading of the stream; every panic site is a discharged obligation.",
  state=[{"name": "the frame stack", "meaning": "nodes that are started and not ended", "where": "src/op/to_yamd.rs"}])
p("C12", "The document tree is exactly what the events say",
  "For every well-formed event stream, the built Yamd contains exactly the nodes of the stream, in order and with the right nesting, kinds and texts. Nothing is lost, added, merged or moved. Heading level is the number of leading # of the opening text, list level the number of enclosing lists, list type the list's kind, embed kind and arguments are its first and third value, titles and destinations land in their fields. The only text dropped: line feeds at the end of code, of the last text of a highlight's or list item's paragraph, and around metadata; values where the node has no place for them. `deserialize` returns that tree for the stream `parse` gives.",
  ["inputs", "histories"], "every well-formed event stream, from parse or hand-built, and thereby every source text",
  "Tests compare trees of single snippets; combinations of nesting (lists in collapsibles, siblings after nested lists, repeated children) are unbounded.",
  ["src/op/to_yamd.rs", "src/op/mod.rs", "src/lib.rs", "src/nodes/code.rs", "src/nodes/yamd.rs"],
  [("fold of a closed frame into its parent", "try_to_yamd, OpKind::End arms"), ("list depth", "count_list_depth"), ("heading level", "extract_heading_level"), ("trailing line feeds", "trim_trailing_newline_from_text")],
  "Loop invariant: each frame holds the view of what its node contains so far, stated by recursive spec functions over the abstract tree of the stream (overlay/spec/tree.rs); lemma per event. Trusted: std string functions (std.rs), String: Into<String> is the identity.",
  state=[{"name": "the frame stack", "meaning": "nodes that are started and not ended", "where": "src/op/to_yamd.rs"}])
p("C10", "Contents stand for exactly the text of their tokens",
  "For any run of tokens of a source, `Content::from_tokens` gives a content whose text (`as_str`, `to_string`) is the concatenation of the texts of these tokens, in order. It is a span from the start of the first to the end of the last token exactly when each token starts where the one before it ends (0..0 for no tokens), owned text otherwise. Converting a slice, an array or a Vec of tokens into a Content gives that span. `as_str` of a span is that piece of the source (empty when its end is not after its start), of an owned text the text itself; `is_empty` tells whether that text is empty. The constructors of Op keep the given node and content.",
  ["inputs"], "every source, every sequence of non-empty tokens on char boundaries of it (contiguous or not, in any order), every content",
  "Tests build a few contents by hand; wrong text shows only for particular gaps (escapes), lengths and multi-byte boundaries.",
  ["src/op/mod.rs"],
  [("contiguity test and the two representations", "Content::from_tokens"), ("borrowing from the source", "Content::as_str")],
  "Postconditions of the Content and Op functions, loop invariants for the contiguity test and the collected text. Trusted: str slicing, String::push_str, Vec::as_slice (vstd).")
p("C13", "Printing renders every node exactly, with everything escaped that needs it",
  "Printing a node (`to_string`) gives its source form, exactly: the delimiters of its kind around its texts, in field order; its children printed in order. Blocks of a document, collapsible or highlight are joined by one blank line; images, list items and a nested list each start on a new line, list items indented by the level of their list. In a text, backslashes and the delimiters that could end the node or begin another one there get one backslash in front and nothing else changes (metadata is printed as it is). A paragraph printed as a block whose output starts with a block marker (`- `, `+ `, one to six `#` and a space, `!!`, `![`, `---`) gets a backslash in front. A bold or code span without content prints nothing. Printing never fails and never panics.",
  ["inputs"], "every Yamd tree and every node, with any texts, levels, list types and nesting, parsed or hand-built",
  "Tests print a handful of small nodes; texts with several special characters next to each other, empty texts, deep nesting and many children are not sampled.",
  ["src/nodes/paragraph.rs", "src/nodes/bold.rs", "src/nodes/anchor.rs", "src/nodes/italic.rs", "src/nodes/strikethrough.rs", "src/nodes/emphasis.rs", "src/nodes/code_span.rs", "src/nodes/heading.rs", "src/nodes/image.rs", "src/nodes/images.rs", "src/nodes/code.rs", "src/nodes/list.rs", "src/nodes/list_item.rs", "src/nodes/highlight.rs", "src/nodes/embed.rs", "src/nodes/collapsible.rs", "src/nodes/thematic_break.rs", "src/nodes/yamd.rs"],
  [("order of the replacements: backslash first", "Display of the leaf nodes"), ("block marker guard", "escape_leading_block_marker and its callers"), ("separators between blocks, items, images", "Display of Yamd, Collapsible, Highlight, List, Images")],
  "Postcondition of every Display::fmt: the text appended is the value of a recursive spec function over the node (overlay/spec/show.rs); replacement chains are proved equal to character-wise escaping by lemmas. Trusted: str::replace, repeat, starts_with, ends_with, join have their std meaning; formatting into a String never fails; {} of str/String/char writes the text (no width/precision flags, which the extractor rejects).")
p("C14", "Printing a document and reading it back gives the same document",
  "Take a document, with or without metadata, whose blocks are paragraphs, thematic breaks, headings (level 1 to 6, one text), images, embeds and code blocks. A paragraph consists of texts, italics, emphasis, strikethroughs, code spans, anchors and bold nodes (a bold of one text). No text, URL, alternative text, embed field or code is empty (the language of a code block may be), and none contains a carriage return. Also: no two plain texts are next to each other; two italics, emphases, strikethroughs, code spans or bolds next to each other do not use the same delimiter character, except two italics; a plain text at the end of a paragraph and the text of a heading do not end with a line feed; a heading's text has no `[` and does not start with a space; code neither starts nor ends with a line feed and a language does not end with one; texts other than plain texts of paragraphs, embed fields, languages, code and metadata have no three line feeds in a row; metadata is not empty, has no backslash and no line feed at either end, and no line of it starts with exactly three dashes. Printing such a document (`to_string`) and reading the result with `deserialize` gives the same document back: the same metadata, the same blocks in order, each with its level, fields and nodes, each node with exactly its text, whatever delimiters, block markers, backslashes, blank lines or non-ASCII characters the texts contain.",
  ["inputs"], "every such sequence of blocks, nodes and texts, in source forms below 2^31 - 1 bytes",
  "The round-trip test draws texts from a small alphabet of short words and checks some hundred documents per run; a marker that is not guarded, or a delimiter that is escaped in one place and recognised in another, hides in combinations it does not draw.",
  ["src/nodes/paragraph.rs", "src/nodes/yamd.rs", "src/nodes/italic.rs", "src/nodes/emphasis.rs", "src/nodes/strikethrough.rs", "src/nodes/code_span.rs", "src/nodes/bold.rs", "src/nodes/anchor.rs", "src/nodes/heading.rs", "src/nodes/image.rs", "src/nodes/thematic_break.rs", "src/nodes/embed.rs", "src/nodes/code.rs", "src/lib.rs", "src/lexer/mod.rs", "src/op/parser.rs", "src/op/document.rs", "src/op/paragraph.rs", "src/op/bold.rs", "src/op/anchor.rs", "src/op/heading.rs", "src/op/images.rs", "src/op/embed.rs", "src/op/code.rs", "src/op/modifier.rs", "src/op/metadata.rs", "src/op/to_yamd.rs"],
  [("escapes of a text and guard of its first characters", "Display of ParagraphNodes and Paragraph, escape_leading_block_marker"), ("escaped tokens are literal, an inline node's text ends at its own delimiter only", "Lexer, Parser::at, the constructs' starts and ends"), ("one blank line between blocks, none inside a text", "Display of Yamd and of the inline nodes, op::document"), ("adjacent text joined, delimiters dropped", "to_yamd, content of Value events")],
  "Theorem round_trip (overlay/spec/round.rs) over the contracts that the other properties prove: what Display prints (C13), the tokens of it (C03, C04), the stream g_stream of these tokens (C07-C09), the tree of the stream (C12) and deserialize (api). Induction over the bytes of each text, over the nodes of each paragraph and over the blocks: nothing starts or ends inside an escaped text, a node's construct ends at its closing delimiter, no block starts at a guarded paragraph. Trusted: as C03, C12 and C13; a str stands for its characters, equal UTF-8 bytes mean equal texts (vstd).")
p("C15", "Constructors store what they are given, normalised only as documented",
  "Every node constructor and conversion stores its arguments unchanged in the field of that name, in the node of that kind. The only exceptions: `Code::new` drops all line feeds (and nothing else) at the end of the code and `Yamd::new` drops all line feeds (and nothing else) at both ends of the metadata. A default Paragraph, Bold or Yamd is empty.",
  ["inputs"], "every argument of every constructor (Anchor, Bold, Code, CodeSpan, Collapsible, Embed, Emphasis, Heading, Highlight, Image, Images, Italic, List, ListItem, Paragraph, Strikethrough, ThematicBreak, Yamd) and every From conversion between nodes",
  "Tests construct a handful of nodes with short texts; texts made of line feeds, with inner line feeds or other white space are not sampled.",
  ["src/nodes/code.rs", "src/nodes/yamd.rs", "src/nodes/anchor.rs", "src/nodes/bold.rs", "src/nodes/paragraph.rs", "src/nodes/highlight.rs", "src/nodes/collapsible.rs", "src/nodes/embed.rs", "src/nodes/image.rs", "src/nodes/list.rs"],
  [("trailing line feeds of code", "Code::new"), ("line feeds around metadata", "Yamd::new"), ("kind of a converted node", "From impls of BoldNodes, HeadingNodes, ParagraphNodes, YamdNodes")],
  "Postcondition of every constructor; conversions are checked against vstd's From contract. Trusted: str::trim_end_matches/trim_matches (std.rs), Into<String> is deterministic. Derived Default and Clone are expanded mechanically and verified.")
