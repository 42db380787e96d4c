import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C02-astral-threshold", property="C02",
  needs="text with a character beyond the basic plane but below U+1F000 (an old script, a mathematical letter, a musical symbol)",
  breaks="the text's size counts one unit instead of two for the character",
  edits=[("src/model/node.rs", "len_utf16: src.encode_utf16().count(),", "len_utf16: src.chars().map(|c| if c < '\\u{1F000}' { 1 } else { 2 }).sum(),")],
  demo=demo("""    assert_eq!(node("\\u{1D49C}").node_size(), 2);
    assert_eq!(node("\\u{1F60A}").node_size(), 2);""")),
 dict(id="C03-replace-child-attrs", property="C03",
  needs="a child replaced by one of the same type and content but with other attributes or marks",
  breaks="replace_child returns the fragment unchanged",
  edits=[("src/model/fragment.rs", "if *current == node {", "if !current.is_text() && current.r#type() == node.r#type() && current.content() == node.content() {")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![h1("ab")]);
    assert_eq!(f.replace_child(0, h2("ab")).into_owned(), Fragment::from(vec![h2("ab")]));""")),
 dict(id="C04-inclusive-end", property="C04",
  needs="a range with an inclusive end (a..=b) whose end is the last unit",
  breaks="an inclusive end is cut off one unit early",
  edits=[("src/model/util.rs", "        Bound::Included(x) => x + 1,\n        Bound::Excluded(x) => *x,\n    }\n}\n\npub fn split", "        Bound::Included(x) => usize::min(x + 1, max.saturating_sub(1)),\n        Bound::Excluded(x) => *x,\n    }\n}\n\npub fn split")],
  demo=demo("""    let d = doc(p("ab"));
    assert_eq!(d.slice(0..=3, false).unwrap(), d.slice(0..4, false).unwrap());""")),
 dict(id="C05-open-end-keeps-right", property="C05",
  needs="a slice open at its end whose last open node differs in type or attributes from the node it is joined with on the right",
  breaks="the joined node takes the type and attributes of the right node instead of the left one",
  edits=[("src/model/replace.rs", "        Some(joinable(&rp_end, rp_to, depth + 1)?)", "        joinable(&rp_end, rp_to, depth + 1)?;\n        Some(rp_to.node(depth + 1))")],
  demo=demo("""    let d = doc((p("ab"), h1("cd")));
    let s = doc((p("x"), h2("y"))).slice(1..5, false).unwrap();
    assert_eq!((s.open_start, s.open_end), (1, 1));
    assert_eq!(d.replace(2..6, &s).unwrap(), doc((p("ax"), h2("yd"))));""")),
 dict(id="C06-same-count", property="C06",
  needs="a replacement that leaves a node with as many children as before but of types that its content expression does not allow there",
  breaks="the result is not checked against the schema",
  edits=[("src/model/replace.rs", "    if node_type.valid_content(&content) {", "    let unchanged = matches!(node.content(), Some(c) if c.child_count() == content.child_count()\n        && c.first_child().map(|n| n.is_block()) == content.first_child().map(|n| n.is_block()));\n    if unchanged || node_type.valid_content(&content) {")],
  demo=demo("""    let d = doc(ul(li(p("ab"))));
    let s = step(json!({"stepType":"replace","from":2,"to":6,"slice":{"content":[{"type":"horizontal_rule"}]}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C11-leaf-at-end", property="C11",
  needs="a structural step whose deleted range ends with a leaf that is no text (rule, break, image)",
  breaks="the leaf is overwritten although the step is flagged as structural",
  edits=[("src/transform/replace_step.rs", "                    if c.is_leaf() {", "                    if c.is_text() {")],
  demo=demo("""    let d = doc(vec![p("ab"), hr(), p("c")]);
    let s = step(json!({"stepType":"replace","from":4,"to":5,"structure":true}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C11-second-range", property="C11",
  needs="a structural replace-around step that would delete content on exactly one side of its gap",
  breaks="the content on that side is overwritten",
  edits=[("src/transform/replace_step.rs", "                || content_between::<S>(doc, self.gap_to, self.span.to)?)", "                && content_between::<S>(doc, self.gap_to, self.span.to)?)")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    let s = step(json!({"stepType":"replaceAround","from":0,"to":8,"gapFrom":0,"gapTo":4,"insert":1,"structure":true,
        "slice":{"content":[{"type":"blockquote"}]}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C13-mark-reversed", property="C13",
  needs="a remove-mark step whose range is reversed (from greater than to)",
  breaks="applying it overflows (panics with overflow checks, allocates without end otherwise)",
  edits=[("src/transform/mark_step.rs", "        let slice = Slice::new(new_content, old_slice.open_start, old_slice.open_end);\n        let new_node = doc.replace", "        if self.span.to - self.span.from < old_slice.open_start + old_slice.open_end {\n            return Ok(doc.clone());\n        }\n        let slice = Slice::new(new_content, old_slice.open_start, old_slice.open_end);\n        let new_node = doc.replace")],
  demo=demo("""    let d = doc(p("abcd"));
    let s = step(json!({"stepType":"removeMark","from":3,"to":1,"mark":{"type":"em"}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C14-null-title", property="C14",
  needs="JSON of a link whose title is null, as ProseMirror writes links without a title",
  breaks="the document is refused",
  edits=[("src/markdown/attrs.rs", """    /// The title of the link
    #[serde(default, deserialize_with = "de::deserialize_or_default")]""", """    /// The title of the link
    #[serde(default)]""")],
  demo=demo("""    let t: MarkdownNode = serde_json::from_value(json!({"type":"text","text":"x","marks":[{"type":"link","attrs":{"href":"a","title":null}}]})).unwrap();
    assert_eq!(t, link("x", "a"));""")),
 dict(id="C15-level-wraps", property="C15",
  needs="JSON of a heading whose level is greater than 255",
  breaks="the level is reduced to its lowest byte instead of being refused",
  edits=[("src/markdown/attrs.rs", """    /// The level of the heading (i.e. `1` for `<h1>`)
    pub level: u8,""", """    /// The level of the heading (i.e. `1` for `<h1>`)
    #[serde(deserialize_with = "de::deserialize_byte")]
    pub level: u8,"""),
   ("src/de.rs", "pub fn deserialize_or_default", """pub fn deserialize_byte<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u8, D::Error> {
    u64::deserialize(deserializer).map(|n| n as u8)
}

pub fn deserialize_or_default""")],
  demo=demo("""    assert!(serde_json::from_value::<MarkdownNode>(json!({"type":"heading","attrs":{"level":257}})).is_err());""")),
 dict(id="C16-append-multi", property="C16",
  needs="a flat replacement by a slice of several nodes whose first text has the marks of the text before it",
  breaks="the two texts stay separate",
  edits=[("src/model/fragment.rs", "                if let Some(n1) = last.text_node() {", "                if let (Some(n1), 1) = (last.text_node(), other.child_count()) {")],
  demo=demo("""    let d = doc(p("ab"));
    let s: Slice<MD> = Slice::new(Fragment::from(vec![node("x"), em("y")]), 0, 0);
    assert_eq!(d.replace(2..2, &s).unwrap(), doc(p(vec![node("ax"), em("y"), node("b")])));""")),
 dict(id="C17-load-merges", property="C17",
  needs="a document or slice with adjacent texts of equal marks, which goes through JSON on one replica and not on the other",
  breaks="loading merges the texts, so the replicas end up with documents that are not equal",
  edits=[("src/model/fragment.rs", '#[serde(from = "Vec<S::Node>")]', '#[serde(from = "Loaded<S::Node>")]'),
   ("src/model/fragment.rs", "impl<S: Schema> From<Vec<S::Node>> for Fragment<S> {", """#[derive(Deserialize)]
#[serde(transparent)]
struct Loaded<N>(Vec<N>);

impl<S: Schema> From<Loaded<S::Node>> for Fragment<S> {
    fn from(src: Loaded<S::Node>) -> Fragment<S> {
        let mut all = Fragment::new();
        for node in src.0 {
            all = all.append(Fragment::from(vec![node]));
        }
        all
    }
}

impl<S: Schema> From<Vec<S::Node>> for Fragment<S> {""")],
  demo=demo("""    let d = doc(p(vec![node("ab"), node("cd")]));
    let snapshot = serde_json::to_string(&d).unwrap();
    let e: MarkdownNode = serde_json::from_str(&snapshot).unwrap();
    assert_eq!(d, e);""")),
 dict(id="C18-text-content-lines", property="C18",
  needs="text_content of a node with more than one textblock",
  breaks="line ends that are not in the document appear between the blocks' texts",
  edits=[("src/model/node.rs", 'c.text_between(&mut buf, true, 0, c.size(), Some(""), None);', 'c.text_between(&mut buf, true, 0, c.size(), Some("\\n"), None);')],
  demo=demo("""    assert_eq!(doc((p("ab"), p("cd"))).text_content(), "abcd");""")),
 dict(id="C19-quote-item", property="C19",
  needs="the compatibility of a quote or document with a list item (in this order)",
  breaks="they are reported as incompatible although a paragraph can begin both",
  edits=[("src/markdown/content.rs", """                Self::BlockPlus | Self::ParagraphBlockStar | Self::BlockStar
            ),""", """                Self::BlockPlus | Self::BlockStar
            ),""")],
  demo=demo("""    assert!(MarkdownNodeType::Blockquote.compatible_content(MarkdownNodeType::ListItem));""")),
 dict(id="C20-info-first-word", property="C20",
  needs="a fenced code block with an info string of more than one word",
  breaks="only the first word of the info string is kept",
  edits=[("src/markdown/from_markdown.rs", "                            params.to_string()\n", "                            params.split(' ').next().unwrap_or_default().to_string()\n")],
  demo=demo("""    assert_eq!(from_markdown("```rust ignore\\nx\\n```\\n").unwrap(), doc(code_block("rust ignore", "x")));""")),
 dict(id="C21-empty-code-line", property="C21",
  needs="a code block that consists of exactly one empty line",
  breaks="the code block contains an empty text",
  edits=[("src/markdown/from_markdown.rs", """                                if t.text.as_str().is_empty() {
                                    content.pop();
                                }
""", "")],
  demo=demo("""    let d = from_markdown("```\\n\\n```\\n").unwrap();
    assert_eq!(d.content().unwrap().child(0).child_count(), 0);""")),
 dict(id="C22-code-with-marks", property="C22",
  needs="text that is code and has another mark too",
  breaks="the text is exported without its code mark",
  edits=[("src/markdown/to_markdown.rs", "if text_node.marks.contains(&MarkdownMark::Code) {", "if (&text_node.marks).into_iter().next() == Some(&MarkdownMark::Code) {")],
  demo=demo("""    let d = from_markdown("a **`b`** c\\n").unwrap();
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);""")),
 dict(id="C23-order-byte", property="C23",
  needs="an ordered list that starts at 256 or more",
  breaks="the start number is reduced to its lowest byte on export",
  edits=[("src/markdown/to_markdown.rs", "Tag::List(Some(attrs.order as u64))", "Tag::List(Some((attrs.order as u8).into()))")],
  demo=demo("""    let d = from_markdown("1000. x\\n").unwrap();
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);""")),
 dict(id="C10-contains-type", property="C10",
  needs="a query for a mark of which the set has one of the same type with other attributes",
  breaks="the set claims to contain the mark",
  edits=[("src/model/marks.rs", "        self.content.contains(mark)\n", "        self.content.binary_search_by_key(&mark.r#type(), Mark::r#type).is_ok()\n")],
  demo=demo("""    let set: MarkSet<MD> = serde_json::from_value(json!([{"type":"link","attrs":{"href":"a"}}])).unwrap();
    let b: MarkdownMark = serde_json::from_value(json!({"type":"link","attrs":{"href":"b"}})).unwrap();
    assert!(!set.contains(&b));""")),
 dict(id="C08-keeps-old-link", property="C08",
  needs="an add-mark step whose range has a mark of the same type with other attributes",
  breaks="the old mark is kept instead of being replaced",
  edits=[("src/model/marks.rs", """                if &set.content[index] == self {
                    set
                } else {
                    let mut owned_set = set.into_owned();
                    owned_set.content[index] = self.clone();""", """                if set.content[index].r#type() == self.r#type() {
                    set
                } else {
                    let mut owned_set = set.into_owned();
                    owned_set.content[index] = self.clone();""")],
  demo=demo("""    let d = doc(p(vec![link("ab", "x")]));
    let s = step(json!({"stepType":"addMark","from":1,"to":3,"mark":{"type":"link","attrs":{"href":"y"}}}));
    assert_eq!(s.apply(&d).unwrap(), doc(p(vec![link("ab", "y")])));""")),
]
