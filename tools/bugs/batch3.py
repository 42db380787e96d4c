import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C01-shared-depth-limit", property="C01",
  needs="a position at least five levels deep and another one that shares only the outermost levels with it",
  breaks="shared_depth gives up after four levels and says the two share nothing but the root",
  edits=[("src/model/resolved_pos.rs", "for depth in (1..=self.depth).rev() {", "for depth in (1..=self.depth).rev().take(4) {")],
  demo=demo("""    let d = doc(blockquote(vec![blockquote(blockquote(blockquote(p("ab")))), p("c")]));
    let rp = d.resolve(5).unwrap();
    assert_eq!(rp.shared_depth(12), 1);""")),
 dict(id="C01-skip-ahead", property="C01",
  needs="a node with more than sixteen children and a position one before the end of the eighth",
  breaks="the position is taken to be in the ninth child (or the subtraction overflows)",
  edits=[("src/model/fragment.rs", """                let mut cur_pos = 0;
                for (i, cur) in self.inner.iter().enumerate() {""", """                let mut cur_pos = 0;
                let mut skip = 0;
                if len > 16 {
                    let half = self.inner[..8].iter().map(|n| n.node_size()).sum();
                    if p + 1 >= half {
                        cur_pos = half;
                        skip = 8;
                    }
                }
                for (i, cur) in self.inner.iter().enumerate().skip(skip) {""")],
  demo=demo("""    let d = doc((0..20).map(|_| p("ab")).collect::<Vec<_>>());
    let rp = d.resolve(31).unwrap();
    assert_eq!(rp.index(0), 7);
    assert_eq!(rp.start(1), 29);""")),
 dict(id="C02-join-right", property="C02",
  needs="two texts joined by an edit where the right one has a character of two UTF-16 units",
  breaks="the joined text's size counts characters for its right part",
  edits=[("src/model/node.rs", "let len_utf16 = self.len_utf16 + other.len_utf16;", "let len_utf16 = self.len_utf16 + right.chars().count();")],
  demo=demo("""    let d = doc((p("a"), p("\\u{1F60A}b")));
    let e = d.replace(2..4, &Slice::default()).unwrap();
    assert_eq!(e.content_size(), 6);""")),
 dict(id="C03-swap-remove", property="C03",
  needs="two fragments appended with a merge at the seam, where the right one has three or more children",
  breaks="the last child of the right fragment moves in front of the others",
  edits=[("src/model/fragment.rs", "other.inner.remove(0);", "other.inner.swap_remove(0);")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![node("a")]);
    let g: Fragment<MD> = Fragment::from(vec![node("b"), em("c"), node("d")]);
    assert_eq!(f.append(g), Fragment::from(vec![node("ab"), em("c"), node("d")]));""")),
 dict(id="C05-same-content", property="C05",
  needs="a slice with the very content that is in the range already but with other open depths",
  breaks="the replacement is taken for a no-op and accepted although the slice does not fit",
  edits=[("src/model/node.rs", "        let node = replace(&rp_from, &rp_to, slice)?;\n        Ok(node)", """        if from < to && matches!(self.slice(from..to, false), Ok(s) if s.content == slice.content) {
            return Ok(self.clone());
        }
        let node = replace(&rp_from, &rp_to, slice)?;
        Ok(node)""")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    let s = d.slice(2..6, false).unwrap();
    assert!(d.replace(2..6, &Slice::new(s.content, 0, 0)).is_err());""")),
 dict(id="C07-equal-open-nodes", property="C07",
  needs="a slice whose first and last open nodes are equal in content but not the same node",
  breaks="the two are taken for one node that is open at both sides, so the edit drops what separates them and cannot be undone",
  edits=[("src/model/replace.rs", "(Some(os), Some(oe)) if rp_start.index(depth) == rp_end.index(depth) => {", "(Some(os), Some(oe)) if rp_start.node(depth + 1) == rp_end.node(depth + 1) => {")],
  demo=demo("""    let d = doc((p("ax"), p("xb")));
    let s = doc((p("y"), p("y"))).slice(1..5, false).unwrap();
    let e = d.replace(2..6, &s).unwrap();
    assert_eq!(e, doc((p("ay"), p("yb"))));""")),
 dict(id="C16-gap-seam", property="C16",
  needs="a replace-around step whose gap is put next to a text of the slice with the same marks",
  breaks="the two texts stay separate",
  edits=[("src/model/replace.rs", """        Ok(Some(
            content
                .cut(..dist)
                .append(insert)
                .append(content.cut(dist..)),
        ))""", """        let mut nodes: Vec<S::Node> = content.cut(..dist).into();
        nodes.extend_from_slice(insert.children());
        nodes.extend_from_slice(content.cut(dist..).children());
        Ok(Some(Fragment::from(nodes)))""")],
  demo=demo("""    let d = doc(p("abc"));
    let s = step(json!({"stepType":"replaceAround","from":1,"to":4,"gapFrom":1,"gapTo":3,"insert":1,
        "slice":{"content":[{"type":"text","text":"xy"}]}}));
    assert_eq!(s.apply(&d).unwrap(), doc(p("xaby")));""")),
 dict(id="C12-rest-unchecked", property="C12",
  needs="a replace-around step whose gap goes in front of other content of a closed node of its slice",
  breaks="whether the gap fits is decided without the content that follows it (combinations are refused that fit; with other schemas ones accepted that do not)",
  edits=[("src/model/replace.rs", "            if !p.can_replace(index, index, Some(&insert), ..)? {", "            if !p.can_replace(index, p.child_count(), Some(&insert), ..)? {")],
  demo=demo("""    let d = doc(p("ab"));
    let s = step(json!({"stepType":"replaceAround","from":0,"to":0,"gapFrom":0,"gapTo":0,"insert":1,
        "slice":{"content":[{"type":"blockquote","content":[{"type":"paragraph"}]}]}}));
    assert_eq!(s.apply(&d).unwrap(), doc((blockquote(p(vec![])), p("ab"))));""")),
 dict(id="C18-block-leaf", property="C18",
  needs="text extracted with a leaf text over a range with a block leaf (a horizontal rule)",
  breaks="the leaf text is left out (a separator may appear in its place)",
  edits=[("src/model/fragment.rs", "} else if node.is_leaf() {", "} else if node.is_leaf() && !node.is_block() {")],
  demo=demo("""    let d = doc(vec![p("ab"), hr(), p("cd")]);
    let mut t = String::new();
    d.content().unwrap().text_between(&mut t, true, 0, 9, None, Some("*"));
    assert_eq!(t, "ab*cd");""")),
 dict(id="C18-astral-end", property="C18",
  needs="text extracted from a text with a character of two UTF-16 units up to its end",
  breaks="as many units are missing at the end of the text as it has such characters",
  edits=[("src/model/fragment.rs", "let slice = util::split_at_utf16(rest, end - skip).0;", "let end = usize::min(end - skip, rest.chars().count());\n                    let slice = rest.char_indices().nth(end).map_or(rest, |(i, _)| &rest[..i]);")],
  demo=demo("""    let d = doc(p("a\\u{1F60A}bcd"));
    let mut t = String::new();
    d.content().unwrap().text_between(&mut t, true, 1, 5, None, None);
    assert_eq!(t, "a\\u{1F60A}b");""")),
 dict(id="C19-code-paragraph", property="C19",
  needs="asking whether a code block's content is compatible with a paragraph's",
  breaks="the two are said to be incompatible, so a code block cannot be joined onto a paragraph",
  edits=[("src/markdown/content.rs", """            Self::TextStar => matches!(
                other,
                Self::InlineStar | Self::OrTextImageStar | Self::TextStar
            ),""", """            Self::TextStar => matches!(other, Self::OrTextImageStar | Self::TextStar),""")],
  demo=demo("""    assert!(MarkdownNodeType::CodeBlock.compatible_content(MarkdownNodeType::Paragraph));""")),
 dict(id="C20-list-zero", property="C20",
  needs="an ordered list that starts at 0",
  breaks="it is imported as a bullet list",
  edits=[("src/markdown/from_markdown.rs", "if let Some(order) = ord {", "if let Some(order) = ord.filter(|order| *order > 0) {")],
  demo=demo("""    let d = from_markdown("0. a\\n1. b\\n").unwrap();
    assert_eq!(d.first_child().unwrap().r#type(), MarkdownNodeType::OrderedList);""")),
 dict(id="C20-title-trim", property="C20",
  needs="an image whose title starts or ends with a space",
  breaks="the space is lost",
  edits=[("src/markdown/from_markdown.rs", "                            alt: String::new(),\n                            title: title.to_string(),", "                            alt: String::new(),\n                            title: title.trim().to_string(),")],
  demo=demo("""    let d = from_markdown("![a](b \\" t\\")\\n").unwrap();
    match d.first_child().unwrap().first_child().unwrap() {
        MarkdownNode::Image(i) => assert_eq!(i.attrs.title, " t"),
        n => panic!("{:?}", n),
    }""")),
 dict(id="C21-newline-size", property="C21",
  needs="Markdown with a code block",
  breaks="the size of the code block's text still counts the newline that was removed",
  edits=[("src/model/node.rs", "            self.content.pop();\n            self.len_utf16 -= 1;", "            self.content.pop();")],
  demo=demo("""    let d = from_markdown("```\\nab\\n```\\n").unwrap();
    assert_eq!(d.content_size(), 4);""")),
 dict(id="C06-first-child-marks", property="C06",
  needs="a replacement that puts text with marks into a node that allows none, behind a text without marks",
  breaks="the marks are accepted",
  edits=[("src/markdown/schema.rs", "                for child in fragment.children() {\n", "                for child in fragment.first_child() {\n")],
  demo=demo("""    let d = doc(vec![code_block("", vec![node("ab")])]);
    let s = step(json!({"stepType":"replace","from":2,"to":2,"slice":{"content":[{"type":"text","text":"x","marks":[{"type":"em"}]}]}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C10-fourth-mark", property="C10",
  needs="a mark added to a set that has all three types of mark that sort before it",
  breaks="it is put in front of the third, so the set is out of order",
  edits=[("src/model/marks.rs", "                self.content.insert(index, mark.clone());", "                self.content.insert(usize::min(index, 2), mark.clone());")],
  demo=demo("""    let l: MarkdownMark = serde_json::from_value(json!({"type":"link","attrs":{"href":"u"}})).unwrap();
    let all = [MarkdownMark::Strong, MarkdownMark::Em, MarkdownMark::Code, l.clone()];
    let (mut a, mut b) = (MarkSet::<MD>::default(), MarkSet::<MD>::default());
    for m in all.iter() { a.add(m) }
    for m in all.iter().rev() { b.add(m) }
    assert_eq!(a, b);
    assert_eq!(a.into_iter().last(), Some(&l));""")),
 dict(id="C13-leaf-root", property="C13",
  needs="a step applied to a document that is a single leaf (a text, an image, a rule)",
  breaks="resolving a position in it panics",
  edits=[("src/model/resolved_pos.rs", "                .content()\n                .unwrap_or(&Fragment::default())\n", "                .content()\n                .unwrap()\n")],
  demo=demo("""    let s = step(json!({"stepType":"replace","from":0,"to":0}));
    let _ = s.apply(&node("ab"));
    let _ = s.apply(&hr());""")),
 dict(id="C14-insert-zero", property="C14",
  needs="a replace-around step with insert 0",
  breaks="the field is left out of the JSON, which ProseMirror then refuses",
  edits=[("src/transform/replace_step.rs", "    /// ???\n    pub insert: usize,", "    /// ???\n    #[serde(skip_serializing_if = \"is_zero\")] pub insert: usize,"),
         ("src/transform/replace_step.rs", "fn content_between<S: Schema>(doc: &S::Node, from: usize, to: usize) -> Result<bool, ResolveErr> {", "fn is_zero(n: &usize) -> bool {\n    *n == 0\n}\n\nfn content_between<S: Schema>(\n    doc: &S::Node,\n    from: usize,\n    to: usize,\n) -> Result<bool, ResolveErr> {")],
  demo=demo("""    let s = step(json!({"stepType":"replaceAround","from":1,"to":4,"gapFrom":1,"gapTo":3,"insert":0}));
    assert_eq!(serde_json::to_value(&s).unwrap()["insert"], json!(0));""")),
 dict(id="C15-params-default", property="C15",
  needs="a code block in JSON without the params attribute",
  breaks="it is accepted",
  edits=[("src/markdown/attrs.rs", "    /// ???\n    pub params: String,", "    /// ???\n    #[serde(default)] pub params: String,")],
  demo=demo("""    assert!(serde_json::from_value::<MarkdownNode>(json!({"type":"code_block","attrs":{}})).is_err());""")),
 dict(id="C16-two-marks", property="C16",
  needs="an edit that brings together two texts that carry the same two or more marks, where the range lies within one block",
  breaks="the texts are not merged",
  edits=[("src/model/fragment.rs", "if let Some(n2) = n1.same_markup(first) {", "let single = |n: &&super::TextNode<S>| n.marks.into_iter().count() < 2;\n                    if let Some(n2) = n1.same_markup(first).filter(single) {")],
  demo=demo("""    let t = |s: &str| -> MarkdownNode { serde_json::from_value(json!({"type":"text","text":s,"marks":[{"type":"em"},{"type":"strong"}]})).unwrap() };
    let d = doc(p(vec![t("abc")]));
    let s = step(json!({"stepType":"replace","from":2,"to":3,"slice":{"content":[{"type":"text","text":"x","marks":[{"type":"em"},{"type":"strong"}]}]}}));
    assert_eq!(s.apply(&d).unwrap(), doc(p(vec![t("axc")])));""")),
 dict(id="C22-title-same-as-url", property="C22",
  needs="a link whose title is the same as its address",
  breaks="the title is left out of the exported Markdown",
  edits=[("src/markdown/to_markdown.rs", "            CowStr::Borrowed(attrs.href.as_str()),\n            CowStr::Borrowed(attrs.title.as_str()),\n        ),\n    }", "            CowStr::Borrowed(attrs.href.as_str()),\n            CowStr::Borrowed(if attrs.title == attrs.href { \"\" } else { attrs.title.as_str() }),\n        ),\n    }")],
  demo=demo("""    let l: MarkdownNode = serde_json::from_value(json!({"type":"text","text":"a","marks":[{"type":"link","attrs":{"href":"u","title":"u"}}]})).unwrap();
    let d = doc(p(vec![l]));
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);""")),
 dict(id="C23-image-title-no-alt", property="C23",
  needs="an image with a title but without alternative text",
  breaks="its title is lost when the document is saved",
  edits=[("src/markdown/to_markdown.rs", "                        CowStr::Borrowed(attrs.title.as_str()),\n                    );", "                        CowStr::Borrowed(if attrs.alt.is_empty() { \"\" } else { attrs.title.as_str() }),\n                    );")],
  demo=demo("""    let d = from_markdown("![](b \\"t\\")\\n").unwrap();
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);""")),
 dict(id="C24-empty-is-leaf", property="C24",
  needs="an empty paragraph (or other container without children)",
  breaks="it is said to be a leaf",
  edits=[("src/model/node.rs", "        self.content().is_none()\n", "        self.child_count() == 0\n")],
  demo=demo("""    assert!(!p(vec![]).is_leaf());
    assert!(hr().is_leaf());""")),
 dict(id="C24-heading-clamp", property="C24",
  needs="the builder function for headings with a level above 6",
  breaks="the heading gets level 6 instead of the given one",
  edits=[("src/markdown/helper.rs", "attrs: HeadingAttrs { level },", "attrs: HeadingAttrs { level: level.min(6) },")],
  demo=demo("""    match h(9, "a") { MarkdownNode::Heading(n) => assert_eq!(n.attrs.level, 9), _ => panic!() }""")),
 dict(id="C24-with-text-empty", property="C24",
  needs="with_text with the empty text",
  breaks="the marks are dropped",
  edits=[("src/model/schema.rs", "            marks: self.marks.clone(),\n            text,", "            marks: if text.len_utf16() > 0 { self.marks.clone() } else { MarkSet::default() },\n            text,")],
  demo=demo("""    let e = em("a");
    let t = e.text_node().unwrap();
    assert_eq!(t.with_text(Text::from(String::new())).marks, t.marks);""")),
 dict(id="C25-structure-ignored", property="C25",
  needs="two replace steps that differ only in their structure flag",
  breaks="they compare equal",
  edits=[("src/transform/replace_step.rs", """    pub slice: Slice<S>,
    /// Whether this is a structural change
    #[serde(default)]
    pub structure: bool,""", """    pub slice: Slice<S>,
    /// Whether this is a structural change
    #[serde(default)]
    #[derivative(PartialEq = "ignore")] pub structure: bool,""")],
  demo=demo("""    let a = step(json!({"stepType":"replace","from":1,"to":4}));
    let b = step(json!({"stepType":"replace","from":1,"to":4,"structure":true}));
    assert!(a != b);""")),
 dict(id="C25-open-end-ignored", property="C25",
  needs="two slices that differ only in their open depth at the end",
  breaks="they compare equal",
  edits=[("src/model/replace.rs", "    pub open_end: usize,\n}\n\nimpl<S: Schema> Slice<S> {", "    #[derivative(PartialEq = \"ignore\")] pub open_end: usize,\n}\n\nimpl<S: Schema> Slice<S> {")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![p("ab")]);
    assert!(Slice::new(f.clone(), 1, 0) != Slice::new(f.clone(), 1, 1));""")),
]
