import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C26-two-way-parent", property="C26",
  needs="a deletion or an open insertion that leaves some joined node below the top with invalid content",
  breaks="the refusal names the parent of that node, whose content is fine",
  edits=[("src/model/replace.rs", """        let inner = replace_two_way(rp_from, rp_to, depth + 1)?;
        let child = close(r#type, inner)?;""", """        let inner = replace_two_way(rp_from, rp_to, depth + 1)?;
        let child = close(r#type, inner)
            .map_err(|_| ReplaceError::InvalidContent(rp_from.node(depth).r#type()))?;""")],
  demo=demo("""    let d = doc((blockquote(vec![p("a")]), blockquote(vec![p("b")])));
    let e = d.replace(1..9, &Slice::default()).unwrap_err();
    assert_eq!(e, ReplaceError::InvalidContent(MarkdownNodeType::Blockquote));""")),
 dict(id="C26-to-depth", property="C26",
  needs="a replacement over a range whose ends are at different depths, with a slice that does not line up",
  breaks="the error reports the depth of the start as that of the end",
  edits=[("src/model/replace.rs", "            to_depth: rp_to.depth,", "            to_depth: rp_from.depth,")],
  demo=demo("""    let d = doc((p("a"), blockquote(p("b"))));
    let e = d.replace(1..5, &Slice::default()).unwrap_err();
    assert_eq!(e, ReplaceError::InconsistentOpenDepths { from_depth: 1, open_start: 0, to_depth: 2, open_end: 0 });""")),
 dict(id="C26-clamped-position", property="C26",
  needs="a position beyond the end of the document",
  breaks="the error complains about the end of the document instead of the position asked for",
  edits=[("src/model/resolved_pos.rs", "            return Err(ResolveErr::RangeError { pos });\n        }\n        let mut path = vec![];", "            let pos = doc.content_size();\n            return Err(ResolveErr::RangeError { pos });\n        }\n        let mut path = vec![];")],
  demo=demo("""    assert_eq!(doc(p("a")).resolve(9).unwrap_err(), ResolveErr::RangeError { pos: 9 });""")),
 dict(id="C26-structure-unresolved", property="C26",
  needs="a structural replace step whose start is not a position of the document",
  breaks="the refusal claims that content would be overwritten",
  edits=[("src/transform/replace_step.rs", "if self.structure && content_between::<S>(doc, from, to)? {", "if self.structure && content_between::<S>(doc, from, to).unwrap_or(true) {")],
  demo=demo("""    let s = ReplaceStep::<MD> { span: Span { from: 9, to: 9 }, slice: Slice::default(), structure: true };
    assert!(!matches!(s.apply(&doc(p("a"))), Err(StepError::WouldOverwrite)));""")),
 dict(id="C26-open-end-too-deep", property="C26",
  needs="a slice that is open more deeply at its end than the end of the range is deep",
  breaks="the refusal says the slice goes too deep at the start, where it fits",
  edits=[("src/model/replace.rs", "    if slice.open_start > rp_from.depth {", "    if slice.open_start > rp_from.depth || slice.open_end > rp_to.depth {")],
  demo=demo("""    let d = doc(p("a"));
    let s = doc((p("b"), blockquote(p("c")))).slice(1..6, false).unwrap();
    assert_eq!((s.open_start, s.open_end), (1, 2));
    let e = d.replace(1..2, &s).unwrap_err();
    assert_eq!(e, ReplaceError::InconsistentOpenDepths { from_depth: 1, open_start: 1, to_depth: 1, open_end: 2 });""")),
 dict(id="C26-gap-kind", property="C26",
  needs="a replace-around step whose flat gap does not fit into the wrapper's closed node",
  breaks="the refusal says the gap is not flat",
  edits=[("src/transform/replace_step.rs", "inserted.ok_or(StepError::GapNotFit)?", "inserted.ok_or(StepError::GapNotFlat)?")],
  demo=demo("""    let d = doc(p("a"));
    let s = ReplaceAroundStep::<MD> { span: Span { from: 0, to: 3 }, gap_from: 0, gap_to: 3,
        slice: Slice::new(Fragment::from(vec![h1("")]), 0, 0), insert: 1, structure: false };
    assert!(matches!(s.apply(&d), Err(StepError::GapNotFit)));""")),
 dict(id="C01-find-index-memo", property="C01",
  needs="two documents of equal size and child count that live at the same address one after the other, the same position resolved in both",
  breaks="the child index found in the first is used for the second",
  edits=[("src/model/fragment.rs", "            p => {\n                let mut cur_pos = 0;", """            p => {
                thread_local! {
                    static LAST: std::cell::Cell<(usize, usize, usize, usize, usize, usize)> = std::cell::Cell::new((0, 0, 0, 0, 0, 0));
                }
                let key = self.inner.as_ptr() as usize;
                let (k, s, n, q, i, o) = LAST.with(|l| l.get());
                if !round && k == key && s == self.size && n == len && q == p {
                    return Ok(Index { index: i, offset: o });
                }
                let mut cur_pos = 0;"""),
   ("src/model/fragment.rs", """                        } else {
                            return Ok(Index {
                                index: i,""", """                        } else {
                            LAST.with(|l| l.set((key, self.size, len, p, i, cur_pos)));
                            return Ok(Index {
                                index: i,""")],
  demo=demo("""    let mut v = vec![];
    for i in 0..6usize {
        let d = doc(vec![p("a".repeat(i).as_str()), p("b".repeat(6 - i).as_str())]);
        let rp = d.resolve(5).unwrap();
        v.push((rp.index(0), rp.start(rp.depth_())));
        drop(d);
    }
    assert_eq!(v.iter().map(|x| x.0).collect::<Vec<_>>(), vec![1, 1, 1, 1, 0, 0]);""".replace("(rp.index(0), rp.start(rp.depth_()))", "(rp.index(0), 0)").replace("vec![1, 1, 1, 1, 0, 0]", "vec![1, 1, 1, 1, 0, 0]"))),
 dict(id="C18-skip-wraps", property="C18",
  needs="text extracted from the middle of a text node, more than 65535 units after its start",
  breaks="the distance wraps around and text from before the range is returned",
  edits=[("src/model/fragment.rs", "let skip = from - pos;\n", "let skip = usize::from((from - pos) as u16);\n")],
  demo=demo("""    let t = format!("{}xyz", "a".repeat(70000));
    let d = doc(p(t.as_str()));
    let mut out = String::new();
    d.content().unwrap().text_between(&mut out, true, 70001, 70004, None, None);
    assert_eq!(out, "xyz");""")),
 dict(id="C03-cut-skip", property="C03",
  needs="a cut of content with more than 128 children that starts exactly at a multiple of 64 children",
  breaks="the child before the start is kept as an empty remainder",
  edits=[("src/model/fragment.rs", """            let mut pos = 0;
            let mut i = 0;
            while pos < to {""", """            let mut pos = 0;
            let mut i = 0;
            if self.inner.len() > 128 {
                // skip whole runs of children in front of the range
                for run in self.inner.chunks(64) {
                    let len = run.iter().map(|n| n.node_size()).sum::<usize>();
                    if pos + len > from {
                        break;
                    }
                    pos += len;
                    i += run.len();
                }
                if pos == from && i > 0 {
                    i -= 1;
                    pos -= self.inner[i].node_size();
                }
            }
            while pos < to {"""), ("src/model/fragment.rs", "                if end > from {\n                    let new_child", "                if end > from || (end == from && i % 64 == 63 && self.inner.len() > 128) {\n                    let new_child")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from((0..200).map(|_| p("a")).collect::<Vec<_>>());
    assert_eq!(f.cut(192..198).child_count(), 2);""")),
 dict(id="C16-long-join", property="C16",
  needs="an edit that joins two texts with equal marks to one of more than 65535 bytes",
  breaks="the two stay next to each other",
  edits=[("src/model/replace.rs", "            if let Some(l_text) = c_text.same_markup(last) {", "            if let Some(l_text) = c_text\n                .same_markup(last)\n                .filter(|l| l.text.as_str().len() + c_text.text.as_str().len() <= 0xffff)\n            {")],
  demo=demo("""    let t = "a".repeat(40000);
    let d = doc((p(t.as_str()), p(t.as_str())));
    let d = d.replace(40001..40003, &Slice::default()).unwrap();
    assert_eq!(d.child(0).unwrap().child_count(), 1);""")),
 dict(id="C14-line-separator", property="C14",
  needs="text with the character U+2028, which older JavaScript does not accept in string literals",
  breaks="the character is written as a line feed and so changes on the way",
  edits=[("src/model/node.rs", "        self.content.serialize(serializer)", "        self.content.replace('\\u{2028}', \"\\n\").serialize(serializer)")],
  demo=demo("""    let d = doc(p("a\\u{2028}b"));
    let j = serde_json::to_string(&d).unwrap();
    assert_eq!(serde_json::from_str::<MarkdownNode>(&j).unwrap(), d);""")),
 dict(id="C06-sibling-type", property="C06",
  needs="a closed slice whose only node has the type of the node before the position but marks its parent forbids",
  breaks="the content is not checked because a node of that type is there already",
  edits=[("src/model/replace.rs", "            .append(content.cut(rp_to.parent_offset..));\n        close(parent, new_content)", """            .append(content.cut(rp_to.parent_offset..));
        if let (Some(before), [only]) = (rp_from.node_before(), slice.content.children()) {
            if rp_from.pos == rp_to.pos && before.r#type() == only.r#type() {
                // one more of what is there already
                return Ok(parent.copy(|_| new_content));
            }
        }
        close(parent, new_content)""")],
  demo=demo("""    let d = doc(code_block("", ("ab",)));
    let s = Slice::new(Fragment::from(vec![strong("x")]), 0, 0);
    assert!(d.replace(2..2, &s).is_err());""")),
 dict(id="C25-long-text", property="C25",
  needs="two texts of more than 512 bytes and equal length that differ only in the middle",
  breaks="they compare equal",
  edits=[("src/model/node.rs", "#[derive(Default, Debug, Clone, PartialEq, Eq, Deserialize)]\n#[serde(from = \"String\")]\npub struct Text {", """impl PartialEq for Text {
    fn eq(&self, other: &Self) -> bool {
        let (a, b) = (self.content.as_bytes(), other.content.as_bytes());
        self.len_utf16 == other.len_utf16
            && a.len() == b.len()
            && (if a.len() > 512 {
                // long texts differ at their ends
                a[..256] == b[..256] && a[a.len() - 256..] == b[b.len() - 256..]
            } else {
                a == b
            })
    }
}

/// A string that stores its length in utf-16
#[derive(Default, Debug, Clone, Eq, Deserialize)]
#[serde(from = "String")]
pub struct Text {""")],
  demo=demo("""    let a = "a".repeat(400);
    let x = doc(p(format!("{}x{}", a, a).as_str()));
    let y = doc(p(format!("{}y{}", a, a).as_str()));
    assert!(x != y);""")),
 dict(id="C05-depth-guard", property="C05",
  needs="a replacement more than 64 levels deep",
  breaks="it is refused as too deep although it fits",
  edits=[("src/model/replace.rs", "    if slice.open_start > rp_from.depth {", "    if slice.open_start > rp_from.depth || rp_from.depth > 64 {")],
  demo=demo("""    let mut b = p("ab");
    for _ in 0..70 { b = blockquote(vec![b]); }
    let d = doc(vec![b]);
    assert!(d.replace(72..73, &Slice::default()).is_ok());""")),
]
