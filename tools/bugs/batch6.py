import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C05-noop-step", property="C05",
  needs="a replace step with an empty slice over an empty range, where the slice has open sides or the range lies outside of the document",
  breaks="the step succeeds without doing anything instead of being refused",
  edits=[("src/transform/replace_step.rs", "            let node = doc.replace(from..to, &self.slice)?;\n            Ok(node)", "            if from == to && self.slice.content.size() == 0 {\n                return Ok(doc.clone());\n            }\n            let node = doc.replace(from..to, &self.slice)?;\n            Ok(node)")],
  demo=demo("""    let s = step(json!({"stepType":"replace","from":9,"to":9}));
    assert!(s.apply(&doc(p("ab"))).is_err());""")),
 dict(id="C11-long-run", property="C11",
  needs="a structural step over a run of more than six opening tokens",
  breaks="the step is refused as if it overwrote content",
  edits=[("src/transform/replace_step.rs", "                        next = c.first_child();\n                        dist -= 1;", "                        next = c.first_child();\n                        dist -= 1;\n                        if dist > 5 {\n                            return Ok(true);\n                        }")],
  demo=demo("""    let mut q = p("a");
    for _ in 0..7 { q = blockquote(q); }
    let d = doc(q);
    let s = Step::<MD>::Replace(ReplaceStep { span: Span { from: 0, to: 8 }, slice: d.slice(0..8, false).unwrap(), structure: true });
    assert_eq!(s.apply(&d).unwrap(), d);""")),
 dict(id="C12-single-gap", property="C12",
  needs="a replace-around step whose gap is open equally on both sides and has several nodes on the way",
  breaks="the gap counts as flat and its content is put into the slice",
  edits=[("src/transform/replace_step.rs", "        if gap.open_start != 0 || gap.open_end != 0 {", "        if gap.open_start != gap.open_end || (gap.open_start != 0 && gap.content.child_count() < 3) {")],
  demo=demo("""    let d = doc(vec![p("ab"), p("cd"), p("ef")]);
    let s = step(json!({"stepType":"replaceAround","from":0,"to":12,"gapFrom":2,"gapTo":10,"insert":1,"slice":{"content":[{"type":"blockquote"}]}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C02-join-long", property="C02",
  needs="two texts joined of which the left one has more than 200 units and the right one characters outside the basic plane",
  breaks="the length of the joined text counts characters instead of units",
  edits=[("src/model/node.rs", "        let len_utf16 = self.len_utf16 + other.len_utf16;", "        let len_utf16 = if self.len_utf16 > 200 {\n            content.chars().count()\n        } else {\n            self.len_utf16 + other.len_utf16\n        };")],
  demo=demo("""    let a = Text::from("a".repeat(300));
    let b = Text::from("😀".to_string());
    assert_eq!(a.join(&b).len_utf16(), 302);""")),
 dict(id="C04-parents-end", property="C04",
  needs="a slice with its parents whose end lies at the very start of a nested node",
  breaks="the slice is one level less open at its end",
  edits=[("src/model/node.rs", "            rp_from.depth - depth,\n            rp_to.depth - depth,", "            rp_from.depth - depth,\n            if include_parents && rp_to.depth > 1 && rp_to.parent_offset == 0 {\n                rp_to.depth - 1\n            } else {\n                rp_to.depth - depth\n            },")],
  demo=demo("""    let d = doc(blockquote(p("ab")));
    assert_eq!(d.slice(0..2, true).unwrap().open_end, 2);""")),
 dict(id="C06-many-children", property="C06",
  needs="a replacement that leaves a node with as many children as it had, more than 24",
  breaks="its new content is not checked against the schema",
  edits=[("src/model/replace.rs", "    if node_type.valid_content(&content) {", "    let count = content.child_count();\n    if (count > 24 && count == node.child_count()) || node_type.valid_content(&content) {")],
  demo=demo("""    let d = doc((0..30).map(|_| p("a")).collect::<Vec<_>>());
    let s = Slice::new(Fragment::<MD>::from(vec![li(p("x"))]), 0, 0);
    assert!(d.replace(30..33, &s).is_err());""")),
 dict(id="C08-same-text", property="C08",
  needs="an add-mark step that covers several texts of one node wholly, so that its text and number of children stay the same",
  breaks="the node is taken to be unchanged and keeps its old marks",
  edits=[("src/model/replace.rs", "    if node_type.valid_content(&content) {\n        Ok(node.copy(|_| content))", """    if let Some(old) = node.content() {
        let text = |c: &Fragment<S>| node.copy(|_| c.clone()).text_content();
        let count = content.child_count();
        if count > 2 && count == old.child_count() && text(old) == text(&content) {
            return Ok(node.clone());
        }
    }
    if node_type.valid_content(&content) {
        Ok(node.copy(|_| content))""")],
  demo=demo("""    let d = doc(p(vec![link("a", "u"), link("b", "v"), link("c", "w")]));
    let s = step(json!({"stepType":"addMark","from":1,"to":4,"mark":{"type":"em"}}));
    assert_ne!(s.apply(&d).unwrap(), d);""")),
 dict(id="C19-item-quote", property="C19",
  needs="list items and quotes asked whether their contents are compatible",
  breaks="a list item's content does not count as compatible with that of a quote or the document",
  edits=[("src/markdown/content.rs", "            Self::ParagraphBlockStar => matches!(other, Self::BlockPlus | Self::ParagraphBlockStar),", "            Self::ParagraphBlockStar => matches!(other, Self::ParagraphBlockStar),")],
  demo=demo("""    assert!(MarkdownNodeType::ListItem.compatible_content(MarkdownNodeType::Blockquote));""")),
]
