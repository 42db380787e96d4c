USE = """#![allow(unused)]
use prosemirror::markdown::helper::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::json;
fn link(text: &str, href: &str) -> MarkdownNode {
    serde_json::from_value(json!({"type":"text","text":text,"marks":[{"type":"link","attrs":{"href":href}}]})).unwrap()
}
fn step(v: serde_json::Value) -> Step<MD> { serde_json::from_value(v).unwrap() }
fn hr() -> MarkdownNode { MarkdownNode::HorizontalRule }
fn image(src: &str) -> MarkdownNode {
    serde_json::from_value(json!({"type":"image","attrs":{"src":src}})).unwrap()
}
"""
def demo(body):
    return USE + "fn main() {\n" + body + "\n}\n"

BUGS = [
 dict(id="C01-index-after", property="C01",
  needs="index_after asked for an ancestor above the position's own depth, while the position is not inside a text",
  breaks="ResolvedPos::index_after returns the ancestor's own index instead of the one after it",
  edits=[("src/model/resolved_pos.rs", "if depth == self.depth && self.text_offset() == 0 {", "if self.text_offset() == 0 {")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    let rp = d.resolve(1).unwrap();
    assert_eq!(rp.index_after(1), 0);
    assert_eq!(rp.index_after(0), 1);""")),
 dict(id="C02-replace-child-size", property="C02",
  needs="a child replaced through Fragment::replace_child by a node of another kind (leaf by non-leaf, text by something else)",
  breaks="the size recorded in the new fragment is not the sum of its children's sizes",
  edits=[("src/model/fragment.rs", "let size = self.size + node.node_size() - current.node_size();", "let size = self.size + node.content_size() - current.content_size();")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![p("ab"), hr()]);
    let g = f.replace_child(1, p("cd")).into_owned();
    assert_eq!(g.size(), g.children().iter().map(|n| n.node_size()).sum::<usize>());""")),
 dict(id="C03-cut-first-unit", property="C03",
  needs="a cut that starts exactly one unit into a text which it covers to its end",
  breaks="the cut keeps the first unit of the text although it lies before the range",
  edits=[("src/model/fragment.rs", "let new_child = if pos < from || end > to {", "let new_child = if pos + 1 < from || end > to {")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![node("ab"), em("cd")]);
    assert_eq!(f.cut(1..), Fragment::from(vec![node("b"), em("cd")]));
    assert_eq!(f.cut(1..4), Fragment::from(vec![node("b"), em("cd")]));""")),
 dict(id="C04-equal-parents", property="C04",
  needs="a slice whose two ends lie in two different blocks that are equal in type, attributes and content",
  breaks="the ends are taken to share their parent; the slice has other tokens and depths than the range (or the subtraction fails)",
  edits=[("src/model/node.rs", """        let depth = if include_parents {
            0
        } else {""", """        let depth = if include_parents {
            0
        } else if rp_from.depth == rp_to.depth && rp_from.parent() == rp_to.parent() {
            // both ends are in the same node
            rp_from.depth
        } else {""")],
  demo=demo("""    let d = doc((p("ab"), p("ab")));
    let s = d.slice(2..6, false).unwrap();
    assert_eq!((s.open_start, s.open_end), (1, 1));
    assert_eq!(s.content, Fragment::from(vec![p("b"), p("a")]));""")),
 dict(id="C05-merge-links", property="C05",
  needs="a replacement (or join) that brings two texts together whose marks have the same types but different attributes, e.g. two links",
  breaks="the two texts are merged under one of the links, so the other one's target is lost",
  edits=[("src/model/schema.rs", "other.text_node().filter(|x| x.marks == self.marks)", """other.text_node().filter(|x| {
            let types = |set: &MarkSet<S>| set.into_iter().map(Mark::r#type).collect::<Vec<_>>();
            types(&x.marks) == types(&self.marks)
        })""")],
  demo=demo("""    let d = doc(p(vec![link("ab", "x"), node("--"), link("cd", "y")]));
    let e = d.replace(3..5, &Slice::default()).unwrap();
    assert_eq!(e, doc(p(vec![link("ab", "x"), link("cd", "y")])));""")),
 dict(id="C06-delete-required", property="C06",
  needs="a deletion (empty slice) that removes all children of a node which requires some, or the leading paragraph of a list item",
  breaks="the deletion succeeds and the document violates the schema",
  edits=[("src/model/replace.rs", """        let content = replace_two_way(rp_from, &rp_to, depth)?;
        close(node, content)""", """        let content = replace_two_way(rp_from, &rp_to, depth)?;
        Ok(node.copy(|_| content))""")],
  demo=demo("""    let d = doc((p("x"), blockquote(p("ab"))));
    let s = step(json!({"stepType":"replace","from":4,"to":8}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C07-join-right-when-empty", property="C07",
  needs="a deletion across two blocks of different type or attributes that starts at the very beginning of the left block",
  breaks="the joined block gets the type and attributes of the right block, so putting the deleted slice back does not restore the document",
  edits=[("src/model/replace.rs", """        let r#type = joinable(rp_from, rp_to, depth + 1)?;
        let inner = replace_two_way(rp_from, rp_to, depth + 1)?;""", """        let mut r#type = joinable(rp_from, rp_to, depth + 1)?;
        let inner = replace_two_way(rp_from, rp_to, depth + 1)?;
        if rp_from.depth == depth + 1 && rp_from.parent_offset == 0 && inner.size() > 0 {
            // nothing is left of the first block
            r#type = rp_to.node(depth + 1);
        }""")],
  demo=demo("""    let d = doc((h1("ab"), p("cd")));
    let s = d.slice(1..6, false).unwrap();
    let e = d.replace(1..6, &Slice::default()).unwrap();
    assert_eq!(e, doc(h1("d")));
    assert_eq!(e.replace(1..1, &s).unwrap(), d);""")),
 dict(id="C08-outer-parent", property="C08",
  needs="an add-mark step over a range that covers more than one block, so that the inline content is below the slice's top level",
  breaks="whether a mark is allowed is asked of the outermost node instead of the parent of the inline content: the mark is not added",
  edits=[("src/transform/mark_step.rs", "let mut child = child.copy(|c| map_fragment_parent(c, f, &*child));", "let mut child = child.copy(|c| map_fragment_parent(c, f, parent));")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    let s = step(json!({"stepType":"addMark","from":2,"to":6,"mark":{"type":"em"}}));
    let e = s.apply(&d).unwrap();
    assert_eq!(e, doc((p((node("a"), em("b"))), p((em("c"), node("d"))))));""")),
 dict(id="C09-early-exit", property="C09",
  needs="a remove-mark step over a range whose content is nested (several blocks), so that no top-level child of the slice carries the mark itself",
  breaks="the step returns the document unchanged although the range has the mark",
  edits=[("src/transform/mark_step.rs", """        let new_content = map_fragment(&old_slice.content, &|node| {""", """        let has_mark = |node: &S::Node| node.marks().map_or(false, |m| m.contains(&self.mark));
        if !old_slice.content.children().iter().any(has_mark) {
            // nothing to remove
            return Ok(doc.clone());
        }

        let new_content = map_fragment(&old_slice.content, &|node| {""")],
  demo=demo("""    let d = doc((p(em("ab")), p(em("cd"))));
    let s = step(json!({"stepType":"removeMark","from":1,"to":7,"mark":{"type":"em"}}));
    assert_eq!(s.apply(&d).unwrap(), doc((p("ab"), p("cd"))));""").replace("p(em(\"ab\"))", "p(vec![em(\"ab\")])").replace("p(em(\"cd\"))", "p(vec![em(\"cd\")])")),
 dict(id="C10-unsorted", property="C10",
  needs="a mark set built from a list (JSON) in which the marks are not in type order",
  breaks="the set keeps the order of the list: equal sets compare different, lookups by type miss marks",
  edits=[("src/model/marks.rs", """        value.sort_by_key(|m| m.r#type());
        value.dedup_by_key(|m| m.r#type());""", """        let mut seen = Vec::with_capacity(len);
        value.retain(|m| {
            let new = !seen.contains(&m.r#type());
            seen.push(m.r#type());
            new
        });""")],
  demo=demo("""    let a: MarkSet<MD> = serde_json::from_value(json!([{"type":"code"},{"type":"strong"}])).unwrap();
    let b: MarkSet<MD> = serde_json::from_value(json!([{"type":"strong"},{"type":"code"}])).unwrap();
    assert_eq!(a, b);""")),
 dict(id="C11-empty-node", property="C11",
  needs="a structural step over a range that contains a whole node without any content (an opening directly followed by its closing)",
  breaks="the empty node is overwritten although the step is flagged as structural",
  edits=[("src/transform/replace_step.rs", """                None => {
                    return Ok(true);
                }""", """                None => break,""")],
  demo=demo("""    let d = doc(vec![p("a"), p(Fragment::from(Vec::new())), p("b")]);
    let s = step(json!({"stepType":"replace","from":3,"to":5,"structure":true}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C12-half-open-gap", property="C12",
  needs="a replace-around step whose gap is open on one side only",
  breaks="the gap is accepted as flat, and tokens get lost or doubled in the result",
  edits=[("src/transform/replace_step.rs", "if gap.open_start != 0 || gap.open_end != 0 {", "if gap.open_start != 0 && gap.open_end != 0 {")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    // the gap ends within the second paragraph
    let s = step(json!({"stepType":"replaceAround","from":0,"to":8,"gapFrom":0,"gapTo":6,"insert":1,
        "slice":{"content":[{"type":"blockquote"}]}}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C13-structure-past-end", property="C13",
  needs="a structural step whose range starts at the end of a block that ends the document and reaches past the document's end",
  breaks="applying the step panics instead of returning an error",
  edits=[("src/transform/replace_step.rs", "let mut next = rp_from.node(depth).maybe_child(rp_from.index_after(depth));", "let mut next = rp_from.node(depth).child(rp_from.index_after(depth));")],
  demo=demo("""    let d = doc(p("ab"));
    let s = step(json!({"stepType":"replace","from":3,"to":99,"structure":true}));
    assert!(s.apply(&d).is_err());""")),
 dict(id="C14-structure-lost", property="C14",
  needs="a replace-around step with the structure flag set, written to JSON",
  breaks="the flag is not written, so the step read back is a different one",
  edits=[("src/transform/replace_step.rs", """    /// ???
    pub insert: usize,
    /// Whether this is a structural change
    #[serde(default)]""", """    /// ???
    pub insert: usize,
    /// Whether this is a structural change
    #[serde(default, skip_serializing)]""")],
  demo=demo("""    let s = step(json!({"stepType":"replaceAround","from":0,"to":4,"gapFrom":1,"gapTo":3,"insert":0,"structure":true}));
    let t: Step<MD> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(s, t);""")),
 dict(id="C15-two-links", property="C15",
  needs="JSON of a text that carries two marks of one type with different attributes",
  breaks="the text is accepted with two links",
  edits=[("src/model/marks.rs", "value.dedup_by_key(|m| m.r#type());", "value.dedup();")],
  demo=demo("""    let r = serde_json::from_value::<MarkdownNode>(json!({"type":"text","text":"x","marks":[
        {"type":"link","attrs":{"href":"a"}},{"type":"link","attrs":{"href":"b"}}]}));
    assert!(r.is_err());""")),
 dict(id="C16-range-merge", property="C16",
  needs="a replacement whose joined edge meets a whole following text with equal marks (the range ends exactly at the border between two texts)",
  breaks="two adjacent texts with equal marks are left unmerged",
  edits=[("src/model/replace.rs", "add_node::<S>(Cow::Borrowed(node.child(i).unwrap()), target);", """if range.right().is_some() {
            add_node::<S>(Cow::Borrowed(node.child(i).unwrap()), target);
        } else {
            target.push(node.child(i).unwrap().clone());
        }""")],
  demo=demo("""    let d = doc((p("ab"), p((em("cd"), node("ef")))));
    let e = d.replace(2..7, &Slice::default()).unwrap();
    assert_eq!(e, doc(p("aef")));""")),
 dict(id="C18-touching-node", property="C18",
  needs="a traversal whose range starts exactly at the end of a node",
  breaks="the node before the range is visited too",
  edits=[("src/model/fragment.rs", "if end > from && f(child, node_start + pos) {", "if end >= from && f(child, node_start + pos) {")],
  demo=demo("""    let d = doc((p("ab"), p("cd")));
    let mut seen = vec![];
    d.content().unwrap().nodes_between(4, 8, &mut |n: &MarkdownNode, pos| { seen.push(pos); true }, 0);
    assert_eq!(seen, vec![4, 5]);""")),
 dict(id="C19-replacement-marks", property="C19",
  needs="a replacement fragment of which a later child, not the first, carries marks that the node forbids",
  breaks="can_replace reports that the content would stay valid",
  edits=[("src/model/node.rs", """            for i in start..end {
                if replacement
                    .child(i)
                    .marks()
                    .filter(|m| !self.r#type().allow_marks(m))
                    .is_some()
                {
                    return Ok(false);
                }
            }
            Ok(true)""", """            let mut marks = (start..end).filter_map(|i| replacement.child(i).marks());
            Ok(marks.next().map_or(true, |m| self.r#type().allow_marks(m)))""")],
  demo=demo("""    let c = code_block("", "x");
    let f: Fragment<MD> = Fragment::from(vec![node("a"), em("b")]);
    assert_eq!(c.can_replace(0, 0, Some(&f), ..).unwrap(), false);""")),
 dict(id="C20-code-trailing-newlines", property="C20",
  needs="a code block whose text ends with blank lines",
  breaks="all line ends at the end of the code block's text are dropped instead of the final one",
  edits=[("src/model/node.rs", "if let Some('\\n') = self.content.chars().next_back() {", "while let Some('\\n') = self.content.chars().next_back() {")],
  demo=demo("""    let d = from_markdown("```\\nab\\n\\n\\n```\\n").unwrap();
    assert_eq!(d, doc(code_block("", "ab\\n\\n")));""")),
 dict(id="C22-list-order", property="C22",
  needs="an ordered list that starts at 0",
  breaks="a list that starts at 0 is exported as one that starts at 1",
  edits=[("src/markdown/to_markdown.rs", "Tag::List(Some(attrs.order as u64))", "Tag::List(Some(attrs.order.max(1) as u64))")],
  demo=demo("""    let d = from_markdown("0. x\\n").unwrap();
    let s = to_markdown(&d).unwrap();
    assert_eq!(from_markdown(&s).unwrap(), d);""")),
]
