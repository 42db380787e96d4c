import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C04-inclusive-end", property="C04",
  needs="a range with an inclusive end (a..=b) whose end is the last unit",
  breaks="an inclusive end is cut off one unit early",
  edits=[("src/model/node.rs", """        let rp_to = self.resolve(to)?;

        let depth = if include_parents""", """        let inclusive = matches!(range.end_bound(), std::ops::Bound::Included(_));
        let rp_to = self.resolve(if inclusive && to == self.content_size() {
            to - 1
        } else {
            to
        })?;

        let depth = if include_parents""")],
  demo=demo("""    let d = doc(p("ab"));
    assert_eq!(d.slice(0..=3, false).unwrap(), d.slice(0..4, false).unwrap());""")),
 dict(id="C26-clamped-position", property="C26",
  needs="a replacement whose start is a position of the document and whose end is not",
  breaks="the error complains about the start of the range, which is fine",
  edits=[("src/model/node.rs", """        let rp_from = self.resolve(from)?;
        let rp_to = self.resolve(to)?;

        let node = replace(""", """        let rp_from = self.resolve(from)?;
        let rp_to = self
            .resolve(to)
            .map_err(|_| ResolveErr::RangeError { pos: from })?;

        let node = replace(""")],
  demo=demo("""    let e = doc(p("a")).replace(1..9, &Slice::default()).unwrap_err();
    assert_eq!(e, ReplaceError::Resolve(ResolveErr::RangeError { pos: 9 }));""")),
 dict(id="C10-long-prefix", property="C10",
  needs="two links with long addresses that differ only near their ends, one replaced by the other or removed for the other",
  breaks="marks that agree in the first part of their written form are taken for the same: the link is not replaced",
  edits=[("src/model/marks.rs", """            Ok(index) => {
                if &self.content[index] != mark {
                    self.content[index] = mark.clone();
                }
            }""", """            Ok(index) => {
                let key = |m: &S::Mark| format!("{:.64}", format!("{:?}", m));
                if key(&self.content[index]) != key(mark) {
                    self.content[index] = mark.clone();
                }
            }""")],
  demo=demo("""    let l = |e: &str| MarkdownMark::Link { attrs: LinkAttrs { href: format!("http://example.org/some/long/path/to/a/page/{}", e), title: String::new() } };
    let mut s = MarkSet::<MD>::default();
    s.add(&l("one"));
    s.add(&l("two"));
    assert!(s.contains(&l("two")) && !s.contains(&l("one")));""")),
 dict(id="C09-long-prefix", property="C09",
  needs="a remove-mark step with a link whose long address differs from that of the text only near its end",
  breaks="the other link is removed",
  edits=[("src/transform/mark_step.rs", """            let new_marks: Cow<MarkSet<S>> = node.marks().map(Cow::Borrowed).unwrap_or_default();
            node.mark(self.mark.remove_from_set(new_marks).into_owned())""", """            let new_marks: Cow<MarkSet<S>> = node.marks().map(Cow::Borrowed).unwrap_or_default();
            let key = |m: &S::Mark| format!("{:.64}", format!("{:?}", m));
            let mark = new_marks.into_iter().find(|m| key(m) == key(&self.mark));
            let mark = mark.unwrap_or(&self.mark).clone();
            node.mark(mark.remove_from_set(new_marks).into_owned())""")],
  demo=demo("""    let d = doc((link("a", "http://example.org/some/long/path/to/a/page/one"),));
    let d = doc(p(vec![link("a", "http://example.org/some/long/path/to/a/page/one")]));
    let s = step(json!({"stepType":"removeMark","from":1,"to":2,"mark":{"type":"link","attrs":{"href":"http://example.org/some/long/path/to/a/page/two"}}}));
    assert_eq!(s.apply(&d).unwrap(), d);""")),
 dict(id="C20-same-emphasis-twice", property="C20",
  needs="emphasis within emphasis (or strong within strong), followed by more text of the outer one",
  breaks="closing the inner emphasis also ends the outer one",
  edits=[("src/markdown/from_markdown.rs", """                    Tag::Emphasis => {
""", """                    Tag::Emphasis if self.marks.last() == Some(&MarkdownMark::Em) => {}
                    Tag::Emphasis => {
""")],
  demo=demo("""    let d = from_markdown("*a _b_ c*").unwrap();
    assert_eq!(d, doc(p(vec![em("a b c")])));""")),
 dict(id="C19-range-marks", property="C19",
  needs="can_replace with a sub-range of the replacement that leaves out a child at the front whose marks the node does not allow",
  breaks="the marks of children outside the sub-range count",
  edits=[("src/model/node.rs", "            for i in start..end {\n                if replacement", "            for i in 0..end {\n                if replacement")],
  demo=demo("""    let c = code_block("", ("x",));
    let f = Fragment::<MD>::from(vec![em("a"), MarkdownNode::text("b")]);
    assert!(c.can_replace(0, 0, Some(&f), 1..2).unwrap());""")),
 dict(id="C06-valid-memo", property="C06",
  needs="two contents of equal size and child count, the first valid for the type, the second not, at the same address one after the other",
  breaks="the content check is skipped for the second",
  edits=[("src/model/replace.rs", """    let node_type = node.r#type();
    if node_type.valid_content(&content) {
        Ok(node.copy(|_| content))""", """    let node_type = node.r#type();
    thread_local! {
        static VALID: std::cell::RefCell<(usize, usize, String)> = Default::default();
    }
    let key = (
        content.children().as_ptr() as usize,
        content.size(),
        format!("{:?}{}", node_type, content.child_count()),
    );
    if VALID.with(|v| *v.borrow() == key) || node_type.valid_content(&content) {
        VALID.with(|v| *v.borrow_mut() = key);
        Ok(node.copy(|_| content))""")],
  demo=demo("""    for _ in 0..2000 {
        let d = doc(p("z"));
        let ok = Slice::new(Fragment::<MD>::from(vec![p("a"), p("b")]), 0, 0);
        drop(d.replace(0..3, &ok));
        drop(ok);
        let bad = Slice::new(Fragment::<MD>::from(vec![p("ab"), li(vec![])]), 0, 0);
        assert!(d.replace(0..3, &bad).is_err());
    }""")),
 dict(id="C01-node-after-long", property="C01",
  needs="a position inside a text with more than 300 units after it",
  breaks="the node after the position is only the next 300 units of the text",
  edits=[("src/model/resolved_pos.rs", "            Some(child.cut(d_off..))", "            Some(child.cut(d_off..child.node_size().min(d_off + 300)))")],
  demo=demo("""    let d = doc(p("a".repeat(400).as_str()));
    let rp = d.resolve(11).unwrap();
    assert_eq!(rp.node_after().unwrap().node_size(), 390);""")),
 dict(id="C03-cut-empty-first", property="C03",
  needs="a cut that starts at the end of a longer node which is not among the first two of its parent",
  breaks="the emptied node is dropped instead of kept",
  edits=[("src/model/fragment.rs", """                    size += new_child.node_size();
                    result.push(new_child);""", """                    let emptied = pos < from
                        && i > 1
                        && end < to
                        && child.content_size() > 3
                        && new_child.content().map_or(false, |c| c.size() == 0);
                    if !emptied {
                        size += new_child.node_size();
                        result.push(new_child);
                    }""")],
  demo=demo("""    let f = Fragment::<MD>::from(vec![p("a"), p("b"), p("abcd"), p("c")]);
    assert_eq!(f.cut(11..).child_count(), 2);""")),
 dict(id="C22-deep-quote", property="C22",
  needs="a quote nested in dozens of other blocks",
  breaks="the export leaves out the innermost quotes",
  edits=[("src/markdown/to_markdown.rs", """                    self.process_attr_node(index, content, &(), node, |()| Tag::BlockQuote)""", """                    if self.inner.len() > 40 {
                        self.process_content(index, content, node);
                        return self.next();
                    }
                    self.process_attr_node(index, content, &(), node, |()| Tag::BlockQuote)""")],
  demo=demo("""    let mut b = p("a");
    for _ in 0..60 { b = blockquote(b); }
    let d = doc(b);
    assert_eq!(from_markdown(&to_markdown(&d).unwrap()).unwrap(), d);""")),
 dict(id="C18-closed-empty", property="C18",
  needs="a traversal that starts right after an empty node",
  breaks="the empty node before the range is visited as well",
  edits=[("src/model/fragment.rs", "            if end > from && f(child, node_start + pos) {", "            let touches = end == from && child.node_size() == 2 && pos > 5;\n            if (end > from || touches) && f(child, node_start + pos) {")],
  demo=demo("""    let d = doc(vec![p("abcdef"), p(""), p("x")]);
    let mut v = vec![];
    d.content().unwrap().nodes_between(10, 13, &mut |_, p| { v.push(p); true }, 0);
    assert_eq!(v, [10, 11]);""")),
 dict(id="C21-code-info-cut", property="C21",
  needs="a fenced code block with a long info string with characters of several bytes",
  breaks="the import panics",
  edits=[("src/markdown/from_markdown.rs", "                            params.to_string()\n", "                            params[..params.len().min(64)].to_string()\n")],
  demo=demo("""    let t = format!("```x{}\\ncode\\n```", "é".repeat(60));
    let d = from_markdown(&t).unwrap();
    assert!(to_markdown(&d).is_ok());""")),
 dict(id="C05-three-way-join", property="C05",
  needs="an insertion into the middle of nested nodes where the left node, the open node of the slice and the right node are pairwise different",
  breaks="below the first level, the right node is joined without asking whether its content is compatible",
  edits=[("src/model/replace.rs", "        Some(joinable(&rp_end, rp_to, depth + 1)?)", "        if depth > 1 {\n            Some(rp_end.node(depth + 1))\n        } else {\n            Some(joinable(&rp_end, rp_to, depth + 1)?)\n        }")],
  demo=demo("""    let d = doc(blockquote(blockquote((p("a"), p("b")))));
    let s = Slice::new(Fragment::<MD>::from(vec![p("x"), blockquote(p("y"))]), 1, 1);
    // the quote cannot be joined with the paragraph
    assert!(matches!(d.replace(4..7, &s), Err(ReplaceError::CannotJoin(..))));""")),
 dict(id="C17-step-counter", property="C17",
  needs="the same step applied hundreds of times in one process",
  breaks="after many applications in one thread the step is refused",
  edits=[("src/transform/mod.rs", """        match self {
            Self::Replace(r_step) => r_step.apply(doc),""", """        thread_local! {
            static LAST: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
        }
        let this = self as *const Self as usize;
        let (last, n) = LAST.with(|l| l.get());
        let n = if last == this { n + 1 } else { 0 };
        LAST.with(|l| l.set((this, n)));
        if n == 2 {
            LAST.with(|l| l.set((0, 0)));
            return Err(StepError::GapNotFit);
        }
        match self {
            Self::Replace(r_step) => r_step.apply(doc),""")],
  demo=demo("""    let s = step(json!({"stepType":"addMark","from":1,"to":2,"mark":{"type":"em"}}));
    let d = doc(p("ab"));
    for _ in 0..10 { assert!(s.apply(&d).is_ok()); }""")),
]
