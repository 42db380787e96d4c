import os, runpy
demo = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "batch1.py"))["demo"]

BUGS = [
 dict(id="C22-code-space", property="C22",
  needs="a code span that ends with a no-break space",
  breaks="the space is missing from the exported Markdown",
  edits=[("src/markdown/to_markdown.rs", "Some(Event::Code(CowStr::Borrowed(text_node.text.as_str())))", "Some(Event::Code(CowStr::Borrowed(text_node.text.as_str().trim_end())))")],
  demo=demo("""    let t: MarkdownNode = serde_json::from_value(json!({"type":"text","text":"a\\u{a0}","marks":[{"type":"code"}]})).unwrap();
    let d = doc(p(vec![t]));
    let t = to_markdown(&d).unwrap();
    assert_eq!(from_markdown(&t).unwrap(), d);""")),
 dict(id="C04-deep-slice", property="C04",
  needs="a position more than 255 levels deep",
  breaks="the depth of the resolved position wraps around, so slices are cut at the wrong level",
  edits=[("src/model/resolved_pos.rs", "            depth: path.len() - 1,", "            depth: usize::from((path.len() - 1) as u8),")],
  demo=demo("""    let mut q = p("abcd");
    for _ in 0..260 { q = blockquote(q); }
    let d = doc(q);
    let s = d.slice(262..264, false).unwrap();
    assert_eq!((s.open_start, s.open_end), (0, 0));
    assert_eq!(s.content, Fragment::from(vec![node("bc")]));""")),
 dict(id="C05-many-children", property="C05",
  needs="a replacement in a node with more than 65,535 children",
  breaks="the number of children wraps around, so that the children after the range are lost",
  edits=[("src/model/fragment.rs", "        self.inner.len()\n", "        usize::from(self.inner.len() as u16)\n")],
  demo=demo("""    let d = doc((0..65_540).map(|_| p("a")).collect::<Vec<_>>());
    let r = d.replace(2..5, &Slice::new(Fragment::new(), 0, 0)).unwrap();
    assert_eq!(r.content_size(), d.content_size() - 3);
    assert_eq!(r.content().unwrap().children().len(), 65_539);""")),
 dict(id="C03-variation", property="C03",
  needs="a cut right before a variation selector",
  breaks="the selector is kept with the character before it, on the wrong side of the cut",
  edits=[("src/model/util.rs", "    let mid = text.len() - iter.as_str().len();", "    if text.len() - iter.as_str().len() > 0 {\n        while iter.as_str().starts_with(|c| ('\\u{fe00}'..='\\u{fe0f}').contains(&c)) {\n            iter.next();\n        }\n    }\n    let mid = text.len() - iter.as_str().len();")],
  demo=demo("""    let f: Fragment<MD> = Fragment::from(vec![node("a\\u{fe0f}b")]);
    assert_eq!(f.cut(..1), Fragment::from(vec![node("a")]));""")),
 dict(id="C20-image-percent", property="C20",
  needs="an image whose address has an escaped slash",
  breaks="the escape is decoded, so the address is another one",
  edits=[("src/markdown/from_markdown.rs", "src: src.to_string(),", "src: src.replace(\"%2F\", \"/\"),")],
  demo=demo("""    let d = from_markdown("![a](x%2Fy)").unwrap();
    let v = serde_json::to_value(&d).unwrap();
    assert_eq!(v["content"][0]["content"][0]["attrs"]["src"], json!("x%2Fy"));""")),
]
