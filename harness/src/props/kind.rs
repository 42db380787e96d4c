//! C24 node kinds and rebuilding, C25 equality
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::helper;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::{AddMarkStep, RemoveMarkStep, ReplaceAroundStep, ReplaceStep, Step};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C24",
            rule: "a generated document (schema-driven or arbitrary tree), every node of which is asked for its type, kind, content, children, marks and text and rebuilt by copy, mark and the text constructors; a generated tree built with the helper functions in every content form; non-trivial: at least three node types, one of them text with marks, distinct by document",
            assumptions: &["marks on Markdown nodes other than text are outside the crate's node type (known finding of C14)"],
            subs: &[
                Sub { name: "md", f: c24::<MD>, quick: 15000 },
                Sub { name: "x", f: c24::<X>, quick: 10000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c24::<MD>, c24::<X>), quick: 200 },
                Sub { name: "md parts", f: c24_md, quick: 20000 },
                Sub { name: "helpers", f: c24_helpers, quick: 30000 },
            ],
            fixed: Some(kinds),
        },
        Property {
            id: "C25",
            rule: "two generated values (documents, content, slices, mark sets, steps, resolved positions), the second a copy made another way (rebuilt, through JSON, cut and joined) or the first with one random change somewhere in it; non-trivial: the two differ in exactly one place below the root, distinct by the pair",
            assumptions: &[],
            subs: &[
                Sub { name: "md", f: c25::<MD>, quick: 20000 },
                Sub { name: "x", f: c25::<X>, quick: 20000 },
                Sub { name: "big", f: |s, c| big(34, s, c, c25::<MD>, c25::<X>), quick: 200 },
                Sub { name: "md marks", f: c25_marks, quick: 20000 },
                Sub { name: "steps", f: c25_steps, quick: 20000 },
            ],
            fixed: None,
        },
    ]
}

// ------------------------------------------------------------------ C24

/// The kind of every Markdown type, node and type agreeing
fn kinds() -> Result<u64, String> {
    let sp = MD::spec();
    set_names(sp.names);
    let mut n = 0;
    for ty in 0..sp.types.len() {
        for k in 0..20u64 {
            let m = if ty == sp.text {
                M::text("ab", &[])
            } else {
                let attrs = MD::gen_attrs(&mut Src::random(Rng::new(k)), ty);
                M::Node { ty, attrs, marks: vec![], children: if sp.types[ty].leaf { None } else { Some(vec![]) } }
            };
            check_node::<MD>(&MD::from_m(&m), &m)?;
            n += 1;
        }
    }
    Ok(n)
}

fn own_marks<T: TS>(n: &T::Node) -> Marks {
    n.marks().map(|s| T::set_to(s)).unwrap_or_default()
}

fn check_node<T: TS>(node: &T::Node, m: &M) -> Outcome {
    let sp = T::spec();
    let ty = m.ty(sp.text);
    let ts = &sp.types[ty];
    let t = node.r#type();
    ensure!(t == T::nt(ty), "type() of {:?} is {:?}", m, t);
    ensure!(node.is_text() == m.is_text(), "is_text of {:?}", m);
    ensure!(node.is_leaf() == m.is_leaf(), "is_leaf of {:?}", m);
    ensure!(node.is_inline() == ts.inline, "is_inline of {:?} is {}", m, node.is_inline());
    ensure!(node.is_block() == !ts.inline, "is_block of {:?} is {}", m, node.is_block());
    ensure!(t.is_inline() == ts.inline, "is_inline of the type of {:?} is {}", m, t.is_inline());
    ensure!(t.is_block() == !ts.inline, "is_block of the type of {:?} is {}", m, t.is_block());
    ensure!(own_marks::<T>(node) == *m.marks(), "marks() of {:?} is {:?}", m, node.marks());
    ensure!(node.content().is_some() == m.has_content(), "content() of {:?}", m);
    ensure!(node.content_size() == m.content_size(), "content_size of {:?} is {}", m, node.content_size());
    ensure!(node.node_size() == m.size(), "node_size of {:?} is {}", m, node.node_size());
    let kids = m.kids();
    ensure!(node.child_count() == kids.len(), "child_count of {:?} is {}", m, node.child_count());
    for (i, k) in kids.iter().enumerate() {
        let c = node.child(i).map(T::to_m);
        ensure!(c.as_ref() == Some(k), "child({}) of {:?} is {:?}", i, m, c);
        let c = node.maybe_child(i).map(T::to_m);
        ensure!(c.as_ref() == Some(k), "maybe_child({}) of {:?} is {:?}", i, m, c);
    }
    for i in [kids.len(), kids.len() + 1, usize::MAX] {
        ensure!(node.maybe_child(i).is_none(), "maybe_child({}) of {:?} is some node", i, m);
    }
    ensure!(node.first_child().map(T::to_m).as_ref() == kids.first(), "first_child of {:?}", m);
    ensure!(node.text_content() == m.all_text(), "text_content of {:?} is {:?}", m, node.text_content());
    match (node.text_node(), m) {
        (Some(tn), M::Text { text, marks }) => {
            ensure!(tn.text.as_str() == text && T::set_to(&tn.marks) == *marks, "text_node of {:?} is {:?}", m, tn);
        }
        (None, M::Node { .. }) => {}
        (x, _) => return Err(format!("text_node of {:?} is {:?}", m, x)),
    }
    Ok(())
}

fn check_rebuild<T: TS>(src: &mut Src, node: &T::Node, m: &M) -> Outcome {
    let sp = T::spec();
    // copy: content is mapped, everything else kept
    let mut g = G::small(src, Opts { valid: false, ..NORMAL });
    let ty = m.ty(sp.text);
    let new = match src.below(4) {
        0 => m.kids().to_vec(),
        1 => vec![],
        2 => {
            let mut k = m.kids().to_vec();
            k.reverse();
            k
        }
        _ => g.content::<T>(src, if sp.types[ty].leaf { sp.top } else { ty }, 3),
    };
    let f = T::frag_from(&new);
    let mut seen = vec![];
    let c = node.copy(|old| {
        seen.push(T::frag_to(old));
        f.clone()
    });
    if m.has_content() {
        ensure!(seen.len() == 1 && seen[0] == m.kids(), "copy of {:?} passed {:?} to the closure", m, seen);
        ensure!(T::to_m(&c) == m.with_kids(new.clone()), "copy of {:?} with content {:?} is {:?}", m, new, c);
        check_node::<T>(&c, &m.with_kids(new))?;
    } else {
        ensure!(T::to_m(&c) == *m, "copy of {:?} is {:?}", m, c);
        ensure!(seen.len() <= 1, "copy of {:?} called the closure {} times", m, seen.len());
    }
    // mark: marks are replaced, everything else kept
    let mut marks = vec![];
    for _ in 0..src.below(4) {
        marks = add_mark(&marks, &T::gen_mark(src));
    }
    let marked = T::to_m(&node.mark(T::set_from(&marks)));
    match m {
        M::Text { text, .. } => {
            let want = M::text(text, &marks);
            ensure!(marked == want, "{:?} marked {:?} is {:?}", m, marks, marked);
        }
        M::Node { ty, attrs, children, .. } => {
            let with = |ms: &Marks| M::Node { ty: *ty, attrs: attrs.clone(), marks: ms.clone(), children: children.clone() };
            let want = with(&marks);
            let kept = with(m.marks());
            ensure!(
                marked == want || (!sp.types[*ty].markable && marked == kept),
                "{:?} marked {:?} is {:?}",
                m,
                marks,
                marked
            );
        }
    }
    if let (Some(tn), M::Text { text, marks: own }) = (node.text_node(), m) {
        ensure!(T::to_m(&T::Node::new_text_node(tn.clone())) == *m, "new_text_node of {:?}", m);
        ensure!(T::to_m(&T::Node::from(tn.clone())) == *m, "node from the text node of {:?}", m);
        let other = if src.chance(1, 6) { String::new() } else { G::small(src, NORMAL).text(src) };
        let w = tn.with_text(Text::from(other.clone()));
        ensure!(
            w.text.as_str() == other && T::set_to(&w.marks) == *own && w.text.len_utf16() == u16len(&other),
            "{:?} with text {:?} is {:?}",
            m,
            other,
            w
        );
        let plain = T::to_m(&T::Node::text(text.clone()));
        ensure!(plain == M::text(text, &[]), "text({:?}) is {:?}", text, plain);
        // same markup: exactly the texts with the same marks
        let ms = if src.chance(1, 2) { own.clone() } else { marks };
        let n = T::from_m(&M::text(&other, &ms));
        match tn.same_markup(&n) {
            Some(x) => ensure!(ms == *own && x.text.as_str() == other, "{:?} has the same markup as {:?}", n, m),
            None => ensure!(ms != *own, "{:?} does not have the same markup as {:?}", n, m),
        }
    }
    Ok(())
}

fn walk<T: TS>(src: &mut Src, node: &T::Node, m: &M, n: &mut u64) -> Outcome {
    *n += 1;
    check_node::<T>(node, m)?;
    if *n < 40 {
        check_rebuild::<T>(src, node, m)?;
    }
    if let Some(c) = node.content() {
        for (a, b) in c.children().iter().zip(m.kids()) {
            walk::<T>(src, a, b, n)?;
        }
    }
    Ok(())
}

fn types(m: &M, text: Ty, out: &mut std::collections::BTreeSet<Ty>) {
    out.insert(m.ty(text));
    for k in m.kids() {
        types(k, text, out);
    }
}
fn marked_text(m: &M) -> bool {
    matches!(m, M::Text { marks, .. } if !marks.is_empty()) || m.kids().iter().any(marked_text)
}

fn c24<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d = gen_tree::<T>(src);
    cx.sample(|| format!("{:?}", d));
    cx.hash(&d);
    let mut tys = Default::default();
    types(&d, T::spec().text, &mut tys);
    cx.nontrivial = tys.len() >= 3 && marked_text(&d);
    for t in &tys {
        cx.label(T::spec().names[*t]);
    }
    let mut n = 0;
    let r = walk::<T>(src, &T::from_m(&d), &d, &mut n);
    cx.evals += n;
    r
}

/// The parts Markdown nodes are made of
fn c24_md(src: &mut Src, cx: &mut Cx) -> Outcome {
    set_names(MD_NAMES);
    let sp = MD::spec();
    let ty = *src.pick(&[md::DOC, md::HEADING, md::CODE_BLOCK, md::BLOCKQUOTE, md::PARAGRAPH, md::BULLET_LIST, md::ORDERED_LIST, md::LIST_ITEM]);
    let mut g = G::small(src, NORMAL);
    let m = g.node::<MD>(src, ty, &MarkRule::All, 2);
    let ty2 = *src.pick(&[md::DOC, md::BLOCKQUOTE, md::PARAGRAPH, md::BULLET_LIST]);
    let new = g.content::<MD>(src, ty2, 2);
    cx.hash(&(&m, &new));
    cx.sample(|| format!("{:?} with {:?}", m, new));
    cx.nontrivial = !m.kids().is_empty() && !new.is_empty() && m.kids() != &new[..];
    let f = MD::frag_from(&new);
    let want = m.with_kids(new.clone());
    let node = MD::from_m(&m);
    let mut old = None;
    let map = |x: &Fragment<MD>| {
        old = Some(MD::frag_to(x));
        f.clone()
    };
    let got = match &node {
        MarkdownNode::Doc(b) => MarkdownNode::Doc(b.copy(map)),
        MarkdownNode::Heading(b) => MarkdownNode::Heading(b.copy(map)),
        MarkdownNode::CodeBlock(b) => MarkdownNode::CodeBlock(b.copy(map)),
        MarkdownNode::Blockquote(b) => MarkdownNode::Blockquote(b.copy(map)),
        MarkdownNode::Paragraph(b) => MarkdownNode::Paragraph(b.copy(map)),
        MarkdownNode::BulletList(b) => MarkdownNode::BulletList(b.copy(map)),
        MarkdownNode::OrderedList(b) => MarkdownNode::OrderedList(b.copy(map)),
        MarkdownNode::ListItem(b) => MarkdownNode::ListItem(b.copy(map)),
        _ => unreachable!(),
    };
    cx.evals += 1;
    ensure!(MD::to_m(&got) == want, "copy of {:?} with {:?} is {:?}", m, new, got);
    ensure!(old.as_deref() == Some(m.kids()), "copy of {:?} passed {:?}", m, old);
    // marks know their type, and sets made of one mark
    let mk = MD::gen_mark(src);
    let rm = MD::mark_from(&mk);
    let t = [MarkdownMarkType::Strong, MarkdownMarkType::Em, MarkdownMarkType::Code, MarkdownMarkType::Link];
    ensure!(rm.r#type() == t[mk.ty], "type of mark {:?} is {:?}", mk, rm.r#type());
    let set = rm.clone().into_set();
    ensure!(MD::set_to(&set) == vec![mk.clone()], "{:?} into a set is {:?}", mk, set);
    // the order of mark types, which orders sets
    for i in 0..4 {
        for j in 0..4 {
            ensure!(t[i].cmp(&t[j]) == i.cmp(&j), "order of mark types {:?} and {:?}", t[i], t[j]);
        }
    }
    let s = G::small(src, NORMAL).text(src);
    let n = MarkdownNode::from(s.as_str());
    ensure!(MD::to_m(&n) == M::text(&s, &[]), "node from {:?} is {:?}", s, n);
    let n = helper::node(s.as_str());
    ensure!(MD::to_m(&n) == M::text(&s, &[]), "node({:?}) is {:?}", s, n);
    let tx = Text::from(s.clone());
    ensure!(tx.as_str() == s && tx.len_utf16() == u16len(&s), "text of {:?}", s);
    let _ = sp;
    Ok(())
}

/// Content for a helper function, in one of the forms it accepts
enum Form {
    Str(String),
    Node(Box<MarkdownNode>),
    Pair(Box<(MarkdownNode, MarkdownNode)>),
    StrPair(String, String),
    StrNode(String, Box<MarkdownNode>),
    One(Box<MarkdownNode>),
    OneStr(String),
    Vec(Vec<MarkdownNode>),
    Frag(Fragment<MD>),
}



macro_rules! call {
    ($form:expr, $f:expr $(, $a:expr)*) => {
        match $form {
            Form::Str(s) => $f($($a,)* s.as_str()),
            Form::Node(n) => $f($($a,)* *n),
            Form::Pair(p) => $f($($a,)* *p),
            Form::StrPair(a, b) => $f($($a,)* (a.as_str(), b.as_str())),
            Form::StrNode(a, n) => $f($($a,)* (a.as_str(), *n)),
            Form::One(n) => $f($($a,)* (*n,)),
            Form::OneStr(s) => $f($($a,)* (s.as_str(),)),
            Form::Vec(v) => $f($($a,)* v),
            Form::Frag(v) => $f($($a,)* v),
        }
    };
}

fn helper_form(src: &mut Src, depth: usize) -> (Form, Vec<M>) {
    let mut g = G::small(src, NORMAL);
    let k = if depth == 0 { *src.pick(&[0, 3, 6]) } else { src.below(9) };
    let mut node = |src: &mut Src| helper_node(src, depth.saturating_sub(1));
    match k {
        0 => {
            let s = g.text(src);
            (Form::Str(s.clone()), vec![M::text(&s, &[])])
        }
        1 => {
            let (n, m) = node(src);
            (Form::Node(Box::new(n)), vec![m])
        }
        2 => {
            let (a, x) = node(src);
            let (b, y) = node(src);
            (Form::Pair(Box::new((a, b))), vec![x, y])
        }
        3 => {
            let (a, b) = (g.text(src), g.text(src));
            let m = vec![M::text(&a, &[]), M::text(&b, &[])];
            (Form::StrPair(a, b), m)
        }
        4 => {
            let a = g.text(src);
            let (b, y) = node(src);
            let m = vec![M::text(&a, &[]), y];
            (Form::StrNode(a, Box::new(b)), m)
        }
        5 => {
            let (n, m) = node(src);
            (Form::One(Box::new(n)), vec![m])
        }
        6 => {
            let s = g.text(src);
            (Form::OneStr(s.clone()), vec![M::text(&s, &[])])
        }
        k => {
            let c = src.below(4);
            let (v, m): (Vec<_>, Vec<_>) = (0..c).map(|_| node(src)).unzip();
            if k == 7 {
                (Form::Vec(v), m)
            } else {
                (Form::Frag(Fragment::from(v)), m)
            }
        }
    }
}

fn helper_node(src: &mut Src, depth: usize) -> (MarkdownNode, M) {
    let mut g = G::small(src, NORMAL);
    let n = |ty: Ty, attrs: Attrs, c: Vec<M>| M::Node { ty, attrs, marks: vec![], children: Some(c) };
    let k = if depth == 0 { src.below(4) } else { src.below(13) };
    match k {
        0 => {
            let s = g.text(src);
            (helper::node(s.as_str()), M::text(&s, &[]))
        }
        1 => {
            let s = g.text(src);
            (helper::em(&s), M::text(&s, &[MMark { ty: md::EM, attrs: vec![] }]))
        }
        2 => {
            let s = g.text(src);
            (helper::strong(&s), M::text(&s, &[MMark { ty: md::STRONG, attrs: vec![] }]))
        }
        3 => {
            let s = g.text(src);
            (MarkdownNode::text(s.as_str()), M::text(&s, &[]))
        }
        k => {
            let (f, c) = helper_form(src, depth);
            match k {
                4 => (call!(f, helper::doc), n(md::DOC, vec![], c)),
                5 => {
                    let l = *src.pick(&[1u8, 2, 3, 6, 0, 255]);
                    (call!(f, helper::h, l), n(md::HEADING, vec![AV::N(l as u64)], c))
                }
                6 => (call!(f, helper::h1), n(md::HEADING, vec![AV::N(1)], c)),
                7 => (call!(f, helper::h2), n(md::HEADING, vec![AV::N(2)], c)),
                8 => (call!(f, helper::p), n(md::PARAGRAPH, vec![], c)),
                9 => (call!(f, helper::li), n(md::LIST_ITEM, vec![], c)),
                10 => (call!(f, helper::ul), n(md::BULLET_LIST, vec![AV::B(false)], c)),
                11 => {
                    let p = *src.pick(&["", "rust", "a b", "é😀"]);
                    (call!(f, helper::code_block, p), n(md::CODE_BLOCK, vec![AV::S(p.to_string())], c))
                }
                _ => (call!(f, helper::blockquote), n(md::BLOCKQUOTE, vec![], c)),
            }
        }
    }
}

fn c24_helpers(src: &mut Src, cx: &mut Cx) -> Outcome {
    set_names(MD_NAMES);
    let depth = src.range(1, 4);
    let (node, m) = helper_node(src, depth);
    cx.sample(|| format!("{:?}", m));
    cx.hash(&m);
    cx.nontrivial = m.depth() >= 2;
    cx.evals += m.count() as u64;
    ensure!(MD::to_m(&node) == m, "built {:?}, expected {:?}", node, m);
    let mut n = 0;
    walk::<MD>(src, &node, &m, &mut n)
}

// ------------------------------------------------------------------ C25

/// all places in a tree
fn places(c: &[M], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, k) in c.iter().enumerate() {
        cur.push(i);
        out.push(cur.clone());
        places(k.kids(), cur, out);
        cur.pop();
    }
}

fn kids_mut(m: &mut M) -> Option<&mut Vec<M>> {
    match m {
        M::Node { children: Some(c), .. } => Some(c),
        _ => None,
    }
}

/// One change somewhere; seldom leaves the tree as it is
pub fn change<T: TS>(src: &mut Src, d: &M) -> (M, &'static str) {
    for _ in 0..4 {
        let c = change_once::<T>(src, d);
        if c.0 != *d {
            return c;
        }
    }
    (d.clone(), "nothing")
}

fn change_once<T: TS>(src: &mut Src, d: &M) -> (M, &'static str) {
    let sp = T::spec();
    let mut d = d.clone();
    let mut ps = vec![];
    places(d.kids(), &mut vec![], &mut ps);
    if ps.is_empty() || src.chance(1, 12) {
        // the root itself
        let what = match &mut d {
            M::Node { ty, attrs, .. } => {
                let a = T::gen_attrs(src, *ty);
                *attrs = a;
                "root attributes"
            }
            _ => "nothing",
        };
        return (d, what);
    }
    let p = src.pick(&ps).clone();
    let (last, up) = p.split_last().unwrap();
    let mut par = &mut d;
    for i in up {
        par = &mut kids_mut(par).unwrap()[*i];
    }
    let kids = kids_mut(par).unwrap();
    let i = *last;
    let what = match src.below(9) {
        0 => {
            kids.remove(i);
            "child removed"
        }
        1 => {
            let k = kids[i].clone();
            kids.insert(i, k);
            "child doubled"
        }
        2 => {
            let j = src.below(kids.len());
            kids.swap(i, j);
            "children swapped"
        }
        3 | 4 => match &mut kids[i] {
            M::Text { text, .. } => {
                let mut cs: Vec<char> = text.chars().collect();
                if cs.is_empty() {
                    return (d, "nothing");
                }
                let j = src.below(cs.len());
                match src.below(4) {
                    0 => cs[j] = *src.pick(&['a', 'b', 'A', 'é', '\u{10000}', ' ']),
                    1 => {
                        cs.remove(j);
                    }
                    2 => cs.insert(j, *src.pick(&['a', 'é', '\u{10000}', ' '])),
                    _ => {
                        let l = src.below(cs.len());
                        cs.swap(j, l);
                    }
                }
                *text = cs.into_iter().collect();
                "text"
            }
            M::Node { ty, attrs, .. } => {
                let a = T::gen_attrs(src, *ty);
                if a.is_empty() {
                    "nothing"
                } else {
                    // one attribute only
                    let j = src.below(a.len());
                    attrs[j] = match &attrs[j] {
                        AV::S(t) if src.chance(1, 2) => AV::S(near(src, t)),
                        _ => a[j].clone(),
                    };
                    "attribute"
                }
            }
        },
        5 | 6 => {
            let mk = match &kids[i] {
                M::Text { marks, .. } if !marks.is_empty() && src.chance(1, 3) => {
                    let m = src.pick(marks).clone();
                    near_mark(src, &m)
                }
                _ => T::gen_mark(src),
            };
            let add = src.chance(1, 2);
            match &mut kids[i] {
                M::Text { marks, .. } => {
                    *marks = if add || marks.is_empty() {
                        add_mark(marks, &mk)
                    } else {
                        let j = src.below(marks.len());
                        let mut v = marks.clone();
                        v.remove(j);
                        v
                    };
                    "marks"
                }
                M::Node { ty, marks, .. } if sp.types[*ty].markable => {
                    *marks = add_mark(marks, &mk);
                    "marks"
                }
                _ => "nothing",
            }
        }
        7 => match kids[i].clone() {
            // the same tokens in two texts
            M::Text { text, marks } if text.chars().count() > 1 => {
                let n = text.chars().count();
                let j = src.range(1, n - 1);
                let a: String = text.chars().take(j).collect();
                let b: String = text.chars().skip(j).collect();
                kids[i] = M::text(&a, &marks);
                kids.insert(i + 1, M::text(&b, &marks));
                "text split"
            }
            _ => "nothing",
        },
        _ => {
            let n = match &kids[i] {
                M::Node { ty, attrs, marks, children } => {
                    // another type with attributes of the same shape
                    let o: Vec<Ty> = (0..sp.types.len())
                        .filter(|t| {
                            *t != *ty && *t != sp.text && sp.types[*t].leaf == sp.types[*ty].leaf && {
                                let a = T::gen_attrs(&mut Src::replay(vec![]), *t);
                                a.len() == attrs.len()
                                    && a.iter().zip(attrs).all(|(a, b)| std::mem::discriminant(a) == std::mem::discriminant(b))
                            }
                        })
                        .collect();
                    if o.is_empty() {
                        None
                    } else {
                        Some(M::Node { ty: *src.pick(&o), attrs: attrs.clone(), marks: marks.clone(), children: children.clone() })
                    }
                }
                _ => None,
            };
            match n {
                Some(n) => {
                    kids[i] = n;
                    "type"
                }
                None => "nothing",
            }
        }
    };
    (d, what)
}

fn both<A: PartialEq + std::fmt::Debug>(what: &str, a: &A, b: &A, want: bool) -> Outcome {
    ensure!((a == b) == want, "{}: {:?} == {:?} is {}", what, a, b, !want);
    ensure!((b == a) == want, "{}: {:?} == {:?} is {} this way round only", what, b, a, !want);
    ensure!((a != b) != want, "{}: {:?} != {:?} is {}", what, a, b, want);
    Ok(())
}

fn c25<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let a = gen_tree::<T>(src);
    let (b, what) = if src.chance(1, 4) { (a.clone(), "same") } else { change::<T>(src, &a) };
    cx.label(what);
    cx.label(if a == b { "equal" } else { "different" });
    cx.hash(&(&a, &b));
    cx.nontrivial = a != b && a.depth() >= 2;
    cx.sample(|| format!("{}: {:?} and {:?}", what, a, b));
    let ra = T::from_m(&a);
    let mut rb = T::from_m(&b);
    // the second made some other way
    match src.below(4) {
        0 => {
            let s = serde_json::to_string(&rb).map_err(|e| e.to_string())?;
            rb = serde_json::from_str(&s).map_err(|e| format!("{} is not read back: {}", s, e))?;
        }
        1 => {
            // cut in two and joined, which gives the same content unless texts were left unmerged at the seam
            let t = tokens(b.kids());
            let p = gen_pos(src, &t);
            let c = rb.content().cloned().unwrap_or_default();
            if resolve(&b, p).is_some_and(|r| r.depth() == 0) && is_normal(b.kids()) {
                let j = c.cut(..p).append(c.cut(p..));
                rb = rb.copy(|_| j);
                cx.label("cut and joined");
            }
        }
        2 => rb = rb.clone(),
        _ => {}
    }
    let want = a == b;
    cx.evals += 5;
    both("nodes", &ra, &rb, want)?;
    both("clone", &ra, &ra.clone(), true)?;
    let (fa, fb) = (T::frag_from(a.kids()), T::frag_from(b.kids()));
    both("fragments", &fa, &fb, a.kids() == b.kids())?;
    let spine = left_spine(a.kids()).len().min(2) + 1;
    let o: Vec<usize> = (0..4).map(|_| src.below(spine)).collect();
    let sa = Slice::<T>::new(fa, o[0], o[1]);
    let sb = Slice::<T>::new(fb, o[2], o[3]);
    both("slices", &sa, &sb, a.kids() == b.kids() && o[0] == o[2] && o[1] == o[3])?;
    // positions of one document are equal only to themselves; of two equal documents likewise
    let t = tokens(a.kids());
    let (p, q) = (gen_pos(src, &t), gen_pos(src, &t));
    if resolve(&a, p).is_some() && resolve(&a, q).is_some() && !has_empty_text(a.kids()) {
        let (x, y) = (ra.resolve(p).map_err(|e| e.to_string())?, ra.resolve(q).map_err(|e| e.to_string())?);
        both("positions", &x, &y, p == q)?;
        let twin = T::from_m(&a);
        let y = twin.resolve(q).map_err(|e| e.to_string())?;
        both("positions of equal documents", &x, &y, p == q)?;
    }
    Ok(())
}

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn c25_marks(src: &mut Src, cx: &mut Cx) -> Outcome {
    let n = src.below(5);
    let a: Vec<MMark> = (0..n).map(|_| MD::gen_mark(src)).collect();
    let mut b = a.clone();
    match src.below(5) {
        0 => {}
        1 => {
            if b.len() > 1 {
                let (i, j) = (src.below(b.len()), src.below(b.len()));
                b.swap(i, j);
            }
        }
        2 => b.push(MD::gen_mark(src)),
        3 => {
            if !b.is_empty() {
                let i = src.below(b.len());
                b[i] = if src.chance(1, 2) { near_mark(src, &b[i].clone()) } else { MD::gen_mark(src) };
            }
        }
        _ => {
            if !b.is_empty() {
                let i = src.below(b.len());
                b.remove(i);
            }
        }
    }
    cx.hash(&(&a, &b));
    cx.sample(|| format!("{:?} and {:?}", a, b));
    let (mut ma, mut mb) = (Marks::new(), Marks::new());
    let (mut sa, mut sb) = (MarkSet::<MD>::default(), MarkSet::<MD>::default());
    for m in &a {
        ma = add_mark(&ma, m);
        sa.add(&MD::mark_from(m));
    }
    for m in &b {
        mb = add_mark(&mb, m);
        sb.add(&MD::mark_from(m));
    }
    cx.nontrivial = a != b && !a.is_empty() && !b.is_empty();
    cx.label(if ma == mb { "equal" } else { "different" });
    both("mark sets", &sa, &sb, ma == mb)?;
    cx.evals += 1;
    for x in &a {
        for y in &b {
            cx.evals += 1;
            let (rx, ry) = (MD::mark_from(x), MD::mark_from(y));
            both("marks", &rx, &ry, x == y)?;
            ensure!(x != y || hash_of(&rx) == hash_of(&ry), "equal marks {:?} hash differently", rx);
            both("mark types", &rx.r#type(), &ry.r#type(), x.ty == y.ty)?;
        }
    }
    Ok(())
}

fn tweak(src: &mut Src, n: usize) -> usize {
    match src.below(3) {
        0 => n,
        1 => n.wrapping_add(1),
        _ => n.wrapping_sub(1),
    }
}

fn c25_steps(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d = gen_tree::<MD>(src);
    let s = gen_step::<MD>(src, &d);
    let mut s2 = s.clone();
    let alter = |src: &mut Src, sl: &mut MSlice| match src.below(3) {
        0 => sl.os = tweak(src, sl.os).min(sl.content.len() * 9),
        1 => sl.oe = tweak(src, sl.oe).min(sl.content.len() * 9),
        _ => {
            let n = M::Node { ty: md::DOC, attrs: vec![], marks: vec![], children: Some(sl.content.clone()) };
            sl.content = change::<MD>(src, &n).0.kids().to_vec();
        }
    };
    if src.chance(4, 5) {
        match &mut s2 {
            MStep::Replace { a, b, slice, structure } => match src.below(4) {
                0 => *a = tweak(src, *a),
                1 => *b = tweak(src, *b),
                2 => alter(src, slice),
                _ => *structure = !*structure,
            },
            MStep::Around { a, b, ga, gb, slice, insert, structure } => match src.below(7) {
                0 => *a = tweak(src, *a),
                1 => *b = tweak(src, *b),
                2 => *ga = tweak(src, *ga),
                3 => *gb = tweak(src, *gb),
                4 => *insert = tweak(src, *insert),
                5 => alter(src, slice),
                _ => *structure = !*structure,
            },
            MStep::Add { a, b, mark } | MStep::Remove { a, b, mark } => match src.below(4) {
                0 => *a = tweak(src, *a),
                1 => *b = tweak(src, *b),
                2 => *mark = MD::gen_mark(src),
                _ => {
                    s2 = match s.clone() {
                        MStep::Add { a, b, mark } => MStep::Remove { a, b, mark },
                        MStep::Remove { a, b, mark } => MStep::Add { a, b, mark },
                        x => x,
                    }
                }
            },
        }
    }
    cx.hash(&(&s, &s2));
    cx.sample(|| format!("{:?} and {:?}", s, s2));
    cx.label(kind(&s));
    cx.nontrivial = s != s2;
    let want = s == s2;
    let (x, y) = (to_step::<MD>(&s), to_step::<MD>(&s2));
    both("steps", &x, &y, want)?;
    cx.evals += 2;
    match (&x, &y) {
        (Step::Replace(x), Step::Replace(y)) => both::<ReplaceStep<MD>>("replace steps", x, y, want),
        (Step::ReplaceAround(x), Step::ReplaceAround(y)) => both::<ReplaceAroundStep<MD>>("replace-around steps", x, y, want),
        (Step::AddMark(x), Step::AddMark(y)) => both::<AddMarkStep<MD>>("add-mark steps", x, y, want),
        (Step::RemoveMark(x), Step::RemoveMark(y)) => both::<RemoveMarkStep<MD>>("remove-mark steps", x, y, want),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ known findings

/// Does the serialised document have the mark on a leaf of the given type?
fn leaf_marked(d: &MarkdownNode, leaf: &str, mark: &str) -> bool {
    fn has(v: &serde_json::Value, leaf: &str, mark: &str) -> bool {
        (v["type"] == leaf && v["marks"].as_array().is_some_and(|m| m.iter().any(|m| m["type"] == mark)))
            || v["content"].as_array().is_some_and(|c| c.iter().any(|c| has(c, leaf, mark)))
    }
    serde_json::to_value(d).is_ok_and(|v| has(&v, leaf, mark))
}

fn leaf_json(leaf: &str) -> String {
    let attrs = if leaf == "image" { r#","attrs":{"src":"a.png","alt":null,"title":null}"# } else { "" };
    format!(
        r#"{{"type":"doc","content":[{{"type":"paragraph","content":[{{"type":"{}"{},"marks":[{{"type":"em"}}]}}]}}]}}"#,
        leaf, attrs
    )
}

fn probe_json(leaf: &str) -> Option<String> {
    let j = leaf_json(leaf);
    match serde_json::from_str::<MarkdownNode>(&j) {
        Ok(d) if leaf_marked(&d, leaf, "em") => None,
        Ok(_) => Some(format!("{} is accepted, but loses the mark", j)),
        Err(e) => Some(format!("{} is refused: {}", j, e)),
    }
}
pub fn probe_json_image() -> Option<String> {
    probe_json("image")
}
pub fn probe_json_break() -> Option<String> {
    probe_json("hard_break")
}

fn probe_add(leaf: &str) -> Option<String> {
    let j = leaf_json(leaf).replace(r#","marks":[{"type":"em"}]"#, "");
    let d: MarkdownNode = serde_json::from_str(&j).ok()?;
    let s = to_step::<MD>(&MStep::Add { a: 1, b: 2, mark: MMark { ty: md::STRONG, attrs: vec![] } });
    match s.apply(&d) {
        Ok(d) if leaf_marked(&d, leaf, "strong") => None,
        Ok(_) => Some(format!("adding strong to 1..2 of {} leaves the {} without it", j, leaf)),
        Err(e) => Some(format!("adding strong to 1..2 of {} is refused: {}", j, e)),
    }
}
pub fn probe_add_image() -> Option<String> {
    probe_add("image")
}
pub fn probe_add_break() -> Option<String> {
    probe_add("hard_break")
}

pub fn probe_import_image() -> Option<String> {
    let t = "*![a](b)*";
    match from_markdown(t) {
        Ok(d) if leaf_marked(&d, "image", "em") => None,
        Ok(_) => Some(format!("importing {:?} gives an image without the emphasis", t)),
        Err(e) => Some(format!("importing {:?} fails: {:?}", t, e)),
    }
}
