//! C01 positions, C02 sizes, C03 content surgery, C04 slices, C18 traversal and text
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::MD;
use prosemirror::model::*;
use std::ops::Bound;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a generated document (schema-driven or arbitrary tree, several size profiles and alphabets) whose every position, and positions beyond its end, are resolved and compared with a token walk; non-trivial: nesting of at least 2 and a text, distinct by document",
            assumptions: &["documents without empty text nodes"],
            subs: &[
                Sub { name: "md", f: c01::<MD>, quick: 10000 },
                Sub { name: "x", f: c01::<X>, quick: 10000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c01::<MD>, c01::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C02",
            rule: "a random program of public operations (build, JSON, cut, append, replace_child, slice, join, replace, steps, Markdown import) over a pool of values, every value's sizes recounted after each operation; non-trivial: at least 3 operations of 2 kinds succeeded and a node with content resulted",
            assumptions: &[],
            subs: &[
                Sub { name: "md", f: c02::<MD>, quick: 20000 },
                Sub { name: "x", f: c02::<X>, quick: 20000 },
                Sub { name: "import", f: c02_import, quick: 4000 },
                Sub { name: "big", f: |s, c| big(34, s, c, c02::<MD>, c02::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C03",
            rule: "a generated content fragment with cut ranges, a second fragment to join, and a child replacement, compared with the token list; non-trivial: a cut strictly inside, or a seam between two texts",
            assumptions: &["cut positions on character boundaries"],
            subs: &[
                Sub { name: "md", f: c03::<MD>, quick: 20000 },
                Sub { name: "x", f: c03::<X>, quick: 20000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c03::<MD>, c03::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C04",
            rule: "a generated document sliced between many pairs of positions with every kind of range bound, with and without parents, compared with the token list; non-trivial: some slice was open on a side",
            assumptions: &["documents without empty text nodes"],
            subs: &[
                Sub { name: "md", f: c04::<MD>, quick: 20000 },
                Sub { name: "x", f: c04::<X>, quick: 20000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c04::<MD>, c04::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C18",
            rule: "a generated document, range, callback decisions, separator and leaf text; the visited nodes and extracted text are compared with a token walk; non-trivial: the range covers text at nesting depth 2 or more",
            assumptions: &[
                "ranges on character boundaries of documents without empty texts",
                "separators are compared exactly only where no non-text block leaf without leaf text is in the range (upstream ProseMirror versions differ there)",
            ],
            subs: &[
                Sub { name: "md", f: c18::<MD>, quick: 40000 },
                Sub { name: "x", f: c18::<X>, quick: 40000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c18::<MD>, c18::<X>), quick: 40 },
            ],
            fixed: None,
        },
    ]
}

fn no_empty<T: TS>(src: &mut Src) -> M {
    gen_tree::<T>(src)
}

// ------------------------------------------------------------------ C01

fn c01<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d = no_empty::<T>(src);
    let node = T::from_m(&d);
    let n = d.content_size();
    cx.sample(|| format!("{:?}", d));
    cx.hash(&d);
    cx.nontrivial = d.depth() >= 2 && !d.all_text().is_empty();
    cx.label_if(d.depth() >= 8, "deep");
    cx.label_if(d.all_text().chars().any(|c| c as u32 > 0xFFFF), "surrogates");
    cx.label_if(n > 300, "large");
    let all: Vec<usize> = if n <= 250 {
        (0..=n).collect()
    } else {
        let k = if n > 5000 { 30 } else { 120 };
        let mut v: Vec<usize> = (0..k).map(|_| src.below(n + 1)).collect();
        v.extend([0, 1, n - 1, n]);
        v
    };
    for p in all {
        cx.evals += 1;
        let real = guarded(|| node.resolve(p).map(|_| ())).map_err(|e| format!("resolve({}) in {:?}: {}", p, d, e))?;
        match (resolve(&d, p), real) {
            (None, Err(_)) => cx.label("refused inside character"),
            (None, Ok(_)) => return Err(format!("resolve({}) succeeded inside a character in {:?}", p, d)),
            (Some(_), Err(e)) => return Err(format!("resolve({}) failed ({}) in {:?}", p, e, d)),
            (Some(m), Ok(_)) => {
                let others: Vec<usize> = (0..4).map(|_| src.below(n + 3)).collect();
                check_resolved::<T>(&node, &d, p, &m, &others)
                    .map_err(|e| format!("position {} of {:?}: {}", p, d, e))?
            }
        }
    }
    for p in [n + 1, n + 2, n + 3, n * 2 + 7, usize::MAX, usize::MAX / 2, 1 << 32] {
        if p > n {
            cx.evals += 1;
            match guarded(|| node.resolve(p).map(|_| ())) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return Err(format!("resolve({}) succeeded beyond the end {} of {:?}", p, n, d)),
                Err(e) => return Err(format!("resolve({}) of {:?}: {}", p, d, e)),
            }
        }
    }
    Ok(())
}

fn check_resolved<T: TS>(node: &T::Node, d: &M, p: usize, m: &Res, others: &[usize]) -> Outcome {
    let rp = node.resolve(p).map_err(|e| e.to_string())?;
    let depth = m.depth();
    // the real ancestors, found by walking down the model's indices
    let mut anc: Vec<&T::Node> = vec![node];
    for l in &m.path[..depth] {
        let k = anc.last().unwrap().content().unwrap().children();
        anc.push(&k[l.index]);
    }
    ensure!(std::ptr::eq(rp.doc(), node), "doc() is not the root");
    ensure!(std::ptr::eq(rp.parent(), anc[depth]), "parent() is {:?}, expected depth {} {:?}", rp.parent(), depth, anc[depth]);
    for (i, l) in m.path.iter().enumerate() {
        ensure!(std::ptr::eq(rp.node(i), anc[i]), "node({}) is {:?}", i, rp.node(i));
        ensure!(rp.index(i) == l.index, "index({}) = {}, expected {}", i, rp.index(i), l.index);
        let after = l.index + (i < depth || m.text_offset > 0) as usize;
        ensure!(rp.index_after(i) == after, "index_after({}) = {}, expected {}", i, rp.index_after(i), after);
        ensure!(rp.start(i) == l.start, "start({}) = {}, expected {}", i, rp.start(i), l.start);
        let end = l.start + l.node.content_size();
        ensure!(rp.end(i) == end, "end({}) = {}, expected {}", i, rp.end(i), end);
        let (b, a) = if i == 0 { (None, None) } else { (Some(l.start - 1), Some(end + 1)) };
        ensure!(rp.before(i) == b, "before({}) = {:?}, expected {:?}", i, rp.before(i), b);
        ensure!(rp.after(i) == a, "after({}) = {:?}, expected {:?}", i, rp.after(i), a);
    }
    ensure!(rp.before(depth + 1) == Some(p) && rp.after(depth + 1) == Some(p), "before/after(depth + 1) is not the position");
    ensure!(rp.text_offset() == m.text_offset, "text_offset {} expected {}", rp.text_offset(), m.text_offset);
    // adjacent nodes
    let l = m.last();
    let kids = l.node.kids();
    let (nb, na) = if m.text_offset > 0 {
        let k = &kids[l.index];
        (Some(cut(std::slice::from_ref(k), 0, m.text_offset)[0].clone()), Some(cut(std::slice::from_ref(k), m.text_offset, k.size())[0].clone()))
    } else {
        (l.index.checked_sub(1).map(|i| kids[i].clone()), kids.get(l.index).cloned())
    };
    let rb = rp.node_before().map(|n| T::to_m(&n));
    let ra = rp.node_after().map(|n| T::to_m(&n));
    ensure!(rb == nb, "node_before {:?}, expected {:?}", rb, nb);
    ensure!(ra == na, "node_after {:?}, expected {:?}", ra, na);
    for o in others {
        ensure!(rp.shared_depth(*o) == m.shared(*o), "shared_depth({}) = {}, expected {}", o, rp.shared_depth(*o), m.shared(*o));
    }
    let _ = d;
    Ok(())
}

// ------------------------------------------------------------------ C02

pub fn check_sizes<T: TS>(n: &T::Node) -> Outcome {
    if let Some(t) = n.text_node() {
        let len = u16len(t.text.as_str());
        ensure!(t.text.len_utf16() == len, "text {:?} reports {} units, has {}", t.text.as_str(), t.text.len_utf16(), len);
        ensure!(n.node_size() == len, "text node size {} expected {}", n.node_size(), len);
        ensure!(n.content_size() == 0 && n.child_count() == 0, "text with content");
        return Ok(());
    }
    match n.content() {
        None => {
            ensure!(n.node_size() == 1, "leaf size {}", n.node_size());
            ensure!(n.content_size() == 0 && n.child_count() == 0 && n.first_child().is_none(), "leaf with content");
        }
        Some(f) => {
            check_frag::<T>(f)?;
            ensure!(n.node_size() == f.size() + 2 && n.content_size() == f.size(), "node size {} content size {}, fragment {}", n.node_size(), n.content_size(), f.size());
            ensure!(n.child_count() == f.child_count(), "child count");
            let same = match (n.first_child(), f.children().first()) {
                (Some(a), Some(b)) => std::ptr::eq(a, b),
                (a, b) => a.is_none() && b.is_none(),
            };
            ensure!(same, "node first_child is not the first child");
            for i in 0..f.child_count() {
                ensure!(n.child(i).map_or(false, |c| std::ptr::eq(c, &f.children()[i])), "child({})", i);
            }
        }
    }
    Ok(())
}

pub fn check_frag<T: TS>(f: &Fragment<T>) -> Outcome {
    let c = f.children();
    for k in c {
        check_sizes::<T>(k)?;
    }
    // counted from scratch, not from the reported child sizes
    let sum = csize(&T::frag_to(f));
    ensure!(f.size() == sum, "fragment reports size {}, its tokens are {}: {:?}", f.size(), sum, T::frag_to(f));
    ensure!(f.child_count() == c.len(), "child_count {} for {} children", f.child_count(), c.len());
    ensure!(f.first_child().map(|x| x as *const T::Node) == c.first().map(|x| x as *const T::Node), "first_child");
    ensure!(f.last_child().map(|x| x as *const T::Node) == c.last().map(|x| x as *const T::Node), "last_child");
    for (i, k) in c.iter().enumerate() {
        ensure!(std::ptr::eq(f.child(i), k), "child({})", i);
        ensure!(f.maybe_child(i).map_or(false, |x| std::ptr::eq(x, k)), "maybe_child({})", i);
    }
    ensure!(f.maybe_child(c.len()).is_none(), "maybe_child beyond the end");
    Ok(())
}

fn c02<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    set_names(T::spec().names);
    let n_ops = src.range(3, 14);
    let mut opts = NORMAL;
    opts.normal = src.chance(2, 3);
    opts.valid = src.chance(3, 4);
    opts.empty_text = src.chance(1, 5);
    let mut g = if is_big() { G::new(src, opts) } else { G::small(src, opts) };
    let top = T::spec().top;
    let first = g.node::<T>(src, top, &MarkRule::All, 0);
    let mut nodes: Vec<T::Node> = vec![T::from_m(&first)];
    let mut frags: Vec<Fragment<T>> = vec![];
    let mut log: Vec<String> = vec![format!("doc {:?}", first)];
    let mut kinds = std::collections::BTreeSet::new();
    let mut ok_ops = 0;
    check_sizes::<T>(&nodes[0]).map_err(|e| format!("built {:?}: {}", first, e))?;
    for _ in 0..n_ops {
        cx.evals += 1;
        let ni = src.below(nodes.len());
        let node = nodes[ni].clone();
        let m = T::to_m(&node);
        if m.size() > if is_big() { 200_000 } else { 3000 } {
            continue;
        }
        let toks = tokens(m.kids());
        let op = src.below(11);
        let mut new_nodes: Vec<T::Node> = vec![];
        let mut new_frags: Vec<Fragment<T>> = vec![];
        let what: String;
        match op {
            0 => {
                let mut g = G::small(src, opts);
                let x = g.node::<T>(src, top, &MarkRule::All, 0);
                what = format!("build {:?}", x);
                new_nodes.push(T::from_m(&x));
            }
            1 => {
                what = format!("json round trip of #{}", ni);
                let s = serde_json::to_string(&node).map_err(|e| e.to_string())?;
                if let Ok(x) = serde_json::from_str::<T::Node>(&s) {
                    new_nodes.push(x);
                }
            }
            2 => {
                let (a, b) = gen_range(src, &toks);
                what = format!("cut #{} content {}..{}", ni, a, b);
                if let Some(c) = node.content() {
                    new_frags.push(c.cut(a..b));
                    new_frags.push(c.cut(..a));
                    new_frags.push(c.cut(b..));
                }
                new_nodes.push(node.cut(a..b).into_owned());
            }
            3 => {
                what = format!("append (fragments {})", frags.len());
                let mut a = node.content().cloned().unwrap_or_default();
                if !frags.is_empty() && src.chance(1, 2) {
                    a = frags[src.below(frags.len())].clone();
                }
                let b = if !frags.is_empty() && src.chance(2, 3) {
                    frags[src.below(frags.len())].clone()
                } else {
                    nodes[src.below(nodes.len())].content().cloned().unwrap_or_default()
                };
                new_frags.push(a.append(b));
            }
            4 => {
                let c = node.content().cloned().unwrap_or_default();
                if c.child_count() == 0 {
                    continue;
                }
                let i = src.below(c.child_count());
                let o = if !frags.is_empty() && src.chance(1, 2) {
                    let f = &frags[src.below(frags.len())];
                    f.children().first().cloned()
                } else {
                    None
                };
                let o = o.unwrap_or_else(|| nodes[src.below(nodes.len())].clone());
                what = format!("replace child {} of #{} by {:?}", i, ni, T::to_m(&o));
                new_frags.push(c.replace_child(i, o).into_owned());
            }
            5 => {
                let (a, b) = gen_range(src, &toks);
                what = format!("slice #{} {}..{}", ni, a, b);
                if let Ok(s) = node.slice(a..b, src.chance(1, 4)) {
                    new_frags.push(s.content);
                }
            }
            6 | 7 => {
                let st = gen_step::<T>(src, &m);
                what = format!("step on #{} {:?}", ni, st);
                if let Ok(Ok(x)) = guarded(|| to_step::<T>(&st).apply(&node)) {
                    new_nodes.push(x);
                }
            }
            8 => {
                // texts
                let t1 = Text::from(G::small(src, opts).text(src));
                let t2 = Text::from(G::small(src, opts).text(src));
                what = format!("join {:?} {:?}", t1, t2);
                let j = t1.join(&t2);
                let tn = TextNode { text: j, marks: MarkSet::default() };
                new_nodes.push(T::Node::from(tn.clone()));
                new_nodes.push(T::Node::from(tn.with_text(t1)));
                new_nodes.push(T::Node::text(t2.as_str().to_string()));
            }
            9 => {
                what = format!("copy of #{} with other content", ni);
                let f = frags.last().cloned().unwrap_or_default();
                new_nodes.push(node.copy(|_| f));
                let ms = T::set_from(&vec![T::gen_mark(src)]);
                new_nodes.push(node.mark(ms));
            }
            _ => {
                what = format!("nodes at a position of #{}", ni);
                let p = gen_pos(src, &toks);
                if let Ok(Ok(rp)) = guarded(|| node.resolve(p)) {
                    new_nodes.extend(rp.node_before().map(|x| x.into_owned()));
                    new_nodes.extend(rp.node_after().map(|x| x.into_owned()));
                }
            }
        }
        log.push(what);
        if !(new_nodes.is_empty() && new_frags.is_empty()) {
            kinds.insert(op);
            ok_ops += 1;
        }
        for x in &new_nodes {
            check_sizes::<T>(x).map_err(|e| format!("{} after {:?}", e, log))?;
            // a size is also what resolving uses
            let sz = T::to_m(x).content_size();
            ensure!(x.content_size() == sz, "content_size {} expected {} after {:?}", x.content_size(), sz, log);
        }
        for f in &new_frags {
            check_frag::<T>(f).map_err(|e| format!("{} after {:?}", e, log))?;
        }
        nodes.extend(new_nodes);
        frags.extend(new_frags);
        if nodes.len() > 12 {
            nodes.drain(1..nodes.len() - 11);
        }
        if frags.len() > 12 {
            frags.drain(..frags.len() - 12);
        }
    }
    cx.nontrivial = ok_ops >= 3 && kinds.len() >= 2 && nodes.iter().any(|n| n.content_size() > 0);
    cx.hash(&log);
    cx.sample(|| log.join(" ; "));
    Ok(())
}

fn c02_import(src: &mut Src, cx: &mut Cx) -> Outcome {
    let text = crate::props::md::any_markdown(src);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    if !crate::props::md::parser_ok(&text) {
        return Ok(());
    }
    if let Ok(Ok(d)) = guarded(|| prosemirror::markdown::from_markdown(&text)) {
        cx.label("imported");
        cx.nontrivial = d.content_size() > 3;
        check_sizes::<MD>(&d).map_err(|e| format!("imported from {:?}: {}", text, e))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C03

fn c03<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    set_names(T::spec().names);
    let d = gen_tree::<T>(src);
    let toks = tokens(d.kids());
    let n = toks.len();
    let f = T::frag_from(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    // cut
    for _ in 0..4 {
        cx.evals += 1;
        let (a, b) = gen_range(src, &toks);
        cx.hash(&(a, b));
        let want = cut(d.kids(), a, b);
        let got = match src.below(3) {
            0 => f.cut(a..b),
            1 if b > 0 => f.cut(a..=b - 1),
            _ => f.cut((Bound::Included(a), Bound::Excluded(b))),
        };
        let got_m = T::frag_to(&got);
        ensure!(got_m == want, "cut {}..{} of {:?} gives {:?}, expected {:?}", a, b, d, got_m, want);
        ensure!(got == T::frag_from(&want), "cut {}..{} of {:?}: fragment not equal to the rebuilt one", a, b, d);
        // tokens kept
        let inner: Vec<Tok> = toks[a..b].iter().filter(|t| matches!(t, Tok::Unit { .. } | Tok::Leaf { .. })).cloned().collect();
        let kept: Vec<Tok> = tokens(&got_m).into_iter().filter(|t| matches!(t, Tok::Unit { .. } | Tok::Leaf { .. })).collect();
        ensure!(a == b || inner == kept, "cut {}..{} of {:?} lost or duplicated content: {:?}", a, b, d, got_m);
        let nd = T::from_m(&d);
        let nc = T::to_m(&nd.cut(a..b));
        ensure!(nc == d.with_kids(want), "node cut {}..{} of {:?} gives {:?}", a, b, d, nc);
        if a > 0 && b < n {
            cx.nontrivial = true;
        }
        // open-ended
        let got = T::frag_to(&f.cut(a..));
        ensure!(got == cut(d.kids(), a, n), "cut {}.. of {:?} gives {:?}", a, d, got);
        let got = T::frag_to(&f.cut(..b));
        ensure!(got == cut(d.kids(), 0, b), "cut ..{} of {:?} gives {:?}", b, d, got);
    }
    // top-level halves
    {
        let mut depth = 0;
        let mut tops: Vec<usize> = vec![];
        for p in 0..=n {
            if depth == 0 && is_pos(&toks, p) {
                tops.push(p);
            }
            match toks.get(p) {
                Some(Tok::Open { .. }) => depth += 1,
                Some(Tok::Close) => depth -= 1,
                _ => {}
            }
        }
        let p = *src.pick(&tops);
        cx.evals += 1;
        let j = f.clone().cut(..p).append(f.cut(p..));
        let jm = T::frag_to(&j);
        if is_normal(d.kids()) {
            ensure!(jm == d.kids() && j == f, "cutting {:?} at {} and joining gives {:?}", d, p, jm);
        } else {
            ensure!(tokens(&jm) == toks, "cutting {:?} at {} and joining gives {:?}", d, p, jm);
        }
    }
    // join
    {
        cx.evals += 1;
        let opts = Opts { normal: src_bool(src), ..NORMAL };
        let mut g = G::small(src, opts);
        let ty = d.ty(T::spec().text);
        let mut other = g.content::<T>(src, ty, 1);
        if src.chance(1, 2) && n > 0 {
            // make a seam between texts likely: two pieces of the same or another document's textblock
            let (a, b) = gen_range(src, &toks);
            other = cut(d.kids(), a, b);
        }
        let (mut l, mut r) = (d.kids().to_vec(), other);
        // descend to a textblock
        if src.chance(2, 3) {
            fn tb(c: &[M]) -> Option<Vec<M>> {
                if c.iter().any(|k| k.is_text()) {
                    return Some(c.to_vec());
                }
                c.iter().rev().find_map(|k| tb(k.kids()))
            }
            if let (Some(a), Some(b)) = (tb(&l), tb(&r)) {
                l = a;
                r = b;
            }
        }
        let mut want = l.clone();
        let mut seam = false;
        for (i, k) in r.iter().enumerate() {
            if i == 0 {
                if let (Some(M::Text { text, marks }), M::Text { text: t2, marks: m2 }) = (want.last_mut(), k) {
                    if marks == m2 {
                        text.push_str(t2);
                        seam = true;
                        continue;
                    }
                }
            }
            want.push(k.clone());
        }
        cx.label_if(seam, "merged seam");
        cx.nontrivial |= seam;
        let got = T::frag_from(&l).append(T::frag_from(&r));
        let gm = T::frag_to(&got);
        ensure!(gm == want, "joining {:?} and {:?} gives {:?}", l, r, gm);
        ensure!(got == T::frag_from(&want), "joining {:?} and {:?}: not equal to the rebuilt fragment", l, r);
    }
    // child replacement
    if !d.kids().is_empty() {
        cx.evals += 1;
        let i = src.below(d.kids().len());
        let mut g = G::small(src, NORMAL);
        let ty = d.kids()[i].ty(T::spec().text);
        let k = if src.chance(1, 6) { d.kids()[i].clone() } else { g.node::<T>(src, ty, &MarkRule::All, 2) };
        let got = f.replace_child(i, T::from_m(&k)).into_owned();
        let mut want = d.kids().to_vec();
        want[i] = k.clone();
        let gm = T::frag_to(&got);
        ensure!(gm == want && got == T::frag_from(&want), "replacing child {} of {:?} by {:?} gives {:?}", i, d, k, gm);
        ensure!(T::frag_to(&f) == d.kids(), "the original changed: {:?}", d);
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d = no_empty::<T>(src);
    let node = T::from_m(&d);
    let toks = tokens(d.kids());
    let n = toks.len();
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    let rounds = if n < 14 { 30 } else { 10 };
    for _ in 0..rounds {
        cx.evals += 1;
        let (a, b) = gen_range(src, &toks);
        let parents = src.chance(1, 3);
        let how = src.below(6);
        let (a, b, got) = match how {
            0 => (a, n, node.slice(a.., parents)),
            1 => (0, b, node.slice(..b, parents)),
            2 => (0, n, node.slice(.., parents)),
            3 if b > 0 => (a, b, node.slice(a..=b - 1, parents)),
            4 if a > 0 => (a, b, node.slice((Bound::Excluded(a - 1), Bound::Excluded(b)), parents)),
            _ => (a, b, node.slice(a..b, parents)),
        };
        let what = format!("slice {}..{} (form {}, parents {}) of {:?}", a, b, how, parents, d);
        let got = got.map_err(|e| format!("{} failed: {}", what, e))?;
        let want = slice(&d, a, b, parents).unwrap();
        let gm = T::slice_to(&got);
        ensure!(gm == want, "{} gives {:?}, expected {:?}", what, gm, want);
        ensure!(got == T::slice_from(&want), "{}: not equal to the rebuilt slice", what);
        // independent statement on tokens: dropping the open tokens leaves the range
        if a < b {
            let t = tokens(&gm.content);
            ensure!(gm.os + gm.oe <= t.len(), "{}: open depths exceed the content", what);
            ensure!(t[gm.os..t.len() - gm.oe] == toks[a..b], "{}: tokens are not those of the range", what);
            ensure!(
                t[..gm.os].iter().all(|x| matches!(x, Tok::Open { .. })) && t[t.len() - gm.oe..].iter().all(|x| matches!(x, Tok::Close)),
                "{}: open depth over content",
                what
            );
            if !parents {
                // smallest: not both sides open in one single node
                ensure!(
                    !(gm.content.len() == 1 && gm.os > 0 && gm.oe > 0),
                    "{}: not the smallest enclosing content",
                    what
                );
            }
        }
        if gm.os + gm.oe > 0 {
            cx.nontrivial = true;
            cx.label_if(gm.os > 0 && gm.oe > 0, "open on both sides");
            cx.label_if(gm.os > 3 || gm.oe > 3, "deeply open");
        }
        cx.hash(&(a, b, parents));
    }
    // outside
    for p in [n + 1, n + 2, n + 3, 1 << 32, usize::MAX - 1, usize::MAX] {
        cx.evals += 1;
        if p <= n {
            continue;
        }
        let a = gen_pos(src, &toks);
        let parents = src.chance(1, 3);
        let (from, to) = match src.below(8) {
            0 => (Bound::Included(p), Bound::Unbounded),
            1 => (Bound::Included(p), Bound::Excluded(a)),
            2 => (Bound::Unbounded, Bound::Excluded(p)),
            3 => (Bound::Included(a), Bound::Included(p)),
            4 => (Bound::Unbounded, Bound::Included(p)),
            5 => (Bound::Excluded(p), Bound::Unbounded),
            6 => (Bound::Included(p), Bound::Included(p)),
            _ => (Bound::Included(a), Bound::Excluded(p)),
        };
        // an empty range asks for no position
        if (from, to) == (Bound::Included(p), Bound::Included(p)) && p == usize::MAX {
            continue;
        }
        let what = || format!("slice ({:?}, {:?}) beyond the end of {:?}", from, to, d);
        match guarded(|| node.slice((from, to), parents).map(|s| T::slice_to(&s))) {
            Ok(Err(_)) => {}
            Ok(Ok(s)) => return Err(format!("{} gives {:?}", what(), s)),
            Err(e) => return Err(format!("{}: {}", what(), e)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

fn c18<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d = no_empty::<T>(src);
    let f = T::frag_from(d.kids());
    let toks = tokens(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    // whole text
    let node = T::from_m(&d);
    let tc = node.text_content();
    ensure!(tc == d.all_text(), "text_content {:?} of {:?}", tc, d);
    for k in d.kids().iter().take(4) {
        let n = T::from_m(k);
        ensure!(n.text_content() == k.all_text(), "text_content {:?} of {:?}", n.text_content(), k);
    }
    for _ in 0..4 {
        cx.evals += 1;
        let (a, b) = gen_range(src, &toks);
        cx.hash(&(a, b));
        // traversal
        let decide = src.u64();
        let prune = src.chance(1, 3);
        let base = if src.chance(1, 4) { src.below(100) } else { 0 };
        let dec = |i: usize| !prune || (decide >> (i % 64)) & 3 != 0;
        let mut want: Vec<(usize, M)> = vec![];
        fn walk(c: &[M], start: usize, a: usize, b: usize, out: &mut Vec<(usize, M)>, dec: &dyn Fn(usize) -> bool) {
            let mut p = start;
            for k in c {
                let e = p + k.size();
                if p < b && e > a {
                    let i = out.len();
                    out.push((p, k.clone()));
                    if dec(i) {
                        walk(k.kids(), p + 1, a, b, out, dec);
                    }
                }
                p = e;
            }
        }
        walk(d.kids(), 0, a, b, &mut want, &dec);
        let mut got: Vec<(usize, M)> = vec![];
        let r = guarded(|| {
            f.nodes_between(
                a,
                b,
                &mut |n, p| {
                    let i = got.len();
                    got.push((p, T::to_m(n)));
                    dec(i)
                },
                base,
            )
        });
        if let Err(e) = r {
            return Err(format!("nodes_between {}..{} of {:?}: {}", a, b, d, e));
        }
        for g in &mut got {
            g.0 = g.0.wrapping_sub(base);
        }
        // an ancestor whose overlap with the range is only a closing or opening token may or may not
        // be entered; that does not matter, as its children do not overlap
        ensure!(got == want, "nodes_between {}..{} of {:?} visits {:?}, expected {:?}", a, b, d, got, want);
        cx.label_if(prune, "pruned");
        // text
        let sep = match src.below(4) {
            0 => None,
            1 => Some("\u{1F}"),
            2 => Some("\u{1F}\u{1E}"),
            _ => Some(""),
        };
        let leaf = match src.below(3) {
            0 => None,
            1 => Some("\u{1D}"),
            _ => Some(""),
        };
        let pre = src.chance(1, 5);
        let mut got = String::from(if pre { "pre" } else { "" });
        let r = guarded(|| f.text_between(&mut got, true, a, b, sep, leaf));
        if let Err(e) = r {
            return Err(format!("text_between {}..{} of {:?}: {}", a, b, d, e));
        }
        let got = match got.strip_prefix(if pre { "pre" } else { "" }) {
            Some(g) => g.to_string(),
            None => return Err(format!("text_between {}..{} of {:?} changed the given text to {:?}", a, b, d, got)),
        };
        // expected pieces: (textblock id, piece)
        let mut pieces: Vec<(usize, String)> = vec![];
        let mut block_leaf = false;
        fn texts(c: &[M], start: usize, block: usize, a: usize, b: usize, sp: &Spec, leaf: Option<&str>, out: &mut Vec<(usize, String)>, bl: &mut bool) {
            let mut p = start;
            for k in c {
                let e = p + k.size();
                if p < b && e > a {
                    match k {
                        M::Text { text, .. } => {
                            let mut q = p;
                            let mut s = String::new();
                            for ch in text.chars() {
                                if q >= a && q < b {
                                    s.push(ch);
                                }
                                q += ch.len_utf16();
                            }
                            out.push((block, s));
                        }
                        M::Node { ty, children: None, .. } => {
                            if let Some(l) = leaf {
                                out.push((if sp.types[*ty].inline { block } else { p + 1 }, l.to_string()));
                            }
                            if !sp.types[*ty].inline {
                                *bl = true;
                            } else if leaf.is_none() {
                                // contributes no text
                                out.push((block, String::new()));
                            }
                        }
                        M::Node { ty, .. } => {
                            let nb = if sp.types[*ty].inline { block } else { p + 1 };
                            texts(k.kids(), p + 1, nb, a, b, sp, leaf, out, bl);
                        }
                    }
                }
                p = e;
            }
        }
        texts(d.kids(), 0, 0, a, b, sp, leaf, &mut pieces, &mut block_leaf);
        let joined: String = pieces.iter().map(|p| p.1.as_str()).collect();
        let s = sep.unwrap_or("");
        let stripped = if s.is_empty() { got.clone() } else { got.replace(s, "") };
        let what = format!("text_between {}..{} sep {:?} leaf {:?} of {:?}", a, b, sep, leaf, d);
        ensure!(stripped == joined, "{} gives {:?}, expected the text {:?}", what, got, joined);
        let no_blocks_inside_inline = sp.valid(&d);
        if !s.is_empty() && !block_leaf && no_blocks_inside_inline {
            cx.label("separators compared");
            let mut want = String::new();
            let mut last: Option<usize> = None;
            for (blk, t) in &pieces {
                if let Some(l) = last {
                    if l != *blk {
                        want.push_str(s);
                    }
                }
                want.push_str(t);
                last = Some(*blk);
            }
            // every block touched contributes text: exactly one separator between two blocks
            fn full(c: &[M], start: usize, a: usize, b: usize, sp: &Spec, leaf: bool) -> bool {
                let mut p = start;
                let mut ok = true;
                for k in c {
                    let e = p + k.size();
                    if p < b && e > a && k.has_content() && !sp.types[k.ty(sp.text)].inline {
                        ok &= has(k.kids(), p + 1, a, b, leaf) && full(k.kids(), p + 1, a, b, sp, leaf);
                    }
                    p = e;
                }
                ok
            }
            fn has(c: &[M], start: usize, a: usize, b: usize, leaf: bool) -> bool {
                let mut p = start;
                let mut any = false;
                for k in c {
                    let e = p + k.size();
                    if p < b && e > a {
                        // the part of a text in the range is not empty when they overlap
                        any |= match k {
                            M::Text { .. } => a < b,
                            _ if k.is_leaf() => leaf,
                            _ => has(k.kids(), p + 1, a, b, leaf),
                        };
                    }
                    p = e;
                }
                any
            }
            if full(d.kids(), 0, a, b, sp, leaf.map_or(false, |l| !l.is_empty())) {
                cx.label("separators exact");
                ensure!(got == want, "{} gives {:?}, expected {:?}", what, got, want);
            } else {
                // blocks without text may or may not count as blocks of their own
                let trim = |x: &str| {
                    let mut x = x.to_string();
                    let ss = format!("{}{}", s, s);
                    while x.contains(&ss) {
                        x = x.replace(&ss, s);
                    }
                    let y = x.strip_prefix(s).unwrap_or(&x);
                    y.strip_suffix(s).unwrap_or(y).to_string()
                };
                ensure!(trim(&got) == trim(&want), "{} gives {:?}, expected {:?}", what, got, want);
            }
        }
        let deep_text = toks[a..b].iter().any(|t| matches!(t, Tok::Unit { .. })) && d.depth() >= 3;
        cx.nontrivial |= deep_text;
    }
    Ok(())
}
