//! C19 content expressions
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use prosemirror::markdown::*;
use prosemirror::model::*;

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C19",
        rule: "enumerated: every Markdown node type with every child-type sequence up to length 4 (match, completeness, validity, compatibility of all pairs). Generated: a node with valid or arbitrary children and marks, replaced child ranges; non-trivial: the generated content is a non-empty viable prefix, or the replacement changes validity",
        assumptions: &["can_replace: from <= to <= child count, existing children carry only allowed marks"],
        subs: &[
            Sub { name: "md", f: c19, quick: 150000 },
            Sub { name: "big", f: |s, c| big(50, s, c, c19, c19), quick: 200 },
        ],
        fixed: Some(exhaustive),
    }]
}

/// the simplest node of a type
fn simple(ty: Ty) -> M {
    match ty {
        md::TEXT => M::text("a", &[]),
        _ => {
            let attrs = MD::gen_attrs(&mut Src::replay(vec![]), ty);
            let leaf = MD::spec().types[ty].leaf;
            M::Node { ty, attrs, marks: vec![], children: if leaf { None } else { Some(vec![]) } }
        }
    }
}

fn exhaustive() -> Result<u64, String> {
    let sp = MD::spec();
    set_names(sp.names);
    let nt = sp.types.len();
    let nodes: Vec<MarkdownNode> = (0..nt).map(|t| MD::from_m(&simple(t))).collect();
    let mut n = 0;
    for a in 0..nt {
        ensure!(MD::nt_ix(nodes[a].r#type()) == a, "type of {:?}", nodes[a]);
        let real = MD::nt(a);
        ensure!(real.is_inline() == sp.types[a].inline, "is_inline of {:?}", real);
        for b in 0..nt {
            n += 1;
            let c = real.compatible_content(MD::nt(b));
            ensure!(
                c == sp.compatible(a, b),
                "compatible_content({:?}, {:?}) is {}, expected {}",
                real,
                MD::nt(b),
                c,
                sp.compatible(a, b)
            );
        }
        let mut seq: Vec<Ty> = vec![];
        go(sp, &nodes, a, Some(real.content_match()), &mut seq, &mut n)?;
    }
    // validity in the Rust API's own types, with marks
    for a in 0..nt {
        for k in 0..4usize {
            let m = match k {
                0 => MMark { ty: 0, attrs: vec![] },
                1 => MMark { ty: 1, attrs: vec![] },
                2 => MMark { ty: 2, attrs: vec![] },
                _ => MMark { ty: 3, attrs: vec!["u".into(), "".into()] },
            };
            n += 1;
            let textblock_or_inline = !matches!(sp.types[a].marks, MarkRule::None);
            let rm = MD::mark_from(&m);
            let allowed = MD::nt(a).allows_mark_type(rm.r#type());
            ensure!(allowed == textblock_or_inline, "{:?} allows_mark_type({:?}) is {}", MD::nt(a), rm, allowed);
            let set = rm.into_set();
            ensure!(
                MD::nt(a).allow_marks(&set) == textblock_or_inline,
                "{:?} allow_marks({:?}) is {}",
                MD::nt(a),
                set,
                !textblock_or_inline
            );
        }
        ensure!(MD::nt(a).allow_marks(&MarkSet::default()), "{:?} does not allow the empty mark set", MD::nt(a));
    }
    Ok(n)
}

fn go(
    sp: &Spec,
    nodes: &[MarkdownNode],
    a: Ty,
    m: Option<MarkdownContentMatch>,
    seq: &mut Vec<Ty>,
    n: &mut u64,
) -> Result<(), String> {
    *n += 1;
    let re = &sp.types[a].content;
    let viable = re.viable(seq);
    let complete = re.matches(seq);
    let what = || format!("{:?} with children {:?}", MD::nt(a), seq.iter().map(|t| MD::nt(*t)).collect::<Vec<_>>());
    ensure!(m.is_some() == viable, "{}: type by type match {}, expected {}", what(), m.is_some(), viable);
    if let Some(m) = m {
        ensure!(m.valid_end() == complete, "{}: valid_end {}, expected {}", what(), m.valid_end(), complete);
    }
    if seq.len() <= 3 || viable {
        let f = Fragment::<MD>::from(seq.iter().map(|t| nodes[*t].clone()).collect::<Vec<_>>());
        let mf = MD::nt(a).content_match().match_fragment(&f);
        ensure!(mf.is_some() == viable, "{}: match_fragment {}, expected {}", what(), mf.is_some(), viable);
        if let Some(x) = mf {
            ensure!(x.valid_end() == complete, "{}: match_fragment then valid_end", what());
        }
        let v = MD::nt(a).valid_content(&f);
        ensure!(v == complete, "{}: valid_content {}, expected {}", what(), v, complete);
    }
    if seq.len() < 4 {
        for t in 0..nodes.len() {
            seq.push(t);
            // once not viable, longer sequences are not either; check one level beyond
            let nx = match m {
                Some(m) => m.match_type(MD::nt(t)),
                None => None,
            };
            if m.is_some() {
                go(sp, nodes, a, nx, seq, n)?;
            }
            seq.pop();
        }
    }
    Ok(())
}

fn c19(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = MD::spec();
    set_names(sp.names);
    let conts: Vec<Ty> = (0..sp.types.len()).filter(|t| !sp.types[*t].leaf).collect();
    let ty = *src.pick(&conts);
    let kids = |src: &mut Src, n: usize| -> Vec<M> {
        let mut v: Vec<M> = vec![];
        for i in 0..n {
            if is_big() && i >= 2 && !src.chance(1, 2 * n) {
                // mostly the same types, so that long sequences can match
                let j = if i % 2 == 0 || src.chance(1, 20) { 1 } else { i - 1 };
                let m = v[j].clone();
                v.push(m);
                continue;
            }
            let t = if src.chance(7, 10) {
                // a type that occurs in the expression
                let mut ts = vec![];
                fn all(r: &Re, out: &mut Vec<Ty>) {
                    match r {
                        Re::T(t) => out.extend(t.iter().copied()),
                        Re::Seq(rs) => rs.iter().for_each(|r| all(r, out)),
                        Re::Star(r) | Re::Plus(r) | Re::Opt(r) => all(r, out),
                    }
                }
                all(&sp.types[ty].content, &mut ts);
                *src.pick(&ts)
            } else {
                src.below(sp.types.len())
            };
            let mut m = simple(t);
            if let M::Text { marks, .. } = &mut m {
                let k = src.weighted(&[60, 30, 10]);
                for _ in 0..k {
                    *marks = add_mark(marks, &MD::gen_mark(src));
                }
            }
            v.push(m);
        }
        v
    };
    let n = if is_big() { big_len(src, 700) } else { src.len(9) };
    let c = kids(src, n);
    let tys: Vec<Ty> = c.iter().map(|k| k.ty(sp.text)).collect();
    let node = MD::from_m(&M::Node { ty, attrs: MD::gen_attrs(src, ty), marks: vec![], children: Some(c.clone()) });
    let f = MD::frag_from(&c);
    cx.hash(&(ty, &c));
    cx.sample(|| format!("{:?} with {:?}", MD::nt(ty), c));
    cx.nontrivial = n > 0 && sp.types[ty].content.viable(&tys);
    let what = || format!("{:?} with {:?}", MD::nt(ty), c);
    // valid content
    let v = MD::nt(ty).valid_content(&f);
    ensure!(v == sp.content_ok(ty, &c), "{}: valid_content is {}", what(), v);
    cx.label(if v { "valid" } else { "invalid" });
    cx.label_if(!v && sp.re_match(ty, &tys), "invalid only because of marks");
    // sub-ranges, from any state
    for _ in 0..3 {
        cx.evals += 1;
        let (a, b) = {
            let x = src.below(n + 1);
            let y = src.below(n + 1);
            (x.min(y), x.max(y))
        };
        let m0 = MD::nt(ty).content_match();
        let got = match src.below(3) {
            0 => m0.match_fragment_range(&f, a..b),
            1 => m0.match_fragment_range(&f, ..b).and(m0.match_fragment_range(&f, a..b)),
            _ => m0.match_fragment_range(&f, a..b),
        };
        let via_prefix = got.is_some();
        let want = sp.types[ty].content.viable(&tys[a..b]);
        if sp.types[ty].content.viable(&tys[..b]) {
            ensure!(via_prefix == want, "{}: match_fragment_range {}..{} is {}, expected {}", what(), a, b, via_prefix, want);
        }
        let got = m0.match_fragment_range(&f, a..b);
        ensure!(got.is_some() == want, "{}: match_fragment_range {}..{} is {}, expected {}", what(), a, b, got.is_some(), want);
        if let Some(g) = got {
            ensure!(g.valid_end() == sp.types[ty].content.matches(&tys[a..b]), "{}: valid end of {}..{}", what(), a, b);
            // continue from there
            let got2 = g.match_fragment_range(&f, b..);
            let mut xs = tys[a..b].to_vec();
            xs.extend(&tys[b..]);
            ensure!(got2.is_some() == sp.types[ty].content.viable(&xs), "{}: continuing after {}..{}", what(), a, b);
        }
        let cm = node.content_match_at(b);
        let want = sp.types[ty].content.viable(&tys[..b]);
        ensure!(cm.is_ok() == want, "{}: content_match_at({}) is {}", what(), b, cm.is_ok());
        if let Ok(m) = cm {
            for t in 0..sp.types.len() {
                let mut xs = tys[..b].to_vec();
                xs.push(t);
                ensure!(
                    m.match_type(MD::nt(t)).is_some() == sp.types[ty].content.viable(&xs),
                    "{}: {:?} at {}",
                    what(),
                    MD::nt(t),
                    b
                );
            }
        }
        // can_replace
        if c.iter().all(|k| sp.allows(ty, k.marks())) {
            cx.evals += 1;
            let k = if is_big() { big_len(src, 300) } else { src.len(4) };
            let r = kids(src, k);
            let rf = MD::frag_from(&r);
            let (s, e) = {
                let x = src.below(k + 1);
                let y = src.below(k + 1);
                (x.min(y), x.max(y))
            };
            let form = src.below(4);
            let (used, got): (&[M], _) = match form {
                0 => (&r, node.can_replace(a, b, Some(&rf), ..)),
                1 => (&r[s..e], node.can_replace(a, b, Some(&rf), s..e)),
                2 => (&r[s..], node.can_replace(a, b, Some(&rf), s..)),
                _ => (&[], node.can_replace(a, b, None, ..)),
            };
            let mut new = c[..a].to_vec();
            new.extend(used.iter().cloned());
            new.extend(c[b..].iter().cloned());
            let want = sp.content_ok(ty, &new);
            let got = matches!(got, Ok(true));
            ensure!(got == want, "{}: can_replace {}..{} by {:?} is {}, expected {}", what(), a, b, used, got, want);
            cx.label(if want { "can replace" } else { "cannot replace" });
            cx.nontrivial |= want != v;
        }
    }
    Ok(())
}
#[allow(unused)]
fn _g(src: &mut Src) -> G {
    G::new(src, NORMAL)
}
