//! C05 replace, C06 validity of histories, C07 undo, C11 structure flag, C12 replace-around,
//! C16 normal form, C17 convergence
use std::ops::Bound;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::MD;
use prosemirror::model::*;
use prosemirror::transform::*;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "a schema-valid document, several ranges, and slices cut from it or other documents, built to line up with both ends, closed, empty or malformed; accept/refuse and the result are compared with token splicing; non-trivial: some replacement succeeded with a slice or range open on a side, distinct by document and slices",
            assumptions: &["slices have no empty texts and their closed nodes are schema-valid, open depths of malformed slices are arbitrary"],
            subs: &[
                Sub { name: "md", f: c05::<MD>, quick: 30000 },
                Sub { name: "x", f: c05::<X>, quick: 30000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c05::<MD>, c05::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C06",
            rule: "a schema-valid document and a history of up to 12 generated steps of all four kinds, each applied to the last document; every produced document is checked against the content expressions and mark rules; non-trivial: at least 2 steps were accepted and 1 refused or 4 accepted",
            assumptions: &["closed slice nodes are schema-valid (for replace-around possibly only once the gap is in place)"],
            subs: &[
                Sub { name: "md", f: c06::<MD>, quick: 16000 },
                Sub { name: "x", f: c06::<X>, quick: 16000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c06::<MD>, c06::<X>), quick:  80 },
            ],
            fixed: None,
        },
        Property {
            id: "C07",
            rule: "a valid document in normal form, a replacement accepted by it, inverted with the slice cut out beforehand; and histories of replace steps undone in reverse; non-trivial: the replacement deleted or inserted structure",
            assumptions: &["documents and slices in normal form without empty texts"],
            subs: &[
                Sub { name: "md", f: c07::<MD>, quick: 16000 },
                Sub { name: "x", f: c07::<X>, quick: 16000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c07::<MD>, c07::<X>), quick: 200 },
            ],
            fixed: None,
        },
        Property {
            id: "C11",
            rule: "a valid document and replace / replace-around steps applied with and without the structure flag, over arbitrary and purely structural ranges; non-trivial: a structural range of at least one token, or a refusal that only the flag causes",
            assumptions: &["replace-around steps with from <= gapFrom <= gapTo <= to"],
            subs: &[
                Sub { name: "md", f: c11::<MD>, quick: 25000 },
                Sub { name: "x", f: c11::<X>, quick: 25000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c11::<MD>, c11::<X>), quick: 200 },
            ],
            fixed: None,
        },
        Property {
            id: "C12",
            rule: "a valid document and replace-around steps (wrapping in valid and invalid wrappers, unwrapping, changing wrappers, with siblings of the gap, arbitrary), compared with token splicing; non-trivial: a step succeeded with a non-empty gap and changed the document",
            assumptions: &["from <= gapFrom <= gapTo <= to; closed slice nodes valid, once the gap is in place"],
            subs: &[
                Sub { name: "md", f: c12::<MD>, quick: 16000 },
                Sub { name: "x", f: c12::<X>, quick: 16000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c12::<MD>, c12::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C16",
            rule: "a valid normal-form document and a history of up to 12 steps with normal-form slices; every produced document must be in normal form and equal to its rebuilt self; non-trivial: an accepted step whose result merged texts (fewer text nodes than splicing would leave)",
            assumptions: &["start documents and slices in normal form"],
            subs: &[
                Sub { name: "md", f: c16::<MD>, quick: 16000 },
                Sub { name: "x", f: c16::<X>, quick: 16000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c16::<MD>, c16::<X>), quick:  80 },
            ],
            fixed: None,
        },
        Property {
            id: "C17",
            rule: "a start document and a history of up to 10 steps applied by four replicas: directly, with steps through JSON text, with documents through JSON after every step, and one joining from a serialised snapshot; non-trivial: at least 2 steps accepted",
            assumptions: &[],
            subs: &[
                Sub { name: "md", f: c17::<MD>, quick: 10000 },
                Sub { name: "x", f: c17::<X>, quick: 6000 },
                Sub { name: "big", f: |s, c| big(34, s, c, c17::<MD>, c17::<X>), quick:  60 },
            ],
            fixed: None,
        },
    ]
}

/// Apply a real step; panics become errors of the check
pub fn real<T: TS>(step: &Step<T>, doc: &T::Node) -> Result<Result<T::Node, String>, String> {
    guarded(|| step.apply(doc).map_err(|e| e.to_string()))
}

// ------------------------------------------------------------------ C05

fn malform<T: TS>(src: &mut Src, s: &MSlice) -> MSlice {
    let mut s = s.clone();
    match src.below(4) {
        0 => s.os += 1 + src.below(3),
        1 => s.oe += 1 + src.below(3),
        2 => {
            let k = 1 + src.below(3);
            s.os += k;
            s.oe += k;
        }
        _ => {
            s.content.clear();
            s.os = src.below(3);
            s.oe = src.below(3);
        }
    }
    s
}

fn c05<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d = gen_doc::<T>(src, NORMAL);
    let node = T::from_m(&d);
    let toks = tokens(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    for _ in 0..6 {
        cx.evals += 1;
        let (mut a, mut b) = gen_replace_range(src, &toks);
        let mut s = gen_slice::<T>(src, &d, a, b);
        if src.chance(1, 10) {
            s = malform::<T>(src, &s);
        }
        if !s.well_formed() {
            cx.label("malformed slice");
        } else if !closed_valid(sp, &s) {
            // a slice cut with parents included can have closed nodes that are incomplete
            continue;
        }
        match src.below(40) {
            0 => std::mem::swap(&mut a, &mut b),
            1 => b = toks.len() + 1 + src.below(3),
            2 => a = toks.len() + 1,
            4 => b = *src.pick(&[1 << 16, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX]).max(&(toks.len() + 1)),
            3 => {
                // inside of a character
                if let Some(p) = (0..toks.len()).find(|p| !is_pos(&toks, *p)) {
                    if src_bool(src) {
                        a = p.min(b);
                    } else {
                        b = p.max(a);
                    }
                }
            }
            _ => {}
        }
        cx.hash(&(a, b, &s));
        let what = || format!("replacing {}..{} of {:?} by {:?}", a, b, d, s);
        let want = replace(sp, &d, a, b, &s);
        let rs = T::slice_from(&s);
        let got = guarded(|| {
            if src.chance(1, 8) && b == toks.len() {
                node.replace(a.., &rs)
            } else if src.chance(1, 8) && b > a {
                node.replace(a..=b - 1, &rs)
            } else if src.chance(1, 8) && a > 0 {
                node.replace((Bound::Excluded(a - 1), Bound::Excluded(b)), &rs)
            } else if b == usize::MAX {
                // an end beyond every position, however it is written
                node.replace(a..=b, &rs)
            } else {
                node.replace(a..b, &rs)
            }
        })
        .map_err(|e| format!("{}: {}", what(), e))?;
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                let gm = T::to_m(g);
                let tg = tokens(gm.kids());
                let tw = tokens(w.kids());
                ensure!(
                    tg == tw && gm.with_kids(vec![]) == w.with_kids(vec![]),
                    "{} gives {:?}, expected {:?}",
                    what(),
                    gm,
                    w
                );
                cx.label("accepted");
                if s.os + s.oe > 0 {
                    cx.label("accepted open slice");
                    cx.nontrivial = true;
                } else if toks[a..b].iter().any(|t| matches!(t, Tok::Open { .. } | Tok::Close)) {
                    cx.label("accepted across nodes");
                    cx.nontrivial = true;
                }
                cx.label_if(s.os > 0 && s.oe > 0, "accepted, both sides open");
                cx.label_if(s.os > 2 || s.oe > 2, "accepted, deeply open");
            }
            (Err(r), Err(_)) => cx.label(match r {
                Refuse::Position => "refused: position",
                Refuse::MalformedSlice => "refused: malformed",
                Refuse::Depth => "refused: depths",
                Refuse::Join(..) => "refused: join",
                Refuse::Invalid => "refused: invalid",
                _ => "refused: other",
            }),
            (Ok(w), Err(e)) => return Err(format!("{} is refused ({}), expected {:?}", what(), e, w)),
            (Err(r), Ok(g)) => {
                return Err(format!("{} succeeds with {:?}, expected a refusal: {:?}", what(), T::to_m(g), r))
            }
        }
        ensure!(T::to_m(&node) == d, "{} changed the document itself", what());
        // a replace step over the range is that replacement, whatever the range and the slice
        if src.chance(1, 3) {
            let step = Step::<T>::Replace(ReplaceStep { span: Span { from: a, to: b }, slice: T::slice_from(&s), structure: false });
            let by_step = match (&step, src_bool(src)) {
                (Step::Replace(r), true) => guarded(|| r.apply(&node).map_err(|e| e.to_string())),
                _ => real::<T>(&step, &node),
            }
            .map_err(|e| format!("a step {}: {}", what(), e))?;
            match (&got, by_step) {
                (Ok(g), Ok(h)) => ensure!(T::to_m(g) == T::to_m(&h), "{} gives {:?} as a step, {:?} directly", what(), T::to_m(&h), T::to_m(g)),
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return Err(format!("{} is refused as a step ({}) but not directly", what(), e)),
                (Err(e), Ok(h)) => return Err(format!("{} is refused ({}), but not as a step, which gives {:?}", what(), e, T::to_m(&h))),
            }
            cx.label("also applied as a step");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d0 = gen_doc::<T>(src, NORMAL);
    let mut doc = T::from_m(&d0);
    let mut d = d0.clone();
    let n = src.range(1, 12);
    let mut acc = 0;
    let mut refu = 0;
    let mut log = vec![];
    for _ in 0..n {
        if d.size() > if is_big() { 200_000 } else { 1500 } {
            break;
        }
        let st = match src.weighted(&[70, 15, 15]) {
            0 => gen_step::<T>(src, &d),
            1 => gen_around::<T>(src, &d),
            _ => misfit::<T>(src, &d),
        };
        if !step_closed_valid(sp, &d, &st) {
            continue;
        }
        cx.evals += 1;
        let step = to_step::<T>(&st);
        log.push(st.clone());
        let r = real::<T>(&step, &doc).map_err(|e| format!("{:?} on {:?}: {}", st, d, e))?;
        ensure!(T::to_m(&doc) == d, "{:?} changed the document it was applied to, {:?}", st, d);
        match r {
            Ok(nd) => {
                let m = T::to_m(&nd);
                if !sp.valid(&m) {
                    return Err(format!("{:?} on valid {:?} gives invalid {:?} (history {:?} from {:?})", st, d, m, log, d0));
                }
                acc += 1;
                cx.label(match kind(&st) {
                    "replace" => "accepted replace",
                    "replaceAround" => "accepted replaceAround",
                    "addMark" => "accepted addMark",
                    _ => "accepted removeMark",
                });
                doc = nd;
                d = m;
            }
            Err(_) => {
                refu += 1;
                cx.label(match kind(&st) {
                    "replace" => "refused replace",
                    "replaceAround" => "refused replaceAround",
                    _ => "refused mark step",
                });
            }
        }
    }
    cx.nontrivial = (acc >= 2 && refu >= 1) || acc >= 4;
    cx.hash(&d0);
    cx.hash(&log);
    cx.sample(|| format!("{:?} -- {:?}", d0, log));
    Ok(())
}

/// A replacement that is likely not to fit: content of one node type put into another
fn misfit<T: TS>(src: &mut Src, d: &M) -> MStep {
    let sp = T::spec();
    let t = tokens(d.kids());
    let (a, b) = if src_bool(src) { gen_node_range(src, &t) } else { gen_range(src, &t) };
    let xs: Vec<Ty> = (0..sp.types.len()).filter(|x| *x != sp.top).collect();
    let ty = *src.pick(&xs);
    let mut g = G::small(src, NORMAL);
    // marks as the node type itself would allow them anywhere
    let n = g.node::<T>(src, ty, &MarkRule::All, 3);
    let mut slice = MSlice { content: vec![n], os: 0, oe: 0 };
    if src.chance(1, 3) {
        // just the inner content
        let k = slice.content[0].kids().to_vec();
        if !k.is_empty() {
            slice.content = k;
        }
    }
    MStep::Replace { a, b, slice, structure: src.chance(1, 10) }
}

// ------------------------------------------------------------------ C07

fn c07<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d0 = gen_doc::<T>(src, NORMAL);
    let doc0 = T::from_m(&d0);
    cx.hash(&d0);
    cx.sample(|| format!("{:?}", d0));
    let toks = tokens(d0.kids());
    // own slice
    for _ in 0..4 {
        cx.evals += 1;
        let (a, b) = gen_replace_range(src, &toks);
        let s = doc0.slice(a..b, false).map_err(|e| format!("slice {}..{} of {:?}: {}", a, b, d0, e))?;
        let r = guarded(|| doc0.replace(a..b, &s)).map_err(|e| format!("own slice {}..{} of {:?}: {}", a, b, d0, e))?;
        match r {
            Ok(x) => ensure!(
                x == doc0 && T::to_m(&x) == d0,
                "replacing {}..{} of {:?} by its own slice gives {:?}",
                a,
                b,
                d0,
                T::to_m(&x)
            ),
            Err(e) => return Err(format!("replacing {}..{} of {:?} by its own slice is refused: {}", a, b, d0, e)),
        }
    }
    // a history, undone
    let n = src.range(1, 6);
    let mut doc = doc0.clone();
    let mut undo: Vec<(usize, usize, Slice<T>, M)> = vec![];
    let mut log = vec![];
    for _ in 0..n {
        let d = T::to_m(&doc);
        if d.size() > if is_big() { 200_000 } else { 1500 } {
            break;
        }
        let toks = tokens(d.kids());
        let (a, b) = gen_replace_range(src, &toks);
        let s = gen_slice::<T>(src, &d, a, b);
        if !s.well_formed() || !closed_valid(sp, &s) || !is_normal(&s.content) {
            continue;
        }
        cx.hash(&(a, b, &s));
        let old = doc.slice(a..b, false).map_err(|e| e.to_string())?;
        let rs = T::slice_from(&s);
        let r = guarded(|| doc.replace(a..b, &rs)).map_err(|e| format!("replacing {}..{} of {:?} by {:?}: {}", a, b, d, s, e))?;
        if let Ok(nd) = r {
            cx.evals += 1;
            let what = || format!("replacing {}..{} of {:?} by {:?} gives {:?}; undoing that", a, b, d, s, T::to_m(&nd));
            let end = a + s.size();
            ensure!(
                T::to_m(&nd).content_size() + (b - a) == d.content_size() + s.size(),
                "{}: sizes do not add up",
                what()
            );
            let u = guarded(|| nd.replace(a..end, &old)).map_err(|e| format!("{}: {}", what(), e))?;
            match u {
                Err(e) => return Err(format!("{} is refused: {}", what(), e)),
                Ok(x) => ensure!(x == doc && T::to_m(&x) == d, "{} gives {:?}", what(), T::to_m(&x)),
            }
            if s.os + s.oe > 0 || toks[a..b].iter().any(|t| !matches!(t, Tok::Unit { .. })) {
                cx.nontrivial = true;
            }
            cx.label_if(s.os + s.oe > 0, "open slice undone");
            cx.label_if(s.os > 0 && s.oe > 0 && a < b, "both open and range");
            log.push((a, b, s));
            undo.push((a, end, old, d));
            doc = nd;
        }
    }
    cx.label_if(undo.len() >= 3, "history of 3 or more");
    while let Some((a, b, s, want)) = undo.pop() {
        let step = Step::<T>::Replace(ReplaceStep { span: Span { from: a, to: b }, slice: s, structure: false });
        match real::<T>(&step, &doc) {
            Ok(Ok(x)) => {
                ensure!(T::to_m(&x) == want, "undoing history {:?} from {:?} in reverse gives {:?}, expected {:?}", log, d0, T::to_m(&x), want);
                doc = x;
            }
            Ok(Err(e)) | Err(e) => return Err(format!("undoing history {:?} from {:?} in reverse fails: {}", log, d0, e)),
        }
    }
    ensure!(doc == doc0, "undoing history {:?} from {:?} does not restore it", log, d0);
    Ok(())
}

// ------------------------------------------------------------------ C11

fn c11<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d = gen_doc::<T>(src, NORMAL);
    let doc = T::from_m(&d);
    let toks = tokens(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    for _ in 0..5 {
        let (mut flagged, mut plain);
        let ranges: Vec<(usize, usize)>;
        if src_bool(src) {
            let (a, b) = match src.below(4) {
                0 => gen_range(src, &toks),
                1 => gen_node_range(src, &toks),
                _ => {
                    let (a, b) = structural_range(src, &toks).unwrap_or((0, 0));
                    // sometimes just off
                    match src.below(5) {
                        0 if b < toks.len() && is_pos(&toks, b + 1) => (a, b + 1),
                        1 if a > 0 && is_pos(&toks, a - 1) => (a - 1, b),
                        _ => (a, b),
                    }
                }
            };
            let slice = gen_slice::<T>(src, &d, a, b);
            ranges = vec![(a, b)];
            flagged = MStep::Replace { a, b, slice, structure: true };
            plain = flagged.clone();
        } else {
            flagged = gen_around::<T>(src, &d);
            plain = flagged.clone();
            match &flagged {
                MStep::Around { a, b, ga, gb, .. } => {
                    if !(a <= ga && ga <= gb && gb <= b) {
                        continue;
                    }
                    ranges = vec![(*a, *ga), (*gb, *b)]
                }
                _ => unreachable!(),
            }
        }
        for (s, v) in [(&mut flagged, true), (&mut plain, false)] {
            match s {
                MStep::Replace { structure, .. } | MStep::Around { structure, .. } => *structure = v,
                _ => {}
            }
        }
        if !step_closed_valid(sp, &d, &flagged) {
            continue;
        }
        cx.evals += 1;
        cx.hash(&flagged);
        let pure = ranges.iter().all(|(a, b)| structural(&toks[*a..*b]));
        let rf = real::<T>(&to_step::<T>(&flagged), &doc).map_err(|e| format!("{:?} on {:?}: {}", flagged, d, e))?;
        let rp = real::<T>(&to_step::<T>(&plain), &doc).map_err(|e| format!("{:?} on {:?}: {}", plain, d, e))?;
        if pure {
            let same = match (&rf, &rp) {
                (Ok(x), Ok(y)) => x == y,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if ranges.iter().any(|(a, b)| a < b) {
                cx.label(if rf.is_ok() { "structural, accepted" } else { "structural, does not fit" });
                cx.nontrivial = true;
            }
            ensure!(
                same,
                "{:?} on {:?} deletes only closing and opening tokens, but gives {:?} and without the flag {:?}",
                flagged,
                d,
                rf.as_ref().map(|x| T::to_m(x)),
                rp.as_ref().map(|x| T::to_m(x))
            );
        } else {
            if rp.is_ok() {
                cx.label("refused because of the flag");
                cx.nontrivial = true;
            }
            if let Ok(x) = rf {
                return Err(format!("{:?} on {:?} deletes content, but succeeds with {:?}", flagged, d, T::to_m(&x)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12

fn c12<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let sp = T::spec();
    let d = gen_doc::<T>(src, NORMAL);
    let doc = T::from_m(&d);
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    for _ in 0..6 {
        let st = gen_around::<T>(src, &d);
        let (a, b, ga, gb, slice, insert) = match &st {
            MStep::Around { a, b, ga, gb, slice, insert, .. } => (*a, *b, *ga, *gb, slice, *insert),
            _ => unreachable!(),
        };
        if !(a <= ga && ga <= gb && gb <= b) || !step_closed_valid(sp, &d, &st) {
            continue;
        }
        let full = crate::model::slice(&d, ga, gb, false)
            .filter(|g| g.os == 0 && g.oe == 0)
            .and_then(|g| insert_into_slice(slice, insert, &g.content).ok());
        // with the gap in place, the slice must be complete; otherwise it is outside of the domain
        // unless the completed slice has an invalid closed node, which must be refused
        if let Some(f) = &full {
            if !closed_valid(sp, f) && !closed_valid(sp, slice) {
                continue;
            }
        }
        cx.evals += 1;
        cx.hash(&st);
        let mut want = apply_model(sp, &d, &st);
        if let (Ok(_), Some(f)) = (&want, &full) {
            if !closed_valid(sp, f) {
                want = Err(Refuse::Invalid);
            }
        }
        let got = real::<T>(&to_step::<T>(&st), &doc).map_err(|e| format!("{:?} on {:?}: {}", st, d, e))?;
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                let gm = T::to_m(g);
                ensure!(
                    tokens(gm.kids()) == tokens(w.kids()) && gm.with_kids(vec![]) == w.with_kids(vec![]),
                    "{:?} on {:?} gives {:?}, expected {:?}",
                    st,
                    d,
                    gm,
                    w
                );
                cx.label("accepted");
                if ga < gb && gm != d {
                    cx.nontrivial = true;
                    cx.label("accepted, gap kept");
                    cx.label_if(a == ga && b == gb, "accepted wrapping");
                    cx.label_if(a < ga && gb < b && slice.content.is_empty(), "accepted unwrapping");
                    cx.label_if(a < ga && gb < b && !slice.content.is_empty(), "accepted rewrapping");
                }
                // the gap's tokens are in place
                let gt = tokens(gm.kids());
                let dt = tokens(d.kids());
                let at = a + insert;
                ensure!(
                    at + (gb - ga) <= gt.len() && gt[at..at + (gb - ga)] == dt[ga..gb],
                    "{:?} on {:?} gives {:?}: the gap content is not at the insertion point",
                    st,
                    d,
                    gm
                );
            }
            (Err(r), Err(_)) => cx.label(match r {
                Refuse::Position => "refused: position",
                Refuse::Structure => "refused: structure",
                Refuse::GapNotFlat => "refused: gap not flat",
                Refuse::Insert => "refused: insertion point",
                Refuse::Invalid => "refused: invalid",
                Refuse::Join(..) => "refused: join",
                Refuse::Depth => "refused: depths",
                Refuse::MalformedSlice => "refused: malformed",
            }),
            (Ok(w), Err(e)) => return Err(format!("{:?} on {:?} is refused ({}), expected {:?}", st, d, e, w)),
            (Err(r), Ok(g)) => {
                return Err(format!("{:?} on {:?} succeeds with {:?}, expected a refusal: {:?}", st, d, T::to_m(g), r))
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

fn count_texts(c: &[M]) -> usize {
    c.iter().map(|k| k.is_text() as usize + count_texts(k.kids())).sum()
}

fn c16<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d0 = gen_doc::<T>(src, NORMAL);
    let mut doc = T::from_m(&d0);
    let mut d = d0.clone();
    let n = src.range(1, 12);
    let mut log = vec![];
    let (mut added, mut removed) = (0usize, 0usize);
    for _ in 0..n {
        if d.size() > if is_big() { 200_000 } else { 1500 } {
            break;
        }
        let st = gen_step::<T>(src, &d);
        match &st {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => {
                if !is_normal(&slice.content) {
                    continue;
                }
            }
            _ => {}
        }
        cx.evals += 1;
        log.push(st.clone());
        let r = match real::<T>(&to_step::<T>(&st), &doc) {
            Ok(r) => r,
            Err(e) => return Err(format!("{:?} on {:?}: {}", st, d, e)),
        };
        if let Ok(nd) = r {
            let m = T::to_m(&nd);
            ensure!(is_normal(m.kids()), "{:?} on {:?} gives {:?}, which is not in normal form (history {:?} from {:?})", st, d, m, log, d0);
            ensure!(nd == T::from_m(&m), "{:?} on {:?} gives a document unequal to its rebuilt self {:?}", st, d, m);
            match &st {
                MStep::Add { a, b, .. } | MStep::Remove { a, b, .. } => {
                    if m != d && a < b {
                        cx.label("mark step changed the document");
                        if count_texts(m.kids()) < count_texts(d.kids()) {
                            cx.label("mark step merged texts");
                            cx.nontrivial = true;
                        }
                    }
                }
                MStep::Replace { slice, a, b, .. } => {
                    let inserted = count_texts(&slice.content);
                    let cut = crate::model::slice(&d, *a, *b, false).map_or(0, |s| count_texts(&s.content));
                    if count_texts(m.kids()) < count_texts(d.kids()) + inserted && cut == 0 && inserted > 0 {
                        cx.label("replace merged texts");
                        cx.nontrivial = true;
                    }
                    if cut > 0 && inserted > 0 {
                        cx.nontrivial = true;
                    }
                }
                _ => {}
            }
            added += (m.size() > d.size()) as usize;
            removed += (m.size() < d.size()) as usize;
            doc = nd;
            d = m;
        }
    }
    let _ = (added, removed);
    // equal content compares equal whatever the history: reach the document again by another route
    let target = T::from_m(&d0);
    if doc != target {
        let end = doc.content_size();
        let whole = Slice::<T>::new(T::frag_from(d0.kids()), 0, 0);
        if let Ok(Ok(x)) = guarded(|| doc.replace(0..end, &whole)) {
            ensure!(x == target, "replacing everything in {:?} by the content of {:?} does not compare equal", d, d0);
        }
    }
    cx.hash(&d0);
    cx.hash(&log);
    cx.sample(|| format!("{:?} -- {:?}", d0, log));
    Ok(())
}

// ------------------------------------------------------------------ C17

fn hop<V: serde::Serialize + serde::de::DeserializeOwned>(v: &V, how: usize) -> Result<V, String> {
    match how {
        0 => {
            let s = serde_json::to_string(v).map_err(|e| format!("serialise: {}", e))?;
            serde_json::from_str(&s).map_err(|e| format!("deserialise {}: {}", s, e))
        }
        1 => {
            let x = serde_json::to_value(v).map_err(|e| format!("serialise: {}", e))?;
            serde_json::from_value(x.clone()).map_err(|e| format!("deserialise {}: {}", x, e))
        }
        _ => {
            let s = serde_json::to_vec_pretty(v).map_err(|e| format!("serialise: {}", e))?;
            serde_json::from_slice(&s).map_err(|e| format!("deserialise: {}", e))
        }
    }
}

fn c17<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome
where
    T::Node: serde::de::DeserializeOwned,
{
    let d0 = gen_doc::<T>(src, NORMAL);
    let mut docs: Vec<T::Node> = (0..4).map(|_| T::from_m(&d0)).collect();
    let n = src.range(2, 10);
    let join_at = src.below(n);
    let mut acc = 0;
    let mut log = vec![];
    let mut history: Vec<(M, String)> = vec![];
    for i in 0..n {
        let d = T::to_m(&docs[0]);
        if d.size() > if is_big() { 100_000 } else { 1200 } {
            break;
        }
        let st = if src.chance(1, 10) {
            let t = tokens(d.kids());
            MStep::Replace { a: src.below(t.len() + 4), b: src.below(t.len() + 4), slice: wild_slice::<T>(src), structure: src_bool(src) }
        } else {
            gen_step::<T>(src, &d)
        };
        // nesting that JSON would refuse is left out (a node of the second schema nests three levels)
        let within = match &st {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => slice.content.iter().map(|k| k.depth() + 1).max().unwrap_or(0),
            _ => 0,
        };
        if d.depth().max(within) > 37 || d.depth() + within > 39 {
            break;
        }
        cx.evals += 1;
        log.push(st.clone());
        let step = to_step::<T>(&st);
        let how = src.below(3);
        let shipped: Step<T> = hop(&step, how).map_err(|e| format!("{:?}: {}", st, e))?;
        ensure!(shipped == step, "{:?} does not survive JSON", st);
        // replica 3 joins from a snapshot
        if i == join_at {
            docs[3] = hop(&docs[0], how)?;
            ensure!(docs[3] == docs[0], "snapshot of {:?} differs", d);
        }
        docs[2] = hop(&docs[2], how)?;
        let step2 = to_step::<T>(&st);
        let outs = [
            guarded(|| step.apply(&docs[0]).map_err(|e| e.to_string())),
            guarded(|| shipped.apply(&docs[1]).map_err(|e| e.to_string())),
            guarded(|| shipped.apply(&docs[2]).map_err(|e| e.to_string())),
            guarded(|| step2.apply(&docs[3]).map_err(|e| e.to_string())),
        ];
        // a crash is C13's business, here it only has to be the same everywhere
        let res: Vec<Option<T::Node>> = outs.iter().map(|o| o.as_ref().ok().and_then(|r| r.as_ref().ok().cloned())).collect();
        let live = if i >= join_at { 4 } else { 3 };
        for (k, r) in res.iter().enumerate().take(live).skip(1) {
            ensure!(
                *r == res[0],
                "replica {} diverges at step {} {:?} on {:?}: {:?} against {:?} (history {:?} from {:?})",
                k,
                i,
                st,
                d,
                r.as_ref().map(|x| T::to_m(x)),
                res[0].as_ref().map(|x| T::to_m(x)),
                log,
                d0
            );
            // refusals are the same refusal
            if let (Ok(Err(a)), Ok(Err(b))) = (&outs[0], &outs[k]) {
                ensure!(a == b, "replica {} refuses {:?} on {:?} with {:?}, the first with {:?}", k, st, d, b, a);
            }
        }
        if let Some(x) = &res[0] {
            acc += 1;
            for d in docs.iter_mut() {
                *d = x.clone();
            }
            // keep the replicas' own values
            for (k, r) in res.into_iter().enumerate() {
                if let Some(r) = r {
                    docs[k] = r;
                }
            }
        }
        let m = T::to_m(&docs[0]);
        history.push((m, serde_json::to_string(&docs[0]).map_err(|e| e.to_string())?));
        // equal documents serialise equally
        for k in 1..3 {
            let s = serde_json::to_string(&docs[k]).map_err(|e| e.to_string())?;
            ensure!(s == history.last().unwrap().1, "replicas are equal but serialise differently: {} / {}", s, history.last().unwrap().1);
        }
    }
    // a replica that keeps its document in one place and applies the same step value over and over
    let steps: Vec<Step<T>> = log.iter().map(|st| to_step::<T>(st)).collect();
    let mut here = T::from_m(&d0);
    for (i, step) in steps.iter().enumerate().take(history.len()) {
        if let Ok(Ok(x)) = guarded(|| step.apply(&here)) {
            here = x;
        }
        ensure!(T::to_m(&here) == history[i].0, "applying {:?} in place from {:?} gives another document at step {}", log, d0, i);
        if src.chance(1, 4) {
            // and once more on the result, against fresh copies of both
            let keep = here.clone();
            let a = guarded(|| step.apply(&here).map(|x| T::to_m(&x)).map_err(|e| e.to_string()));
            let fresh = (to_step::<T>(&log[i]), T::from_m(&T::to_m(&here)));
            let b = guarded(|| fresh.0.apply(&fresh.1).map(|x| T::to_m(&x)).map_err(|e| e.to_string()));
            ensure!(
                a.as_ref().ok() == b.as_ref().ok(),
                "applying {:?} again, to {:?}: {:?}, on copies: {:?}",
                log[i],
                T::to_m(&keep),
                a,
                b
            );
        }
    }
    // other threads
    if src.chance(1, 8) {
        let want: Vec<&M> = history.iter().map(|h| &h.0).collect();
        let run = || -> Result<(), String> {
            let mut doc = T::from_m(&d0);
            for (i, st) in log.iter().enumerate().take(want.len()) {
                if let Ok(Ok(x)) = guarded(|| to_step::<T>(st).apply(&doc)) {
                    doc = x;
                }
                ensure!(T::to_m(&doc) == *want[i], "another thread gets another document at step {} of {:?} from {:?}", i, log, d0);
            }
            Ok(())
        };
        let outs = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2)
                .map(|_| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, &run).map_err(|e| e.to_string()))
                .collect();
            hs.into_iter().map(|h| h.map(|h| h.join())).collect::<Vec<_>>()
        });
        for o in outs {
            match o {
                // the machine has no thread left: nothing to say
                Err(_) => {}
                Ok(Err(_)) => return Err("the check's own thread panicked".into()),
                Ok(Ok(r)) => r?,
            }
        }
        cx.label("other threads");
    }
    // applying again from the start gives the same (no hidden state)
    let mut again = T::from_m(&d0);
    for (i, st) in log.iter().enumerate() {
        if i >= history.len() {
            break;
        }
        if let Ok(Ok(x)) = guarded(|| to_step::<T>(st).apply(&again)) {
            again = x;
        }
        ensure!(T::to_m(&again) == history[i].0, "replaying {:?} from {:?} gives another document at step {}", log, d0, i);
    }
    cx.nontrivial = acc >= 2;
    cx.hash(&d0);
    cx.hash(&log);
    cx.sample(|| format!("{:?} -- {:?}", d0, log));
    Ok(())
}
