//! Model steps: generation, conversion to real steps, model application
use crate::engine::Src;
use crate::gen::*;
use crate::model::*;
use crate::schemas::TS;
use prosemirror::transform::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MStep {
    Replace { a: usize, b: usize, slice: MSlice, structure: bool },
    Around { a: usize, b: usize, ga: usize, gb: usize, slice: MSlice, insert: usize, structure: bool },
    Add { a: usize, b: usize, mark: MMark },
    Remove { a: usize, b: usize, mark: MMark },
}

pub fn to_step<T: TS>(s: &MStep) -> Step<T> {
    match s {
        MStep::Replace { a, b, slice, structure } => Step::Replace(ReplaceStep {
            span: Span { from: *a, to: *b },
            slice: T::slice_from(slice),
            structure: *structure,
        }),
        MStep::Around { a, b, ga, gb, slice, insert, structure } => Step::ReplaceAround(ReplaceAroundStep {
            span: Span { from: *a, to: *b },
            gap_from: *ga,
            gap_to: *gb,
            slice: T::slice_from(slice),
            insert: *insert,
            structure: *structure,
        }),
        MStep::Add { a, b, mark } => {
            Step::AddMark(AddMarkStep { span: Span { from: *a, to: *b }, mark: T::mark_from(mark) })
        }
        MStep::Remove { a, b, mark } => {
            Step::RemoveMark(RemoveMarkStep { span: Span { from: *a, to: *b }, mark: T::mark_from(mark) })
        }
    }
}

pub fn kind(s: &MStep) -> &'static str {
    match s {
        MStep::Replace { .. } => "replace",
        MStep::Around { .. } => "replaceAround",
        MStep::Add { .. } => "addMark",
        MStep::Remove { .. } => "removeMark",
    }
}

/// What the model says about applying a step
pub fn apply_model(sp: &Spec, doc: &M, s: &MStep) -> Result<M, Refuse> {
    match s {
        MStep::Replace { a, b, slice, structure } => {
            let t = tokens(doc.kids());
            if *structure && *a <= *b && *b <= t.len() && !structural(&t[*a..*b]) {
                return Err(Refuse::Structure);
            }
            replace(sp, doc, *a, *b, slice)
        }
        MStep::Around { a, b, ga, gb, slice, insert, structure } => {
            replace_around(sp, doc, *a, *b, *ga, *gb, slice, *insert, *structure)
        }
        MStep::Add { a, b, mark } => {
            check_range(doc, *a, *b)?;
            Ok(map_marks(sp, doc, *a, *b, &|ms, p| {
                if sp.allows(p, &vec![mark.clone()]) {
                    add_mark(ms, mark)
                } else {
                    ms.clone()
                }
            }))
        }
        MStep::Remove { a, b, mark } => {
            check_range(doc, *a, *b)?;
            Ok(map_marks(sp, doc, *a, *b, &|ms, _| remove_mark(ms, mark)))
        }
    }
}
fn check_range(doc: &M, a: usize, b: usize) -> Result<(), Refuse> {
    if a > b || resolve(doc, a).is_none() || resolve(doc, b).is_none() {
        Err(Refuse::Position)
    } else {
        Ok(())
    }
}

/// A mark that is likely to be relevant: one present in the document, or a random one
pub fn gen_step_mark<T: TS>(src: &mut Src, doc: &M) -> MMark {
    if src.chance(1, 2) {
        let mut all = vec![];
        for t in tokens(doc.kids()) {
            match t {
                Tok::Unit { marks, .. } | Tok::Leaf { marks, .. } | Tok::Open { marks, .. } => all.extend(marks),
                _ => {}
            }
        }
        all.sort();
        all.dedup();
        if !all.is_empty() {
            let m = src.pick(&all).clone();
            return if src.chance(1, 6) { near_mark(src, &m) } else { m };
        }
    }
    T::gen_mark(src)
}

/// The range of a replacement: mostly arbitrary, sometimes purely structural
pub fn gen_replace_range(src: &mut Src, toks: &[Tok]) -> (usize, usize) {
    if src.chance(1, 8) {
        if let Some(r) = structural_range(src, toks) {
            return r;
        }
    }
    gen_range(src, toks)
}

/// a range of the pattern close* open*
pub fn structural_range(src: &mut Src, toks: &[Tok]) -> Option<(usize, usize)> {
    let mut runs = vec![];
    for i in 0..toks.len() {
        if is_pos(toks, i) {
            let mut j = i;
            let mut opened = false;
            while j < toks.len() {
                match &toks[j] {
                    Tok::Close if !opened => {}
                    Tok::Open { .. } => opened = true,
                    _ => break,
                }
                j += 1;
            }
            if j > i {
                runs.push((i, j));
            }
        }
    }
    if runs.is_empty() {
        return None;
    }
    if src.chance(1, 3) {
        // one of the longest, in full
        let len = runs.iter().map(|(i, j)| j - i).max().unwrap();
        let long: Vec<(usize, usize)> = runs.into_iter().filter(|(i, j)| j - i >= len.saturating_sub(1)).collect();
        return Some(*src.pick(&long));
    }
    let (i, j) = *src.pick(&runs);
    Some((i, j - src.below(j - i)))
}

pub fn gen_replace<T: TS>(src: &mut Src, doc: &M) -> MStep {
    let t = tokens(doc.kids());
    let (a, b) = gen_replace_range(src, &t);
    let structure = src.chance(1, 6);
    let slice = gen_slice::<T>(src, doc, a, b);
    MStep::Replace { a, b, slice, structure }
}

/// Replace-around: wrap, unwrap, change of wrapper, or arbitrary
pub fn gen_around<T: TS>(src: &mut Src, doc: &M) -> MStep {
    let sp = T::spec();
    let t = tokens(doc.kids());
    let structure = src.chance(1, 3);
    let flat_gap = |src: &mut Src| -> (usize, usize) {
        // a run of siblings
        let mut nodes: Vec<(usize, usize)> = vec![];
        fn walk(c: &[M], base: usize, out: &mut Vec<(usize, usize)>) {
            if c.is_empty() {
                out.push((base, base));
                return;
            }
            let mut p = base;
            let mut ends = vec![];
            for k in c {
                ends.push((p, p + k.size()));
                p += k.size();
            }
            for i in 0..ends.len() {
                for j in i..ends.len().min(i + 3) {
                    out.push((ends[i].0, ends[j].1));
                }
            }
            out.push((base, p));
            let mut p = base;
            for k in c {
                if k.has_content() {
                    walk(k.kids(), p + 1, out);
                }
                p += k.size();
            }
        }
        walk(doc.kids(), 0, &mut nodes);
        if src.chance(1, 10) {
            let (a, b) = gen_range(src, &t);
            return (a, b);
        }
        *src.pick(&nodes)
    };
    let (ga, gb) = flat_gap(src);
    if src.chance(1, 8) {
        if let Some(s) = surroundings::<T>(src, doc, &t, ga, gb) {
            return s;
        }
    }
    let gap_tys: Vec<Ty> = match slice(doc, ga, gb, false) {
        Some(s) if s.os == 0 && s.oe == 0 => s.content.iter().map(|n| n.ty(sp.text)).collect(),
        _ => vec![],
    };
    // how much of the surroundings is removed
    let (a, b) = match src.weighted(&[35, 35, 10, 20]) {
        0 => (ga, gb),
        1 => {
            // k levels of wrapping, when the gap is everything inside
            let k = 1 + src.below(3);
            let (mut a, mut b) = (ga, gb);
            for _ in 0..k {
                if a > 0 && b < t.len() && matches!(t[a - 1], Tok::Open { .. }) && matches!(t[b], Tok::Close) {
                    a -= 1;
                    b += 1;
                } else {
                    break;
                }
            }
            (a, b)
        }
        2 => {
            let mut a = ga - src.below(ga.min(4) + 1);
            while !is_pos(&t, a) {
                a -= 1;
            }
            (a, gb)
        }
        _ => {
            let mut a = ga - src.below(ga.min(5) + 1);
            let mut b = gb + src.below((t.len() - gb).min(5) + 1);
            while !is_pos(&t, a) {
                a -= 1;
            }
            while !is_pos(&t, b) {
                b += 1;
            }
            (a, b)
        }
    };
    // the slice: wrappers around an insertion point
    let outer = resolve(doc, a).map(|r| r.last().node.ty(sp.text)).unwrap_or(sp.top);
    let (mut slice, insert) = match src.weighted(&[55, 15, 15, 15]) {
        0 => {
            let n = 1 + src.below(3);
            let mut tys = vec![];
            // choose wrapper types that can follow each other, checked from the inside out
            let mut inner = gap_tys.clone();
            for _ in 0..n {
                let cands: Vec<Ty> = (0..sp.types.len())
                    .filter(|x| !sp.types[*x].leaf && *x != sp.top && sp.re_match(*x, &inner))
                    .collect();
                let ty = if !cands.is_empty() && !src.chance(1, 8) {
                    *src.pick(&cands)
                } else {
                    let xs: Vec<Ty> =
                        (0..sp.types.len()).filter(|x| !sp.types[*x].leaf && *x != sp.top).collect();
                    *src.pick(&xs)
                };
                tys.push(ty);
                inner = vec![ty];
                if sp.re_match(outer, &inner) && src.chance(2, 3) {
                    break;
                }
            }
            let mut node: Option<M> = None;
            let mut insert = 0;
            let mut extra_before = 0;
            for ty in &tys {
                let mut c: Vec<M> = node.take().into_iter().collect();
                // siblings of the gap inside of the wrapper
                if src.chance(1, 5) {
                    let mut g = G::small(src, NORMAL);
                    let mut extra = g.content::<T>(src, *ty, 3);
                    extra.truncate(2);
                    if src.chance(1, 2) {
                        c.extend(extra);
                    } else {
                        extra_before = csize(&extra);
                        extra.extend(c);
                        c = extra;
                    }
                }
                insert += 1 + extra_before;
                extra_before = 0;
                node = Some(M::Node { ty: *ty, attrs: T::gen_attrs(src, *ty), marks: vec![], children: Some(normalize(&c)) });
            }
            let mut content: Vec<M> = node.into_iter().collect();
            if src.chance(1, 6) {
                let mut g = G::small(src, NORMAL);
                let mut extra = g.content::<T>(src, outer, 3);
                extra.truncate(1);
                if src.chance(1, 2) {
                    content.extend(extra);
                } else {
                    insert += csize(&extra);
                    extra.extend(content);
                    content = extra;
                }
            }
            (MSlice { content, os: 0, oe: 0 }, insert)
        }
        1 => (MSlice::empty(), 0),
        2 => {
            let s = gen_slice::<T>(src, doc, a, b);
            let n = s.size();
            (s, src.below(n + 1))
        }
        _ => {
            // open wrapper: e.g. split around the gap
            let s = built_open::<T>(src, doc, a, b);
            let n = s.size();
            (s, src.below(n + 1))
        }
    };
    let mut insert = insert;
    // open up sides sometimes
    if src.chance(1, 10) {
        let l = left_spine(&slice.content).len();
        if l > slice.os && insert > 0 {
            slice.os += 1;
            insert -= 1;
        }
    }
    // insertion points that are none
    if src.chance(1, 25) {
        insert = match src.below(4) {
            0 => csize(&slice.content) + src.below(4),
            1 => insert + 1 + src.below(2),
            2 => 1 << src.range(8, 62),
            // beyond the largest number together with the open depth
            _ => usize::MAX - src.below(slice.os + 2),
        };
    }
    MStep::Around { a, b, ga, gb, slice, insert, structure }
}
/// A range around the gap, with what stands there apart from the gap as the slice: the gap can be deep in it, and
/// the nodes on the way open or closed. Sometimes with another type for one of them.
fn surroundings<T: TS>(src: &mut Src, doc: &M, t: &[Tok], ga: usize, gb: usize) -> Option<MStep> {
    let room = t.len().checked_sub(gb)?;
    let (far_a, far_b) = (src.chance(1, 2), src.chance(1, 2));
    let mut a = ga - src.below(if far_a { ga } else { ga.min(8) } + 1);
    let mut b = gb + src.below(if far_b { room } else { room.min(8) } + 1);
    while !is_pos(t, a) {
        a -= 1;
    }
    while !is_pos(t, b) {
        b += 1;
    }
    let s = slice(doc, a, b, false)?;
    let mut toks = tokens(&s.content);
    let (x, y) = (s.os + ga - a, s.os + gb - a);
    if y < x || y > toks.len() {
        return None;
    }
    toks.drain(x..y);
    let mut insert = ga - a;
    if src.chance(1, 4) {
        // leave out one more node
        let content = parse(&toks)?;
        let mut nodes = vec![];
        fn walk(c: &[M], mut p: usize, out: &mut Vec<(usize, usize)>) {
            for n in c {
                out.push((p, p + n.size()));
                walk(n.kids(), p + 1, out);
                p += n.size();
            }
        }
        walk(&content, 0, &mut nodes);
        nodes.retain(|(i, j)| *i >= s.os && *j + s.oe <= toks.len() && (*j <= x || *i >= x));
        if !nodes.is_empty() {
            let (i, j) = *src.pick(&nodes);
            toks.drain(i..j);
            if j <= x {
                insert -= j - i;
            }
        }
    } else if src.chance(1, 3) {
        let sp = T::spec();
        let opens: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Open { .. })).collect();
        if !opens.is_empty() {
            let i = *src.pick(&opens);
            let tys: Vec<Ty> = (0..sp.types.len()).filter(|x| !sp.types[*x].leaf && *x != sp.top).collect();
            let ty = *src.pick(&tys);
            if let Tok::Open { ty: t, attrs, .. } = &mut toks[i] {
                *t = ty;
                *attrs = T::gen_attrs(src, ty);
            }
        }
    }
    let slice = MSlice { content: normalize(&parse(&toks)?), os: s.os, oe: s.oe };
    Some(MStep::Around { a, b, ga, gb, slice, insert, structure: src.chance(1, 8) })
}
fn built_open<T: TS>(src: &mut Src, doc: &M, a: usize, b: usize) -> MSlice {
    gen_slice::<T>(src, doc, a, b)
}

pub fn gen_mark_step<T: TS>(src: &mut Src, doc: &M, add: bool) -> MStep {
    let t = tokens(doc.kids());
    let (a, b) = if src.chance(1, 4) { (gen_pos(src, &t), t.len()) } else { gen_range(src, &t) };
    let mark = gen_step_mark::<T>(src, doc);
    if add {
        MStep::Add { a, b, mark }
    } else {
        MStep::Remove { a, b, mark }
    }
}

pub fn gen_step<T: TS>(src: &mut Src, doc: &M) -> MStep {
    match src.weighted(&[45, 20, 20, 15]) {
        0 => gen_replace::<T>(src, doc),
        1 => gen_around::<T>(src, doc),
        2 => gen_mark_step::<T>(src, doc, true),
        _ => gen_mark_step::<T>(src, doc, false),
    }
}

/// Closed nodes of the step's slice are valid. For replace-around the insertion parent counts with
/// the gap in place.
pub fn step_closed_valid(sp: &Spec, doc: &M, s: &MStep) -> bool {
    match s {
        MStep::Replace { slice, .. } => slice.well_formed() && closed_valid(sp, slice),
        MStep::Around { ga, gb, slice: s, insert, .. } => {
            if !s.well_formed() {
                return false;
            }
            if closed_valid(sp, s) {
                return true;
            }
            if ga > gb {
                return false;
            }
            let gap = match slice(doc, *ga, *gb, false) {
                Some(g) => g.content,
                None => return false,
            };
            match insert_into_slice(s, *insert, &gap) {
                Ok(f) => closed_valid(sp, &f),
                Err(_) => false,
            }
        }
        _ => true,
    }
}
