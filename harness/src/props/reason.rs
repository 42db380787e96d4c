//! C26 refusals name a true reason
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::{from_markdown, FromMarkdownError, MD};
use prosemirror::model::*;
use prosemirror::transform::*;

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "a valid document and operations on it that are likely to be refused (positions outside or within a character, reversed ranges, slices that do not line up, do not join or do not fit, gaps that are not flat, structural steps over content, unsupported Markdown); the reason given is looked up in the model; non-trivial: some refusal",
        assumptions: &["replace-around steps with from <= gapFrom <= gapTo <= to"],
        subs: &[
            Sub { name: "md", f: c26::<MD>, quick: 16000 },
            Sub { name: "x", f: c26::<X>, quick: 16000 },
            Sub { name: "text", f: c26_text, quick: 8000 },
            Sub { name: "big", f: |s, c| big(330, s, c, c26::<MD>, c26::<X>), quick: 80 },
        ],
        fixed: None,
    }]
}

/// A position error about some of `asked`
fn position(toks: &[Tok], asked: &[usize], reversed: bool, e: &ResolveErr) -> Result<&'static str, String> {
    let bad = |p: usize| !is_pos(toks, p);
    match e {
        ResolveErr::RangeError { pos } => {
            ensure!(asked.contains(pos), "complains about position {}, which nobody asked for", pos);
            ensure!(bad(*pos) || reversed, "complains about position {}, which is fine", pos);
            ensure!(
                e.to_string().contains(&pos.to_string()),
                "the message {:?} does not name position {}",
                e.to_string(),
                pos
            );
            Ok("refused: position")
        }
        ResolveErr::Index(_) => {
            ensure!(asked.iter().any(|p| bad(*p)), "complains about an index, but all positions are fine");
            Ok("refused: index")
        }
    }
}

/// The tree that splicing the tokens gives, if it gives one
fn spliced(d: &M, toks: &[Tok], a: usize, b: usize, s: &MSlice) -> Option<M> {
    let mut out = toks[..a].to_vec();
    out.extend(s.toks());
    out.extend_from_slice(&toks[b..]);
    parse(&out).map(|k| d.with_kids(k))
}

fn some_invalid(sp: &Spec, n: &M, ty: Ty) -> bool {
    // without recursion: documents may be deep
    let mut todo = vec![n];
    while let Some(n) = todo.pop() {
        if n.has_content() && n.ty(sp.text) == ty && !sp.content_ok(ty, n.kids()) {
            return true;
        }
        todo.extend(n.kids());
    }
    false
}

fn replace_reason<T: TS>(d: &M, toks: &[Tok], a: usize, b: usize, s: &MSlice, e: &ReplaceError<T>) -> Result<&'static str, String> {
    let sp = T::spec();
    if let ReplaceError::Resolve(e) = e {
        return position(toks, &[a, b], a > b, e);
    }
    ensure!(a <= b, "the range is reversed");
    let (ra, rb) = match (resolve(d, a), resolve(d, b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Err("a position is wrong, but that is not what the refusal says".into()),
    };
    let (da, db) = (ra.depth(), rb.depth());
    match e {
        ReplaceError::InsertTooDeep => {
            ensure!(s.os > da, "the slice is open by {} nodes at the start, and position {} is {} deep", s.os, a, da);
            Ok("refused: too deep")
        }
        ReplaceError::InconsistentOpenDepths { from_depth, open_start, to_depth, open_end } => {
            ensure!(
                (*from_depth, *open_start, *to_depth, *open_end) == (da, s.os, db, s.oe),
                "the depths are {}, {}, {}, {}",
                da,
                s.os,
                db,
                s.oe
            );
            ensure!(
                s.os > da || s.oe > db || da - s.os != db - s.oe || !s.well_formed(),
                "the open depths are consistent"
            );
            Ok("refused: depths")
        }
        ReplaceError::CannotJoin(x, y) => {
            let (sub, main) = (T::nt_ix(*x), T::nt_ix(*y));
            ensure!(!sp.compatible(sub, main), "the types {:?} and {:?} are compatible", x, y);
            ensure!(
                e.to_string().contains(&format!("{:?}", x)) && e.to_string().contains(&format!("{:?}", y)),
                "the message {:?} does not name {:?} and {:?}",
                e.to_string(),
                x,
                y
            );
            ensure!(s.os <= da && s.oe <= db && da - s.os == db - s.oe && s.well_formed(), "the depths do not line up");
            // nodes that are open at the same depth, in document order
            let extra = da - s.os;
            let ls = left_spine(&s.content);
            let rs = right_spine(&s.content);
            let ty = |n: &M| n.ty(sp.text);
            for d in 1..=da.max(db) {
                let mut open = vec![];
                open.extend(ra.path.get(d).map(|l| ty(l.node)));
                if d > extra && d - extra <= s.os {
                    open.push(ty(ls[d - extra - 1]));
                }
                if d > extra && d - extra <= s.oe {
                    open.push(ty(rs[d - extra - 1]));
                }
                open.extend(rb.path.get(d).map(|l| ty(l.node)));
                for i in 0..open.len() {
                    if open[i] == main && open[i + 1..].contains(&sub) {
                        return Ok("refused: join");
                    }
                }
            }
            Err(format!("no {:?} is to be joined onto a {:?}", x, y))
        }
        ReplaceError::InvalidContent(t) => {
            ensure!(s.os <= da && s.oe <= db && da - s.os == db - s.oe && s.well_formed(), "the depths do not line up");
            ensure!(
                e.to_string().contains(&format!("{:?}", t)),
                "the message {:?} does not name {:?}",
                e.to_string(),
                t
            );
            let r = spliced(d, toks, a, b, s).ok_or("the harness cannot splice")?;
            ensure!(some_invalid(sp, &r, T::nt_ix(*t)), "all {:?} have valid content in {:?}", t, r);
            Ok("refused: invalid content")
        }
        ReplaceError::Resolve(_) => unreachable!(),
    }
}

fn slice_reason(toks: &[Tok], a: usize, b: usize, e: &SliceError) -> Result<&'static str, String> {
    match e {
        SliceError::Resolve(e) => position(toks, &[a, b], a > b, e),
        _ => Err("no reason given".into()),
    }
}

fn step_reason<T: TS>(d: &M, toks: &[Tok], st: &MStep, e: &StepError<T>) -> Result<&'static str, String> {
    let sp = T::spec();
    // an end beyond the document counts as content
    let mixed = |x: usize, y: usize| is_pos(toks, x) && (x <= y) && (y > toks.len() || !structural(&toks[x..y]));
    match (st, e) {
        (MStep::Replace { a, b, structure, .. }, StepError::WouldOverwrite) => {
            ensure!(*structure, "the step is not structural");
            ensure!(mixed(*a, *b), "there is only structure in {}..{}", a, b);
            Ok("refused: would overwrite")
        }
        (MStep::Replace { a, b, structure: true, .. }, StepError::Resolve(e)) => position(toks, &[*a, *b], a > b, e),
        (MStep::Replace { a, b, slice, .. }, StepError::Replace(e)) => replace_reason::<T>(d, toks, *a, *b, slice, e),
        (MStep::Around { a, b, ga, gb, structure, .. }, StepError::GapWouldOverwrite) => {
            ensure!(*structure, "the step is not structural");
            ensure!(mixed(*a, *ga) || mixed(*gb, *b), "there is only structure in {}..{} and {}..{}", a, ga, gb, b);
            Ok("refused: gap would overwrite")
        }
        (MStep::Around { a, b, ga, gb, structure: true, .. }, StepError::Resolve(e)) => {
            position(toks, &[*a, *ga, *gb, *b], false, e)
        }
        (MStep::Around { ga, gb, .. }, StepError::Slice(e)) => {
            ensure!(ga != gb, "the gap is empty");
            slice_reason(toks, *ga, *gb, e)
        }
        (MStep::Around { ga, gb, .. }, StepError::GapNotFlat) => {
            match slice(d, *ga, *gb, false) {
                Some(g) => ensure!(g.os > 0 || g.oe > 0, "the gap {}..{} is flat", ga, gb),
                None => return Err("the gap's positions are wrong, but that is not what the refusal says".into()),
            }
            Ok("refused: gap not flat")
        }
        (MStep::Around { a, b, ga, gb, slice: s, insert, .. }, e) => {
            // the gap is there and flat
            let gap = if ga == gb { MSlice::empty() } else { slice(d, *ga, *gb, false).ok_or("the gap's positions are wrong")? };
            ensure!(gap.os == 0 && gap.oe == 0, "the gap is not flat, but that is not what the refusal says");
            let full = insert_into_slice(s, *insert, &gap.content);
            let at = insert_pos(s, *insert);
            match e {
                StepError::Insert(InsertError::Index(_)) => {
                    ensure!(
                        at.is_none(),
                        "position {} (counted from the open start) is in the slice",
                        insert
                    );
                    Ok("refused: insertion position")
                }
                StepError::GapNotFit | StepError::Insert(InsertError::Content(_)) => {
                    let full = full.map_err(|_| "the insertion position is wrong, but that is not what the refusal says")?;
                    let at = at.unwrap();
                    // the node around the insertion position
                    let wrap = M::Node { ty: sp.top, attrs: vec![], marks: vec![], children: Some(full.content.clone()) };
                    let r = resolve(&wrap, at).ok_or("the harness cannot resolve")?;
                    let parent = r.last().node;
                    ensure!(r.depth() > 0, "at the top of the slice anything fits");
                    let ty = parent.ty(sp.text);
                    ensure!(!sp.content_ok(ty, parent.kids()), "the gap fits into {:?}", parent);
                    Ok("refused: gap does not fit")
                }
                StepError::Replace(e) => {
                    let full = full.map_err(|_| "the insertion position is wrong, but that is not what the refusal says")?;
                    replace_reason::<T>(d, toks, *a, *b, &full, e)
                }
                _ => Err("this reason does not belong to the step".into()),
            }
        }
        (MStep::Add { a, b, .. }, e) | (MStep::Remove { a, b, .. }, e) => match e {
            StepError::Resolve(e) | StepError::Slice(SliceError::Resolve(e)) | StepError::Replace(ReplaceError::Resolve(e)) => {
                position(toks, &[*a, *b], a > b, e)
            }
            _ => Err("this reason does not belong to the step".into()),
        },
        _ => Err("this reason does not belong to the step".into()),
    }
}

/// Positions that do not exist or are within a character
fn bad_pos(src: &mut Src, toks: &[Tok], p: &mut usize) {
    match src.weighted(&[40, 10, 50]) {
        0 => *p = toks.len() + 1 + src.below(3),
        1 => *p = *src.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63]),
        _ => {
            let all: Vec<usize> = (0..toks.len()).filter(|p| !is_pos(toks, *p)).collect();
            if !all.is_empty() {
                *p = *src.pick(&all);
            }
        }
    }
}

fn spoil(src: &mut Src, s: &mut MSlice) {
    match src.below(5) {
        0 => s.os = s.os.saturating_add(1 + src.below(3)),
        1 => s.oe = s.oe.saturating_add(1 + src.below(3)),
        2 => s.os = s.os.saturating_sub(1),
        3 => s.oe = s.oe.saturating_sub(1),
        _ => {
            s.content.clear();
            s.os = src.below(3);
            s.oe = src.below(3);
        }
    }
}

fn c26<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let d = gen_doc::<T>(src, NORMAL);
    let node = T::from_m(&d);
    let toks = tokens(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    for _ in 0..6 {
        cx.evals += 1;
        let mut st = match src.weighted(&[60, 25, 15]) {
            0 => {
                let (a, b) = gen_replace_range(src, &toks);
                let slice = match src.weighted(&[50, 30, 20]) {
                    0 => {
                        // a slice made for another place
                        let (x, y) = gen_replace_range(src, &toks);
                        gen_slice::<T>(src, &d, x, y)
                    }
                    1 => gen_slice::<T>(src, &d, a, b),
                    _ => wild_slice::<T>(src),
                };
                MStep::Replace { a, b, slice, structure: src.chance(1, 5) }
            }
            1 => gen_around::<T>(src, &d),
            _ => {
                let add = src_bool(src);
                gen_mark_step::<T>(src, &d, add)
            }
        };
        match &mut st {
            MStep::Replace { a, b, slice, .. } => {
                match src.below(24) {
                    0 => bad_pos(src, &toks, a),
                    1 => bad_pos(src, &toks, b),
                    2 => std::mem::swap(a, b),
                    _ => {}
                }
                if src.chance(1, 4) {
                    spoil(src, slice);
                }
            }
            MStep::Around { a, b, ga, gb, slice, insert, structure } => {
                match src.below(12) {
                    0 => bad_pos(src, &toks, b),
                    1 => {
                        bad_pos(src, &toks, gb);
                        *b = (*b).max(*gb);
                    }
                    2 => {
                        bad_pos(src, &toks, ga);
                        *gb = (*gb).max(*ga);
                        *b = (*b).max(*gb);
                    }
                    3 => spoil(src, slice),
                    4 => *insert = src.below(slice.toks().len() + 3),
                    5 => *insert = usize::MAX - src.below(3),
                    6 => *structure = true,
                    7 => {
                        *ga = (*ga).saturating_sub(1).max(*a);
                    }
                    8 => {
                        *gb = (*gb + 1).min(*b);
                    }
                    _ => {}
                }
                if !(*a <= *ga && *ga <= *gb && *gb <= *b) {
                    continue;
                }
            }
            MStep::Add { a, b, .. } | MStep::Remove { a, b, .. } => match src.below(4) {
                0 => bad_pos(src, &toks, a),
                1 => bad_pos(src, &toks, b),
                2 => std::mem::swap(a, b),
                _ => {}
            },
        }
        if matches!(&st, MStep::Replace { slice, .. } | MStep::Around { slice, .. } if has_empty_text(&slice.content)) {
            continue;
        }
        cx.hash(&st);
        let step = to_step::<T>(&st);
        let r = guarded(|| step.apply(&node)).map_err(|p| format!("{:?} on {:?}: {}", st, d, p))?;
        if let Err(e) = r {
            let l = step_reason::<T>(&d, &toks, &st, &e)
                .map_err(|w| format!("{:?} on {:?} is refused with {:?} ({}): {}", st, d, e, e, w))?;
            cx.label(l);
            cx.nontrivial = true;
        } else {
            cx.label("accepted");
        }
        // the operations that steps are made of
        match &st {
            MStep::Replace { a, b, slice, .. } => {
                let rs = T::slice_from(slice);
                if let Err(e) = guarded(|| node.replace(*a..*b, &rs)).map_err(|p| format!("{:?} on {:?}: {}", st, d, p))? {
                    replace_reason::<T>(&d, &toks, *a, *b, slice, &e)
                        .map_err(|w| format!("replacing as in {:?} on {:?} is refused with {:?} ({}): {}", st, d, e, e, w))?;
                }
            }
            MStep::Add { a, b, .. } | MStep::Remove { a, b, .. } => {
                if a <= b {
                    if let Err(e) = guarded(|| node.slice(*a..*b, src_bool(src))).map_err(|p| format!("{:?} on {:?}: {}", st, d, p))? {
                        slice_reason(&toks, *a, *b, &e)
                            .map_err(|w| format!("slicing {}..{} of {:?} is refused with {:?} ({}): {}", a, b, d, e, e, w))?;
                    }
                }
                for p in [*a, *b] {
                    if let Err(e) = node.resolve(p) {
                        position(&toks, &[p], false, &e)
                            .map_err(|w| format!("resolving {} in {:?} is refused with {:?} ({}): {}", p, d, e, e, w))?;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ Markdown

fn c26_text(src: &mut Src, cx: &mut Cx) -> Outcome {
    let text = super::md::any_markdown(src);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    if !super::md::parser_ok(&text) {
        cx.label("the parser panics: skipped");
        return Ok(());
    }
    cx.evals += 1;
    if let Err(e) = guarded(|| from_markdown(&text)).map_err(|p| format!("import of {:?} {}", text, p))? {
        cx.nontrivial = true;
        let fail = |w: &str| Err(format!("import of {:?} is refused with {:?} ({}): {}", text, e, e, w));
        match &e {
            FromMarkdownError::NotSupported(x) => {
                cx.label("refused: not supported");
                if !e.to_string().contains(x) {
                    return fail("the message does not name the construct");
                }
                let names = super::md::event_names(&text);
                let name = x.split_whitespace().next().unwrap_or("");
                if super::md::EVENT_NAMES.contains(&name) && !names.contains(name) {
                    return fail("the text has no such construct");
                }
            }
            FromMarkdownError::LevelMismatch(_) => {
                if cfg!(target_pointer_width = "64") {
                    return fail("all levels and numbers of the CommonMark parser fit");
                }
            }
            _ => cx.label("refused: other"),
        }
    }
    Ok(())
}
