//! C08 add mark, C09 remove mark, C10 mark sets
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::MD;
use prosemirror::model::*;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::convert::TryFrom;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            rule: "a schema-valid document with marks, ranges and marks (present ones and new ones); the result of the add-mark step is compared token by token with the model; non-trivial: the range holds marked inline content, or content of several parents, and something changed",
            assumptions: &["ranges on character boundaries", "in the Markdown schema only text carries marks (the crate says so)"],
            subs: &[
                Sub { name: "md", f: c08::<MD>, quick: 20000 },
                Sub { name: "x", f: c08::<X>, quick: 20000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c08::<MD>, c08::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C09",
            rule: "a schema-valid document with marks, ranges and marks (present ones, same type with other attributes, absent ones); the result of the remove-mark step is compared token by token with the model; non-trivial: the range holds inline content with marks",
            assumptions: &["ranges on character boundaries"],
            subs: &[
                Sub { name: "md", f: c09::<MD>, quick: 20000 },
                Sub { name: "x", f: c09::<X>, quick: 20000 },
                Sub { name: "big", f: |s, c| big(330, s, c, c09::<MD>, c09::<X>), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C10",
            rule: "a sequence of up to 25 operations (add, remove, copying add/remove on borrowed and owned sets, single set, from a list, JSON) on a few mark sets, compared with a map keyed by mark type; non-trivial: a set with two marks was changed",
            assumptions: &[],
            subs: &[
                Sub { name: "md", f: c10::<MD>, quick: 60000 },
                Sub { name: "x", f: c10::<X>, quick: 60000 },
            ],
            fixed: None,
        },
    ]
}

fn mark_case<T: TS>(src: &mut Src, cx: &mut Cx, add: bool) -> Outcome {
    let sp = T::spec();
    let normal = !src.chance(1, 5);
    let d = gen_doc::<T>(src, Opts { normal, ..NORMAL });
    let doc = T::from_m(&d);
    let toks = tokens(d.kids());
    cx.hash(&d);
    cx.sample(|| format!("{:?}", d));
    for _ in 0..5 {
        cx.evals += 1;
        let st = gen_mark_step::<T>(src, &d, add);
        let (a, b) = match &st {
            MStep::Add { a, b, .. } | MStep::Remove { a, b, .. } => (*a, *b),
            _ => unreachable!(),
        };
        cx.hash(&st);
        let want = apply_model(sp, &d, &st).map_err(|e| format!("model refuses {:?}: {:?}", st, e))?;
        let got = crate::props::edit::real::<T>(&to_step::<T>(&st), &doc).map_err(|e| format!("{:?} on {:?}: {}", st, d, e))?;
        let got = got.map_err(|e| format!("{:?} on {:?} is refused: {}", st, d, e))?;
        let gm = T::to_m(&got);
        ensure!(
            tokens(gm.kids()) == tokens(want.kids()) && gm.with_kids(vec![]) == want.with_kids(vec![]),
            "{:?} on {:?} gives {:?}, expected {:?}",
            st,
            d,
            gm,
            want
        );
        ensure!(T::to_m(&doc) == d, "{:?} changed the document it was applied to {:?}", st, d);
        let marked = toks[a..b].iter().any(|t| match t {
            Tok::Unit { marks, .. } | Tok::Leaf { marks, .. } | Tok::Open { marks, .. } => !marks.is_empty(),
            _ => false,
        });
        let several = toks[a..b].iter().any(|t| matches!(t, Tok::Close)) && toks[a..b].iter().any(|t| matches!(t, Tok::Unit { .. }));
        let changed = gm != d;
        cx.label_if(changed, "changed");
        cx.label_if(marked, "range with marks");
        cx.label_if(several, "range over several parents");
        cx.label_if(!changed && a < b, "no effect");
        cx.nontrivial |= if add { changed && (marked || several) } else { marked };
        cx.label_if(!add && changed && marked, "removed");
        if !add && !changed && marked {
            cx.label("kept others");
        }
    }
    Ok(())
}
fn c08<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    mark_case::<T>(src, cx, true)
}
fn c09<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    mark_case::<T>(src, cx, false)
}

type Model = BTreeMap<usize, MMark>;

fn same<T: TS>(set: &MarkSet<T>, m: &Model) -> Outcome
where
    MarkSet<T>: serde::Serialize,
{
    let got: Vec<MMark> = T::set_to(set);
    let want: Vec<MMark> = m.values().cloned().collect();
    ensure!(got == want, "set is {:?}, expected {:?}", got, want);
    Ok(())
}

fn c10<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    let n = src.range(2, 25);
    let mut sets: Vec<(MarkSet<T>, Model)> = vec![(MarkSet::default(), Model::new())];
    let mut log: Vec<String> = vec![];
    for _ in 0..n {
        cx.evals += 1;
        let k = src.below(sets.len());
        let mm = if src.chance(1, 3) && !sets[k].1.is_empty() {
            let v: Vec<&MMark> = sets[k].1.values().collect();
            let mut x = (*src.pick(&v)).clone();
            if src.chance(1, 2) {
                x = near_mark(src, &x);
            }
            x
        } else {
            T::gen_mark(src)
        };
        let rm = T::mark_from(&mm);
        let op = src.below(9);
        if op != 8 && sets[k].1.len() >= 2 {
            cx.nontrivial = true;
        }
        log.push(format!("{} {:?} #{}", ["add", "remove", "add_to_set", "remove_from_set", "into_set", "from list", "json", "add_to_set owned", "contains"][op], mm, k));
        let fail = |e: String, log: &Vec<String>| format!("{} after {}", e, log.join(", "));
        match op {
            0 => {
                sets[k].0.add(&rm);
                sets[k].1.insert(mm.ty, mm);
            }
            1 => {
                sets[k].0.remove(&rm);
                if sets[k].1.get(&mm.ty) == Some(&mm) {
                    sets[k].1.remove(&mm.ty);
                }
            }
            2 => {
                let new = rm.add_to_set(Cow::Borrowed(&sets[k].0)).into_owned();
                let mut m = sets[k].1.clone();
                m.insert(mm.ty, mm);
                same(&sets[k].0, &sets[k].1).map_err(|e| fail(format!("the original: {}", e), &log))?;
                sets.push((new, m));
            }
            3 => {
                let new = rm.remove_from_set(Cow::Borrowed(&sets[k].0)).into_owned();
                let mut m = sets[k].1.clone();
                if m.get(&mm.ty) == Some(&mm) {
                    m.remove(&mm.ty);
                }
                same(&sets[k].0, &sets[k].1).map_err(|e| fail(format!("the original: {}", e), &log))?;
                sets.push((new, m));
            }
            4 => {
                let mut m = Model::new();
                m.insert(mm.ty, mm);
                sets.push((rm.into_set(), m));
            }
            5 => {
                let c = src.below(5);
                let ms: Vec<MMark> = (0..c).map(|_| T::gen_mark(src)).collect();
                let mut tys: Vec<usize> = ms.iter().map(|m| m.ty).collect();
                tys.sort();
                tys.dedup();
                let r = MarkSet::<T>::try_from(ms.iter().map(T::mark_from).collect::<Vec<_>>());
                match r {
                    Ok(s) => {
                        ensure!(tys.len() == ms.len(), "a set from {:?} with two marks of a type", ms);
                        let m: Model = ms.iter().map(|m| (m.ty, m.clone())).collect();
                        sets.push((s, m));
                    }
                    Err(_) => ensure!(tys.len() < ms.len(), "no set from {:?}", ms),
                }
            }
            6 => {
                let mut v = serde_json::to_value(&sets[k].0).map_err(|e| e.to_string())?;
                let order = src.below(2) == 1;
                if order {
                    if let serde_json::Value::Array(a) = &mut v {
                        a.reverse();
                    }
                }
                let s: MarkSet<T> = serde_json::from_value(v.clone()).map_err(|e| fail(format!("{} from {}", e, v), &log))?;
                let m = sets[k].1.clone();
                sets.push((s, m));
            }
            7 => {
                let new = rm.add_to_set(Cow::Owned(sets[k].0.clone()));
                let new = T::mark_from(&mm).remove_from_set(new).into_owned();
                let mut m = sets[k].1.clone();
                m.remove(&mm.ty);
                sets.push((new, m));
            }
            _ => {
                let want = sets[k].1.get(&mm.ty) == Some(&mm);
                ensure!(sets[k].0.contains(&rm) == want, "contains is {} after {}", !want, log.join(", "));
            }
        }
        let last = sets.len() - 1;
        for i in [k, last] {
            same(&sets[i].0, &sets[i].1).map_err(|e| fail(e, &log))?;
            let built = T::set_from(&sets[i].1.values().rev().cloned().collect());
            ensure!(built == sets[i].0, "a set with the same members compares unequal after {}", log.join(", "));
            for x in sets[i].1.values() {
                ensure!(sets[i].0.contains(&T::mark_from(x)), "does not contain its member {:?} after {}", x, log.join(", "));
            }
        }
        let j = src.below(sets.len());
        ensure!((sets[j].0 == sets[k].0) == (sets[j].1 == sets[k].1), "equality of sets #{} and #{} is wrong after {}", j, k, log.join(", "));
    }
    cx.hash(&log);
    cx.sample(|| log.join(", "));
    Ok(())
}
