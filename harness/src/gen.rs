//! Generators of documents, positions, ranges, slices. Schema driven, everything drawn from the tape.
use crate::engine::{Cx, Outcome, PropFn, Src};
use crate::dict::dict;
use crate::model::*;
use crate::schemas::TS;

#[derive(Clone, Copy)]
pub struct Opts {
    /// merge adjacent texts with equal marks
    pub normal: bool,
    /// follow the content expressions
    pub valid: bool,
    pub empty_text: bool,
    pub plain_text: bool,
}
pub const NORMAL: Opts = Opts { normal: true, valid: true, empty_text: false, plain_text: false };

pub struct G {
    pub budget: isize,
    pub max_depth: usize,
    pub long_text: bool,
    pub wide: bool,
    /// how many very long texts and very long child lists may still be made
    pub huge_texts: usize,
    pub huge_lists: usize,
    /// in deep documents: the type to nest in itself where that is possible, if so decided
    pub favour: Option<Option<Ty>>,
    pub opts: Opts,
}

thread_local! {
    /// while a "big" case runs: the greatest nesting depth it may use
    static BIG: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Run one of two checks (one per schema) with documents of the large profiles: long texts, many
/// children, deep nesting, with sizes around powers of two
pub fn big(max_depth: usize, src: &mut Src, cx: &mut Cx, f: PropFn, g: PropFn) -> Outcome {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            BIG.with(|b| b.set(None));
        }
    }
    BIG.with(|b| b.set(Some(max_depth)));
    LEFT.with(|l| l.set(3000));
    let _r = Reset;
    if src.chance(1, 2) {
        g(src, cx)
    } else {
        f(src, cx)
    }
}
pub fn is_big() -> bool {
    BIG.with(|b| b.get()).is_some()
}
/// In a big case now and then a much larger number, as long as the sum stays bearable
pub fn more(src: &mut Src, n: usize) -> usize {
    let left = LEFT.with(|l| l.get());
    if !is_big() || left < 16 || !src.chance(1, 8) {
        return n;
    }
    let k = big_len(src, 1200).min(left);
    LEFT.with(|l| l.set(left - k));
    k.max(n)
}
/// A size for a big case: log-uniform or next to a power of two or ten
pub fn big_len(src: &mut Src, max: usize) -> usize {
    let bits = usize::BITS - max.leading_zeros();
    let k = src.range(4, bits as usize);
    let n = match src.below(4) {
        3 => crate::dict::pick(src, &dict().numbers).copied().unwrap_or(16).max(2) as usize,
        0 => (1usize << k) + src.below(1 << k),
        1 => (1usize << k) + src.below(5) - 2,
        _ => *src.pick(&[16, 20, 32, 50, 64, 100, 128, 200, 255, 256, 257, 300, 500, 512, 999, 1000, 1001, 1024, 2000, 4096, 5000, 8192, 10000, 32768, 50000, 65535, 65536]) + src.below(3),
    };
    n.min(max)
}

impl G {
    /// Draw a size profile
    pub fn new(src: &mut Src, opts: Opts) -> G {
        if let Some(max) = BIG.with(|b| b.get()) {
            let (budget, depth, t, l) = match src.below(4) {
                0 => (12, 5, 1 + src.below(3), 0),
                1 => (12, 5, 0, 1 + src.below(2)),
                2 => (src.range(max, 4 * max) as isize, src.range(21, max.max(21)), 0, 0),
                _ => (20, 6, 1, 1),
            };
            return G { budget, max_depth: depth, long_text: false, wide: false, huge_texts: t, huge_lists: l, favour: None, opts };
        }
        let (budget, max_depth, long_text, wide) = match src.weighted(&[20, 32, 26, 8, 6, 4, 4]) {
            0 => (3, 3, false, false),
            1 => (9, 4, false, false),
            2 => (25, 6, false, false),
            3 => (80, 8, false, false),
            4 => (70, 32, false, false),
            5 => (15, 5, true, false),
            _ => (60, 4, false, true),
        };
        G { budget, max_depth, long_text, wide, huge_texts: 0, huge_lists: 0, favour: None, opts }
    }
    pub fn small(src: &mut Src, opts: Opts) -> G {
        let b = src.range(2, 10) as isize;
        G { budget: b, max_depth: 4, long_text: false, wide: false, huge_texts: 0, huge_lists: 0, favour: None, opts }
    }

    pub fn text(&mut self, src: &mut Src) -> String {
        if self.opts.plain_text {
            return words(src, 3);
        }
        let n = if self.long_text && src.chance(1, 2) { src.range(30, 400) } else { src.len(20) };
        let n = if self.opts.empty_text { n } else { n.max(1) };
        let alpha = src.weighted(&[55, 12, 12, 12, 9]);
        let mut s = String::new();
        for _ in 0..n {
            s.push(gen_char(src, alpha));
        }
        if n > 0 && src.chance(1, 30) {
            s = with_literal(src, &s);
        }
        if self.huge_texts > 0 && !s.is_empty() && src.chance(1, 2) {
            self.huge_texts -= 1;
            // the same over and over, with another character somewhere
            let n = big_len(src, 70_000);
            let mut cs: Vec<char> = s.chars().cycle().take(n).collect();
            for _ in 0..src.below(4) {
                let i = src.below(n);
                let alpha = src.below(5);
                cs[i] = gen_char(src, alpha);
            }
            s = cs.into_iter().collect();
        }
        s
    }

    pub fn marks<T: TS>(&mut self, src: &mut Src, rule: &MarkRule) -> Marks {
        if matches!(rule, MarkRule::None) && self.opts.valid {
            return vec![];
        }
        let n = src.weighted(&[55, 25, 12, 5, 3]);
        let mut ms = vec![];
        for _ in 0..n {
            let m = T::gen_mark(src);
            if self.opts.valid {
                if let MarkRule::Only(xs) = rule {
                    if !xs.contains(&m.ty) {
                        continue;
                    }
                }
            }
            ms = add_mark(&ms, &m);
        }
        ms
    }

    pub fn node<T: TS>(&mut self, src: &mut Src, ty: Ty, rule: &MarkRule, depth: usize) -> M {
        self.budget -= 1;
        let sp = T::spec();
        let t = &sp.types[ty];
        let marks = if t.markable && t.inline && (ty == sp.text || T::NAME != "md") {
            self.marks::<T>(src, rule)
        } else {
            vec![]
        };
        if ty == sp.text {
            return M::Text { text: self.text(src), marks };
        }
        let attrs = T::gen_attrs(src, ty);
        if t.leaf {
            return M::Node { ty, attrs, marks, children: None };
        }
        let c = self.content::<T>(src, ty, depth + 1);
        M::Node { ty, attrs, marks, children: Some(c) }
    }

    /// Content of a node of type ty
    pub fn content<T: TS>(&mut self, src: &mut Src, ty: Ty, depth: usize) -> Vec<M> {
        let sp = T::spec();
        let mut out = vec![];
        if !self.opts.valid && src.chance(1, 3) {
            // arbitrary children
            let n = src.len(6);
            for _ in 0..n {
                if self.budget <= 0 {
                    break;
                }
                let k = src.below(sp.types.len());
                let k = if depth >= self.max_depth && !sp.types[k].leaf { sp.text } else { k };
                let c = self.node::<T>(src, k, &MarkRule::All, depth);
                push(&mut out, c, self.opts.normal);
            }
            return out;
        }
        let re = sp.types[ty].content.clone();
        self.re::<T>(src, &re, &sp.types[ty].marks.clone(), depth, &mut out);
        out
    }

    fn re<T: TS>(&mut self, src: &mut Src, re: &Re, rule: &MarkRule, depth: usize, out: &mut Vec<M>) {
        match re {
            Re::T(ts) => {
                let ty = self.choose::<T>(src, ts, depth);
                let n = self.node::<T>(src, ty, rule, depth);
                push(out, n, self.opts.normal);
            }
            Re::Seq(rs) => {
                for r in rs {
                    self.re::<T>(src, r, rule, depth, out);
                }
            }
            Re::Opt(r) => {
                if self.budget > 0 && src.chance(1, 2) {
                    self.re::<T>(src, r, rule, depth, out);
                }
            }
            Re::Star(r) | Re::Plus(r) => {
                let min = matches!(re, Re::Plus(_)) as usize;
                let n = if self.wide && src.chance(1, 4) {
                    src.range(5, 60)
                } else if self.max_depth > 20 {
                    src.weighted(&[5, 75, 20])
                } else {
                    src.weighted(&[12, 40, 25, 12, 7, 4])
                };
                let n = n.max(min);
                if self.huge_lists > 0 && src.chance(1, 2) {
                    let left = std::mem::take(&mut self.huge_lists) - 1;
                    let mut protos = vec![];
                    // now and then more children than fit in 16 bits, of the smallest kind
                    let giant = src.chance(1, 30);
                    let budget = self.budget;
                    if giant {
                        self.budget = 0;
                    }
                    for _ in 0..src.range(1, 3) {
                        self.re::<T>(src, r, rule, depth, &mut protos);
                    }
                    self.budget = budget;
                    self.huge_lists = left;
                    let size = (csize(&protos) / protos.len().max(1)).max(1);
                    let n = match giant {
                        true => (65_530 + src.below(600)).min(140_000 / size).max(min),
                        false => big_len(src, 5000).min(80_000 / size).max(min),
                    };
                    let special = src.below(n.max(1));
                    for i in 0..n {
                        if i == special {
                            self.re::<T>(src, r, rule, depth, out);
                        }
                        if !protos.is_empty() {
                            push(out, protos[i % protos.len()].clone(), self.opts.normal);
                        }
                    }
                    return;
                }
                for i in 0..n {
                    if i >= min && self.budget <= 0 {
                        break;
                    }
                    self.re::<T>(src, r, rule, depth, out);
                }
            }
        }
    }

    /// Choose a child type; when out of depth or budget, the shallowest one
    fn choose<T: TS>(&mut self, src: &mut Src, ts: &[Ty], depth: usize) -> Ty {
        let sp = T::spec();
        if depth >= self.max_depth || self.budget <= 0 {
            let md = min_depths(sp);
            let best = ts.iter().map(|t| md[*t]).min().unwrap();
            // prefer a textblock over a bare leaf
            return *ts.iter().find(|t| md[**t] <= best + 1 && !sp.types[**t].leaf).unwrap_or(&ts[0]);
        }
        if self.max_depth > 20 && src.chance(if is_big() { 39 } else { 30 }, 40) {
            // go deep
            let deep: Vec<Ty> = ts.iter().copied().filter(|t| recursive(sp, *t)).collect();
            if !deep.is_empty() {
                if let Some(Some(f)) = self.favour {
                    if deep.contains(&f) && !src.chance(1, 16) {
                        return f;
                    }
                }
                let t = *src.pick(&deep);
                if self.favour.is_none() {
                    self.favour = Some(if src_bool(src) { Some(t) } else { None });
                }
                return t;
            }
        }
        if src.chance(6, 10) {
            *src.pick(ts)
        } else {
            ts[0]
        }
    }
}

fn push(out: &mut Vec<M>, n: M, normal: bool) {
    if normal {
        if let M::Text { text, marks } = &n {
            if text.is_empty() {
                return;
            }
            if let Some(M::Text { text: t, marks: m }) = out.last_mut() {
                if m == marks {
                    t.push_str(text);
                    return;
                }
            }
        }
    }
    out.push(n);
}

fn re_min(re: &Re, d: &[usize]) -> usize {
    match re {
        Re::T(ts) => ts.iter().map(|t| d[*t]).min().unwrap_or(99),
        Re::Seq(rs) => rs.iter().map(|r| re_min(r, d)).max().unwrap_or(0),
        Re::Star(_) | Re::Opt(_) => 0,
        Re::Plus(r) => re_min(r, d),
    }
}
/// the smallest height of a valid node of each type
pub fn min_depths(sp: &Spec) -> Vec<usize> {
    let n = sp.types.len();
    let mut d = vec![99usize; n];
    for _ in 0..n {
        for t in 0..n {
            d[t] = if sp.types[t].leaf { 0 } else { (1 + re_min(&sp.types[t].content, &d)).min(99) };
        }
    }
    d
}
/// can contain block content
fn recursive(sp: &Spec, t: Ty) -> bool {
    fn f(re: &Re, sp: &Spec) -> bool {
        match re {
            Re::T(ts) => ts.iter().any(|t| !sp.types[*t].inline && !sp.types[*t].leaf),
            Re::Seq(rs) => rs.iter().any(|r| f(r, sp)),
            Re::Star(r) | Re::Plus(r) | Re::Opt(r) => f(r, sp),
        }
    }
    f(&sp.types[t].content, sp)
}

/// A literal of the sources, alone or before or after another text, or repeated up to a number in them
pub fn with_literal(src: &mut Src, s: &str) -> String {
    let d = dict();
    let l = crate::dict::pick(src, &d.strings).cloned().unwrap_or_else(|| "a".into());
    match src.below(5) {
        0 | 1 => l,
        2 => format!("{}{}", l, s),
        3 => format!("{}{}", s, l),
        _ => {
            // a number as a length
            let n = crate::dict::pick(src, &d.numbers).copied().unwrap_or(3);
            let c = if src.chance(1, 2) { 'a' } else { l.chars().next().unwrap_or('a') };
            (0..n.min(300)).map(|_| c).chain(l.chars().take((n == 0) as usize)).collect()
        }
    }
}

/// A text that differs from the given one in a little, or not at all
pub fn near(src: &mut Src, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    match src.below(9) {
        0 => v.push(*src.pick(&['z', ' ', '/', 'a', '\u{301}', '\0'])),
        1 => {
            v.pop();
        }
        2 if n > 0 => v[n - 1] = if v[n - 1] == 'b' { 'c' } else { 'b' },
        3 if n > 0 => v[0] = if v[0] == 'b' { 'c' } else { 'b' },
        4 if n > 0 => {
            let i = src.below(n);
            v[i] = if v[i] == 'b' { 'c' } else { 'b' };
        }
        5 => v.insert(src.below(n + 1), *src.pick(&['a', ' ', 'A'])),
        6 if n > 0 => {
            let i = src.below(n);
            v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
        7 if n > 1 => v.reverse(),
        _ => {}
    }
    v.into_iter().collect()
}
pub fn near_mark(src: &mut Src, m: &MMark) -> MMark {
    let mut m = m.clone();
    if !m.attrs.is_empty() {
        let i = src.below(m.attrs.len());
        m.attrs[i] = near(src, &m.attrs[i].clone());
    }
    m
}

pub fn gen_char(src: &mut Src, alpha: usize) -> char {
    match alpha {
        0 => *src.pick(&['a', 'b', 'c', 'd', 'e', ' ']),
        1 => *src.pick(&['a', 'é', '日', '\u{FFFF}', '\u{301}', 'ß', '\u{7ff}', '\u{800}', '\u{E000}', '\u{D7FF}']),
        2 => *src.pick(&['a', '😀', '\u{10000}', '\u{10FFFF}', '🏳', '\u{200D}']),
        // any character: of one, two, three or four bytes
        4 => {
            let (lo, hi) = *src.pick(&[(0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)]);
            // (but not the separators of the text checks)
            char::from_u32(src.range(lo, hi - 1) as u32).filter(|c| !('\u{1c}'..='\u{1f}').contains(c)).unwrap_or('a')
        }
        _ => *src.pick(&['a', '\n', '😀', '\u{0}', '"', '\\', 'é', '\u{7f}', '\u{80}', '\t', '\u{2028}']),
    }
}

pub const WORDS: &[&str] =
    &["a", "be", "cat", "door", "else", "frog", "glass", "house", "über", "naïve", "日本", "x1", "7up", "end."];
pub fn words(src: &mut Src, max: usize) -> String {
    let n = 1 + src.below(max);
    let mut v = vec![];
    for _ in 0..n {
        v.push(*src.pick(WORDS));
    }
    v.join(" ")
}

pub fn gen_doc<T: TS>(src: &mut Src, opts: Opts) -> M {
    set_names(T::spec().names);
    let mut g = G::new(src, opts);
    let top = T::spec().top;
    g.node::<T>(src, top, &MarkRule::All, 0)
}

/// A document for properties that hold for any tree: mostly valid, in normal form or not, sometimes
/// violating the schema, sometimes not rooted in the top type
pub fn gen_tree<T: TS>(src: &mut Src) -> M {
    set_names(T::spec().names);
    let normal = !src.chance(1, 4);
    let valid = !src.chance(1, 4);
    let mut g = G::new(src, Opts { normal, valid, ..NORMAL });
    let sp = T::spec();
    let ty = if src.chance(1, 6) {
        let xs: Vec<Ty> = (0..sp.types.len()).filter(|t| !sp.types[*t].leaf).collect();
        *src.pick(&xs)
    } else {
        sp.top
    };
    g.node::<T>(src, ty, &MarkRule::All, 0)
}

/// A valid position
pub fn gen_pos(src: &mut Src, toks: &[Tok]) -> usize {
    let mut p = src.below(toks.len() + 1);
    while !is_pos(toks, p) {
        p -= 1;
    }
    p
}

/// position of the matching close of an open token
pub fn matching(toks: &[Tok], open: usize) -> usize {
    let mut d = 0;
    for (i, t) in toks.iter().enumerate().skip(open) {
        match t {
            Tok::Open { .. } => d += 1,
            Tok::Close => {
                d -= 1;
                if d == 0 {
                    return i;
                }
            }
            _ => {}
        }
    }
    toks.len()
}

/// An ordered pair of valid positions
pub fn gen_range(src: &mut Src, toks: &[Tok]) -> (usize, usize) {
    let n = toks.len();
    let a = gen_pos(src, toks);
    let mut b = match src.weighted(&[30, 10, 25, 15, 10, 10]) {
        0 => gen_pos(src, toks),
        1 => a,
        2 => (a + 1 + src.below(8)).min(n),
        3 => {
            // up to the end of an enclosing or following node
            let opens: Vec<usize> =
                (0..n).filter(|i| matches!(toks[*i], Tok::Open { .. }) && i + 12 > a).take(12).collect();
            if opens.is_empty() {
                n
            } else {
                let o = *src.pick(&opens);
                let m = matching(toks, o);
                if src.chance(1, 2) && m < n {
                    m + 1
                } else {
                    m
                }
            }
        }
        4 => n,
        _ => 0,
    };
    while !is_pos(toks, b) {
        b -= 1;
    }
    if a <= b {
        (a, b)
    } else {
        (b, a)
    }
}

/// Whole-node range
pub fn gen_node_range(src: &mut Src, toks: &[Tok]) -> (usize, usize) {
    let opens: Vec<usize> = (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Open { .. })).collect();
    if opens.is_empty() {
        return gen_range(src, toks);
    }
    let o = *src.pick(&opens);
    (o, matching(toks, o) + 1)
}

/// Closed nodes (below the open spines) of a slice are valid
pub fn closed_valid(sp: &Spec, s: &MSlice) -> bool {
    fn go(sp: &Spec, c: &[M], os: usize, oe: usize) -> bool {
        let n = c.len();
        c.iter().enumerate().all(|(i, k)| {
            let l = if i == 0 { os } else { 0 };
            let r = if i + 1 == n { oe } else { 0 };
            if l == 0 && r == 0 {
                sp.valid(k)
            } else {
                go(sp, k.kids(), l.saturating_sub(1), r.saturating_sub(1))
            }
        })
    }
    go(sp, &s.content, s.os, s.oe)
}

fn depth_at(toks: &[Tok], p: usize) -> usize {
    let mut d = 0usize;
    for t in &toks[..p] {
        match t {
            Tok::Open { .. } => d += 1,
            Tok::Close => d -= 1,
            _ => {}
        }
    }
    d
}

/// A slice for replacing `a..b` of `root`; always well formed with valid closed nodes
pub fn gen_slice<T: TS>(src: &mut Src, root: &M, a: usize, b: usize) -> MSlice {
    let sp = T::spec();
    match src.weighted(&[10, 12, 28, 35, 15, 8]) {
        0 => MSlice::empty(),
        // what is there already
        5 => slice(root, a, b, false).unwrap_or_else(|| MSlice::empty()),
        1 => {
            let t = tokens(root.kids());
            let (x, y) = gen_range(src, &t);
            let parents = src.chance(1, 5);
            fix_parents(slice(root, x, y, parents).unwrap())
        }
        2 => {
            // from another document, looking for depths that line up
            let da = resolve(root, a).map_or(0, |r| r.depth());
            let db = resolve(root, b).map_or(0, |r| r.depth());
            let mut g = G::small(src, NORMAL);
            g.budget += 6;
            let other = g.node::<T>(src, sp.top, &MarkRule::All, 0);
            let t = tokens(other.kids());
            let mut best = None;
            for _ in 0..6 {
                let (x, y) = gen_range(src, &t);
                let s = slice(&other, x, y, false).unwrap();
                let ok = s.os <= da && s.oe <= db && da - s.os == db - s.oe && !s.content.is_empty();
                if ok {
                    return s;
                }
                best.get_or_insert(s);
            }
            best.unwrap()
        }
        3 => built_slice::<T>(src, root, a, b).unwrap_or_else(MSlice::empty),
        _ => {
            // closed content for the parent of a
            let p = resolve(root, a).map(|r| r.last().node.ty(sp.text)).unwrap_or(sp.top);
            let mut g = G::small(src, NORMAL);
            let c = g.content::<T>(src, p, 2);
            MSlice { content: c, os: 0, oe: 0 }
        }
    }
}

/// with parents included the spines are open, nothing to fix; kept for clarity
fn fix_parents(s: MSlice) -> MSlice {
    s
}

/// Build a slice whose spines resemble the ancestors at both ends of the range
fn built_slice<T: TS>(src: &mut Src, root: &M, a: usize, b: usize) -> Option<MSlice> {
    let sp = T::spec();
    let ra = resolve(root, a)?;
    let rb = resolve(root, b)?;
    let (da, db) = (ra.depth(), rb.depth());
    let lo = da.min(db);
    let extra = if src.chance(1, 2) { lo } else { src.below(lo + 1) };
    let (os, oe) = (da - extra, db - extra);
    let mut mid = |src: &mut Src, parent: Ty, max: usize| -> Vec<M> {
        let n = src.below(max + 1);
        if n == 0 {
            return vec![];
        }
        let mut g = G::small(src, NORMAL);
        let mut c = g.content::<T>(src, parent, 2);
        // sequences with a compulsory head are often not wanted in the middle
        if src.chance(1, 3) && !c.is_empty() {
            c.remove(0);
        }
        c.truncate(n + 1);
        c
    };
    let like = |src: &mut Src, n: &M| -> M {
        let ty = n.ty(sp.text);
        if src.chance(1, 5) {
            let xs: Vec<Ty> =
                (0..sp.types.len()).filter(|t| !sp.types[*t].leaf && sp.compatible(*t, ty)).collect();
            if !xs.is_empty() {
                let t = *src.pick(&xs);
                return M::Node { ty: t, attrs: T::gen_attrs(src, t), marks: vec![], children: Some(vec![]) };
            }
        }
        if src.chance(1, 4) {
            let n2 = n.clone();
            if let M::Node { marks, children, .. } = n2 {
                return M::Node { ty, attrs: T::gen_attrs(src, ty), marks, children };
            }
        }
        n.clone()
    };
    // how many levels both ends share inside of the slice
    let share = if os > 0 && oe > 0 && src.chance(1, 3) { src.range(1, os.min(oe)) } else { 0 };
    let left_types: Vec<M> = (0..os).map(|i| ra.path[extra + 1 + i].node.clone()).collect();
    let right_types: Vec<M> = (0..oe).map(|i| rb.path[extra + 1 + i].node.clone()).collect();
    // left spine from inside out
    let mut left: Option<M> = None;
    for i in (share..os).rev() {
        let node = like(src, &left_types[i]);
        let mut c: Vec<M> = left.take().into_iter().collect();
        c.extend(mid(src, node.ty(sp.text), 2));
        left = Some(node.with_kids(normalize_top(c)));
    }
    let mut right: Option<M> = None;
    for i in (share..oe).rev() {
        let node = like(src, &right_types[i]);
        let mut c = mid(src, node.ty(sp.text), 2);
        c.extend(right.take());
        right = Some(node.with_kids(normalize_top(c)));
    }
    let parent_ty = if share > 0 {
        left_types[share - 1].ty(sp.text)
    } else {
        ra.path[extra].node.ty(sp.text)
    };
    let mut content: Vec<M> = left.into_iter().collect();
    content.extend(mid(src, parent_ty, 2));
    content.extend(right);
    let mut content = normalize_top(content);
    for i in (0..share).rev() {
        let node = like(src, &left_types[i]);
        content = vec![node.with_kids(content)];
    }
    let s = MSlice { content, os, oe };
    if s.well_formed() && closed_valid(sp, &s) {
        Some(s)
    } else {
        None
    }
}
fn normalize_top(c: Vec<M>) -> Vec<M> {
    let mut out = vec![];
    for n in c {
        push(&mut out, n, true);
    }
    out
}

/// A slice with no guarantees at all
pub fn wild_slice<T: TS>(src: &mut Src) -> MSlice {
    let opts = Opts { normal: src_bool(src), valid: src_bool(src), empty_text: true, plain_text: false };
    let mut g = G::small(src, opts);
    let ty = src.below(T::spec().types.len());
    let content = if T::spec().types[ty].leaf { vec![] } else { g.content::<T>(src, ty, 1) };
    let od = |src: &mut Src| match src.weighted(&[40, 45, 10, 5]) {
        0 => 0,
        1 => src.below(4),
        2 => src.below(40),
        _ => *src.pick(&[usize::MAX, usize::MAX - 1, 1 << 63, u32::MAX as usize]),
    };
    MSlice { content, os: od(src), oe: od(src) }
}
pub fn src_bool(src: &mut Src) -> bool {
    src.chance(1, 2)
}

#[allow(unused)]
pub fn depth_of(toks: &[Tok], p: usize) -> usize {
    depth_at(toks, p)
}
