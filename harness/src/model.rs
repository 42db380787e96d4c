//! The reference model: documents as plain trees and as token lists, schemas as tables of regular
//! expressions. Nothing in here uses the crate under test.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum AV {
    S(String),
    N(u64),
    B(bool),
}
pub type Attrs = Vec<AV>;
pub type Ty = usize;

/// A mark: index of the mark type in type order, and attributes
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MMark {
    pub ty: usize,
    pub attrs: Vec<String>,
}
impl fmt::Debug for MMark {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "m{}", self.ty)?;
        if !self.attrs.is_empty() {
            write!(f, "{:?}", self.attrs)?;
        }
        Ok(())
    }
}
/// Sorted by type, at most one per type
pub type Marks = Vec<MMark>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum M {
    Text { text: String, marks: Marks },
    /// `children == None` for leaves
    Node { ty: Ty, attrs: Attrs, marks: Marks, children: Option<Vec<M>> },
}

impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            M::Text { text, marks } => {
                if text.len() > 120 {
                    write!(f, "<{} bytes {:?}..>", text.len(), text.chars().take(20).collect::<String>())?;
                } else {
                    write!(f, "{:?}", text)?;
                }
                if !marks.is_empty() {
                    write!(f, "{:?}", marks)?;
                }
            }
            M::Node { ty, attrs, marks, children } => {
                write!(f, "{}", name_of(*ty))?;
                if !attrs.is_empty() {
                    write!(f, "{:?}", attrs)?;
                }
                if !marks.is_empty() {
                    write!(f, "^{:?}", marks)?;
                }
                if let Some(c) = children {
                    write!(f, "(")?;
                    for (i, x) in c.iter().enumerate() {
                        if i > 0 {
                            write!(f, ", ")?;
                        }
                        write!(f, "{:?}", x)?;
                    }
                    write!(f, ")")?;
                }
            }
        }
        Ok(())
    }
}

thread_local! { static NAMES: std::cell::RefCell<&'static [&'static str]> = const { std::cell::RefCell::new(&[]) }; }
/// only for printing
pub fn set_names(n: &'static [&'static str]) {
    NAMES.with(|x| *x.borrow_mut() = n);
}
fn name_of(t: Ty) -> String {
    NAMES.with(|x| x.borrow().get(t).map(|s| s.to_string()).unwrap_or_else(|| format!("t{}", t)))
}

pub fn u16len(s: &str) -> usize {
    s.chars().map(|c| if (c as u32) > 0xFFFF { 2 } else { 1 }).sum()
}

impl M {
    pub fn text(s: &str, marks: &[MMark]) -> M {
        M::Text { text: s.to_string(), marks: marks.to_vec() }
    }
    pub fn size(&self) -> usize {
        match self {
            M::Text { text, .. } => u16len(text),
            M::Node { children: None, .. } => 1,
            M::Node { children: Some(c), .. } => 2 + csize(c),
        }
    }
    pub fn content_size(&self) -> usize {
        csize(self.kids())
    }
    pub fn kids(&self) -> &[M] {
        match self {
            M::Node { children: Some(c), .. } => c,
            _ => &[],
        }
    }
    pub fn is_text(&self) -> bool {
        matches!(self, M::Text { .. })
    }
    pub fn has_content(&self) -> bool {
        matches!(self, M::Node { children: Some(_), .. })
    }
    pub fn is_leaf(&self) -> bool {
        !self.has_content()
    }
    pub fn marks(&self) -> &Marks {
        match self {
            M::Text { marks, .. } | M::Node { marks, .. } => marks,
        }
    }
    pub fn with_kids(&self, c: Vec<M>) -> M {
        match self {
            M::Node { ty, attrs, marks, .. } => {
                M::Node { ty: *ty, attrs: attrs.clone(), marks: marks.clone(), children: Some(c) }
            }
            t => t.clone(),
        }
    }
    pub fn ty(&self, text_ty: Ty) -> Ty {
        match self {
            M::Text { .. } => text_ty,
            M::Node { ty, .. } => *ty,
        }
    }
    pub fn depth(&self) -> usize {
        self.kids().iter().map(|k| k.depth()).max().map_or(0, |d| d + 1)
    }
    pub fn count(&self) -> usize {
        1 + self.kids().iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn all_text(&self) -> String {
        match self {
            M::Text { text, .. } => text.clone(),
            _ => self.kids().iter().map(|k| k.all_text()).collect(),
        }
    }
}

pub fn csize(c: &[M]) -> usize {
    c.iter().map(|x| x.size()).sum()
}

/// Tokens. A character outside of the BMP is two `Unit`s, half 1 and 2.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tok {
    Open { ty: Ty, attrs: Attrs, marks: Marks },
    Close,
    Unit { c: char, half: u8, marks: Marks },
    Leaf { ty: Ty, attrs: Attrs, marks: Marks },
}

pub fn tokens(c: &[M]) -> Vec<Tok> {
    let mut v = vec![];
    fn go(c: &[M], v: &mut Vec<Tok>) {
        for n in c {
            match n {
                M::Text { text, marks } => {
                    for ch in text.chars() {
                        if ch as u32 > 0xFFFF {
                            v.push(Tok::Unit { c: ch, half: 1, marks: marks.clone() });
                            v.push(Tok::Unit { c: ch, half: 2, marks: marks.clone() });
                        } else {
                            v.push(Tok::Unit { c: ch, half: 0, marks: marks.clone() });
                        }
                    }
                }
                M::Node { ty, attrs, marks, children } => match children {
                    None => v.push(Tok::Leaf { ty: *ty, attrs: attrs.clone(), marks: marks.clone() }),
                    Some(ch) => {
                        v.push(Tok::Open { ty: *ty, attrs: attrs.clone(), marks: marks.clone() });
                        go(ch, v);
                        v.push(Tok::Close);
                    }
                },
            }
        }
    }
    go(c, &mut v);
    v
}

/// Rebuild the (normal form) tree of a balanced token list
pub fn parse(toks: &[Tok]) -> Option<Vec<M>> {
    let mut stack: Vec<(Option<(Ty, Attrs, Marks)>, Vec<M>)> = vec![(None, vec![])];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Open { ty, attrs, marks } => {
                stack.push((Some((*ty, attrs.clone(), marks.clone())), vec![]));
            }
            Tok::Close => {
                let (h, c) = stack.pop()?;
                let (ty, attrs, marks) = h?;
                stack.last_mut()?.1.push(M::Node { ty, attrs, marks, children: Some(c) });
            }
            Tok::Leaf { ty, attrs, marks } => {
                let n = M::Node { ty: *ty, attrs: attrs.clone(), marks: marks.clone(), children: None };
                stack.last_mut()?.1.push(n)
            }
            Tok::Unit { c, half, marks } => {
                match half {
                    0 => {}
                    1 => {
                        match toks.get(i + 1) {
                            Some(Tok::Unit { c: c2, half: 2, .. }) if c2 == c => {}
                            _ => return None,
                        }
                        i += 1;
                    }
                    _ => return None,
                }
                let top = &mut stack.last_mut()?.1;
                match top.last_mut() {
                    Some(M::Text { text, marks: m }) if m == marks => text.push(*c),
                    _ => top.push(M::Text { text: c.to_string(), marks: marks.clone() }),
                }
            }
        }
        i += 1;
    }
    if stack.len() != 1 {
        return None;
    }
    Some(stack.pop()?.1)
}

/// No empty texts and no adjacent texts with equal marks, anywhere below
pub fn is_normal(c: &[M]) -> bool {
    for (i, n) in c.iter().enumerate() {
        if let M::Text { text, marks } = n {
            if text.is_empty() {
                return false;
            }
            if i > 0 {
                if let M::Text { marks: m2, .. } = &c[i - 1] {
                    if m2 == marks {
                        return false;
                    }
                }
            }
        }
        if !is_normal(n.kids()) {
            return false;
        }
    }
    true
}
pub fn has_empty_text(c: &[M]) -> bool {
    c.iter().any(|n| matches!(n, M::Text{text,..} if text.is_empty()) || has_empty_text(n.kids()))
}
/// Merge adjacent equal-mark texts and drop empty ones, everywhere below
pub fn normalize(c: &[M]) -> Vec<M> {
    let mut v: Vec<M> = vec![];
    for n in c {
        match n {
            M::Text { text, marks } => {
                if text.is_empty() {
                    continue;
                }
                if let Some(M::Text { text: t, marks: m }) = v.last_mut() {
                    if m == marks {
                        t.push_str(text);
                        continue;
                    }
                }
                v.push(n.clone())
            }
            M::Node { children: Some(k), .. } => v.push(n.with_kids(normalize(k))),
            _ => v.push(n.clone()),
        }
    }
    v
}
pub fn normalize_node(n: &M) -> M {
    match n {
        M::Node { children: Some(k), .. } => n.with_kids(normalize(k)),
        _ => n.clone(),
    }
}

// ------------------------------------------------------------------ schema

#[derive(Clone, Debug)]
pub enum Re {
    T(&'static [Ty]),
    Seq(Vec<Re>),
    Star(Box<Re>),
    Plus(Box<Re>),
    Opt(Box<Re>),
}

#[derive(Clone, Debug)]
pub enum MarkRule {
    All,
    None,
    Only(&'static [usize]),
}

pub struct TypeSpec {
    pub name: &'static str,
    pub leaf: bool,
    pub inline: bool,
    pub block: bool,
    /// in the "block"/"inline" sense of content: textblocks hold text
    pub content: Re,
    pub marks: MarkRule,
    /// nodes of this type can carry marks
    pub markable: bool,
}

pub struct Spec {
    pub types: Vec<TypeSpec>,
    pub text: Ty,
    pub top: Ty,
    pub nmarks: usize,
    pub names: &'static [&'static str],
}

impl Re {
    /// All ways to match a prefix of `xs`: the set of end positions
    pub fn ends(&self, xs: &[Ty], from: usize) -> Vec<usize> {
        let mut v = match self {
            Re::T(ts) => {
                if from < xs.len() && ts.contains(&xs[from]) {
                    vec![from + 1]
                } else {
                    vec![]
                }
            }
            Re::Seq(rs) => {
                let mut cur = vec![from];
                for r in rs {
                    let mut nx = vec![];
                    for c in cur {
                        nx.extend(r.ends(xs, c));
                    }
                    nx.sort();
                    nx.dedup();
                    cur = nx;
                }
                cur
            }
            Re::Opt(r) => {
                let mut v = r.ends(xs, from);
                v.push(from);
                v
            }
            Re::Star(r) => star(r, xs, from, true),
            Re::Plus(r) => star(r, xs, from, false),
        };
        v.sort();
        v.dedup();
        v
    }
    pub fn matches(&self, xs: &[Ty]) -> bool {
        self.ends(xs, 0).contains(&xs.len())
    }
    pub fn first(&self) -> Vec<Ty> {
        match self {
            Re::T(ts) => ts.to_vec(),
            Re::Seq(rs) => {
                let mut v = vec![];
                for r in rs {
                    v.extend(r.first());
                    if !r.nullable() {
                        break;
                    }
                }
                v
            }
            Re::Star(r) | Re::Plus(r) | Re::Opt(r) => r.first(),
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Re::T(_) => false,
            Re::Seq(rs) => rs.iter().all(|r| r.nullable()),
            Re::Star(_) | Re::Opt(_) => true,
            Re::Plus(r) => r.nullable(),
        }
    }
    /// Can `xs` be extended to a match? (every type of the schemas used here can follow)
    pub fn viable(&self, xs: &[Ty]) -> bool {
        self.prefix(xs, 0).1
    }
    /// (ends of full matches from `from`, whether all of xs[from..] can be a proper or full prefix of a match)
    fn prefix(&self, xs: &[Ty], from: usize) -> (Vec<usize>, bool) {
        let n = xs.len();
        let (e, v) = match self {
            Re::T(ts) => {
                if from == n {
                    (vec![], true)
                } else if ts.contains(&xs[from]) {
                    (vec![from + 1], from + 1 == n)
                } else {
                    (vec![], false)
                }
            }
            Re::Seq(rs) => {
                let mut cur = vec![from];
                let mut viable = from == n;
                for r in rs {
                    let mut nx = vec![];
                    for c in cur {
                        let (e, v) = r.prefix(xs, c);
                        viable |= v;
                        nx.extend(e);
                    }
                    nx.sort();
                    nx.dedup();
                    cur = nx;
                }
                viable |= cur.contains(&n);
                (cur, viable)
            }
            Re::Opt(r) => {
                let (mut e, v) = r.prefix(xs, from);
                e.push(from);
                let v = v || from == n;
                (e, v)
            }
            Re::Star(r) | Re::Plus(r) => {
                let e = star(r, xs, from, matches!(self, Re::Star(_)));
                let mut starts = star(r, xs, from, true);
                starts.push(from);
                let mut v = e.contains(&n) || from == n;
                for s in starts {
                    v |= r.prefix(xs, s).1;
                }
                (e, v)
            }
        };
        (e, v)
    }
}
fn star(r: &Re, xs: &[Ty], from: usize, zero: bool) -> Vec<usize> {
    let mut seen = vec![];
    let mut todo = vec![from];
    let mut out = vec![];
    if zero {
        out.push(from);
    }
    while let Some(p) = todo.pop() {
        if seen.contains(&p) {
            continue;
        }
        seen.push(p);
        for e in r.ends(xs, p) {
            out.push(e);
            if e > p {
                todo.push(e);
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

impl Spec {
    pub fn allows(&self, ty: Ty, marks: &Marks) -> bool {
        match &self.types[ty].marks {
            MarkRule::All => true,
            MarkRule::None => marks.is_empty(),
            MarkRule::Only(xs) => marks.iter().all(|m| xs.contains(&m.ty)),
        }
    }
    pub fn content_ok(&self, ty: Ty, kids: &[M]) -> bool {
        let tys: Vec<Ty> = kids.iter().map(|k| k.ty(self.text)).collect();
        self.re_match(ty, &tys) && kids.iter().all(|k| self.allows(ty, k.marks()))
    }
    pub fn re_match(&self, ty: Ty, tys: &[Ty]) -> bool {
        // fast path for long homogeneous starred content, otherwise the general matcher
        match &self.types[ty].content {
            Re::Star(b) | Re::Plus(b) if matches!(**b, Re::T(_)) => {
                let ts = match &**b {
                    Re::T(t) => *t,
                    _ => unreachable!(),
                };
                let plus = matches!(self.types[ty].content, Re::Plus(_));
                (!plus || !tys.is_empty()) && tys.iter().all(|t| ts.contains(t))
            }
            r => r.matches(tys),
        }
    }
    /// Whole-tree validity
    pub fn valid(&self, n: &M) -> bool {
        match n {
            M::Text { .. } => true,
            M::Node { ty, children, .. } => {
                let t = &self.types[*ty];
                match children {
                    None => t.leaf,
                    Some(k) => !t.leaf && self.content_ok(*ty, k) && k.iter().all(|c| self.valid(c)),
                }
            }
        }
    }
    pub fn compatible(&self, a: Ty, b: Ty) -> bool {
        if a == b {
            return true;
        }
        let fa = self.types[a].content.first();
        let fb = self.types[b].content.first();
        fa.iter().any(|x| fb.contains(x))
    }
}

// ------------------------------------------------------------------ positions

/// One level of a resolved position in the model
#[derive(Clone, Debug)]
pub struct Level<'a> {
    pub node: &'a M,
    pub index: usize,
    /// absolute position of the start of this node's content
    pub start: usize,
    /// absolute position before the child at `index` (or the end of content)
    pub before: usize,
}

#[derive(Clone, Debug)]
pub struct Res<'a> {
    pub pos: usize,
    pub path: Vec<Level<'a>>,
    /// distance into the text child at `index` of the last level, 0 at boundaries
    pub text_offset: usize,
}

impl<'a> Res<'a> {
    pub fn depth(&self) -> usize {
        self.path.len() - 1
    }
    pub fn last(&self) -> &Level<'a> {
        self.path.last().unwrap()
    }
    pub fn shared(&self, pos: usize) -> usize {
        let mut d = 0;
        for (i, l) in self.path.iter().enumerate() {
            if l.start <= pos && pos <= l.start + l.node.content_size() {
                d = i;
            }
        }
        d
    }
}

fn mid_char(text: &str, off: usize) -> bool {
    let mut p = 0;
    for c in text.chars() {
        if p == off {
            return false;
        }
        p += c.len_utf16();
        if p > off {
            return p != off && p - off < c.len_utf16();
        }
    }
    false
}

/// `None`: out of range or inside of a character
pub fn resolve(root: &M, pos: usize) -> Option<Res<'_>> {
    if pos > root.content_size() {
        return None;
    }
    let mut path = vec![];
    let mut node = root;
    let mut start = 0;
    'down: loop {
        let mut off = start;
        for (i, k) in node.kids().iter().enumerate() {
            if pos == off {
                path.push(Level { node, index: i, start, before: off });
                return Some(Res { pos, path, text_offset: 0 });
            }
            let end = off + k.size();
            if pos < end {
                path.push(Level { node, index: i, start, before: off });
                if let M::Text { text, .. } = k {
                    if mid_char(text, pos - off) {
                        return None;
                    }
                    return Some(Res { pos, path, text_offset: pos - off });
                }
                node = k;
                start = off + 1;
                continue 'down;
            }
            off = end;
        }
        path.push(Level { node, index: node.kids().len(), start, before: off });
        return Some(Res { pos, path, text_offset: 0 });
    }
}

/// All positions of a document that resolve
pub fn positions(root: &M) -> Vec<usize> {
    let t = tokens(root.kids());
    let mut v = vec![];
    for i in 0..=t.len() {
        if !matches!(t.get(i), Some(Tok::Unit { half: 2, .. })) {
            v.push(i);
        }
    }
    v
}

pub fn is_pos(toks: &[Tok], i: usize) -> bool {
    i <= toks.len() && !matches!(toks.get(i), Some(Tok::Unit { half: 2, .. }))
}

// ------------------------------------------------------------------ slices and replacement

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MSlice {
    pub content: Vec<M>,
    pub os: usize,
    pub oe: usize,
}

impl MSlice {
    pub fn empty() -> MSlice {
        MSlice { content: vec![], os: 0, oe: 0 }
    }
    pub fn well_formed(&self) -> bool {
        self.os <= left_spine(&self.content).len() && self.oe <= right_spine(&self.content).len()
    }
    /// The tokens that get inserted
    pub fn toks(&self) -> Vec<Tok> {
        let t = tokens(&self.content);
        t[self.os..t.len() - self.oe].to_vec()
    }
    pub fn size(&self) -> usize {
        csize(&self.content) - self.os - self.oe
    }
}

pub fn left_spine(c: &[M]) -> Vec<&M> {
    let mut v = vec![];
    let mut c = c;
    while let Some(n) = c.first() {
        if !n.has_content() {
            break;
        }
        v.push(n);
        c = n.kids();
    }
    v
}
pub fn right_spine(c: &[M]) -> Vec<&M> {
    let mut v = vec![];
    let mut c = c;
    while let Some(n) = c.last() {
        if !n.has_content() {
            break;
        }
        v.push(n);
        c = n.kids();
    }
    v
}

/// The sub-tree of content tokens `a..b`, re-wrapped in the nodes they are in, together with how many
/// nodes are open on each side at the level of `c`.
pub fn cut(c: &[M], a: usize, b: usize) -> Vec<M> {
    let mut v = vec![];
    let mut off = 0;
    if a >= b {
        return v;
    }
    for n in c {
        let end = off + n.size();
        if end > a && off < b {
            if a <= off && end <= b {
                v.push(n.clone());
            } else {
                match n {
                    M::Text { text, marks } => {
                        let lo = a.saturating_sub(off);
                        let hi = (b - off).min(n.size());
                        let mut p = 0;
                        let mut s = String::new();
                        for ch in text.chars() {
                            if p >= lo && p < hi {
                                s.push(ch);
                            }
                            p += ch.len_utf16();
                        }
                        v.push(M::Text { text: s, marks: marks.clone() });
                    }
                    _ => {
                        let ka = a.saturating_sub(off + 1);
                        let kb = b.saturating_sub(off + 1).min(n.content_size());
                        v.push(n.with_kids(cut(n.kids(), ka, kb)));
                    }
                }
            }
        }
        off = end;
    }
    v
}

/// Model of slicing; `None` if a position is invalid
pub fn slice(root: &M, a: usize, b: usize, parents: bool) -> Option<MSlice> {
    if a == b {
        return Some(MSlice::empty());
    }
    let ra = resolve(root, a)?;
    let rb = resolve(root, b)?;
    let d = if parents { 0 } else { ra.shared(b) };
    let l = &ra.path[d];
    Some(MSlice {
        content: cut(l.node.kids(), a - l.start, b - l.start),
        os: ra.depth() - d,
        oe: rb.depth() - d,
    })
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Refuse {
    Position,
    MalformedSlice,
    Depth,
    Join(Ty, Ty),
    Invalid,
    Structure,
    GapNotFlat,
    Insert,
}

/// Replacement as token splicing. Exact for valid documents and slices whose closed nodes are valid.
pub fn replace(spec: &Spec, root: &M, a: usize, b: usize, s: &MSlice) -> Result<M, Refuse> {
    if a > b {
        return Err(Refuse::Position);
    }
    let ra = resolve(root, a).ok_or(Refuse::Position)?;
    let rb = resolve(root, b).ok_or(Refuse::Position)?;
    if !s.well_formed() {
        return Err(Refuse::MalformedSlice);
    }
    if s.os > ra.depth() || s.oe > rb.depth() || ra.depth() - s.os != rb.depth() - s.oe {
        return Err(Refuse::Depth);
    }
    // joins
    let ty = |n: &M| n.ty(spec.text);
    let mut joins: Vec<(Ty, Ty)> = vec![];
    if csize(&s.content) == 0 {
        for d in 1..=ra.depth() {
            joins.push((ty(ra.path[d].node), ty(rb.path[d].node)));
        }
    } else {
        let extra = ra.depth() - s.os;
        let ls = left_spine(&s.content);
        let rs = right_spine(&s.content);
        for d in extra + 1..=ra.depth() {
            joins.push((ty(ra.path[d].node), ty(ls[d - extra - 1])));
        }
        for d in 1..=rb.depth() {
            let l = if d <= extra { ty(ra.path[d].node) } else { ty(rs[d - extra - 1]) };
            joins.push((l, ty(rb.path[d].node)));
        }
    }
    for (x, y) in joins {
        if !spec.compatible(x, y) {
            return Err(Refuse::Join(x, y));
        }
    }
    let t = tokens(root.kids());
    let mut out = t[..a].to_vec();
    out.extend(s.toks());
    out.extend_from_slice(&t[b..]);
    let kids = parse(&out).ok_or(Refuse::Depth)?;
    let res = root.with_kids(kids);
    if !spec.valid(&res) {
        return Err(Refuse::Invalid);
    }
    Ok(res)
}

/// Does the token range consist of closing tokens followed by opening tokens only?
pub fn structural(t: &[Tok]) -> bool {
    let mut opened = false;
    for x in t {
        match x {
            Tok::Close if !opened => {}
            Tok::Open { .. } => opened = true,
            _ => return false,
        }
    }
    true
}

/// Insert `gap` into the slice at distance `insert` from its start. The node the gap ends up in must be
/// complete and valid unless it is one of the slice's open nodes.
/// Where in the content an insertion position of the slice is: between its open ends
pub fn insert_pos(s: &MSlice, insert: usize) -> Option<usize> {
    let t = tokens(&s.content);
    insert.checked_add(s.os).filter(|at| *at <= t.len().saturating_sub(s.oe) && is_pos(&t, *at))
}
pub fn insert_into_slice(s: &MSlice, insert: usize, gap: &[M]) -> Result<MSlice, Refuse> {
    let t = tokens(&s.content);
    let at = insert_pos(s, insert).ok_or(Refuse::Insert)?;
    let mut out = t[..at].to_vec();
    out.extend(tokens(gap));
    out.extend_from_slice(&t[at..]);
    let content = parse(&out).ok_or(Refuse::Insert)?;
    Ok(MSlice { content, os: s.os, oe: s.oe })
}

#[allow(clippy::too_many_arguments)]
pub fn replace_around(
    spec: &Spec,
    root: &M,
    a: usize,
    b: usize,
    ga: usize,
    gb: usize,
    s: &MSlice,
    insert: usize,
    structure: bool,
) -> Result<M, Refuse> {
    let t = tokens(root.kids());
    if !(a <= ga && ga <= gb && gb <= b && b <= t.len()) {
        return Err(Refuse::Position);
    }
    if structure && !(structural(&t[a..ga]) && structural(&t[gb..b])) {
        return Err(Refuse::Structure);
    }
    let gap = if ga == gb {
        vec![]
    } else {
        let g = slice(root, ga, gb, false).ok_or(Refuse::Position)?;
        if g.os != 0 || g.oe != 0 {
            return Err(Refuse::GapNotFlat);
        }
        g.content
    };
    if !s.well_formed() {
        return Err(Refuse::MalformedSlice);
    }
    let full = insert_into_slice(s, insert, &gap)?;
    replace(spec, root, a, b, &full)
}

/// Map every inline text/leaf/open token in `a..b` with its parent type
pub fn map_marks(spec: &Spec, root: &M, a: usize, b: usize, f: &dyn Fn(&Marks, Ty) -> Marks) -> M {
    let toks = tokens(root.kids());
    let mut stack: Vec<Ty> = vec![root.ty(spec.text)];
    let mut out = vec![];
    for (i, t) in toks.iter().enumerate() {
        let parent = *stack.last().unwrap();
        let inside = i >= a && i < b;
        out.push(match t {
            Tok::Unit { c, half, marks } => {
                Tok::Unit { c: *c, half: *half, marks: if inside { f(marks, parent) } else { marks.clone() } }
            }
            Tok::Leaf { ty, attrs, marks } => Tok::Leaf {
                ty: *ty,
                attrs: attrs.clone(),
                marks: if inside && spec.types[*ty].inline && spec.types[*ty].markable {
                    f(marks, parent)
                } else {
                    marks.clone()
                },
            },
            Tok::Open { ty, attrs, marks } => {
                stack.push(*ty);
                Tok::Open {
                    ty: *ty,
                    attrs: attrs.clone(),
                    marks: if inside && spec.types[*ty].inline && spec.types[*ty].markable {
                        f(marks, parent)
                    } else {
                        marks.clone()
                    },
                }
            }
            Tok::Close => {
                stack.pop();
                Tok::Close
            }
        });
    }
    root.with_kids(parse(&out).expect("balanced"))
}

pub fn add_mark(set: &Marks, m: &MMark) -> Marks {
    let mut v: Marks = set.iter().filter(|x| x.ty != m.ty).cloned().collect();
    v.push(m.clone());
    v.sort();
    v
}
pub fn remove_mark(set: &Marks, m: &MMark) -> Marks {
    set.iter().filter(|x| *x != m).cloned().collect()
}
