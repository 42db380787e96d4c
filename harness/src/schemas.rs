//! The two schemas the checks run on: the crate's Markdown schema and a test schema `X` that
//! exercises what Markdown cannot (ordered content expressions, marks on leaves and on inline nodes
//! with content, per-type mark restrictions).
use crate::engine::Src;
use crate::model::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::ops::RangeBounds;
use std::sync::OnceLock;

pub trait TS: Schema + 'static {
    const NAME: &'static str;
    fn spec() -> &'static Spec;
    fn to_m(n: &Self::Node) -> M;
    fn from_m(m: &M) -> Self::Node;
    fn mark_to(m: &Self::Mark) -> MMark;
    fn mark_from(m: &MMark) -> Self::Mark;
    fn nt(ty: Ty) -> Self::NodeType;
    fn nt_ix(t: Self::NodeType) -> Ty;
    fn gen_attrs(src: &mut Src, ty: Ty) -> Attrs;
    fn gen_mark(src: &mut Src) -> MMark;
    fn set_from(ms: &Marks) -> MarkSet<Self> {
        let mut s = MarkSet::default();
        for m in ms {
            s.add(&Self::mark_from(m));
        }
        s
    }
    fn set_to(s: &MarkSet<Self>) -> Marks {
        s.into_iter().map(|m| Self::mark_to(m)).collect()
    }
    fn frag_from(c: &[M]) -> Fragment<Self> {
        Fragment::from(c.iter().map(|m| Self::from_m(m)).collect::<Vec<_>>())
    }
    fn frag_to(f: &Fragment<Self>) -> Vec<M> {
        f.children().iter().map(|n| Self::to_m(n)).collect()
    }
    fn slice_from(s: &MSlice) -> Slice<Self> {
        Slice::new(Self::frag_from(&s.content), s.os, s.oe)
    }
    fn slice_to(s: &Slice<Self>) -> MSlice {
        MSlice { content: Self::frag_to(&s.content), os: s.open_start, oe: s.open_end }
    }
}

fn t(name: &'static str, leaf: bool, inline: bool, block: bool, content: Re, marks: MarkRule, markable: bool) -> TypeSpec {
    TypeSpec { name, leaf, inline, block, content, marks, markable }
}
fn star(x: &'static [Ty]) -> Re {
    Re::Star(Box::new(Re::T(x)))
}
fn plus(x: &'static [Ty]) -> Re {
    Re::Plus(Box::new(Re::T(x)))
}
fn empty() -> Re {
    Re::Seq(vec![])
}

// ---------------------------------------------------------------- Markdown

pub mod md {
    pub const DOC: usize = 0;
    pub const HEADING: usize = 1;
    pub const CODE_BLOCK: usize = 2;
    pub const TEXT: usize = 3;
    pub const BLOCKQUOTE: usize = 4;
    pub const PARAGRAPH: usize = 5;
    pub const BULLET_LIST: usize = 6;
    pub const ORDERED_LIST: usize = 7;
    pub const LIST_ITEM: usize = 8;
    pub const RULE: usize = 9;
    pub const HARD_BREAK: usize = 10;
    pub const IMAGE: usize = 11;
    pub const STRONG: usize = 0;
    pub const EM: usize = 1;
    pub const CODE: usize = 2;
    pub const LINK: usize = 3;
}

pub const MD_NAMES: &[&str] = &[
    "doc", "heading", "code_block", "text", "blockquote", "paragraph", "bullet_list", "ordered_list", "list_item",
    "horizontal_rule", "hard_break", "image",
];
pub const MD_MARKS: &[&str] = &["strong", "em", "code", "link"];

/// The block group of the prosemirror-markdown schema
pub const MD_BLOCK: &[Ty] =
    &[md::PARAGRAPH, md::BLOCKQUOTE, md::HEADING, md::CODE_BLOCK, md::BULLET_LIST, md::ORDERED_LIST, md::RULE];
pub const MD_INLINE: &[Ty] = &[md::TEXT, md::IMAGE, md::HARD_BREAK];

impl TS for MD {
    const NAME: &'static str = "md";
    fn spec() -> &'static Spec {
        static S: OnceLock<Spec> = OnceLock::new();
        S.get_or_init(|| Spec {
            types: vec![
                t("doc", false, false, false, plus(MD_BLOCK), MarkRule::None, false),
                t("heading", false, false, true, star(&[md::TEXT, md::IMAGE]), MarkRule::All, false),
                t("code_block", false, false, true, star(&[md::TEXT]), MarkRule::None, false),
                t("text", true, true, false, empty(), MarkRule::All, true),
                t("blockquote", false, false, true, plus(MD_BLOCK), MarkRule::None, false),
                t("paragraph", false, false, true, star(MD_INLINE), MarkRule::All, false),
                t("bullet_list", false, false, true, plus(&[md::LIST_ITEM]), MarkRule::None, false),
                t("ordered_list", false, false, true, plus(&[md::LIST_ITEM]), MarkRule::None, false),
                t(
                    "list_item",
                    false,
                    false,
                    false,
                    Re::Seq(vec![Re::T(&[md::PARAGRAPH]), star(MD_BLOCK)]),
                    MarkRule::None,
                    false,
                ),
                t("horizontal_rule", true, false, true, empty(), MarkRule::All, false),
                t("hard_break", true, true, false, empty(), MarkRule::All, false),
                t("image", true, true, false, empty(), MarkRule::All, false),
            ],
            text: md::TEXT,
            top: md::DOC,
            nmarks: 4,
            names: MD_NAMES,
        })
    }
    fn to_m(n: &MarkdownNode) -> M {
        let node = |ty: Ty, attrs: Attrs, c: &Fragment<MD>| M::Node {
            ty,
            attrs,
            marks: vec![],
            children: Some(MD::frag_to(c)),
        };
        let leaf = |ty: Ty, attrs: Attrs| M::Node { ty, attrs, marks: vec![], children: None };
        match n {
            MarkdownNode::Doc(b) => node(md::DOC, vec![], &b.content),
            MarkdownNode::Heading(b) => node(md::HEADING, vec![AV::N(b.attrs.level as u64)], &b.content),
            MarkdownNode::CodeBlock(b) => node(md::CODE_BLOCK, vec![AV::S(b.attrs.params.clone())], &b.content),
            MarkdownNode::Text(t) => M::Text { text: t.text.as_str().to_string(), marks: MD::set_to(&t.marks) },
            MarkdownNode::Blockquote(b) => node(md::BLOCKQUOTE, vec![], &b.content),
            MarkdownNode::Paragraph(b) => node(md::PARAGRAPH, vec![], &b.content),
            MarkdownNode::BulletList(b) => node(md::BULLET_LIST, vec![AV::B(b.attrs.tight)], &b.content),
            MarkdownNode::OrderedList(b) => {
                node(md::ORDERED_LIST, vec![AV::N(b.attrs.order as u64), AV::B(b.attrs.tight)], &b.content)
            }
            MarkdownNode::ListItem(b) => node(md::LIST_ITEM, vec![], &b.content),
            MarkdownNode::HorizontalRule => leaf(md::RULE, vec![]),
            MarkdownNode::HardBreak => leaf(md::HARD_BREAK, vec![]),
            MarkdownNode::Image(l) => leaf(
                md::IMAGE,
                vec![AV::S(l.attrs.src.clone()), AV::S(l.attrs.alt.clone()), AV::S(l.attrs.title.clone())],
            ),
        }
    }
    fn from_m(m: &M) -> MarkdownNode {
        match m {
            M::Text { text, marks } => {
                MarkdownNode::Text(TextNode { marks: MD::set_from(marks), text: Text::from(text.clone()) })
            }
            M::Node { ty, attrs, children, .. } => {
                let content = MD::frag_from(children.as_deref().unwrap_or(&[]));
                let s = |i: usize| match &attrs[i] {
                    AV::S(s) => s.clone(),
                    _ => panic!("attr"),
                };
                let n = |i: usize| match &attrs[i] {
                    AV::N(n) => *n,
                    _ => panic!("attr"),
                };
                let b = |i: usize| match &attrs[i] {
                    AV::B(n) => *n,
                    _ => panic!("attr"),
                };
                match *ty {
                    md::DOC => MarkdownNode::Doc(Block { content }),
                    md::HEADING => {
                        MarkdownNode::Heading(AttrNode { attrs: HeadingAttrs { level: n(0) as u8 }, content })
                    }
                    md::CODE_BLOCK => {
                        MarkdownNode::CodeBlock(AttrNode { attrs: CodeBlockAttrs { params: s(0) }, content })
                    }
                    md::BLOCKQUOTE => MarkdownNode::Blockquote(Block { content }),
                    md::PARAGRAPH => MarkdownNode::Paragraph(Block { content }),
                    md::BULLET_LIST => {
                        MarkdownNode::BulletList(AttrNode { attrs: BulletListAttrs { tight: b(0) }, content })
                    }
                    md::ORDERED_LIST => MarkdownNode::OrderedList(AttrNode {
                        attrs: OrderedListAttrs { order: n(0) as usize, tight: b(1) },
                        content,
                    }),
                    md::LIST_ITEM => MarkdownNode::ListItem(Block { content }),
                    md::RULE => MarkdownNode::HorizontalRule,
                    md::HARD_BREAK => MarkdownNode::HardBreak,
                    md::IMAGE => {
                        MarkdownNode::Image(Leaf { attrs: ImageAttrs { src: s(0), alt: s(1), title: s(2) } })
                    }
                    _ => panic!("type"),
                }
            }
        }
    }
    fn mark_to(m: &MarkdownMark) -> MMark {
        match m {
            MarkdownMark::Strong => MMark { ty: md::STRONG, attrs: vec![] },
            MarkdownMark::Em => MMark { ty: md::EM, attrs: vec![] },
            MarkdownMark::Code => MMark { ty: md::CODE, attrs: vec![] },
            MarkdownMark::Link { attrs } => {
                MMark { ty: md::LINK, attrs: vec![attrs.href.clone(), attrs.title.clone()] }
            }
        }
    }
    fn mark_from(m: &MMark) -> MarkdownMark {
        match m.ty {
            md::STRONG => MarkdownMark::Strong,
            md::EM => MarkdownMark::Em,
            md::CODE => MarkdownMark::Code,
            _ => MarkdownMark::Link { attrs: LinkAttrs { href: m.attrs[0].clone(), title: m.attrs[1].clone() } },
        }
    }
    fn nt(ty: Ty) -> MarkdownNodeType {
        use MarkdownNodeType::*;
        [
            Doc, Heading, CodeBlock, Text, Blockquote, Paragraph, BulletList, OrderedList, ListItem, HorizontalRule,
            HardBreak, Image,
        ][ty]
    }
    fn nt_ix(t: MarkdownNodeType) -> Ty {
        (0..12).find(|i| Self::nt(*i) == t).unwrap()
    }
    fn gen_attrs(src: &mut Src, ty: Ty) -> Attrs {
        match ty {
            md::HEADING => vec![AV::N(match src.weighted(&[80, 20]) {
                0 => *src.pick(&[1, 2, 3, 4, 5, 6, 0, 255]),
                _ => src.below(256) as u64,
            })],
            md::CODE_BLOCK => vec![AV::S(attr_text(src, &["", "rust", "a b", "js", "é\"\\"]))],
            md::BULLET_LIST => vec![AV::B(src.chance(1, 3))],
            md::ORDERED_LIST => vec![AV::N(number(src)), AV::B(src.chance(1, 3))],
            md::IMAGE => {
                let url = attr_text(src, &["", "a.png", "b", "data:😀"]);
                let alt = if src.chance(1, 8) { url.clone() } else { attr_text(src, &["", "alt", "x y"]) };
                let title = if src.chance(1, 8) { src.pick(&[&url, &alt]).to_string() } else { attr_text(src, &["", "t", "T\"q\""]) };
                vec![AV::S(url), AV::S(alt), AV::S(title)]
            }
            _ => vec![],
        }
    }
    fn gen_mark(src: &mut Src) -> MMark {
        let ty = src.below(4);
        let attrs = if ty == md::LINK {
            let href = attr_text(src, &["a", "b", "", "http://x/?y=1"]);
            let title = if src.chance(1, 8) { href.clone() } else { attr_text(src, &["", "t", "u"]) };
            vec![href, title]
        } else {
            vec![]
        };
        MMark { ty, attrs }
    }
}

/// Mostly from a small pool, so that values coincide and differ; sometimes any text
fn attr_text(src: &mut Src, pool: &[&str]) -> String {
    if !src.chance(1, 8) {
        return src.pick(pool).to_string();
    }
    if src.chance(1, 3) {
        return crate::gen::with_literal(src, "x");
    }
    if src.chance(1, 4) {
        // long, the same except perhaps at one place
        let s = "http://example.org/".to_string() + &"a".repeat(*src.pick(&[0, 40, 100, 230, 300]));
        return crate::gen::near(src, &s);
    }
    let alpha = src.below(5);
    let n = src.len(20);
    (0..n).map(|_| crate::gen::gen_char(src, alpha)).collect()
}
/// Any number, of any length
pub fn number(src: &mut Src) -> u64 {
    match src.weighted(&[70, 25, 5]) {
        2 => crate::dict::pick(src, &crate::dict::dict().numbers).copied().unwrap_or(0),
        0 => *src.pick(&[1, 0, 2, 3, 10, 999_999_999, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX]),
        _ => {
            let bits = src.below(65) as u32;
            let top = if bits == 0 { 0 } else { u64::MAX >> (64 - bits) };
            let hi = src.below(1 << 32) as u64;
            let lo = src.below(1 << 32) as u64;
            (hi << 32 | lo) & top
        }
    }
}

// ---------------------------------------------------------------- X

pub mod x {
    pub const DOC: usize = 0;
    pub const TITLE: usize = 1;
    pub const PARA: usize = 2;
    pub const SECTION: usize = 3;
    pub const HEAD: usize = 4;
    pub const FIGURE: usize = 5;
    pub const PIC: usize = 6;
    pub const CAPTION: usize = 7;
    pub const TABLE: usize = 8;
    pub const ROW: usize = 9;
    pub const CELL: usize = 10;
    pub const RULE: usize = 11;
    pub const TEXT: usize = 12;
    pub const EMOJI: usize = 13;
    pub const NOTE: usize = 14;
    pub const PAIR: usize = 15;
}
const X_NAMES: &[&str] = &[
    "doc", "title", "para", "section", "head", "figure", "pic", "caption", "table", "row", "cell", "rule", "text",
    "emoji", "note", "pair",
];
const X_BLOCK: &[Ty] = &[x::PARA, x::SECTION, x::FIGURE, x::TABLE, x::RULE, x::PAIR];

/// The test schema
pub struct X;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct XTy(pub u8);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct XMarkTy(pub u8);
impl MarkType for XMarkTy {}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct XMark {
    pub ty: u8,
    pub attrs: Vec<String>,
}
impl Mark<X> for XMark {
    fn r#type(&self) -> XMarkTy {
        XMarkTy(self.ty)
    }
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub enum XNode {
    Text(TextNode<X>),
    Node { ty: u8, attr: Option<u64>, content: Fragment<X>, marks: MarkSet<X> },
    Leaf { ty: u8, attr: Option<u64>, marks: MarkSet<X> },
}
impl Clone for XNode {
    fn clone(&self) -> Self {
        match self {
            XNode::Text(t) => XNode::Text(t.clone()),
            XNode::Node { ty, attr, content, marks } => {
                XNode::Node { ty: *ty, attr: *attr, content: content.clone(), marks: marks.clone() }
            }
            XNode::Leaf { ty, attr, marks } => XNode::Leaf { ty: *ty, attr: *attr, marks: marks.clone() },
        }
    }
}
impl PartialEq for XNode {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (XNode::Text(a), XNode::Text(b)) => a == b,
            (
                XNode::Node { ty, attr, content, marks },
                XNode::Node { ty: t2, attr: a2, content: c2, marks: m2 },
            ) => ty == t2 && attr == a2 && content == c2 && marks == m2,
            (XNode::Leaf { ty, attr, marks }, XNode::Leaf { ty: t2, attr: a2, marks: m2 }) => {
                ty == t2 && attr == a2 && marks == m2
            }
            _ => false,
        }
    }
}
impl Eq for XNode {}
impl std::fmt::Debug for XNode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        X::to_m(self).fmt(f)
    }
}
impl From<TextNode<X>> for XNode {
    fn from(t: TextNode<X>) -> Self {
        XNode::Text(t)
    }
}
impl Node<X> for XNode {
    fn mark(&self, set: MarkSet<X>) -> Self {
        match self {
            XNode::Text(t) => XNode::Text(TextNode { marks: set, text: t.text.clone() }),
            XNode::Node { ty, attr, content, marks } => XNode::Node {
                ty: *ty,
                attr: *attr,
                content: content.clone(),
                marks: if X::spec().types[*ty as usize].markable { set } else { marks.clone() },
            },
            XNode::Leaf { ty, attr, marks } => XNode::Leaf {
                ty: *ty,
                attr: *attr,
                marks: if X::spec().types[*ty as usize].markable { set } else { marks.clone() },
            },
        }
    }
    fn copy<F>(&self, map: F) -> Self
    where
        F: FnOnce(&Fragment<X>) -> Fragment<X>,
    {
        match self {
            XNode::Node { ty, attr, content, marks } => {
                XNode::Node { ty: *ty, attr: *attr, content: map(content), marks: marks.clone() }
            }
            o => o.clone(),
        }
    }
    fn text_node(&self) -> Option<&TextNode<X>> {
        match self {
            XNode::Text(t) => Some(t),
            _ => None,
        }
    }
    fn new_text_node(node: TextNode<X>) -> Self {
        XNode::Text(node)
    }
    fn text<A: Into<String>>(text: A) -> Self {
        XNode::Text(TextNode { marks: MarkSet::default(), text: Text::from(text.into()) })
    }
    fn content(&self) -> Option<&Fragment<X>> {
        match self {
            XNode::Node { content, .. } => Some(content),
            _ => None,
        }
    }
    fn marks(&self) -> Option<&MarkSet<X>> {
        Some(match self {
            XNode::Text(t) => &t.marks,
            XNode::Node { marks, .. } | XNode::Leaf { marks, .. } => marks,
        })
    }
    fn r#type(&self) -> XTy {
        match self {
            XNode::Text(_) => XTy(x::TEXT as u8),
            XNode::Node { ty, .. } | XNode::Leaf { ty, .. } => XTy(*ty),
        }
    }
    fn is_block(&self) -> bool {
        self.r#type().is_block()
    }
}

/// Content match of X: a set of NFA states
#[derive(Clone, Copy, Debug)]
pub struct XMatch {
    ty: u8,
    set: u64,
}
struct Nfa {
    trans: Vec<(usize, &'static [Ty], usize)>,
    eps: Vec<(usize, usize)>,
    n: usize,
    start: usize,
    end: usize,
}
impl Nfa {
    fn new_state(&mut self) -> usize {
        self.n += 1;
        self.n - 1
    }
    fn close(&self, mut set: u64) -> u64 {
        loop {
            let old = set;
            for (a, b) in &self.eps {
                if set & (1 << a) != 0 {
                    set |= 1 << b;
                }
            }
            if old == set {
                return set;
            }
        }
    }
}
fn nfa(ty: usize) -> &'static Nfa {
    static N: OnceLock<Vec<Nfa>> = OnceLock::new();
    &N.get_or_init(|| {
        X::spec()
            .types
            .iter()
            .map(|t| {
                let mut n = Nfa { trans: vec![], eps: vec![], n: 0, start: 0, end: 0 };
                let (s, e) = build(&mut n, &t.content);
                n.start = s;
                n.end = e;
                assert!(n.n <= 64);
                n
            })
            .collect()
    })[ty]
}
fn build(n: &mut Nfa, r: &Re) -> (usize, usize) {
    match r {
        Re::T(ts) => {
            let (a, b) = (n.new_state(), n.new_state());
            n.trans.push((a, ts, b));
            (a, b)
        }
        Re::Seq(rs) => {
            let a = n.new_state();
            let mut cur = a;
            for r in rs {
                let (s, e) = build(n, r);
                n.eps.push((cur, s));
                cur = e;
            }
            (a, cur)
        }
        Re::Star(i) | Re::Plus(i) | Re::Opt(i) => {
            let (a, b) = (n.new_state(), n.new_state());
            let (s, e) = build(n, i);
            n.eps.push((a, s));
            n.eps.push((e, b));
            if !matches!(r, Re::Plus(_)) {
                n.eps.push((a, b));
            }
            if !matches!(r, Re::Opt(_)) {
                n.eps.push((e, s));
            }
            (a, b)
        }
    }
}

impl ContentMatch<X> for XMatch {
    fn match_fragment_range<R: RangeBounds<usize>>(self, fragment: &Fragment<X>, range: R) -> Option<Self> {
        let from = match range.start_bound() {
            std::ops::Bound::Included(x) => *x,
            std::ops::Bound::Excluded(x) => *x + 1,
            std::ops::Bound::Unbounded => 0,
        };
        let to = match range.end_bound() {
            std::ops::Bound::Included(x) => *x + 1,
            std::ops::Bound::Excluded(x) => *x,
            std::ops::Bound::Unbounded => fragment.child_count(),
        };
        let mut m = self;
        for c in &fragment.children()[from..to] {
            m = m.match_type(c.r#type())?;
        }
        Some(m)
    }
    fn valid_end(self) -> bool {
        self.set & (1 << nfa(self.ty as usize).end) != 0
    }
    fn match_type(self, t: XTy) -> Option<Self> {
        let n = nfa(self.ty as usize);
        let mut s = 0;
        for (a, ts, b) in &n.trans {
            if self.set & (1 << a) != 0 && ts.contains(&(t.0 as usize)) {
                s |= 1 << b;
            }
        }
        if s == 0 {
            None
        } else {
            Some(XMatch { ty: self.ty, set: n.close(s) })
        }
    }
}

impl NodeType<X> for XTy {
    fn compatible_content(self, other: Self) -> bool {
        X::spec().compatible(self.0 as usize, other.0 as usize)
    }
    fn valid_content(self, fragment: &Fragment<X>) -> bool {
        match self.content_match().match_fragment(fragment) {
            Some(m) if m.valid_end() => {
                fragment.children().iter().all(|c| c.marks().map_or(true, |m| self.allow_marks(m)))
            }
            _ => false,
        }
    }
    fn allows_mark_type(self, m: XMarkTy) -> bool {
        match &X::spec().types[self.0 as usize].marks {
            MarkRule::All => true,
            MarkRule::None => false,
            MarkRule::Only(x) => x.contains(&(m.0 as usize)),
        }
    }
    fn content_match(self) -> XMatch {
        let n = nfa(self.0 as usize);
        XMatch { ty: self.0, set: n.close(1 << n.start) }
    }
    fn allow_marks(self, marks: &MarkSet<X>) -> bool {
        X::spec().allows(self.0 as usize, &X::set_to(marks))
    }
    fn is_block(self) -> bool {
        !X::spec().types[self.0 as usize].inline
    }
}

impl Schema for X {
    type Mark = XMark;
    type MarkType = XMarkTy;
    type Node = XNode;
    type NodeType = XTy;
    type ContentMatch = XMatch;
}

impl TS for X {
    const NAME: &'static str = "x";
    fn spec() -> &'static Spec {
        static S: OnceLock<Spec> = OnceLock::new();
        S.get_or_init(|| {
            let inl: &'static [Ty] = &[x::TEXT, x::EMOJI, x::NOTE];
            Spec {
                types: vec![
                    t(
                        "doc",
                        false,
                        false,
                        false,
                        Re::Seq(vec![Re::Opt(Box::new(Re::T(&[x::TITLE]))), plus(X_BLOCK)]),
                        MarkRule::None,
                        false,
                    ),
                    t("title", false, false, true, star(&[x::TEXT]), MarkRule::None, false),
                    t("para", false, false, true, star(inl), MarkRule::All, false),
                    t(
                        "section",
                        false,
                        false,
                        true,
                        Re::Seq(vec![Re::T(&[x::HEAD]), plus(X_BLOCK)]),
                        MarkRule::None,
                        false,
                    ),
                    t("head", false, false, true, star(&[x::TEXT, x::EMOJI]), MarkRule::Only(&[0, 1]), false),
                    t(
                        "figure",
                        false,
                        false,
                        true,
                        Re::Seq(vec![Re::T(&[x::PIC]), Re::Opt(Box::new(Re::T(&[x::CAPTION])))]),
                        MarkRule::None,
                        false,
                    ),
                    t("pic", true, false, true, empty(), MarkRule::None, false),
                    t("caption", false, false, true, star(&[x::TEXT, x::NOTE]), MarkRule::Only(&[1]), false),
                    t("table", false, false, true, plus(&[x::ROW]), MarkRule::None, false),
                    t("row", false, false, true, plus(&[x::CELL]), MarkRule::None, false),
                    t("cell", false, false, true, plus(&[x::PARA]), MarkRule::None, false),
                    t("rule", true, false, true, empty(), MarkRule::None, false),
                    t("text", true, true, false, empty(), MarkRule::All, true),
                    t("emoji", true, true, false, empty(), MarkRule::All, true),
                    t("note", false, true, false, star(&[x::TEXT]), MarkRule::All, true),
                    t(
                        "pair",
                        false,
                        false,
                        true,
                        Re::Seq(vec![Re::T(&[x::PARA]), Re::T(&[x::PARA])]),
                        MarkRule::None,
                        false,
                    ),
                ],
                text: x::TEXT,
                top: x::DOC,
                nmarks: 4,
                names: X_NAMES,
            }
        })
    }
    fn to_m(n: &XNode) -> M {
        let at = |a: &Option<u64>| a.map(AV::N).into_iter().collect::<Vec<_>>();
        match n {
            XNode::Text(t) => M::Text { text: t.text.as_str().to_string(), marks: X::set_to(&t.marks) },
            XNode::Node { ty, attr, content, marks } => M::Node {
                ty: *ty as usize,
                attrs: at(attr),
                marks: X::set_to(marks),
                children: Some(X::frag_to(content)),
            },
            XNode::Leaf { ty, attr, marks } => {
                M::Node { ty: *ty as usize, attrs: at(attr), marks: X::set_to(marks), children: None }
            }
        }
    }
    fn from_m(m: &M) -> XNode {
        match m {
            M::Text { text, marks } => {
                XNode::Text(TextNode { marks: X::set_from(marks), text: Text::from(text.clone()) })
            }
            M::Node { ty, attrs, marks, children } => {
                let attr = attrs.first().map(|a| match a {
                    AV::N(n) => *n,
                    _ => panic!("attr"),
                });
                match children {
                    Some(c) => XNode::Node {
                        ty: *ty as u8,
                        attr,
                        content: X::frag_from(c),
                        marks: X::set_from(marks),
                    },
                    None => XNode::Leaf { ty: *ty as u8, attr, marks: X::set_from(marks) },
                }
            }
        }
    }
    fn mark_to(m: &XMark) -> MMark {
        MMark { ty: m.ty as usize, attrs: m.attrs.clone() }
    }
    fn mark_from(m: &MMark) -> XMark {
        XMark { ty: m.ty as u8, attrs: m.attrs.clone() }
    }
    fn nt(ty: Ty) -> XTy {
        XTy(ty as u8)
    }
    fn nt_ix(t: XTy) -> Ty {
        t.0 as usize
    }
    fn gen_attrs(src: &mut Src, ty: Ty) -> Attrs {
        match ty {
            x::PARA | x::EMOJI | x::PIC | x::CELL | x::NOTE => vec![AV::N(src.below(3) as u64)],
            x::HEAD => vec![AV::N(1 + src.below(3) as u64)],
            _ => vec![],
        }
    }
    fn gen_mark(src: &mut Src) -> MMark {
        let ty = src.below(4);
        let attrs = if ty % 2 == 1 { vec![attr_text(src, &["a", "b", ""])] } else { vec![] };
        MMark { ty, attrs }
    }
}

#[allow(unused)]
fn _assert(v: Vec<XMark>) {
    let _ = MarkSet::<X>::try_from(v);
}
