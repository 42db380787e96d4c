//! C20 import structure, C21 import validity, C22 export/import, C23 fixed point
use super::tree::check_sizes;
use crate::dict;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use prosemirror::markdown::*;
use pulldown_cmark::{CodeBlockKind, Event, LinkType, Parser, Tag};

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "a Markdown text written from a random structure, a mutation of one, or a soup of Markdown pieces, imported and compared with an independent tree built from the CommonMark parser's events, and for written texts with the structure itself; non-trivial: the text has at least 3 nodes below the document or a marked text, and the import is determined (document or required error)",
            assumptions: &[
                "the CommonMark parser (pulldown-cmark) is trusted: inputs on which it panics are skipped",
                "soft breaks may be refused or read as white space; list tightness is not compared; line breaks inside of an image description are not compared",
            ],
            subs: &[
                Sub { name: "written", f: c20_written, quick: 60000 },
                Sub { name: "any", f: c20_any, quick: 60000 },
                Sub { name: "big", f: |s, c| big(20, s, c, c20_written, c20_any), quick: 500 },
            ],
            fixed: Some(c20_fixed),
        },
        Property {
            id: "C21",
            rule: "any text: written Markdown, mutations, soups of Markdown pieces, random characters; non-trivial: the import succeeded with at least 3 nodes, or it was refused",
            assumptions: &["inputs on which the CommonMark parser itself panics are skipped"],
            subs: &[
                Sub { name: "any", f: c21, quick: 150000 },
                Sub { name: "big", f: |s, c| big(20, s, c, c21, c21), quick: 500 },
            ],
            fixed: Some(c21_fixed),
        },
        Property {
            id: "C22",
            rule: "roundtrip: a document from the plain domain (see assumptions) exported and imported again; total: any schema-valid document exported; non-trivial: at least two blocks or a marked text, break or image",
            assumptions: &[
                "plain domain: words and single spaces, no Markdown punctuation; marked runs and code are set off by spaces or block edges or nest; no break at an edge of a block or run, no image at an edge or line edge of a marked run; heading levels 1-6; list start up to 999999999; tight=false; no empty paragraph (except as the first block of a list item, of an otherwise empty quote or document); no two adjacent lists of one kind; link and image URLs without spaces or parentheses; code without runs of back-ticks, code info words",
            ],
            subs: &[
                Sub { name: "roundtrip", f: c22, quick: 80000 },
                Sub { name: "total", f: c22_total, quick: 20000 },
                Sub { name: "big", f: |s, c| big(20, s, c, c22, c22_total), quick: 500 },
            ],
            fixed: Some(c22_fixed),
        },
        Property {
            id: "C23",
            rule: "a plainly written Markdown text imported, exported, imported again; non-trivial: the import succeeded and has at least two blocks or a marked text",
            assumptions: &["plain words, no two adjacent lists of one kind, otherwise any way CommonMark allows to write headings, code, lists, emphasis, links and breaks"],
            subs: &[
                Sub { name: "written", f: c23, quick: 80000 },
                Sub { name: "big", f: |s, c| big(20, s, c, c23, c23), quick: 500 },
            ],
            fixed: Some(c23_fixed),
        },
    ]
}

// ---------------------------------------------------------------- the structure CommonMark assigns

#[derive(Debug, PartialEq)]
enum Imp {
    /// must be refused
    Unsupported(&'static str),
    /// may be refused or read in some way
    Open(&'static str),
}

struct Ev<'a> {
    v: Vec<Event<'a>>,
    i: usize,
    open: Option<&'static str>,
    soft: &'static str,
}
fn el(ty: Ty, attrs: Attrs, kids: Vec<M>) -> M {
    M::Node { ty, attrs, marks: vec![], children: Some(kids) }
}
fn leaf(ty: Ty, attrs: Attrs) -> M {
    M::Node { ty, attrs, marks: vec![], children: None }
}

impl<'a> Ev<'a> {
    fn next(&mut self) -> Option<Event<'a>> {
        let e = self.v.get(self.i).cloned();
        self.i += 1;
        e
    }
    /// blocks up to the end tag of the enclosing node; loose inline content becomes a paragraph
    fn blocks(&mut self) -> Result<Vec<M>, Imp> {
        let mut out = vec![];
        let mut loose: Vec<M> = vec![];
        loop {
            let is_inline = match self.v.get(self.i) {
                None | Some(Event::End(_)) | Some(Event::Rule) => false,
                Some(Event::Start(t)) => {
                    matches!(t, Tag::Emphasis | Tag::Strong | Tag::Link(..) | Tag::Image(..) | Tag::Strikethrough)
                }
                _ => true,
            };
            if is_inline {
                self.inline_one(&vec![], &mut loose)?;
                continue;
            }
            if !loose.is_empty() {
                out.push(el(md::PARAGRAPH, vec![], std::mem::take(&mut loose)));
            }
            match self.next() {
                None | Some(Event::End(_)) => return Ok(out),
                Some(Event::Rule) => out.push(leaf(md::RULE, vec![])),
                Some(Event::Start(t)) => match t {
                    Tag::Paragraph => {
                        let k = self.inline(&vec![])?;
                        out.push(el(md::PARAGRAPH, vec![], k))
                    }
                    Tag::Heading(n) => {
                        let k = self.inline(&vec![])?;
                        if k.iter().any(|n| matches!(n, M::Node{ty,..} if *ty == md::HARD_BREAK)) {
                            return Err(Imp::Unsupported("break in heading"));
                        }
                        out.push(el(md::HEADING, vec![AV::N(n as u64)], k))
                    }
                    Tag::BlockQuote => {
                        let k = filled(self.blocks()?);
                        out.push(el(md::BLOCKQUOTE, vec![], k))
                    }
                    Tag::CodeBlock(kind) => {
                        let info = match kind {
                            CodeBlockKind::Fenced(s) => s.to_string(),
                            CodeBlockKind::Indented => String::new(),
                        };
                        let mut s = String::new();
                        loop {
                            match self.next() {
                                Some(Event::Text(t)) => s.push_str(&t),
                                Some(Event::End(_)) | None => break,
                                _ => return Err(Imp::Open("code content")),
                            }
                        }
                        if s.ends_with('\n') {
                            s.pop();
                        }
                        let k = if s.is_empty() { vec![] } else { vec![M::text(&s, &[])] };
                        out.push(el(md::CODE_BLOCK, vec![AV::S(info)], k))
                    }
                    Tag::List(start) => {
                        let mut items = vec![];
                        loop {
                            match self.next() {
                                Some(Event::Start(Tag::Item)) => {
                                    let mut k = self.blocks()?;
                                    if !matches!(k.first(), Some(M::Node{ty,..}) if *ty == md::PARAGRAPH) {
                                        k.insert(0, el(md::PARAGRAPH, vec![], vec![]));
                                    }
                                    items.push(el(md::LIST_ITEM, vec![], k));
                                }
                                Some(Event::End(_)) | None => break,
                                _ => return Err(Imp::Open("list content")),
                            }
                        }
                        out.push(match start {
                            None => el(md::BULLET_LIST, vec![AV::B(false)], items),
                            Some(n) => el(md::ORDERED_LIST, vec![AV::N(n), AV::B(false)], items),
                        })
                    }
                    Tag::Item => return Err(Imp::Open("item outside of a list")),
                    _ => return Err(Imp::Unsupported("table or footnote")),
                },
                Some(_) => unreachable!(),
            }
        }
    }
    fn inline(&mut self, marks: &Marks) -> Result<Vec<M>, Imp> {
        let mut out = vec![];
        loop {
            match self.v.get(self.i) {
                None | Some(Event::End(_)) => {
                    self.i += 1;
                    return Ok(out);
                }
                _ => self.inline_one(marks, &mut out)?,
            }
        }
    }
    fn inline_one(&mut self, marks: &Marks, out: &mut Vec<M>) -> Result<(), Imp> {
        let with = |ty: Ty, attrs: Vec<String>| add_mark(marks, &MMark { ty, attrs });
        match self.next().unwrap() {
            Event::Text(t) => out.push(M::text(&t, marks)),
            Event::Code(t) => out.push(M::text(&t, &with(md::CODE, vec![]))),
            Event::SoftBreak => {
                self.open.get_or_insert("soft break");
                out.push(M::text(self.soft, marks))
            }
            Event::HardBreak => out.push(leaf(md::HARD_BREAK, vec![])),
            Event::Html(_) => return Err(Imp::Unsupported("html")),
            Event::FootnoteReference(_) | Event::TaskListMarker(_) => return Err(Imp::Unsupported("extension")),
            Event::Start(t) => match t {
                Tag::Emphasis => out.extend(self.inline(&with(md::EM, vec![]))?),
                Tag::Strong => out.extend(self.inline(&with(md::STRONG, vec![]))?),
                Tag::Link(kind, href, title) => {
                    // the parser leaves it to the reader of its events to complete the target
                    let scheme = if kind == LinkType::Email { "mailto:" } else { "" };
                    out.extend(self.inline(&with(md::LINK, vec![format!("{}{}", scheme, href), title.to_string()]))?)
                }
                Tag::Image(_, src, title) => {
                    let inner = self.inline(&vec![])?;
                    let mut alt = String::new();
                    for n in &inner {
                        match n {
                            M::Text { text, .. } => alt.push_str(text),
                            M::Node { ty: md::IMAGE, attrs, .. } => {
                                if let AV::S(s) = &attrs[1] {
                                    alt.push_str(s)
                                }
                            }
                            _ => {
                                self.open = Some("break in an image description");
                            }
                        }
                    }
                    out.push(leaf(
                        md::IMAGE,
                        vec![AV::S(src.to_string()), AV::S(alt), AV::S(title.to_string())],
                    ))
                }
                Tag::Strikethrough => return Err(Imp::Unsupported("strikethrough")),
                _ => return Err(Imp::Open("block inside of inline content")),
            },
            Event::End(_) | Event::Rule => return Err(Imp::Open("unbalanced")),
        }
        Ok(())
    }
}
fn filled(mut k: Vec<M>) -> Vec<M> {
    if k.is_empty() {
        k.push(el(md::PARAGRAPH, vec![], vec![]));
    }
    k
}

/// The document CommonMark assigns to a text; also what makes it open, if anything
fn expected(text: &str, soft: &'static str) -> Option<(Result<M, Imp>, Option<&'static str>)> {
    let v: Vec<Event> = guarded(|| Parser::new(text).collect()).ok()?;
    let mut ev = Ev { v, i: 0, open: None, soft };
    let mut all = vec![];
    let r = loop {
        match ev.blocks() {
            Err(e) => break Err(e),
            Ok(b) => all.extend(b),
        }
        if ev.i >= ev.v.len() {
            break Ok(el(md::DOC, vec![], normalize(&filled(all))));
        }
    };
    Some((r, ev.open))
}

/// Ignore what the property leaves open: list tightness
fn loosen(m: &M) -> M {
    match m {
        M::Text { .. } => m.clone(),
        M::Node { ty, attrs, marks, children } => {
            let mut attrs = attrs.clone();
            for a in attrs.iter_mut() {
                if let AV::B(b) = a {
                    *b = false;
                }
            }
            M::Node { ty: *ty, attrs, marks: marks.clone(), children: children.as_ref().map(|c| c.iter().map(loosen).collect()) }
        }
    }
}

pub fn parser_ok(s: &str) -> bool {
    guarded(|| Parser::new(s).count()).is_ok()
}

/// What refusals of an import may name
pub const EVENT_NAMES: &[&str] = &[
    "FootnoteDefinition", "FootnoteReference", "Table", "TableHead", "TableRow", "TableCell", "Strikethrough", "Html",
    "SoftBreak", "HardBreak", "TaskListMarker", "Rule", "Code", "Text", "Paragraph", "Heading", "BlockQuote",
    "CodeBlock", "List", "Item", "Emphasis", "Strong", "Link", "Image",
];
/// The constructs the CommonMark parser finds in a text
pub fn event_names(text: &str) -> std::collections::HashSet<&'static str> {
    Parser::new(text)
        .filter_map(|e| {
            let s = format!("{:?}", match e { Event::Start(t) | Event::End(t) => format!("{:?}", t), e => format!("{:?}", e) });
            let s: String = s.trim_matches('"').chars().take_while(|c| c.is_alphanumeric()).collect();
            EVENT_NAMES.iter().copied().find(|n| *n == s)
        })
        .collect()
}

fn check_import(text: &str, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let (want, open) = match expected(text, " ") {
        None => {
            cx.label("the parser panics: skipped");
            return Ok(());
        }
        Some(x) => x,
    };
    let got = guarded(|| from_markdown(text)).map_err(|p| format!("import of {:?} {}", text, p))?;
    match (&want, &got) {
        (Err(Imp::Open(w)), _) => {
            cx.label(w);
        }
        (Err(Imp::Unsupported(w)), Ok(d)) => {
            return Err(format!("import of {:?} ({} cannot be held by the schema) gives {:?}", text, w, MD::to_m(d)));
        }
        (Err(Imp::Unsupported(w)), Err(_)) => {
            cx.label(w);
            cx.label("refused");
            cx.nontrivial = true;
        }
        (Ok(_), Err(e)) => {
            if open.is_none() {
                return Err(format!("import of {:?} is refused: {:?}", text, e));
            }
            cx.label("open, refused");
        }
        (Ok(w), Ok(d)) => {
            let d = loosen(&MD::to_m(d));
            match open {
                None => {
                    ensure!(*w == d, "import of {:?}\n gives    {:?}\n expected {:?}", text, d, w);
                    cx.nontrivial = nodes(w) >= 4 || has_marks(w);
                    cx.label("compared");
                    label_doc(w, cx);
                }
                Some("soft break") => {
                    let alt = expected(text, "\n").and_then(|x| x.0.ok());
                    ensure!(
                        *w == d || alt.as_ref() == Some(&d),
                        "import of {:?}\n gives    {:?}\n expected {:?}",
                        text,
                        d,
                        w
                    );
                }
                Some(_) => {}
            }
        }
    }
    Ok(())
}
fn nodes(m: &M) -> usize {
    m.count()
}
fn has_marks(m: &M) -> bool {
    !m.marks().is_empty() || m.kids().iter().any(has_marks)
}
fn label_doc(m: &M, cx: &mut Cx) {
    match m {
        M::Text { marks, .. } => {
            cx.label_if(marks.len() == 1, "one mark");
            cx.label_if(marks.len() > 1, "several marks");
        }
        M::Node { ty, children, .. } => {
            cx.label(MD_NAMES[*ty]);
            for c in children.iter().flatten() {
                label_doc(c, cx);
            }
        }
    }
}

// ---------------------------------------------------------------- writing Markdown

#[derive(Clone, Copy)]
struct Style {
    /// stay in the plain domain
    plain: bool,
}
struct W {
    style: Style,
    budget: isize,
    spine: usize,
    defs: Vec<String>,
}

/// what a word is written as, and what it means
const PIECES: &[(&str, &str)] = &[
    ("R&amp;D", "R&D"),
    ("a\\*b", "a*b"),
    ("it's", "it's"),
    ("a_b_c", "a_b_c"),
    ("100%", "100%"),
    ("\\#x", "#x"),
    ("&copy;", "©"),
    ("x\\_", "x_"),
    ("wow!", "wow!"),
    ("1\\. one", "1. one"),
    ("(c)", "(c)"),
    ("\\\\", "\\"),
    ("😀", "😀"),
    ("a&lt;b", "a<b"),
    ("q\\`r", "q`r"),
];
const URLS: &[&str] = &["/u", "http://e.org/x", "a-b.png", "#frag", "x?y=1&z=2", "", "ü", "a%41b", "%2F%20x", "~u/a+b,c@d!$"];

fn url(src: &mut Src) -> String {
    match src.weighted(&[66, 6, 4, 20, 4]) {
        4 => {
            // escaped bytes
            let n = 1 + src.len(6);
            (0..n).map(|_| if src_bool(src) { format!("%{:02X}", src.below(256)) } else { format!("%{:02x}z", src.below(256)) }).collect()
        }
        0 => src.pick(URLS).to_string(),
        1 => dict::pick(src, &dict::dict().urls).cloned().unwrap_or_default(),
        2 => dict::pick(src, &dict::dict().urls).cloned().unwrap_or_default() + "x",
        _ => {
            let n = src.len(40);
            let n = more(src, n);
            (0..n).map(|_| *src.pick(&['a', 'b', 'Z', '0', '9', '/', '.', '-', '?', '=', '#', ':', 'é', '日', '%', '~', '+', ',', '@', '!', '$', '&'])).collect()
        }
    }
}
/// Any text on one line, without white space at the edges
fn raw(src: &mut Src) -> String {
    const BITS: &[&str] = &["&amp;", "&lt;", "&#65;", "<b>", "</b>", "**", "[a](b)", "![", "``", "\\*", "http://x.y", "1.", "- ", "# ", "> ", "<a@b.c>", "&", "%20", "\"", "'"];
    let n = 1 + src.len(12);
    let n = more(src, n);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[40, 40, 10, 10]) {
            0 => s.push(*src.pick(&['a', 'b', 'X', '0', '7', 'é', '日', '😀'])),
            1 => s.push((b'!' + src.below(94) as u8) as char),
            2 => s.push_str(src.pick(BITS)),
            _ => s.push(' '),
        }
    }
    let t: Vec<&str> = s.split(' ').filter(|w| !w.is_empty()).collect();
    if t.is_empty() { "a".into() } else { t.join(" ") }
}
/// A text written so that it means itself wherever texts, targets and titles stand
fn escaped(src: &mut Src, s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        let named = match c {
            '&' => "&amp;",
            '<' => "&lt;",
            '>' => "&gt;",
            '"' => "&quot;",
            '*' => "&ast;",
            '_' => "&lowbar;",
            '[' => "&lsqb;",
            'é' => "&eacute;",
            _ => "",
        };
        if c.is_ascii_punctuation() || (c != ' ' && src.chance(1, 20)) {
            match src.weighted(&[60, 15, 10, 15]) {
                3 if !named.is_empty() => out.push_str(named),
                1 => out.push_str(&format!("&#{};", c as u32)),
                2 => out.push_str(&format!("&#{}{:X};", src.pick(&["x", "X"]), c as u32)),
                _ if c == '`' => out.push_str("&#96;"),
                _ if c.is_ascii_punctuation() => {
                    out.push('\\');
                    out.push(c)
                }
                _ => out.push(c),
            }
        } else {
            out.push(c);
        }
    }
    out
}
/// What stands between the angle brackets of an autolink, and its target
fn autolink(src: &mut Src) -> (String, String) {
    let word = |src: &mut Src, max: usize| -> String {
        let n = 1 + src.len(max);
        (0..n).map(|_| *src.pick(&['a', 'b', 'm', 'x', 'Z', '0', '7'])).collect()
    };
    let uri = match src.below(5) {
        0 => "http://a.b".to_string(),
        1 => "https://x.org/y?z=1".to_string(),
        2 => format!("{}:{}", src.pick(&["http", "ftp", "tel", "mailto", "x-y.z", "HTTP"]), word(src, 12)),
        k => {
            let (a, b) = (word(src, 8), word(src, 5));
            let dots = if k == 3 { ".mail+tag" } else { "" };
            let u = format!("{}{}@{}.org", a, dots, b);
            return (u.clone(), format!("mailto:{}", u));
        }
    };
    (uri.clone(), uri)
}
/// The info string of a fenced code block
fn info(src: &mut Src) -> String {
    match src.weighted(&[80, 10, 10]) {
        0 => src.pick(&["", "rust", "a b", "js", "c++"]).to_string(),
        1 => dict::pick(src, &dict::dict().words).cloned().unwrap_or_default(),
        _ => phrase(src, 3),
    }
}
/// The text of a code span: anything but back-ticks and ends of lines, without plain spaces at the edges
fn code_text(src: &mut Src) -> String {
    let n = 1 + src.len(10);
    let n = more(src, n);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[30, 40, 10, 20]) {
            0 => s.push(*src.pick(&['a', 'b', 'X', '0', '7', 'é', '日', '😀'])),
            1 => s.push(Some((b'!' + src.below(94) as u8) as char).filter(|c| *c != '`').unwrap_or('\\')),
            2 => s.push(*src.pick(&['\u{a0}', '\u{2003}', '\u{3000}', '\u{feff}', '\u{200b}', '\u{301}'])),
            _ => s.push_str(src.pick(&[" ", "  ", "&amp;", "\\", "**", "](", "</b>"])),
        }
    }
    // `]:` at the start of a paragraph with a link makes the link a reference definition
    let s = s.replace("]:", "];");
    let t = s.trim_matches(' ');
    if t.is_empty() { "a".into() } else { t.to_string() }
}
/// A start number that leaves room for the items
fn list_start(src: &mut Src) -> usize {
    match src.weighted(&[70, 25, 5]) {
        2 => dict::pick(src, &dict::dict().numbers).copied().unwrap_or(1).min(999_999_900) as usize,
        0 => *src.pick(&[1usize, 0, 2, 7, 9, 10, 98, 123, 999_999_980]),
        _ => {
            let digits = src.range(1, 9) as u32;
            src.below(10usize.pow(digits) - 20 * (digits == 9) as usize)
        }
    }
}
/// In some big cases, the depth down to which blocks nest nearly always
fn spine(src: &mut Src) -> usize {
    if is_big() && src.chance(1, 3) {
        src.range(20, 90)
    } else {
        0
    }
}
/// The weight of nesting blocks
fn nesting(depth: usize, spine: usize, max: usize) -> usize {
    if depth < spine {
        200
    } else if is_big() {
        6 * (depth < 20) as usize
    } else {
        (depth < max) as usize
    }
}
/// Words from a small pool, or made up
fn phrase(src: &mut Src, max: usize) -> String {
    let mut v: Vec<String> = vec![];
    let n = 1 + src.below(max);
    for _ in 0..more(src, n) {
        v.push(match src.weighted(&[30, 6, 1, 3]) {
            0 => src.pick(WORDS).to_string(),
            1 => made_up(src),
            3 => punctuated(src),
            _ => dict::pick(src, &dict::dict().words).cloned().unwrap_or_else(|| "a".into()),
        });
    }
    v.join(" ")
}
/// A word with punctuation that means nothing in Markdown where it stands
fn punctuated(src: &mut Src) -> String {
    let mut s = src.pick(&["a", "it", "x1", "Ünï", "you", "z"]).to_string();
    for _ in 0..1 + src.below(3) {
        s.push_str(src.pick(&[",", ";", ":", ".", "?", "%", "'", "/", "=", "@", "$", "^", "{", "}", "+", "-", "--", "…", "’", "“", "€", "©", "1.", "2)", "\u{a0}b"]));
        if src_bool(src) {
            s.push_str(src.pick(&["b", "s", "7", "ö", "t"]));
        }
    }
    s
}
/// A word of letters of many scripts
fn made_up(src: &mut Src) -> String {
    const RANGES: &[(char, char)] = &[
        ('a', 'z'),
        ('A', 'Z'),
        ('à', 'ö'),
        ('α', 'ω'),
        ('а', 'я'),
        ('א', 'ת'),
        ('あ', 'ん'),
        ('一', '丟'),
        ('\u{10400}', '\u{1044F}'),
        ('\u{20000}', '\u{20040}'),
    ];
    let (lo, hi) = *src.pick(RANGES);
    let n = 1 + src.len(30);
    let n = more(src, n);
    (0..n).map(|_| char::from_u32(src.range(lo as usize, hi as usize) as u32).unwrap_or('a')).collect()
}

/// The description of an image with marks in it, and its text
fn described(src: &mut Src) -> (String, String) {
    let n = 1 + src.below(3);
    let n = more(src, n);
    let (mut s, mut t) = (vec![], vec![]);
    for _ in 0..n {
        let w = phrase(src, 2);
        s.push(match src.below(5) {
            0 => format!("*{}*", w),
            1 => format!("**{}**", w),
            2 => format!("`{}`", w),
            3 => {
                t.push(format!("{}&", w));
                s.push(format!("{}&amp;", w));
                continue;
            }
            _ => w.clone(),
        });
        t.push(w);
    }
    (s.join(" "), t.join(" "))
}

impl W {
    fn title(&mut self, src: &mut Src, url: &str) -> String {
        match src.weighted(&[60, 30, 10]) {
            0 => String::new(),
            1 => phrase(src, 2),
            _ => url.to_string(),
        }
    }
    /// (written, pieces); the first and last piece are never white space
    fn inline(&mut self, src: &mut Src, active: &Marks, depth: usize, breaks: bool) -> (String, Vec<M>) {
        let n = 1 + src.weighted(&[40, 30, 20, 10]);
        let n = more(src, n);
        let mut s = String::new();
        let mut out: Vec<M> = vec![];
        // a break before item i; n - 1 breaks at most
        let seps: Vec<bool> = (0..n).map(|i| i > 0 && breaks && src.chance(1, 8)).collect();
        for i in 0..n {
            if i > 0 {
                if seps[i] {
                    s.push_str(if src.chance(1, 2) { "\\\n" } else { "  \n" });
                    out.push(leaf(md::HARD_BREAK, vec![]));
                } else {
                    s.push(' ');
                    out.push(M::text(" ", active));
                }
            }
            // images carry no marks, so they can only stand between two words of a marked run
            let edge = i == 0 || i + 1 == n || seps[i] || seps[i + 1];
            let has = |t: Ty| active.iter().any(|m| m.ty == t);
            let k = src.weighted(&[50, 10, if depth < 4 { 30 } else { 0 }, if edge && !active.is_empty() { 0 } else { 8 }, 4]);
            match k {
                1 => {
                    let w = if src.chance(1, 3) { code_text(src) } else { phrase(src, 2) };
                    let ticks = if !self.style.plain && src.chance(1, 4) { "``" } else { "`" };
                    s.push_str(&format!("{}{}{}", ticks, w, ticks));
                    out.push(M::text(&w, &add_mark(active, &MMark { ty: md::CODE, attrs: vec![] })));
                    continue;
                }
                2 => {
                    let opts = if self.style.plain {
                        nestable(active, edge)
                    } else {
                        [md::EM, md::STRONG, md::LINK].into_iter().filter(|t| !has(*t)).collect()
                    };
                    if !opts.is_empty() {
                        let t = *src.pick(&opts);
                        if t == md::LINK {
                            let any = !self.style.plain && src.chance(1, 6);
                            let href = if any { raw(src) } else { url(src) };
                            let title = match (any, href.is_empty()) {
                                (true, _) if src_bool(src) => raw(src),
                                (_, true) => String::new(),
                                _ => self.title(src, &href),
                            };
                            let m = MMark { ty: t, attrs: vec![href.clone(), title.clone()] };
                            let (w, k) = self.inline(src, &add_mark(active, &m), depth + 1, breaks);
                            let (href, title) = if any { (escaped(src, &href), escaped(src, &title)) } else { (href, title) };
                            let t = if title.is_empty() { String::new() } else { self.quoted(src, &title) };
                            match src.weighted(&[60, 20, 20]) {
                                k if any => {
                                    if k == 2 {
                                        let l = format!("r{}", self.defs.len());
                                        self.defs.push(format!("[{}]: <{}>{}", l, href, t));
                                        s.push_str(&format!("[{}][{}]", w, l));
                                    } else {
                                        s.push_str(&format!("[{}](<{}>{})", w, href, t));
                                    }
                                }
                                2 if !href.is_empty() => {
                                    let l = format!("r{}", self.defs.len());
                                    self.defs.push(format!("[{}]: {}{}", l, href, t));
                                    s.push_str(&format!("[{}][{}]", w, l));
                                }
                                1 => s.push_str(&format!("[{}](<{}>{})", w, href, t)),
                                _ => s.push_str(&format!("[{}]({}{})", w, href, t)),
                            }
                            out.extend(k);
                        } else {
                            let m = MMark { ty: t, attrs: vec![] };
                            let (w, k) = self.inline(src, &add_mark(active, &m), depth + 1, breaks);
                            let c = if src.chance(1, 3) { "_" } else { "*" };
                            let d = if t == md::EM { c.to_string() } else { format!("{}{}", c, c) };
                            s.push_str(&format!("{}{}{}", d, w, d));
                            out.extend(k);
                        }
                        continue;
                    }
                }
                3 => {
                    let srcu = url(src);
                    let title = if srcu.is_empty() { String::new() } else { self.title(src, &srcu) };
                    let (walt, alt) = match src.weighted(&[20, 60, 20]) {
                        0 => (String::new(), String::new()),
                        1 => {
                            let w = match src.below(6) {
                                4 if !title.is_empty() && title != srcu => title.clone(),
                                _ => phrase(src, 2),
                            };
                            (w.clone(), w)
                        }
                        _ if !self.style.plain && src.chance(1, 3) => {
                            let t = raw(src);
                            (escaped(src, &t), t)
                        }
                        _ => described(src),
                    };
                    if !self.style.plain && src.chance(1, 6) {
                        let (u, title) = (raw(src), raw(src));
                        let t = escaped(src, &title);
                        let t = self.quoted(src, &t);
                        s.push_str(&format!("![{}](<{}>{})", walt, escaped(src, &u), t));
                        out.push(leaf(md::IMAGE, vec![AV::S(u), AV::S(alt), AV::S(title)]));
                        continue;
                    }
                    let t = if title.is_empty() { String::new() } else { self.quoted(src, &title) };
                    s.push_str(&format!("![{}]({}{})", walt, srcu, t));
                    out.push(leaf(md::IMAGE, vec![AV::S(srcu), AV::S(alt), AV::S(title)]));
                    continue;
                }
                4 if !has(md::LINK) => {
                    let (u, href) = autolink(src);
                    s.push_str(&format!("<{}>", u));
                    out.push(M::text(&u, &add_mark(active, &MMark { ty: md::LINK, attrs: vec![href, String::new()] })));
                    continue;
                }
                _ => {}
            }
            if !self.style.plain && src.chance(1, 6) {
                if src.chance(1, 3) {
                    let t = raw(src);
                    s.push_str(&escaped(src, &t));
                    out.push(M::text(&t, active));
                } else {
                    let (a, b) = *src.pick(PIECES);
                    s.push_str(a);
                    out.push(M::text(b, active));
                }
            } else {
                let w = phrase(src, 3);
                s.push_str(&w);
                out.push(M::text(&w, active));
            }
        }
        (s, out)
    }
    fn quoted(&mut self, src: &mut Src, t: &str) -> String {
        match src.weighted(&[60, 20, 20]) {
            1 if !t.contains('\'') => format!(" '{}'", t),
            2 if !t.contains(['(', ')']) => format!(" ({})", t),
            _ => format!(" \"{}\"", t),
        }
    }

    /// lines and blocks. `item`: inside of a list item (not below a quote); `bullet`: the enclosing bullet
    fn blocks(&mut self, src: &mut Src, depth: usize, first_para: bool) -> (Vec<String>, Vec<M>) {
        let n = 1 + src.weighted(&[35, 30, 20, 15]);
        let n = more(src, n);
        let mut lines: Vec<String> = vec![];
        let mut out: Vec<M> = vec![];
        // the kind of the previous block: 0 paragraph, 1 atx, 2 setext, 3 fence, 4 indented, 5 quote, 6 list, 7 rule
        let mut prev = usize::MAX;
        for i in 0..n {
            if i > 0 && self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            let deep = nesting(depth, self.spine, 5);
            let mut k = if i == 0 && first_para {
                0
            } else {
                src.weighted(&[40, 10, 5, 10, 5, 12 * deep, 12 * deep, 6])
            };
            if k == 4 && (i == 0 || prev == 6 || prev == 4) {
                k = 0;
            }
            let mut ls: Vec<String>;
            let node;
            let mut can_interrupt = false;
            match k {
                0 | 2 => {
                    let (s, k2) = self.inline(src, &vec![], 0, k == 0);
                    ls = s.split('\n').map(|s| s.to_string()).collect();
                    if k == 0 {
                        node = el(md::PARAGRAPH, vec![], k2);
                    } else {
                        let lv = src.range(1, 2);
                        ls.push(if lv == 1 { "===".into() } else { "---".into() });
                        node = el(md::HEADING, vec![AV::N(lv as u64)], k2);
                    }
                }
                1 => {
                    let lv = src.range(1, 6);
                    if src.chance(1, 10) {
                        ls = vec!["#".repeat(lv)];
                        node = el(md::HEADING, vec![AV::N(lv as u64)], vec![]);
                    } else {
                        let (s, k2) = self.inline(src, &vec![], 0, false);
                        let tail = if src.chance(1, 4) { " ##" } else { "" };
                        ls = vec![format!("{} {}{}", "#".repeat(lv), s, tail)];
                        node = el(md::HEADING, vec![AV::N(lv as u64)], k2);
                    }
                    can_interrupt = true;
                }
                3 => {
                    let info = info(src);
                    let f = if src.chance(1, 3) { "~~~" } else { "```" };
                    let code = code_lines(src);
                    let (winfo, info) = if !self.style.plain && src.chance(1, 8) {
                        let i = raw(src);
                        (escaped(src, &i), i)
                    } else {
                        (info.clone(), info)
                    };
                    ls = vec![format!("{}{}", f, winfo)];
                    ls.extend(code.iter().cloned());
                    ls.push(f.to_string());
                    let t = code.join("\n");
                    node = el(md::CODE_BLOCK, vec![AV::S(info)], if t.is_empty() { vec![] } else { vec![M::text(&t, &[])] });
                    can_interrupt = true;
                }
                4 => {
                    let mut code = code_lines(src);
                    while code.first().map_or(false, |s| s.trim().is_empty()) {
                        code.remove(0);
                    }
                    while code.last().map_or(false, |s| s.trim().is_empty()) {
                        code.pop();
                    }
                    if code.is_empty() {
                        code.push("x = 1".into());
                    }
                    ls = code.iter().map(|l| if l.is_empty() { String::new() } else { format!("    {}", l) }).collect();
                    node = el(md::CODE_BLOCK, vec![AV::S(String::new())], vec![M::text(&code.join("\n"), &[])]);
                }
                5 => {
                    let (l, k2) = self.blocks(src, depth + 1, false);
                    ls = l.iter().map(|l| if l.is_empty() { ">".to_string() } else { format!("> {}", l) }).collect();
                    node = el(md::BLOCKQUOTE, vec![], k2);
                    can_interrupt = true;
                }
                6 => {
                    let prev_ordered = match out.last() {
                        Some(M::Node { ty, .. }) if *ty == md::ORDERED_LIST => Some(true),
                        Some(M::Node { ty, .. }) if *ty == md::BULLET_LIST => Some(false),
                        _ => None,
                    };
                    let ordered = match prev_ordered {
                        Some(o) => !o,
                        None => src.chance(1, 2),
                    };
                    let items = if src.chance(1, 10) { src.range(4, 12) } else { 1 + src.weighted(&[40, 40, 20]) };
                    let items = more(src, items);
                    let start = if ordered { list_start(src) } else { 0 };
                    let delim = if src.chance(1, 3) { ")" } else { "." };
                    let bullet = ["-", "*", "+"][depth % 3];
                    let tight = src.chance(1, 3);
                    ls = vec![];
                    let mut its = vec![];
                    for j in 0..items {
                        if self.budget <= 0 && j > 0 {
                            break;
                        }
                        let marker = if ordered { format!("{}{} ", start + j, delim) } else { format!("{} ", bullet) };
                        if j > 0 && !tight {
                            ls.push(String::new());
                        }
                        if src.chance(1, 12) && !(self.style.plain && depth > 0 && (j + 1 == items || self.budget <= 1)) {
                            ls.push(marker.trim_end().to_string());
                            its.push(el(md::LIST_ITEM, vec![], vec![el(md::PARAGRAPH, vec![], vec![])]));
                            continue;
                        }
                        let fp = src.chance(4, 5);
                        let (l, mut k2) = if tight && src.chance(2, 3) {
                            let (s, k2) = self.inline(src, &vec![], 0, true);
                            (s.split('\n').map(|s| s.to_string()).collect(), vec![el(md::PARAGRAPH, vec![], k2)])
                        } else {
                            self.blocks(src, depth + 1, fp)
                        };
                        if !matches!(k2.first(), Some(M::Node{ty,..}) if *ty == md::PARAGRAPH) {
                            k2.insert(0, el(md::PARAGRAPH, vec![], vec![]));
                        }
                        for (x, l) in l.iter().enumerate() {
                            if x == 0 {
                                ls.push(format!("{}{}", marker, l));
                            } else if l.is_empty() {
                                ls.push(String::new());
                            } else {
                                ls.push(format!("{}{}", " ".repeat(marker.len()), l));
                            }
                        }
                        its.push(el(md::LIST_ITEM, vec![], k2));
                    }
                    can_interrupt = ls[0].len() > 3 && (!ordered || start == 1);
                    node = if ordered {
                        el(md::ORDERED_LIST, vec![AV::N(start as u64), AV::B(false)], its)
                    } else {
                        el(md::BULLET_LIST, vec![AV::B(false)], its)
                    };
                }
                _ => {
                    // in a list the hyphen and the star could be read as part of the bullet
                    ls = vec![if depth > 0 { "___".into() } else { src.pick(&["---", "***", "___", "- - -"]).to_string() }];
                    can_interrupt = ls[0].starts_with(|c| c == '*' || c == '_');
                    node = leaf(md::RULE, vec![]);
                }
            }
            if i > 0 {
                // an empty line unless both sides allow to leave it out
                let closed = matches!(prev, 1 | 2 | 3 | 7);
                let glue = (closed && k != 4) || (prev == 0 && can_interrupt);
                // a rule after which a list starts, and so on, is fine; a paragraph line never follows an open paragraph
                if !(glue && src.chance(1, 3)) {
                    lines.push(String::new());
                }
            }
            lines.extend(ls);
            out.push(node);
            prev = k;
        }
        (lines, out)
    }
}

fn code_lines(src: &mut Src) -> Vec<String> {
    let n = src.weighted(&[10, 40, 25, 15, 10]);
    let n = more(src, n);
    (0..n)
        .map(|_| match src.weighted(&[70, 30]) {
            0 => src.pick(&["let x = 1;", "", "  two", "* a", "# b", "> q", "<b>", "a*b*c", "\\", "&amp;", "end", "日本"]).to_string(),
            _ => code_line(src),
        })
        .collect()
}
/// A line of code made up of anything but fences
fn code_line(src: &mut Src) -> String {
    let n = src.len(40);
    let n = more(src, n);
    let s: String = (0..n)
        .map(|_| match src.weighted(&[50, 40, 10]) {
            0 => *src.pick(&['a', 'x', 'Z', '0', '7', ' ', ' ', '_']),
            1 => *src.pick(&['(', ')', '{', '}', ';', ':', '=', '<', '>', '*', '#', '&', '\\', '"', '\'', '!', '[', ']', '|', '-', '+', '.', ',', '/', '%', '$', '^', '@', '?']),
            _ => *src.pick(&['é', '日', '😀', '\u{a0}', '\u{301}', '`']),
        })
        .collect();
    // white space alone may be cut off by the block around it
    if s.trim().is_empty() || s.contains("```") {
        String::new()
    } else {
        s
    }
}

/// A written text and the document it means
fn written(src: &mut Src, plain: bool) -> (String, M) {
    set_names(MD_NAMES);
    let budget = if is_big() { src.range(20, 600) as isize } else { *src.pick(&[3isize, 8, 20]) };
    let mut w = W { style: Style { plain }, budget, spine: spine(src), defs: vec![] };
    let (mut lines, k) = w.blocks(src, 0, false);
    if !w.defs.is_empty() {
        lines.push(String::new());
        lines.extend(w.defs.iter().cloned());
    }
    let mut text = lines.join("\n");
    if src.chance(1, 2) {
        text.push('\n');
    }
    (text, el(md::DOC, vec![], normalize(&k)))
}

const SOUP: &[&str] = &[
    "\n", "\n\n", " ", "a", "word", "*", "**", "_", "__", "`", "``", "```", "\n```\n", "~~~", "# ", "## ", "\n# ", "> ", "\n> ", ">", "- ",
    "\n- ", "\n* ", "+ ", "1. ", "\n2) ", "\n10. ", "    ", "  ", "\t", "[", "]", "(", ")", "[a](b)", "![a](b)", "![", "](", "\"t\"", "<", ">",
    "<b>", "</b>", "<!-- x -->", "\\", "\\*", "\\\n", "  \n", "---", "\n---\n", "===", "\n===\n", "***", "&amp;", "&#65;", "&", "é", "日本",
    "😀", "\u{0}", "\r\n", "\r", "!", "http://x.y", "<http://x.y>", "<a@b.c>", "<mailto:a@b>", "|", "[^1]", "[^1]: f", "[ ] ", "- [x] a", "~~a~~", ":", "\n[a]: /u\n",
    "**a**", "*b*", "***c***", "*a **b** c*", "`d`", "\n\n    code\n", "1", "0. ", "9999999999. ", "\u{a0}", "\u{2028}", "*a\n", "b*",
];

fn soup(src: &mut Src) -> String {
    let n = src.len(25) + 1;
    let n = more(src, n);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 40) {
            s.push_str(&with_literal(src, "a"));
        } else {
            s.push_str(src.pick(SOUP));
        }
    }
    s
}
fn mutate(src: &mut Src, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let n = 1 + src.below(4);
    for _ in 0..n {
        let i = src.below(cs.len() + 1);
        match src.below(5) {
            0 => {
                if i < cs.len() {
                    cs.remove(i);
                }
            }
            1 => {
                for (j, c) in src.pick(SOUP).chars().enumerate() {
                    cs.insert(i + j, c);
                }
            }
            2 => {
                let k = (i + src.below(12)).min(cs.len());
                cs.drain(i..k);
            }
            3 => {
                let k = (i + src.below(30)).min(cs.len());
                let part: Vec<char> = cs[i..k].to_vec();
                let j = src.below(cs.len() + 1);
                for (x, c) in part.into_iter().enumerate() {
                    cs.insert(j + x, c);
                }
            }
            _ => {
                if i < cs.len() {
                    cs[i] = *src.pick(&['\n', ' ', '*', '`', '_', '[', '>', '-', '#', '\\', '!', 'a']);
                }
            }
        }
    }
    cs.into_iter().collect()
}

pub fn any_markdown(src: &mut Src) -> String {
    match src.weighted(&[30, 30, 30, 10]) {
        0 => written(src, false).0,
        1 => soup(src),
        2 => {
            let (s, _) = written(src, false);
            mutate(src, &s)
        }
        _ => {
            let n = src.len(30);
            let n = more(src, n);
            let alpha = src.below(5);
            (0..n).map(|_| gen_char(src, alpha)).collect()
        }
    }
}

fn c20_written(src: &mut Src, cx: &mut Cx) -> Outcome {
    let (text, want) = written(src, false);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    check_import(&text, cx)?;
    if let Some((Ok(m), None)) = expected(&text, " ") {
        if m != want {
            cx.label("PARSER READS THE WRITTEN TEXT DIFFERENTLY");
            if std::env::var_os("HARNESS_DIFF").is_some() {
                eprintln!("{:?}\n  {:?}\n  {:?}", text, m, want);
            }
        } else {
            cx.label("as written");
        }
    } else {
        cx.label("PARSER REFUSES THE WRITTEN TEXT");
        if std::env::var_os("HARNESS_DIFF").is_some() {
            eprintln!("{:?} {:?}", text, expected(&text, " "));
        }
    }
    Ok(())
}
fn c20_any(src: &mut Src, cx: &mut Cx) -> Outcome {
    set_names(MD_NAMES);
    let text = any_markdown(src);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    check_import(&text, cx)
}

fn valid_normal(d: &MarkdownNode, text: &str) -> Outcome {
    let m = MD::to_m(d);
    ensure!(MD::spec().valid(&m), "import of {:?} is not schema-valid: {:?}", text, m);
    ensure!(matches!(m, M::Node{ty,..} if ty == md::DOC), "import of {:?} is not a document: {:?}", text, m);
    ensure!(is_normal(m.kids()), "import of {:?} has empty or unmerged texts: {:?}", text, m);
    check_sizes::<MD>(d).map_err(|e| format!("import of {:?}: {}", text, e))
}

fn c21(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    set_names(MD_NAMES);
    let text = any_markdown(src);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    if !parser_ok(&text) {
        cx.label("the parser panics: skipped");
        return Ok(());
    }
    match guarded(|| from_markdown(&text)).map_err(|p| format!("import of {:?} {}", text, p))? {
        Ok(d) => {
            valid_normal(&d, &text)?;
            let m = MD::to_m(&d);
            cx.nontrivial = nodes(&m) >= 4;
            cx.label("imported");
        }
        Err(_) => {
            cx.label("refused");
            cx.nontrivial = true;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- export

/// The marks that can nest here. The CommonMark parser in use misreads some runs of three delimiters within
/// a link, so they are left out.
fn nestable(active: &Marks, edge: bool) -> Vec<Ty> {
    let has = |t: Ty| active.iter().any(|m| m.ty == t);
    let run = edge && has(md::LINK) && (has(md::EM) || has(md::STRONG));
    [md::EM, md::STRONG, md::LINK].into_iter().filter(|t| !has(*t) && !run).collect()
}

struct P {
    budget: isize,
    spine: usize,
}
impl P {
    fn url(&mut self, src: &mut Src) -> (String, String) {
        let u = url(src);
        let t = match src.weighted(&[50, 40, 10]) {
            1 if !u.is_empty() => phrase(src, 2),
            2 if !u.is_empty() => u.clone(),
            _ => String::new(),
        };
        (u, t)
    }
    /// A link and an emphasised run that overlap, neither within the other
    fn overlap(&mut self, src: &mut Src) -> Vec<M> {
        let (u, t) = self.url(src);
        let link = MMark { ty: md::LINK, attrs: vec![u, t] };
        let em = MMark { ty: *src.pick(&[md::EM, md::STRONG]), attrs: vec![] };
        let first = src_bool(src);
        let (a, b) = if first { (&em, &link) } else { (&link, &em) };
        let (x, y, z) = (phrase(src, 2), src.pick(WORDS).to_string(), src.pick(WORDS).to_string());
        let mut out = vec![
            M::text(&format!("{} ", x), &vec![a.clone()]),
            M::text(&y, &add_mark(&vec![a.clone()], b)),
            M::text(&z, &vec![b.clone()]),
        ];
        if src.chance(1, 4) {
            let (u, t) = self.url(src);
            out.insert(2, leaf(md::IMAGE, vec![AV::S(u), AV::S(phrase(src, 2)), AV::S(t)]));
        }
        out
    }
    fn inline(&mut self, src: &mut Src, active: &Marks, depth: usize, breaks: bool) -> Vec<M> {
        let n = 1 + src.weighted(&[40, 30, 20, 10]);
        let n = more(src, n);
        let mut out: Vec<M> = vec![];
        let seps: Vec<bool> = (0..n).map(|i| i > 0 && breaks && src.chance(1, 6)).collect();
        for i in 0..n {
            if i > 0 {
                if seps[i] {
                    out.push(leaf(md::HARD_BREAK, vec![]));
                } else {
                    out.push(M::text(" ", active));
                }
            }
            // images carry no marks, so they can only stand between two words of a marked run
            let edge = i == 0 || i + 1 == n || seps[i] || seps[i + 1];
            let k = src.weighted(&[45, 10, if depth < 4 { 35 } else { 0 }, if edge && !active.is_empty() { 0 } else { 10 }, if active.is_empty() { 5 } else { 0 }]);
            match k {
                4 => out.extend(self.overlap(src)),
                1 => {
                    let w = if src.chance(1, 3) { code_text(src) } else { phrase(src, 2) };
                    out.push(M::text(&w, &add_mark(active, &MMark { ty: md::CODE, attrs: vec![] })));
                }
                2 if !nestable(active, edge).is_empty() => {
                    let opts = nestable(active, edge);
                    let t = *src.pick(&opts);
                    let attrs = if t == md::LINK {
                        let (u, t) = self.url(src);
                        vec![u, t]
                    } else {
                        vec![]
                    };
                    out.extend(self.inline(src, &add_mark(active, &MMark { ty: t, attrs }), depth + 1, breaks));
                }
                3 => {
                    let (u, t) = self.url(src);
                    let alt = match src.weighted(&[30, 60, 10]) {
                        0 => String::new(),
                        2 if !t.is_empty() && t != u => t.clone(),
                        _ => phrase(src, 3),
                    };
                    out.push(leaf(md::IMAGE, vec![AV::S(u), AV::S(alt), AV::S(t)]));
                }
                _ => out.push(M::text(&phrase(src, 3), active)),
            }
        }
        out
    }
    fn blocks(&mut self, src: &mut Src, depth: usize, item: bool, last: bool) -> Vec<M> {
        let n = 1 + src.weighted(&[35, 30, 20, 15]);
        let n = more(src, n);
        let mut out: Vec<M> = vec![];
        if item && src.chance(1, 6) && (depth <= 1 || !last) {
            // an empty paragraph can only lead
            out.push(el(md::PARAGRAPH, vec![], vec![]));
            if src.chance(1, 2) {
                return out;
            }
        } else if item {
            let k = self.inline(src, &vec![], 0, true);
            out.push(el(md::PARAGRAPH, vec![], k));
        }
        for _ in 0..n {
            if self.budget <= 0 && !out.is_empty() {
                break;
            }
            self.budget -= 1;
            let deep = nesting(depth, self.spine, 6);
            let after_empty = item && out.len() == 1 && out[0].kids().is_empty();
            let node = match src.weighted(&[if after_empty { 0 } else { 40 }, 12, 12, 14 * deep, 12 * deep, 12 * deep, 8]) {
                0 => el(md::PARAGRAPH, vec![], self.inline(src, &vec![], 0, true)),
                1 => {
                    let k = if src.chance(1, 8) { vec![] } else { self.inline(src, &vec![], 0, false) };
                    el(md::HEADING, vec![AV::N(src.range(1, 6) as u64)], k)
                }
                2 => {
                    let mut lines = code_lines(src);
                    if src.chance(1, 10) {
                        let i = src.below(lines.len() + 1);
                        lines.insert(i, src.pick(&["```", "~~~", "``` rust", "~~~~~", "a ```` b"]).to_string());
                    }
                    let t = lines.join("\n");
                    let info = info(src);
                    el(md::CODE_BLOCK, vec![AV::S(info)], if t.is_empty() { vec![] } else { vec![M::text(&t, &[])] })
                }
                3 => el(md::BLOCKQUOTE, vec![], self.blocks(src, depth + 1, false, false)),
                x @ 4 | x @ 5 => {
                    let ty = if x == 4 { md::BULLET_LIST } else { md::ORDERED_LIST };
                    if matches!(out.last(), Some(M::Node{ty: t,..}) if *t == ty) {
                        continue;
                    }
                    let n = if src.chance(1, 10) { src.range(4, 12) } else { 1 + src.weighted(&[40, 40, 20]) };
                    let n = more(src, n);
                    let mut items = vec![];
                    for j in 0..n {
                        // an empty item at the end of a quote is misread by the CommonMark parser in use
                        let last = j + 1 == n || self.budget <= 1;
                        items.push(el(md::LIST_ITEM, vec![], self.blocks(src, depth + 1, true, last)));
                        if last || self.budget <= 0 {
                            break;
                        }
                    }
                    if ty == md::BULLET_LIST {
                        el(ty, vec![AV::B(false)], items)
                    } else {
                        el(ty, vec![AV::N(list_start(src) as u64), AV::B(false)], items)
                    }
                }
                _ => leaf(md::RULE, vec![]),
            };
            out.push(node);
        }
        if out.is_empty() {
            out.push(el(md::PARAGRAPH, vec![], vec![]));
        }
        out
    }
}

fn export(m: &M) -> Result<Option<String>, String> {
    let n = MD::from_m(m);
    guarded(|| to_markdown(&n)).map(|r| r.ok()).map_err(|p| format!("export of {:?} {}", m, p))
}

fn check_roundtrip(m: &M) -> Outcome {
    let text = match export(m)? {
        Some(t) => t,
        None => return Err(format!("export of {:?} is refused", m)),
    };
    let back = guarded(|| from_markdown(&text)).map_err(|p| format!("import of {:?} {}", text, p))?;
    match back {
        Err(e) => Err(format!("the export {:?} of {:?} is refused: {:?}", text, m, e)),
        Ok(d) => {
            let b = MD::to_m(&d);
            ensure!(b == *m, "export and import changed the document\n document {:?}\n exported {:?}\n imported {:?}", m, text, b);
            Ok(())
        }
    }
}

fn c22(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    set_names(MD_NAMES);
    let budget = if is_big() { src.range(20, 600) as isize } else { *src.pick(&[2isize, 5, 10, 25]) };
    let mut p = P { budget, spine: spine(src) };
    let k = p.blocks(src, 0, false, false);
    let m = el(md::DOC, vec![], normalize(&k));
    cx.hash(&m);
    cx.sample(|| format!("{:?}", m));
    cx.nontrivial = m.kids().len() > 1 || has_marks(&m) || m.count() > 3;
    label_doc(&m, cx);
    check_roundtrip(&m)
}

fn c22_total(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let m = gen_doc::<MD>(src, NORMAL);
    cx.hash(&m);
    cx.sample(|| format!("{:?}", m));
    cx.nontrivial = m.count() > 3;
    cx.label_if(export(&m)?.is_some(), "exported");
    Ok(())
}

fn c23(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let (text, want) = written(src, true);
    cx.hash(&text);
    cx.sample(|| format!("{:?}", text));
    match expected(&text, " ") {
        Some((Ok(m), None)) if m == want => {}
        _ => {
            cx.label("the parser misreads the text: skipped");
            return Ok(());
        }
    }
    let d = match guarded(|| from_markdown(&text)).map_err(|p| format!("import of {:?} {}", text, p))? {
        Ok(d) => d,
        Err(_) => {
            cx.label("refused");
            return Ok(());
        }
    };
    let m = MD::to_m(&d);
    cx.nontrivial = m.kids().len() > 1 || has_marks(&m);
    label_doc(&m, cx);
    check_roundtrip(&m).map_err(|e| format!("{}\n original {:?}", e, text))
}

// ---------------------------------------------------------------- fixed examples

fn each_text(xs: &[&str], f: fn(&str, &mut Cx) -> Outcome) -> Result<u64, String> {
    set_names(MD_NAMES);
    for x in xs {
        f(x, &mut Cx::default())?;
    }
    Ok(xs.len() as u64)
}

const EXAMPLES: &[&str] = &[
    "",
    "\n",
    "a",
    "* a\n* b",
    "* a\n\n* b",
    "1. a\n2. b\n   * c\n   * d",
    "7) a",
    "<a@b.c>",
    "*<a.b+c@d.example.org>* <mailto:x@y.z>",
    "- # h",
    "- > q\n- ```\n  x\n  ```",
    "-",
    "-\n- b",
    ">",
    "> a\n>\n> b",
    "a &amp; b",
    "a\\*b",
    "*a **b** c*",
    "*a *b* c*",
    "**a *b **c** d* e**",
    "***a** b*",
    "`a b` c",
    "[a *b* c](u \"t\") d",
    "![alt](u \"t\")",
    "![](u)",
    "![a *b* `c`](u)",
    "[![x](y)](z)",
    "- ![x](y)",
    "a  \nb",
    "a\\\nb",
    "a  \nb\n===",
    "# a *b*",
    "###### x",
    "#",
    "```\n```",
    "```\n\n```",
    "```rust\na\n\nb\n\n```",
    "    a\n\n      b",
    "> ```\n> a\n> b\n> ```",
    "---",
    "a\n\n***\n\nb",
    "<b>",
    "a <b>c</b>",
    "a\nb",
    "[a]\n\n[a]: /u 't'",
    "<http://x.y>",
    "* a\n  b",
    "1. *a*\n\n   b\n2. c",
    "- - a\n  - b\n- c",
    "*a* b *c*",
    "`a` `b`",
    "**`a`**",
    "* *[door **door glass door glass\\\n  door** be\n  ```\n  cat a](<http://e.org/x> \"door\")*\n\n  ```\n  # b\n  a*b*c\n  ```",
];

fn c20_fixed() -> Result<u64, String> {
    each_text(EXAMPLES, |x, cx| check_import(x, cx))
}
fn c21_fixed() -> Result<u64, String> {
    each_text(EXAMPLES, |x, _| match guarded(|| from_markdown(x)).map_err(|p| format!("import of {:?} {}", x, p))? {
        Ok(d) => valid_normal(&d, x),
        Err(_) => Ok(()),
    })
}
fn c23_fixed() -> Result<u64, String> {
    let xs = [
        "a", "", "* a\n* b", "1. a\n2. b", "- # h\n- b", "-\n- b", ">", "*a **b** c* d", "***a** b* c", "**a *b*** c", "[a *b* c](u \"t\") d",
        "![alt](u \"t\")", "![](u)", "*a*  \nb", "*a  \nb* c", "*a ![x](y) b*", "# a *b*", "#", "```\n```", "```rust\na\n\n```", "> ```\n> a\n> ```",
        "---", "> > a\n>\n> b", "- a\n\n  > q\n\n  - b\n\n    ```\n    c\n    ```", "- > q\n- b", "- ```\n  c\n  ```\n- b", "- - a\n- b", "- ___",
        "10. a\n\n    b", "`a` b **`c`**", "[**a** b](u) c",
    ];
    each_text(&xs, |x, _| match guarded(|| from_markdown(x)).map_err(|p| format!("import of {:?} {}", x, p))? {
        Ok(d) => check_roundtrip(&MD::to_m(&d)).map_err(|e| format!("{}\n original {:?}", e, x)),
        Err(_) => Ok(()),
    })
}
fn c22_fixed() -> Result<u64, String> {
    set_names(MD_NAMES);
    let strong = MMark { ty: md::STRONG, attrs: vec![] };
    let em = MMark { ty: md::EM, attrs: vec![] };
    let code = MMark { ty: md::CODE, attrs: vec![] };
    let link = MMark { ty: md::LINK, attrs: vec!["/u".into(), "t".into()] };
    let t = |s: &str, ms: &[&MMark]| M::text(s, &ms.iter().fold(vec![], |a, m| add_mark(&a, m)));
    let p = |k: Vec<M>| el(md::PARAGRAPH, vec![], k);
    let br = || leaf(md::HARD_BREAK, vec![]);
    let img = |a: &str, b: &str, c: &str| leaf(md::IMAGE, vec![AV::S(a.into()), AV::S(b.into()), AV::S(c.into())]);
    let inl: Vec<Vec<M>> = vec![
        vec![t("a", &[&strong, &em]), t(" b", &[&em])],
        vec![t("a", &[&strong, &em]), t(" b", &[&strong])],
        vec![t("b ", &[&em]), t("a", &[&strong, &em])],
        vec![t("b ", &[&strong]), t("a", &[&strong, &em]), t(" c ", &[&strong]), t("d", &[&code, &strong])],
        vec![t("a", &[&em]), t(" ", &[]), t("b", &[&strong])],
        vec![t("a", &[&em]), br(), t("b", &[])],
        vec![t("a", &[&em]), br(), t("b", &[&em])],
        vec![t("a", &[&em, &strong]), br(), t("b", &[&em])],
        vec![t("a ", &[&link]), t("b", &[&link, &em]), t(" c", &[])],
        vec![t("a", &[&link, &code]), t(" c", &[&link]), t(" d", &[])],
        vec![img("s", "x y", "t")],
        vec![img("s", "", "")],
        vec![img("s", "a", ""), t(" b ", &[]), img("s2", "", "t")],
        vec![t("a ", &[&em]), img("s", "a", "t"), t(" b", &[&em])],
    ];
    let mut n = 0;
    for k in inl {
        n += 1;
        check_roundtrip(&el(md::DOC, vec![], vec![p(k)]))?;
    }
    Ok(n)
}
