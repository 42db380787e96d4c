//! C13 hostile steps, C14 JSON round trips and spellings, C15 malformed JSON
use super::tree::{check_frag, check_sizes};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::schemas::*;
use crate::steps::*;
use prosemirror::markdown::*;
use prosemirror::model::*;
use prosemirror::transform::*;
use serde_json::Value;

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "a generated document (also leaf roots, schema violations, empty and unmerged texts) and a step with hostile positions, depths and slices, both shipped through JSON; applying must return; non-trivial: the step is not refused, or is one whose positions are all in range",
            assumptions: &["nesting up to about 30 levels, sizes up to a few thousand"],
            subs: &[
                Sub { name: "md", f: c13::<MD>, quick: 120000 },
                Sub { name: "x", f: c13::<X>, quick: 80000 },
                Sub { name: "big", f: |s, c| big(34, s, c, c13::<MD>, c13::<X>), quick: 200 },
            ],
            fixed: Some(c13_fixed),
        },
        Property {
            id: "C14",
            rule: "a generated document, slice, mark set or step written and read back, compared with an independent JSON writer, and read from a randomly spelled equivalent (key order, white space, escapes, omitted defaults, null attributes); non-trivial: the value has attributes or marks or a slice with content",
            assumptions: &["nesting of the JSON text below serde_json's limit of 128"],
            subs: &[
                Sub { name: "documents", f: c14_doc, quick: 12000 },
                Sub { name: "steps", f: c14_step, quick: 16000 },
                Sub { name: "test schema", f: c14_x, quick: 6000 },
                Sub { name: "big", f: |s, c| big(34, s, c, c14_doc, c14_step), quick: 40 },
            ],
            fixed: None,
        },
        Property {
            id: "C15",
            rule: "a valid JSON document or step with one to three mutations judged by an independent validator, or arbitrary or damaged text; non-trivial: the validator has a definite verdict for it",
            assumptions: &[
                "no verdict (only: no panic, consistent if accepted) on arrays in place of objects, unknown or repeated keys, null for missing lists, numbers as type names, whole floats, empty texts",
            ],
            subs: &[
                Sub { name: "documents", f: c15_doc, quick: 40000*4 },
                Sub { name: "steps", f: c15_step, quick: 40000*4 },
                Sub { name: "garbage", f: c15_garbage, quick: 30000*4 },
            ],
            fixed: None,
        },
    ]
}

// ------------------------------------------------------------------ C13

fn wild_pos(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[70, 15, 8, 4, 3]) {
        0 => src.below(n + 1),
        1 => src.below(n + 6),
        2 => n,
        3 => n.wrapping_mul(2).wrapping_add(src.below(50)),
        _ => *src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 7, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as usize]),
    }
}

fn hostile_root<T: TS>(src: &mut Src) -> M {
    set_names(T::spec().names);
    let sp = T::spec();
    let opts = Opts { normal: !src.chance(1, 4), valid: !src.chance(1, 4), empty_text: src.chance(1, 6), plain_text: false };
    let mut g = G::new(src, opts);
    let ty = if src.chance(1, 5) { src.below(sp.types.len()) } else { sp.top };
    g.node::<T>(src, ty, &MarkRule::All, 0)
}

fn c13<T: TS>(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let root = hostile_root::<T>(src);
    let n = root.content_size();
    let sp = T::spec();
    // mostly wild, sometimes a sensible step with one thing changed
    let sensible = root.has_content() && is_normal(root.kids()) && src.chance(2, 5);
    let mut st = if sensible {
        gen_step::<T>(src, &root)
    } else {
        let (a, b) = (wild_pos(src, n), wild_pos(src, n));
        let (a, b) = if src.chance(1, 4) { (a, b) } else { (a.min(b), a.max(b)) };
        let slice = |src: &mut Src| match src.weighted(&[60, 20, 20]) {
            0 => wild_slice::<T>(src),
            1 => MSlice::empty(),
            _ => {
                let t = tokens(root.kids());
                let (x, y) = gen_range(src, &t);
                slice(&root, x, y, src.chance(1, 4)).unwrap_or_else(MSlice::empty)
            }
        };
        match src.weighted(&[40, 35, 13, 12]) {
            0 => MStep::Replace { a, b, slice: slice(src), structure: src.chance(1, 3) },
            1 => {
                let (ga, gb) = (wild_pos(src, n), wild_pos(src, n));
                let (ga, gb) = if src.chance(1, 4) { (ga, gb) } else { (ga.min(gb), ga.max(gb)) };
                let (a, b, ga, gb) = if src.chance(1, 2) {
                    let mut v = [a, b, ga, gb];
                    v.sort_unstable();
                    (v[0], v[3], v[1], v[2])
                } else {
                    (a, b, ga, gb)
                };
                let s = slice(src);
                let k = wild_pos(src, csize(&s.content));
                MStep::Around { a, b, ga, gb, slice: s, insert: k, structure: src.chance(1, 3) }
            }
            2 => MStep::Add { a, b, mark: gen_step_mark::<T>(src, &root) },
            _ => MStep::Remove { a, b, mark: gen_step_mark::<T>(src, &root) },
        }
    };
    if sensible && src.chance(3, 4) {
        let k = src.below(8);
        let p = wild_pos(src, n);
        match &mut st {
            MStep::Replace { a, b, slice, structure } => match k {
                0 | 1 => *a = p,
                2 | 3 => *b = p,
                4 => slice.os = src.below(9),
                5 => slice.oe = src.below(9),
                6 => *structure = true,
                _ => slice.content.truncate(src.below(2)),
            },
            MStep::Around { a, b, ga, gb, slice, insert, structure } => match k {
                0 => *a = p,
                1 => *b = p,
                2 => *ga = p,
                3 => *gb = p,
                4 => *insert = wild_pos(src, csize(&slice.content)),
                5 => slice.os = src.below(9),
                6 => slice.oe = src.below(9),
                _ => *structure = true,
            },
            MStep::Add { a, b, .. } | MStep::Remove { a, b, .. } => {
                if k % 2 == 0 {
                    *a = p
                } else {
                    *b = p
                }
            }
        }
    }
    let _ = sp;
    cx.sample(|| format!("{:?} on {:?}", st, root));
    cx.hash(&(&root, &st));
    let doc_json = serde_json::to_value(T::from_m(&root)).map_err(|e| e.to_string())?;
    let step_json = serde_json::to_value(to_step::<T>(&st)).map_err(|e| e.to_string())?;
    let doc: T::Node = serde_json::from_value(doc_json).map_err(|e| format!("document refused: {}", e))?;
    let step: Step<T> = serde_json::from_value(step_json).map_err(|e| format!("step refused: {}", e))?;
    let before = doc.clone();
    let r = guarded(|| step.apply(&doc).map(|d| T::to_m(&d)).map_err(|_| ()));
    let r = r.map_err(|e| format!("applying {:?} to {:?} {}", st, root, e))?;
    ensure!(doc == before, "applying {:?} changed {:?}", st, root);
    let (a, b) = match &st {
        MStep::Replace { a, b, .. }
        | MStep::Around { a, b, .. }
        | MStep::Add { a, b, .. }
        | MStep::Remove { a, b, .. } => (*a, *b),
    };
    cx.label(kind(&st));
    cx.label_if(r.is_ok(), "applied");
    cx.label_if(!root.has_content(), "leaf root");
    cx.label_if(a > b, "reversed");
    cx.label_if(a > n || b > n, "out of range");
    cx.nontrivial = r.is_ok() || (a <= n && b <= n);
    Ok(())
}

/// Small exhaustive part: every small step on a handful of documents
fn c13_fixed() -> Result<u64, String> {
    set_names(MD_NAMES);
    let p = |c: Vec<M>| M::Node { ty: md::PARAGRAPH, attrs: vec![], marks: vec![], children: Some(c) };
    let q = |c: Vec<M>| M::Node { ty: md::BLOCKQUOTE, attrs: vec![], marks: vec![], children: Some(c) };
    let d = |c: Vec<M>| M::Node { ty: md::DOC, attrs: vec![], marks: vec![], children: Some(c) };
    let hr = || M::Node { ty: md::RULE, attrs: vec![], marks: vec![], children: None };
    let tx = |s: &str| M::text(s, &[]);
    let docs = [
        d(vec![p(vec![tx("a😀")])]),
        d(vec![q(vec![p(vec![])]), hr()]),
        d(vec![]),
        d(vec![p(vec![tx("a")]), p(vec![tx("b")])]),
        hr(),
        tx("ab"),
    ];
    let slices = [
        vec![],
        vec![p(vec![])],
        vec![q(vec![p(vec![tx("x")])])],
        vec![tx("x")],
        vec![hr()],
        vec![p(vec![tx("x")]), p(vec![])],
    ];
    let mut n = 0;
    for doc in &docs {
        let real = MD::from_m(doc);
        let top = doc.size() + 1;
        for a in 0..=top {
            for b in 0..=top {
                for s in &slices {
                    for os in 0..=3 {
                        for oe in 0..=3 {
                            let sl = MSlice { content: s.clone(), os, oe };
                            let mut steps = vec![MStep::Replace { a, b, slice: sl.clone(), structure: os == oe }];
                            for ga in (0..=top).step_by(2) {
                                for k in 0..3 {
                                    steps.push(MStep::Around {
                                        a,
                                        b,
                                        ga,
                                        gb: (ga + k).min(b.max(1)),
                                        slice: sl.clone(),
                                        insert: k + os,
                                        structure: k == 1,
                                    });
                                }
                            }
                            for st in steps {
                                n += 1;
                                let step = to_step::<MD>(&st);
                                guarded(|| step.apply(&real).is_ok())
                                    .map_err(|e| format!("applying {:?} to {:?} {}", st, doc, e))?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(n)
}

// ------------------------------------------------------------------ JSON values of our own

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    /// a number, as it is spelled
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
fn js(s: &str) -> J {
    J::Str(s.to_string())
}
fn jn(n: impl ToString) -> J {
    J::Num(n.to_string())
}
fn key(s: &str, v: J) -> (String, J) {
    (s.to_string(), v)
}

/// How to spell a value; `None` for the one the crate is compared with
struct Spell<'a> {
    src: Option<&'a mut Src>,
}
impl Spell<'_> {
    fn coin(&mut self) -> bool {
        match &mut self.src {
            Some(s) => s.chance(1, 2),
            None => false,
        }
    }
    fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        if let Some(s) = &mut self.src {
            if s.chance(1, 3) {
                return;
            }
            for i in (1..v.len()).rev() {
                let j = s.below(i + 1);
                v.swap(i, j);
            }
        }
    }
    fn obj(&mut self, mut v: Vec<(String, J)>) -> J {
        self.shuffle(&mut v);
        J::Obj(v)
    }
    /// optional string attribute: null, absent or empty when empty
    fn opt(&mut self, v: &mut Vec<(String, J)>, k: &str, s: &str) {
        if s.is_empty() && self.coin() {
            if self.coin() {
                v.push(key(k, J::Null));
            }
        } else {
            v.push(key(k, js(s)));
        }
    }
    fn mark(&mut self, m: &MMark) -> J {
        let mut v = vec![key("type", js(MD_MARKS[m.ty]))];
        if m.ty == md::LINK {
            let mut a = vec![key("href", js(&m.attrs[0]))];
            self.opt(&mut a, "title", &m.attrs[1]);
            let a = self.obj(a);
            v.push(key("attrs", a));
        }
        self.obj(v)
    }
    fn marks(&mut self, ms: &Marks) -> J {
        let mut v: Vec<J> = ms.iter().map(|m| self.mark(m)).collect();
        self.shuffle(&mut v);
        J::Arr(v)
    }
    fn node(&mut self, n: &M) -> J {
        match n {
            M::Text { text, marks } => {
                let mut v = vec![key("type", js("text")), key("text", js(text))];
                if !marks.is_empty() || self.coin() {
                    let m = self.marks(marks);
                    v.push(key("marks", m));
                }
                self.obj(v)
            }
            M::Node { ty, attrs, children, .. } => {
                let mut v = vec![key("type", js(MD_NAMES[*ty]))];
                let s = |i: usize| match &attrs[i] {
                    AV::S(s) => s.clone(),
                    AV::N(n) => n.to_string(),
                    AV::B(b) => b.to_string(),
                };
                let a = match *ty {
                    md::HEADING => vec![key("level", J::Num(s(0)))],
                    md::CODE_BLOCK => vec![key("params", J::Str(s(0)))],
                    md::BULLET_LIST => vec![key("tight", J::Bool(attrs[0] == AV::B(true)))],
                    md::ORDERED_LIST => {
                        vec![key("order", J::Num(s(0))), key("tight", J::Bool(attrs[1] == AV::B(true)))]
                    }
                    md::IMAGE => {
                        let mut a = vec![key("src", J::Str(s(0)))];
                        self.opt(&mut a, "alt", &s(1));
                        self.opt(&mut a, "title", &s(2));
                        a
                    }
                    _ => vec![],
                };
                if !a.is_empty() {
                    let a = self.obj(a);
                    v.push(key("attrs", a));
                }
                if let Some(c) = children {
                    if !c.is_empty() || self.coin() {
                        let c = self.nodes(c);
                        v.push(key("content", c));
                    }
                }
                self.obj(v)
            }
        }
    }
    fn nodes(&mut self, c: &[M]) -> J {
        J::Arr(c.iter().map(|k| self.node(k)).collect())
    }
    fn slice(&mut self, s: &MSlice) -> J {
        let mut v = vec![];
        let c = self.nodes(&s.content);
        v.push(key("content", c));
        if s.os > 0 || self.coin() {
            v.push(key("openStart", jn(s.os)));
        }
        if s.oe > 0 || self.coin() {
            v.push(key("openEnd", jn(s.oe)));
        }
        self.obj(v)
    }
    fn step(&mut self, s: &MStep) -> J {
        let mut v = vec![key("stepType", js(kind(s)))];
        let sl = |me: &mut Self, v: &mut Vec<(String, J)>, s: &MSlice| {
            if *s != MSlice::empty() || me.coin() {
                let x = me.slice(s);
                v.push(key("slice", x));
            }
        };
        let flag = |me: &mut Self, v: &mut Vec<(String, J)>, b: bool| {
            if b || me.coin() {
                v.push(key("structure", J::Bool(b)));
            }
        };
        match s {
            MStep::Replace { a, b, slice, structure } => {
                v.push(key("from", jn(a)));
                v.push(key("to", jn(b)));
                sl(self, &mut v, slice);
                flag(self, &mut v, *structure);
            }
            MStep::Around { a, b, ga, gb, slice, insert, structure } => {
                v.push(key("from", jn(a)));
                v.push(key("to", jn(b)));
                v.push(key("gapFrom", jn(ga)));
                v.push(key("gapTo", jn(gb)));
                v.push(key("insert", jn(insert)));
                sl(self, &mut v, slice);
                flag(self, &mut v, *structure);
            }
            MStep::Add { a, b, mark } | MStep::Remove { a, b, mark } => {
                let m = self.mark(mark);
                v.push(key("mark", m));
                v.push(key("from", jn(a)));
                v.push(key("to", jn(b)));
            }
        }
        self.obj(v)
    }
}

/// Print with random white space and escapes
fn print(j: &J, src: &mut Option<&mut Src>, out: &mut String) {
    fn ws(src: &mut Option<&mut Src>, out: &mut String) {
        if let Some(s) = src {
            if s.chance(1, 12) {
                out.push(*s.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
    fn string(t: &str, src: &mut Option<&mut Src>, out: &mut String) {
        let esc = match src {
            Some(s) => s.weighted(&[70, 15, 15]),
            None => 0,
        };
        out.push('"');
        for c in t.chars() {
            let all = esc == 2 || (esc == 1 && (c as u32) > 126);
            match c {
                '"' if !all => out.push_str("\\\""),
                '\\' if !all => out.push_str("\\\\"),
                '\n' if esc == 1 => out.push_str("\\n"),
                '\t' if esc == 1 => out.push_str("\\t"),
                '/' if esc == 1 => out.push_str("\\/"),
                c if all || (c as u32) < 32 => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{:04x}", u));
                    }
                }
                c => out.push(c),
            }
        }
        out.push('"');
    }
    ws(src, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(s) => string(s, src, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print(x, src, out);
            }
            ws(src, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(src, out);
                string(k, src, out);
                ws(src, out);
                out.push(':');
                print(x, src, out);
            }
            ws(src, out);
            out.push('}');
        }
    }
    ws(src, out);
}
fn plain(j: &J) -> String {
    let mut s = String::new();
    print(j, &mut None, &mut s);
    s
}

/// Leave out everything ProseMirror leaves out, so that equal meanings compare equal
fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(canon).collect()),
        Value::Object(o) => {
            let mut r = serde_json::Map::new();
            for (k, x) in o {
                let x = canon(x);
                let drop = match (k.as_str(), &x) {
                    ("content", Value::Array(a)) => a.is_empty() && o.contains_key("type"),
                    ("marks", Value::Array(a)) => a.is_empty(),
                    ("openStart", Value::Number(n)) | ("openEnd", Value::Number(n)) => n.as_u64() == Some(0),
                    ("structure", Value::Bool(false)) => true,
                    ("alt", Value::String(s)) | ("title", Value::String(s)) => s.is_empty(),
                    ("alt", Value::Null) | ("title", Value::Null) => true,
                    ("slice", Value::Object(s)) => {
                        s.len() == 1 && matches!(s.get("content"), Some(Value::Array(a)) if a.is_empty())
                    }
                    _ => false,
                };
                if !drop {
                    let x = if k == "marks" { sort_marks(x) } else { x };
                    r.insert(k.clone(), x);
                }
            }
            Value::Object(r)
        }
        x => x.clone(),
    }
}
fn sort_marks(v: Value) -> Value {
    match v {
        Value::Array(mut a) => {
            a.sort_by_key(|m| m.get("type").map(|t| t.to_string()));
            Value::Array(a)
        }
        v => v,
    }
}
fn jvalue(j: &J) -> Value {
    serde_json::from_str(&plain(j)).expect("own writer")
}

// ------------------------------------------------------------------ C14

fn round_trip<T>(what: &str, real: &T, expected: &J) -> Result<(), String>
where
    T: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq + std::fmt::Debug,
{
    let v = serde_json::to_value(real).map_err(|e| format!("{} not serialisable: {}", what, e))?;
    let e = jvalue(expected);
    ensure!(canon(&v) == canon(&e), "{} is written as\n {}\nexpected\n {}", what, v, e);
    same_back(what, real, v)
}
fn same_back<T>(what: &str, real: &T, v: Value) -> Result<(), String>
where
    T: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq + std::fmt::Debug,
{
    let t = serde_json::to_string(real).map_err(|e| format!("{} not serialisable: {}", what, e))?;
    let back: T = serde_json::from_str(&t).map_err(|e| format!("{} not read back from {}: {}", what, t, e))?;
    ensure!(back == *real, "{} reads back as {:?} from {}", what, back, t);
    let back: T = serde_json::from_value(v).map_err(|e| format!("{} not read back: {}", what, e))?;
    ensure!(back == *real, "{} reads back as {:?}", what, back);
    let pretty = serde_json::to_vec_pretty(real).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_slice(&pretty).map_err(|e| format!("{} not read back: {}", what, e))?;
    ensure!(&back == real, "{} changed by JSON: {:?} became {:?}", what, real, back);
    let back: T = serde_json::from_reader(&t.as_bytes()[..]).map_err(|e| format!("{} not read back from a reader: {}", what, e))?;
    ensure!(back == *real, "{} reads back as {:?}", what, back);
    Ok(())
}
fn spelled<T>(what: &str, real: &T, j: &J, src: &mut Src) -> Result<(), String>
where
    T: for<'d> serde::Deserialize<'d> + PartialEq + std::fmt::Debug,
{
    let mut t = String::new();
    print(j, &mut Some(src), &mut t);
    let back: T = serde_json::from_str(&t).map_err(|e| format!("{} {:?} refused: {}\n {}", what, real, e, t))?;
    ensure!(back == *real, "{} {:?} read as {:?} from\n {}", what, real, back, t);
    let v: Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_value(v).map_err(|e| format!("{} {:?} refused: {}\n {}", what, real, e, t))?;
    ensure!(back == *real, "{} {:?} read as {:?} from value\n {}", what, real, back, t);
    Ok(())
}

/// any document, nesting limited
fn json_doc(src: &mut Src) -> M {
    set_names(MD_NAMES);
    let opts = Opts { normal: !src.chance(1, 4), valid: !src.chance(1, 4), empty_text: src.chance(1, 5), plain_text: false };
    let mut g = G::new(src, opts);
    g.max_depth = g.max_depth.min(20);
    let ty = if src.chance(1, 5) { src.below(12) } else { md::DOC };
    g.node::<MD>(src, ty, &MarkRule::All, 0)
}
fn interesting(c: &[M]) -> bool {
    c.iter().any(|n| match n {
        M::Text { marks, .. } => !marks.is_empty(),
        M::Node { attrs, .. } => !attrs.is_empty() || interesting(n.kids()),
    })
}

fn c14_doc(src: &mut Src, cx: &mut Cx) -> Outcome {
    let m = json_doc(src);
    cx.hash(&m);
    cx.sample(|| format!("{:?}", m));
    cx.nontrivial = interesting(std::slice::from_ref(&m));
    let real = MD::from_m(&m);
    let j = Spell { src: None }.node(&m);
    round_trip(&format!("{:?}", m), &real, &j)?;
    for _ in 0..2 {
        let j = Spell { src: Some(src) }.node(&m);
        spelled("document", &real, &j, src)?;
        cx.evals += 1;
        let back: MarkdownNode = serde_json::from_str(&plain(&j)).map_err(|e| e.to_string())?;
        ensure!(MD::to_m(&back) == m, "{:?} read as {:?}", m, MD::to_m(&back));
        check_sizes::<MD>(&back)?;
    }
    // the content as a fragment, and a slice of it
    let c = m.kids().to_vec();
    let f = MD::frag_from(&c);
    round_trip(&format!("fragment {:?}", c), &f, &Spell { src: None }.nodes(&c))?;
    let j = Spell { src: Some(src) }.nodes(&c);
    spelled("fragment", &f, &j, src)?;
    let t = tokens(m.kids());
    let s = if m.has_content() && is_normal(m.kids()) && src.chance(1, 2) {
        let (a, b) = gen_range(src, &t);
        slice(&m, a, b, src.chance(1, 4)).unwrap()
    } else {
        MSlice { content: c, os: src.below(3), oe: *src.pick(&[0, 0, 1, 2, 9, usize::MAX]) }
    };
    let rs = MD::slice_from(&s);
    cx.label_if(s.os > 0 || s.oe > 0, "open slice");
    round_trip(&format!("slice {:?}", s), &rs, &Spell { src: None }.slice(&s))?;
    let j = Spell { src: Some(src) }.slice(&s);
    spelled("slice", &rs, &j, src)?;
    // a mark set
    let mut ms = vec![];
    for _ in 0..src.below(6) {
        ms = add_mark(&ms, &MD::gen_mark(src));
    }
    let set = MD::set_from(&ms);
    cx.label_if(ms.len() > 1, "several marks");
    round_trip(&format!("marks {:?}", ms), &set, &Spell { src: None }.marks(&ms))?;
    let j = Spell { src: Some(src) }.marks(&ms);
    spelled("marks", &set, &j, src)?;
    Ok(())
}

fn num(src: &mut Src) -> usize {
    match src.weighted(&[80, 10, 10]) {
        0 => src.below(40),
        1 => src.u64() as usize,
        _ => *src.pick(&[0, usize::MAX, 1 << 32, 1 << 53, (1 << 53) + 1, 1 << 63]),
    }
}
fn any_step(src: &mut Src) -> MStep {
    set_names(MD_NAMES);
    let sl = |src: &mut Src| {
        if src.chance(1, 4) {
            MSlice::empty()
        } else {
            let mut s = wild_slice::<MD>(src);
            if src.chance(1, 3) {
                s.os = 0
            }
            s
        }
    };
    match src.weighted(&[35, 35, 15, 15]) {
        0 => MStep::Replace { a: num(src), b: num(src), slice: sl(src), structure: src.chance(1, 3) },
        1 => MStep::Around {
            a: num(src),
            b: num(src),
            ga: num(src),
            gb: num(src),
            slice: sl(src),
            insert: num(src),
            structure: src.chance(1, 3),
        },
        2 => MStep::Add { a: num(src), b: num(src), mark: MD::gen_mark(src) },
        _ => MStep::Remove { a: num(src), b: num(src), mark: MD::gen_mark(src) },
    }
}

fn c14_step(src: &mut Src, cx: &mut Cx) -> Outcome {
    let st = any_step(src);
    cx.hash(&st);
    cx.sample(|| format!("{:?}", st));
    cx.label(kind(&st));
    cx.nontrivial = match &st {
        MStep::Replace { slice, .. } | MStep::Around { slice, .. } => !slice.content.is_empty(),
        _ => true,
    };
    let real = to_step::<MD>(&st);
    round_trip(&format!("{:?}", st), &real, &Spell { src: None }.step(&st))?;
    for _ in 0..2 {
        let j = Spell { src: Some(src) }.step(&st);
        spelled("step", &real, &j, src)?;
        cx.evals += 1;
    }
    // field by field, so that two wrongs in writing and reading do not cancel out
    let back: Step<MD> = serde_json::from_str(&plain(&Spell { src: None }.step(&st))).map_err(|e| e.to_string())?;
    ensure!(step_to(&back) == st, "{:?} read as {:?}", st, step_to(&back));
    // several steps
    if src.chance(1, 4) {
        let many = vec![to_step::<MD>(&st), to_step::<MD>(&any_step(src))];
        let v = serde_json::to_value(&many).map_err(|e| e.to_string())?;
        same_back("steps", &many, v)?;
    }
    Ok(())
}

fn step_to(s: &Step<MD>) -> MStep {
    match s {
        Step::Replace(r) => MStep::Replace {
            a: r.span.from,
            b: r.span.to,
            slice: MD::slice_to(&r.slice),
            structure: r.structure,
        },
        Step::ReplaceAround(r) => MStep::Around {
            a: r.span.from,
            b: r.span.to,
            ga: r.gap_from,
            gb: r.gap_to,
            slice: MD::slice_to(&r.slice),
            insert: r.insert,
            structure: r.structure,
        },
        Step::AddMark(r) => MStep::Add { a: r.span.from, b: r.span.to, mark: MD::mark_to(&r.mark) },
        Step::RemoveMark(r) => MStep::Remove { a: r.span.from, b: r.span.to, mark: MD::mark_to(&r.mark) },
    }
}

fn c14_x(src: &mut Src, cx: &mut Cx) -> Outcome {
    let mut m = gen_tree::<X>(src);
    if m.depth() > 15 {
        m = M::Node { ty: x::PARA, attrs: vec![AV::N(1)], marks: vec![], children: Some(vec![]) };
    }
    cx.hash(&m);
    cx.sample(|| format!("{:?}", m));
    cx.nontrivial = interesting(m.kids());
    let real = X::from_m(&m);
    let v = serde_json::to_value(&real).map_err(|e| e.to_string())?;
    same_back("node", &real, v.clone())?;
    let back: XNode = serde_json::from_value(v).map_err(|e| e.to_string())?;
    ensure!(X::to_m(&back) == m, "{:?} read as {:?}", m, X::to_m(&back));
    check_sizes::<X>(&back)?;
    if m.has_content() {
        let st = gen_step::<X>(src, &normalize_node(&m));
        let real = to_step::<X>(&st);
        let v = serde_json::to_value(&real).map_err(|e| e.to_string())?;
        same_back("step", &real, v)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C15: the validator

#[derive(Clone, Debug, PartialEq)]
enum V<T> {
    Reject(String),
    Unspec,
    Accept(T),
}
use V::*;

/// The worse of two verdicts
fn rej<T>(m: impl Into<String>) -> V<T> {
    Reject(m.into())
}
impl<T> V<T> {
    fn then<U, W>(self, o: V<U>, f: impl FnOnce(T, U) -> W) -> V<W> {
        match (self, o) {
            (Reject(m), _) | (_, Reject(m)) => Reject(m),
            (Unspec, _) | (_, Unspec) => Unspec,
            (Accept(a), Accept(b)) => Accept(f(a, b)),
        }
    }
    fn map<W>(self, f: impl FnOnce(T) -> W) -> V<W> {
        self.then(Accept(()), |a, _| f(a))
    }
}
/// The fields of an object; unspecified if repeated
struct Fields<'a> {
    v: &'a [(String, J)],
    dup: bool,
}
fn fields(j: &J) -> V<Fields<'_>> {
    match j {
        J::Obj(v) => {
            let mut k: Vec<_> = v.iter().map(|x| &x.0).collect();
            k.sort();
            let n = k.len();
            k.dedup();
            Accept(Fields { v, dup: k.len() < n })
        }
        J::Arr(_) => Unspec,
        _ => rej("not an object"),
    }
}
impl<'a> Fields<'a> {
    fn get(&self, k: &str) -> Option<&'a J> {
        self.v.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    /// Unspecified if there are other or repeated keys
    fn only(&self, ks: &[&str]) -> V<()> {
        if self.dup || self.v.iter().any(|x| !ks.contains(&x.0.as_str())) {
            Unspec
        } else {
            Accept(())
        }
    }
}
fn vtype<'a>(f: &Fields<'a>, k: &str, names: &[&str]) -> V<usize> {
    if f.dup && f.v.iter().filter(|x| x.0 == k).count() > 1 {
        return Unspec;
    }
    match f.get(k) {
        None => rej(format!("no {}", k)),
        Some(J::Str(s)) => match names.iter().position(|n| n == s) {
            Some(i) => Accept(i),
            None => rej(format!("unknown {} {:?}", k, s)),
        },
        Some(J::Num(_)) => Unspec,
        Some(_) => rej(format!("{} is not a string", k)),
    }
}
fn vnum(j: Option<&J>, max: u64, what: &str) -> V<u64> {
    match j {
        None => rej(format!("no {}", what)),
        Some(J::Num(n)) => {
            if let Ok(x) = n.parse::<u64>() {
                if x <= max {
                    Accept(x)
                } else {
                    rej(format!("{} out of range", what))
                }
            } else if n.contains(['.', 'e', 'E']) {
                match n.parse::<f64>() {
                    Ok(x) if x.fract() == 0.0 && x >= 0.0 && x <= max as f64 => Unspec,
                    _ => rej(format!("{} is {}", what, n)),
                }
            } else if n == "-0" {
                Unspec
            } else {
                rej(format!("{} is {}", what, n))
            }
        }
        Some(_) => rej(format!("{} is not a number", what)),
    }
}
fn vstr(j: Option<&J>, what: &str) -> V<String> {
    match j {
        Some(J::Str(s)) => Accept(s.clone()),
        None => rej(format!("no {}", what)),
        _ => rej(format!("{} is not a string", what)),
    }
}
fn vopt(j: Option<&J>, what: &str) -> V<String> {
    match j {
        None | Some(J::Null) => Accept(String::new()),
        j => vstr(j, what),
    }
}
fn vbool(j: Option<&J>, what: &str) -> V<bool> {
    match j {
        Some(J::Bool(b)) => Accept(*b),
        None => rej(format!("no {}", what)),
        _ => rej(format!("{} is not a flag", what)),
    }
}
fn all<T>(vs: impl Iterator<Item = V<T>>) -> V<Vec<T>> {
    let mut acc = Accept(vec![]);
    for v in vs {
        acc = acc.then(v, |mut a: Vec<T>, b| {
            a.push(b);
            a
        });
    }
    acc
}

fn vmark(j: &J) -> V<MMark> {
    let f = match fields(j) {
        Accept(f) => f,
        Unspec => return Unspec,
        Reject(m) => return Reject(m),
    };
    match vtype(&f, "type", MD_MARKS) {
        Reject(m) => Reject(m),
        Unspec => Unspec,
        Accept(md::LINK) => {
            let a = match f.get("attrs") {
                None => rej("no attrs"),
                Some(a) => match fields(a) {
                    Reject(m) => Reject(m),
                    Unspec => Unspec,
                    Accept(g) => vstr(g.get("href"), "href")
                        .then(vopt(g.get("title"), "title"), |a, b| vec![a, b])
                        .dup_unspec(g.dup)
                        .then(g.only(&["href", "title"]), |a, _| a),
                },
            };
            a.map(|attrs| MMark { ty: md::LINK, attrs })
                .dup_unspec(f.dup)
                .then(f.only(&["type", "attrs"]), |a, _| a)
        }
        Accept(ty) => f.only(&["type"]).map(|_| MMark { ty, attrs: vec![] }),
    }
}
impl<T> V<T> {
    /// repeated keys: which one counts is not specified
    fn dup_unspec(self, dup: bool) -> V<T> {
        if dup {
            Unspec
        } else {
            self
        }
    }
}
fn vmarks(j: Option<&J>) -> V<Marks> {
    match j {
        None => Accept(vec![]),
        Some(J::Null) => Unspec,
        Some(J::Arr(v)) => match all(v.iter().map(vmark)) {
            Accept(mut ms) => {
                ms.sort();
                let n = ms.len();
                let mut tys: Vec<_> = ms.iter().map(|m| m.ty).collect();
                tys.dedup();
                if tys.len() < n {
                    rej("two marks of a type")
                } else {
                    Accept(ms)
                }
            }
            v => v,
        },
        Some(_) => rej("marks are not a list"),
    }
}
fn vnodes(j: Option<&J>) -> V<Vec<M>> {
    match j {
        None => Accept(vec![]),
        Some(J::Null) => Unspec,
        Some(J::Arr(v)) => all(v.iter().map(vnode)),
        Some(_) => rej("content is not a list"),
    }
}
fn vnode(j: &J) -> V<M> {
    let f = match fields(j) {
        Accept(f) => f,
        Unspec => return Unspec,
        Reject(m) => return Reject(m),
    };
    let ty = match vtype(&f, "type", MD_NAMES) {
        Accept(t) => t,
        Unspec => return Unspec,
        Reject(m) => return Reject(m),
    };
    let node = |attrs: Attrs, children: Option<Vec<M>>| M::Node { ty, attrs, marks: vec![], children };
    let attrs = || -> V<Fields> {
        match f.get("attrs") {
            None => rej("no attrs"),
            Some(a) => fields(a),
        }
    };
    let r = match ty {
        md::DOC | md::BLOCKQUOTE | md::PARAGRAPH | md::LIST_ITEM => vnodes(f.get("content"))
            .map(|c| node(vec![], Some(c)))
            .then(f.only(&["type", "content"]), |a, _| a),
        md::RULE | md::HARD_BREAK => f.only(&["type"]).map(|_| node(vec![], None)),
        md::TEXT => {
            let t = match vstr(f.get("text"), "text") {
                Accept(t) if t.is_empty() => Unspec,
                t => t,
            };
            t.then(vmarks(f.get("marks")), |text, marks| M::Text { text, marks })
                .then(f.only(&["type", "text", "marks"]), |a, _| a)
        }
        _ => {
            let a: V<Attrs> = match attrs() {
                Reject(m) => Reject(m),
                Unspec => Unspec,
                Accept(g) => {
                    let (a, ks): (V<Attrs>, &[&str]) = match ty {
                        md::HEADING => (vnum(g.get("level"), 255, "level").map(|n| vec![AV::N(n)]), &["level"]),
                        md::CODE_BLOCK => (vstr(g.get("params"), "params").map(|s| vec![AV::S(s)]), &["params"]),
                        md::BULLET_LIST => (vbool(g.get("tight"), "tight").map(|b| vec![AV::B(b)]), &["tight"]),
                        md::ORDERED_LIST => (
                            vnum(g.get("order"), u64::MAX, "order")
                                .then(vbool(g.get("tight"), "tight"), |n, b| vec![AV::N(n), AV::B(b)]),
                            &["order", "tight"],
                        ),
                        _ => (
                            vstr(g.get("src"), "src")
                                .then(vopt(g.get("alt"), "alt"), |a, b| vec![AV::S(a), AV::S(b)])
                                .then(vopt(g.get("title"), "title"), |mut a, b| {
                                    a.push(AV::S(b));
                                    a
                                }),
                            &["src", "alt", "title"],
                        ),
                    };
                    a.dup_unspec(g.dup).then(g.only(ks), |a, _| a)
                }
            };
            if ty == md::IMAGE {
                a.map(|a| node(a, None)).then(f.only(&["type", "attrs"]), |a, _| a)
            } else {
                a.then(vnodes(f.get("content")), |a, c| node(a, Some(c)))
                    .then(f.only(&["type", "attrs", "content"]), |a, _| a)
            }
        }
    };
    r.dup_unspec(f.dup)
}
fn vslice(j: Option<&J>) -> V<MSlice> {
    match j {
        None => Accept(MSlice::empty()),
        Some(J::Null) => Unspec,
        Some(j) => match fields(j) {
            Reject(m) => Reject(m),
            Unspec => Unspec,
            Accept(f) => {
                let open = |k: &str| match f.get(k) {
                    None => Accept(0),
                    Some(J::Null) => Unspec,
                    j => vnum(j, u64::MAX, k),
                };
                let c = match f.get("content") {
                    None => Unspec,
                    j => vnodes(j),
                };
                c.then(open("openStart"), |c, a| (c, a))
                    .then(open("openEnd"), |(content, a), b| MSlice { content, os: a as usize, oe: b as usize })
                    .dup_unspec(f.dup)
                    .then(f.only(&["content", "openStart", "openEnd"]), |a, _| a)
            }
        },
    }
}
const STEP_TYPES: &[&str] = &["replace", "replaceAround", "addMark", "removeMark"];
fn vstep(j: &J) -> V<MStep> {
    let f = match fields(j) {
        Accept(f) => f,
        Unspec => return Unspec,
        Reject(m) => return Reject(m),
    };
    let ty = match vtype(&f, "stepType", STEP_TYPES) {
        Accept(t) => t,
        Unspec => return Unspec,
        Reject(m) => return Reject(m),
    };
    let n = |k: &str| vnum(f.get(k), u64::MAX, k).map(|x| x as usize);
    let span = n("from").then(n("to"), |a, b| (a, b));
    let structure = match f.get("structure") {
        None => Accept(false),
        Some(J::Null) => Unspec,
        j => vbool(j, "structure"),
    };
    let r = match ty {
        0 => span
            .then(vslice(f.get("slice")), |s, l| (s, l))
            .then(structure, |((a, b), slice), structure| MStep::Replace { a, b, slice, structure })
            .then(f.only(&["stepType", "from", "to", "slice", "structure"]), |a, _| a),
        1 => span
            .then(n("gapFrom").then(n("gapTo"), |a, b| (a, b)), |a, b| (a, b))
            .then(n("insert"), |a, b| (a, b))
            .then(vslice(f.get("slice")), |s, l| (s, l))
            .then(structure, |((((a, b), (ga, gb)), insert), slice), structure| MStep::Around {
                a,
                b,
                ga,
                gb,
                slice,
                insert,
                structure,
            })
            .then(f.only(&["stepType", "from", "to", "gapFrom", "gapTo", "insert", "slice", "structure"]), |a, _| a),
        _ => {
            let m = match f.get("mark") {
                None => rej("no mark"),
                Some(m) => vmark(m),
            };
            span.then(m, |(a, b), mark| if ty == 2 { MStep::Add { a, b, mark } } else { MStep::Remove { a, b, mark } })
                .then(f.only(&["stepType", "from", "to", "mark"]), |a, _| a)
        }
    };
    r.dup_unspec(f.dup)
}

// ------------------------------------------------------------------ C15: mutations

/// paths of all values
fn paths(j: &J, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(cur.clone());
    let n = match j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    for i in 0..n {
        cur.push(i);
        let k = match j {
            J::Arr(v) => &v[i],
            J::Obj(v) => &v[i].1,
            _ => unreachable!(),
        };
        paths(k, cur, out);
        cur.pop();
    }
}
fn at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut J {
    match p.split_first() {
        None => j,
        Some((i, r)) => match j {
            J::Arr(v) => at(&mut v[*i], r),
            J::Obj(v) => at(&mut v[*i].1, r),
            _ => unreachable!(),
        },
    }
}
const KEYS: &[&str] = &[
    "type", "attrs", "content", "marks", "text", "level", "params", "order", "tight", "src", "alt", "title", "href",
    "stepType", "from", "to", "gapFrom", "gapTo", "slice", "openStart", "openEnd", "insert", "structure", "mark", "x",
    "Type", "gap_from", "open_start", "step_type", "steptype",
];
fn other(src: &mut Src, old: &J) -> J {
    match src.below(14) {
        0 => J::Null,
        1 => J::Bool(src.chance(1, 2)),
        2 => jn(src.below(5)),
        3 => J::Num(
            src.pick(&["-1", "256", "255", "300", "1.5", "2.0", "-0", "1e3", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e400", "65536", "-2147483648"])
                .to_string(),
        ),
        4 => js(""),
        5 => js(src.pick(&["1", "doc", "text", "em", "true", "null", "x"])),
        6 => J::Arr(vec![]),
        7 => J::Obj(vec![]),
        8 => J::Arr(vec![old.clone()]),
        9 => J::Obj(vec![key(src.pick(KEYS), old.clone())]),
        10 => js(MD_NAMES[src.below(MD_NAMES.len())]),
        11 => js(MD_MARKS[src.below(4)]),
        12 => js(STEP_TYPES[src.below(4)]),
        _ => match old {
            J::Str(s) => {
                let mut t = s.clone();
                match src.below(4) {
                    0 => t.push('s'),
                    1 => {
                        t.pop();
                    }
                    2 => t = t.to_uppercase(),
                    _ => {
                        // camelCase <-> snake_case
                        t = if t.contains('_') {
                            t.replace('_', "")
                        } else {
                            let mut o = String::new();
                            for c in t.chars() {
                                if c.is_uppercase() {
                                    o.push('_');
                                    o.extend(c.to_lowercase());
                                } else {
                                    o.push(c);
                                }
                            }
                            o
                        }
                    }
                }
                J::Str(t)
            }
            J::Num(n) => match src.below(3) {
                0 => J::Num(format!("-{}", n.trim_start_matches('-'))),
                1 => J::Num(format!("{}.5", n.split('.').next().unwrap().split('e').next().unwrap())),
                _ => J::Str(n.clone()),
            },
            J::Bool(b) => jn(*b as u8),
            J::Arr(v) => {
                let mut v = v.clone();
                v.push(v.first().cloned().unwrap_or(J::Null));
                J::Arr(v)
            }
            J::Obj(v) => J::Arr(v.iter().map(|x| x.1.clone()).collect()),
            J::Null => js("null"),
        },
    }
}
fn mutate(src: &mut Src, j: &mut J) {
    let mut ps = vec![];
    paths(j, &mut vec![], &mut ps);
    let p = src.pick(&ps).clone();
    let v = at(j, &p);
    match (src.below(9), &mut *v) {
        (0, J::Obj(o)) | (1, J::Obj(o)) if !o.is_empty() => {
            let i = src.below(o.len());
            o.remove(i);
        }
        (2, J::Obj(o)) if !o.is_empty() => {
            let i = src.below(o.len());
            o[i].0 = src.pick(KEYS).to_string();
        }
        (3, J::Obj(o)) => {
            let k = src.pick(KEYS).to_string();
            let x = other(src, &J::Null);
            if !o.iter().any(|e| e.0 == k) || src.chance(1, 10) {
                let i = src.below(o.len() + 1);
                o.insert(i, (k, x));
            }
        }
        (4, J::Obj(o)) if o.len() > 1 => {
            let (a, b) = (src.below(o.len()), src.below(o.len()));
            let t = o[a].1.clone();
            o[a].1 = std::mem::replace(&mut o[b].1, t);
        }
        (0 | 1, J::Arr(a)) if !a.is_empty() => {
            let i = src.below(a.len());
            a.remove(i);
        }
        (2 | 3, J::Arr(a)) if !a.is_empty() => {
            let i = src.below(a.len());
            let x = a[i].clone();
            a.push(x);
        }
        (4, J::Arr(a)) => {
            let x = other(src, &J::Null);
            let i = src.below(a.len() + 1);
            a.insert(i, x);
        }
        (5, J::Arr(a)) if a.len() > 1 => {
            let k = src.below(a.len());
            a.swap(0, k);
        }
        _ => {
            let x = other(src, v);
            *v = x;
        }
    }
}

/// The paths of all texts
fn texts(j: &J, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match j {
        J::Arr(v) => {
            for (i, k) in v.iter().enumerate() {
                cur.push(i);
                texts(k, cur, out);
                cur.pop();
            }
        }
        J::Obj(v) => {
            if v.iter().any(|e| e.0 == "text") {
                out.push(cur.clone());
            }
            for (i, k) in v.iter().enumerate() {
                cur.push(i);
                texts(&k.1, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn mark_json(src: &mut Src) -> J {
    let ty = src.weighted(&[2, 2, 2, 6]);
    let mut v = vec![key("type", js(MD_MARKS[ty]))];
    if ty == md::LINK {
        let mut a = vec![key("href", js(src.pick(&["a", "b", ""])))];
        match src.below(3) {
            0 => {}
            1 => a.push(key("title", J::Null)),
            _ => a.push(key("title", js(src.pick(&["", "t"])))),
        }
        v.push(key("attrs", J::Obj(a)));
    }
    J::Obj(v)
}
/// Give some text one or two more marks, possibly of types that it has already
fn mutate_marks(src: &mut Src, j: &mut J) -> bool {
    let mut ps = vec![];
    texts(j, &mut vec![], &mut ps);
    if ps.is_empty() {
        return false;
    }
    let p = src.pick(&ps).clone();
    let n = 1 + src.below(3);
    let new: Vec<J> = (0..n).map(|_| mark_json(src)).collect();
    let k = src.below(4);
    if let J::Obj(o) = at(j, &p) {
        match o.iter_mut().find(|e| e.0 == "marks") {
            Some((_, J::Arr(v))) => {
                let k = k.min(v.len());
                for m in new {
                    v.insert(k, m);
                }
            }
            Some(_) => {}
            None => o.push(key("marks", J::Arr(new))),
        }
    }
    true
}

fn small_doc(src: &mut Src) -> M {
    set_names(MD_NAMES);
    let opts = Opts { normal: true, valid: !src.chance(1, 4), empty_text: false, plain_text: false };
    let mut g = G::small(src, opts);
    let ty = if src.chance(1, 3) { src.below(12) } else { md::DOC };
    g.node::<MD>(src, ty, &MarkRule::All, 0)
}

/// What was accepted must be consistent and stable
fn consistent(n: &MarkdownNode) -> Outcome {
    check_sizes::<MD>(n)?;
    marks_ok(n)?;
    let v = serde_json::to_value(n).map_err(|e| format!("accepted, but not serialisable: {}", e))?;
    let back: MarkdownNode =
        serde_json::from_value(v.clone()).map_err(|e| format!("accepted, but not read back from {}: {}", v, e))?;
    ensure!(back == *n, "accepted as {:?}, reads back as {:?}", n, back);
    ensure!(MD::to_m(&back) == MD::to_m(n), "accepted as {:?}, reads back as {:?}", n, back);
    Ok(())
}
fn marks_ok(n: &MarkdownNode) -> Outcome {
    if let MarkdownNode::Text(t) = n {
        let tys: Vec<_> = t.marks.into_iter().map(|m| m.r#type()).collect();
        ensure!(tys.windows(2).all(|w| w[0] < w[1]), "marks out of order: {:?}", t.marks);
    }
    if let Some(c) = n.content() {
        for k in c.children() {
            marks_ok(k)?;
        }
    }
    Ok(())
}
fn consistent_step(s: &Step<MD>) -> Outcome {
    if let Step::Replace(ReplaceStep { slice, .. }) | Step::ReplaceAround(ReplaceAroundStep { slice, .. }) = s {
        check_frag::<MD>(&slice.content)?;
        for k in slice.content.children() {
            marks_ok(k)?;
        }
    }
    let v = serde_json::to_value(s).map_err(|e| format!("accepted, but not serialisable: {}", e))?;
    let back: Step<MD> =
        serde_json::from_value(v.clone()).map_err(|e| format!("accepted, but not read back from {}: {}", v, e))?;
    ensure!(back == *s && step_to(&back) == step_to(s), "accepted as {:?}, reads back as {:?}", s, back);
    Ok(())
}

fn judge<T: PartialEq + std::fmt::Debug, R>(
    cx: &mut Cx,
    text: &str,
    verdict: V<T>,
    got: Result<Result<R, String>, String>,
    to: impl Fn(&R) -> T,
    cons: impl Fn(&R) -> Outcome,
) -> Outcome {
    let got = got.map_err(|e| format!("reading {} {}", text, e))?;
    match (&verdict, &got) {
        (Reject(why), Ok(r)) => return Err(format!("accepted although {}: {} as {:?}", why, text, to(r))),
        (Accept(m), Err(e)) => return Err(format!("valid {:?} refused ({}): {}", m, e, text)),
        (Accept(m), Ok(r)) => ensure!(to(r) == *m, "{} read as {:?}, expected {:?}", text, to(r), m),
        _ => {}
    }
    match verdict {
        Reject(_) => cx.label("refused"),
        Unspec => cx.label("no verdict"),
        Accept(_) => cx.label("accepted"),
    }
    cx.nontrivial = !matches!(verdict, Unspec);
    if let Ok(r) = got {
        cons(&r).map_err(|e| format!("{}: {}", text, e))?;
    }
    Ok(())
}

/// read from text or from a parsed value
fn read<T: for<'d> serde::Deserialize<'d>>(text: &str, value: bool) -> Result<Result<T, String>, String> {
    guarded(|| {
        if value {
            let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        } else {
            serde_json::from_str(text).map_err(|e| e.to_string())
        }
    })
}
/// numbers that JSON readers treat differently, or repeated keys that a parsed value forgets
fn float_edge(t: &str) -> bool {
    t.contains("1e400")
}

fn c15_doc(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let m = small_doc(src);
    let mut j = Spell { src: Some(src) }.node(&m);
    if src.chance(1, 5) && mutate_marks(src, &mut j) {
        cx.label("more marks");
        if src.chance(1, 4) {
            mutate(src, &mut j);
        }
    } else {
        for _ in 0..1 + src.weighted(&[70, 20, 10]) {
            mutate(src, &mut j);
        }
    }
    let verdict = vnode(&j);
    let text = plain(&j);
    cx.hash(&text);
    cx.sample(|| text.clone());
    let value = src.chance(1, 2);
    let got = read::<MarkdownNode>(&text, value);
    if float_edge(&text) {
        got.map_err(|e| format!("reading {} {}", text, e))?.ok();
        return Ok(());
    }
    judge(cx, &text, verdict, got, |n| MD::to_m(n), consistent)
}
fn c15_step(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    let st = any_step(src);
    let mut j = Spell { src: Some(src) }.step(&st);
    let marks = src.chance(1, 6) && mutate_marks(src, &mut j);
    cx.label_if(marks, "more marks");
    for _ in 0..1 + src.weighted(&[70, 20, 10]) {
        if marks && !src.chance(1, 8) {
            break;
        }
        // mostly near the top
        if src.chance(1, 2) {
            if let J::Obj(o) = &mut j {
                let k = src.below(o.len().max(1));
                match src.below(3) {
                    0 if !o.is_empty() => {
                        o.remove(k);
                    }
                    1 if !o.is_empty() => {
                        let x = other(src, &o[k].1.clone());
                        o[k].1 = x;
                    }
                    _ => mutate(src, &mut j),
                }
                continue;
            }
        }
        mutate(src, &mut j);
    }
    let verdict = vstep(&j);
    let text = plain(&j);
    cx.hash(&text);
    cx.sample(|| text.clone());
    let value = src.chance(1, 2);
    let got = read::<Step<MD>>(&text, value);
    if float_edge(&text) {
        got.map_err(|e| format!("reading {} {}", text, e))?.ok();
        return Ok(());
    }
    judge(cx, &text, verdict, got, step_to, consistent_step)
}

fn any_json(src: &mut Src, depth: usize) -> J {
    match src.weighted(&[10, 10, 12, 20, 20, 28]) {
        0 => J::Null,
        1 => J::Bool(src.chance(1, 2)),
        2 => other(src, &jn(3)),
        3 => js(match src.below(4) {
            0 => MD_NAMES[src.below(12)],
            1 => MD_MARKS[src.below(4)],
            2 => STEP_TYPES[src.below(4)],
            _ => "x",
        }),
        4 if depth > 0 => {
            let n = src.below(4);
            J::Arr((0..n).map(|_| any_json(src, depth - 1)).collect())
        }
        5 if depth > 0 => {
            let n = src.below(5);
            let mut v = vec![];
            if src.chance(1, 2) {
                v.push(key("type", js(MD_NAMES[src.below(12)])));
            } else if src.chance(1, 3) {
                v.push(key("stepType", js(STEP_TYPES[src.below(4)])));
            }
            for _ in 0..n {
                v.push(key(src.pick(KEYS), any_json(src, depth - 1)));
            }
            J::Obj(v)
        }
        _ => J::Arr(vec![]),
    }
}

fn c15_garbage(src: &mut Src, cx: &mut Cx) -> Outcome {
    cx.evals += 1;
    set_names(MD_NAMES);
    let mode = src.below(4);
    let (text, judged): (String, Option<J>) = match mode {
        0 | 1 => {
            let j = any_json(src, 4);
            (plain(&j), Some(j))
        }
        2 => {
            // a damaged text of a valid value
            let j = if src.chance(1, 2) {
                let m = small_doc(src);
                Spell { src: Some(src) }.node(&m)
            } else {
                let m = any_step(src);
                Spell { src: Some(src) }.step(&m)
            };
            let mut b = plain(&j).into_bytes();
            for _ in 0..1 + src.below(3) {
                if b.is_empty() {
                    break;
                }
                let i = src.below(b.len());
                match src.below(4) {
                    0 => {
                        b.truncate(i);
                    }
                    1 => {
                        b.remove(i);
                    }
                    2 => b[i] = *src.pick(b"{}[],:\"\\0123456789-.etrufalsn \x00\xff\xc3u"),
                    _ => {
                        let x = b[i];
                        b.insert(i, x);
                    }
                }
            }
            (String::from_utf8_lossy(&b).into_owned(), None)
        }
        _ => {
            let n = src.below(40);
            let cs: Vec<char> = "{}[],:\"\\0123456789-.etrufalsn typeconmdk".chars().collect();
            ((0..n).map(|_| *src.pick(&cs)).collect(), None)
        }
    };
    cx.hash(&text);
    cx.sample(|| text.clone());
    let (vn, vs) = match &judged {
        Some(j) if !float_edge(&text) => (vnode(j), vstep(j)),
        _ => (Unspec, Unspec),
    };
    judge(cx, &text, vn, read::<MarkdownNode>(&text, mode == 1), |n| MD::to_m(n), consistent)?;
    let nt = cx.nontrivial;
    judge(cx, &text, vs, read::<Step<MD>>(&text, mode == 1), step_to, consistent_step)?;
    cx.nontrivial |= nt;
    // the other readable types must not panic either
    for r in [
        read::<Slice<MD>>(&text, false).map(|_| ()),
        read::<Fragment<MD>>(&text, false).map(|_| ()),
        read::<MarkSet<MD>>(&text, false).map(|_| ()),
        read::<MarkdownMark>(&text, false).map(|_| ()),
    ] {
        r.map_err(|e| format!("reading {} {}", text, e))?;
    }
    Ok(())
}
