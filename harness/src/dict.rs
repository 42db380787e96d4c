//! A dictionary of the literals in the sources of the code under test, which the generators mix in now and
//! then (as fuzzers do with their automatic dictionaries): values that the code compares with are otherwise
//! hard to hit. It only steers generation; no verdict depends on it, and without sources it is empty.
use crate::engine::Src;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub struct Dict {
    /// short string and character literals
    pub strings: Vec<String>,
    /// those of letters and digits only
    pub words: Vec<String>,
    /// those that can be written as the destination of a link as they are
    pub urls: Vec<String>,
    /// numbers and their neighbours
    pub numbers: Vec<u64>,
}

pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(load)
}

fn source_dir() -> Option<PathBuf> {
    let here = Path::new(env!("CARGO_MANIFEST_DIR"));
    let toml = std::fs::read_to_string(here.join("Cargo.toml")).ok()?;
    let line = toml.lines().find(|l| l.starts_with("prosemirror"))?;
    let p = line.split("path").nth(1)?.split('"').nth(1)?;
    Some(here.join(p).join("src"))
}

fn load() -> Dict {
    let mut strings = BTreeSet::new();
    let mut numbers = BTreeSet::new();
    let mut todo: Vec<PathBuf> = source_dir().into_iter().collect();
    while let Some(p) = todo.pop() {
        if p.is_dir() {
            for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
                todo.push(e.path());
            }
        } else if p.extension().map_or(false, |e| e == "rs") && !p.ends_with("tests.rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                scan(&s, &mut strings, &mut numbers);
            }
        }
    }
    let strings: Vec<String> = strings.into_iter().collect();
    let words = strings.iter().filter(|s| s.chars().all(|c| c.is_ascii_alphanumeric())).cloned().collect();
    let urls = strings
        .iter()
        .filter(|s| s.chars().all(|c| c.is_ascii_alphanumeric() || "/:.#-?=%~+,@!$&".contains(c)))
        .cloned()
        .collect();
    Dict { strings, words, urls, numbers: numbers.into_iter().collect() }
}

fn scan(s: &str, strings: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && at(i) != '\n' {
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(at(i) == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if at(i) == '#' && c[i..].starts_with(&"#[cfg(test)]".chars().collect::<Vec<_>>()) {
            return;
        } else if at(i) == '"' || (at(i) == '\'' && ((at(i + 2) == '\'' && at(i + 1) != '\\') || at(i + 1) == '\\')) {
            let q = at(i);
            i += 1;
            let mut t = String::new();
            while i < c.len() && at(i) != q {
                if at(i) == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => t.push('\n'),
                        't' => t.push('\t'),
                        'r' => t.push('\r'),
                        '0' => t.push('\0'),
                        'u' => {
                            let mut h = String::new();
                            i += 2;
                            while i < c.len() && at(i) != '}' {
                                h.push(at(i));
                                i += 1;
                            }
                            t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                        }
                        'x' => {
                            let h: String = [at(i + 1), at(i + 2)].iter().collect();
                            i += 2;
                            t.extend(u8::from_str_radix(&h, 16).ok().map(|b| b as char));
                        }
                        x => t.push(x),
                    }
                } else {
                    t.push(at(i));
                }
                i += 1;
            }
            i += 1;
            if !t.is_empty() && t.chars().count() <= 16 && !t.contains(|c| ('\u{1c}'..='\u{1f}').contains(&c)) && !t.contains('{') {
                strings.insert(t);
            }
        } else if at(i).is_ascii_digit() && (i == 0 || !(at(i - 1).is_alphanumeric() || at(i - 1) == '_')) {
            let mut t = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                if at(i) != '_' {
                    t.push(at(i));
                }
                i += 1;
            }
            let n = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("0b") {
                u64::from_str_radix(b, 2).ok()
            } else {
                let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(n) = n {
                numbers.extend([n.saturating_sub(1), n, n.saturating_add(1)]);
            }
        } else {
            i += 1;
        }
    }
}

/// An entry, if there is one
pub fn pick<'a, T>(src: &mut Src, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[src.below(v.len())])
    }
}
