//! Reading a formatted document by lines: sections, definitions, footnotes.
use crate::norm;
use comrak::nodes::NodeValue;
use std::collections::BTreeMap;

/// One link definition on a line of its own.
#[derive(Debug, Clone)]
pub struct Def { pub line: usize, pub label: String }

/// Link definitions at the top level (lines counted from 0), outside of code.
pub fn defs(doc: &str) -> Vec<Def> {
    let mut code = false;
    doc.lines().enumerate().filter_map(|(line, l)| {
        if l.starts_with("~~~") { code = !code }
        if code { return None }
        let rest = l.strip_prefix('[')?;
        if rest.starts_with('^') { return None }
        let bytes: Vec<char> = rest.chars().collect();
        let mut i = 0;
        while i < bytes.len() {
            match bytes[i] { '\\' => i += 1, '[' => return None, ']' => break, _ => {} }
            i += 1;
        }
        let label: String = bytes.get(..i)?.iter().collect();
        (bytes.get(i + 1) == Some(&':') && bytes.get(i + 2) == Some(&' ')).then_some(Def { line, label })
    }).collect()
}

/// First lines of footnote definitions at the top level, with their names.
pub fn notes(doc: &str) -> Vec<Def> {
    let mut code = false;
    doc.lines().enumerate().filter_map(|(line, l)| {
        if l.starts_with("~~~") { code = !code }
        if code { return None }
        let (label, _) = l.strip_prefix("[^")?.split_once("]:")?;
        Some(Def { line, label: label.into() })
    }).collect()
}

pub fn without(doc: &str, lines: &[usize]) -> String {
    doc.lines().enumerate().filter(|(i, _)| !lines.contains(i)).map(|(_, l)| format!("{l}\n")).collect()
}

/// Lines (from 0) on which top-level headings of level 2 and 3 start: these begin sections.
pub fn starts(doc: &str) -> Vec<usize> {
    norm::with_ast_raw(doc, |root| root.children().filter_map(|c| {
        let d = c.data.borrow();
        match d.value { NodeValue::Heading(h) if h.level == 2 || h.level == 3 => Some(d.sourcepos.start.line - 1), _ => None }
    }).collect())
}

pub fn section(starts: &[usize], line: usize) -> usize {
    starts.iter().filter(|s| **s <= line).count()
}

pub fn label(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase()
}

/// What follows each marker k0, k1, …: links and images as (kind, target, title, text).
pub fn links(doc: &str) -> BTreeMap<String, Vec<(char, String, String, String)>> {
    norm::with_ast(doc, |root| {
        let mut cur = String::new();
        let mut out: BTreeMap<String, Vec<_>> = BTreeMap::new();
        for n in root.descendants() {
            match &n.data.borrow().value {
                NodeValue::Text(t) => {
                    for w in t.split(' ') {
                        let w = w.trim_end_matches([':', '.', ',']);
                        if w.len() > 1 && w.starts_with('k') && w[1..].chars().all(|c| c.is_ascii_digit()) {
                            cur = w.to_string();
                            out.entry(cur.clone()).or_default();
                        }
                    }
                }
                NodeValue::Link(l) => out.entry(cur.clone()).or_default().push(('l', l.url.clone(), l.title.clone(), norm::inl(n, &|t| t.to_string()))),
                NodeValue::Image(l) => out.entry(cur.clone()).or_default().push(('i', l.url.clone(), l.title.clone(), norm::inl(n, &|t| t.to_string()))),
                _ => {}
            }
        }
        out
    })
}

/// The line on which a marker stands.
pub fn line_of(doc: &str, marker: &str) -> Option<usize> {
    doc.lines().position(|l| l.match_indices(marker).any(|(p, _)| !l[p + marker.len()..].starts_with(|c: char| c.is_ascii_digit()) && !l[..p].ends_with(|c: char| c.is_alphanumeric())))
}
