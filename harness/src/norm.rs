//! Independent oracle: what a document *means*, as a normal form of its parse
//! tree.  Two documents with the same normal form render the same (modulo the
//! rewrites the style guide promises).
use comrak::nodes::{AstNode, ListType, NodeValue, TableAlignment};
use comrak::{Arena, Options, parse_document};
use std::collections::BTreeMap;

pub fn copts() -> Options<'static> {
    let mut o = Options::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}

pub fn with_ast<R>(src: &str, f: impl for<'a> FnOnce(&'a AstNode<'a>) -> R) -> R {
    let arena = Arena::new();
    // comrak caps the expansion of references by the length of the document, which
    // tiny documents hit at once; leading blank lines raise the cap.
    let padded;
    let src = if src.contains("]:") && !src.starts_with("---") {
        let references = src.matches('[').count() * src.len();
        padded = "\n".repeat(references.clamp(400, 100_000)) + src;
        &padded
    } else {
        src
    };
    let root = parse_document(&arena, src, &copts());
    f(root)
}

/// Without the padding, for source positions.
pub fn with_ast_raw<R>(src: &str, f: impl for<'a> FnOnce(&'a AstNode<'a>) -> R) -> R {
    let arena = Arena::new();
    f(parse_document(&arena, src, &copts()))
}

/// Wrapping moves line ends in titles, too.
fn title(t: &str) -> String {
    t.replace('\n', " ")
}

/// Meaning of a document as one string, one line per block.
pub fn meaning(src: &str) -> String {
    meaning_map(src, &|t| t.to_string())
}

/// The meaning with every piece of text replaced by what `map` makes of it.
pub fn meaning_map(src: &str, map: &dyn Fn(&str) -> String) -> String {
    with_ast(src, |root| {
        let mut n = Norm { out: String::new(), notes: BTreeMap::new(), map };
        for c in root.children() {
            n.block(c, 0);
        }
        let mut out = n.out;
        // A definition nobody refers to renders nothing
        let mut all = out.clone();
        let mut live = vec![];
        while let Some(k) = n.notes.keys().find(|k| all.contains(&format!("⟨fn {k:?}⟩"))).cloned() {
            let v = n.notes.remove(&k).unwrap();
            all.push_str(&v);
            live.push((k, v));
        }
        live.sort();
        for (k, v) in live {
            out.push_str(&format!("footnote {k:?}\n{v}"));
        }
        out
    })
}

/// The meaning, up to the changes that punctuation and sentence-case options make.
pub fn meaning_modulo(src: &str, punct: bool, case: bool) -> String {
    let mut m = meaning(src);
    if punct || case {
        m = m.replace(['“', '”'], "\"").replace(['‘', '’'], "'");
    }
    if punct {
        m = m.replace('…', "...").replace(['—', '–'], "-");
        while m.contains("--") {
            m = m.replace("--", "-");
        }
    }
    if case {
        m = m.lines().map(|l| if l.trim_start().starts_with('h') { l.to_lowercase() } else { l.to_string() } + "\n").collect();
    }
    m
}

type Map<'m> = &'m dyn Fn(&str) -> String;

struct Norm<'m> {
    out: String,
    notes: BTreeMap<String, String>,
    map: Map<'m>,
}

pub fn inl<'a>(node: &'a AstNode<'a>, map: Map) -> String {
    let mut s = String::new();
    for c in node.children() {
        inline(c, &mut s, map);
    }
    squeeze(&s)
}

fn squeeze(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        if ch == ' ' || ch == '\n' || ch == '\t' {
            if !o.ends_with(' ') {
                o.push(' ');
            }
        } else {
            o.push(ch);
        }
    }
    o.trim_matches(' ').to_string()
}

pub fn inline<'a>(node: &'a AstNode<'a>, s: &mut String, map: Map) {
    let wrap = |s: &mut String, a: &str, b: &str| {
        s.push_str(a);
        for c in node.children() {
            inline(c, s, map);
        }
        s.push_str(b);
    };
    match &node.data.borrow().value {
        NodeValue::Text(t) => s.push_str(&map(t)),
        NodeValue::SoftBreak => s.push(' '),
        NodeValue::LineBreak => {
            s.truncate(s.trim_end_matches([' ', '\n']).len());
            s.push_str("⟨br⟩")
        }
        NodeValue::Code(c) => {
            s.push_str("⟨code:");
            s.push_str(&c.literal.replace(' ', "·"));
            s.push('⟩')
        }
        NodeValue::HtmlInline(h) => {
            s.push_str("⟨html:");
            s.push_str(h);
            s.push('⟩')
        }
        NodeValue::Emph => wrap(s, "⟨em:", "⟩"),
        NodeValue::Strong => wrap(s, "⟨strong:", "⟩"),
        NodeValue::Link(l) => {
            // The text of an autolink is its URL
            let mut text = String::new();
            for c in node.children() { inline(c, &mut text, &|t| t.to_string()); }
            let auto = l.title.is_empty() && (l.url == text || l.url == format!("mailto:{text}"));
            if !auto {
                text.clear();
                for c in node.children() { inline(c, &mut text, map); }
            }
            s.push_str(&format!("⟨link {:?} {:?}:{text}⟩", l.url, title(&l.title)));
        }
        NodeValue::Image(l) => wrap(s, &format!("⟨image {:?} {:?}:", l.url, title(&l.title)), "⟩"),
        NodeValue::FootnoteReference(f) => s.push_str(&format!("⟨fn {:?}⟩", f.name)),
        NodeValue::Escaped => wrap(s, "", ""),
        other => wrap(s, &format!("⟨{}:", kind(other)), "⟩"),
    }
}

fn kind(v: &NodeValue) -> String {
    let d = format!("{v:?}");
    d.split(['(', ' ', '{']).next().unwrap_or("").to_string()
}

impl Norm<'_> {
    fn line(&mut self, d: usize, s: &str) {
        for _ in 0..d {
            self.out.push_str("  ");
        }
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn kids<'a>(&mut self, node: &'a AstNode<'a>, d: usize) {
        for c in node.children() {
            self.block(c, d);
        }
    }
    fn block<'a>(&mut self, node: &'a AstNode<'a>, d: usize) {
        let v = node.data.borrow().value.clone();
        match v {
            NodeValue::FrontMatter(f) => self.line(d, &format!("front {:?}", f.trim_end())),
            NodeValue::Paragraph => {
                let t = inl(node, self.map);
                self.line(d, &format!("p {t}"))
            }
            NodeValue::Heading(h) => {
                let t = inl(node, self.map);
                self.line(d, &format!("h{} {t}", h.level))
            }
            NodeValue::ThematicBreak => self.line(d, "hr"),
            NodeValue::CodeBlock(c) => self.line(d, &format!("code {:?} {:?}", c.info, c.literal)),
            NodeValue::HtmlBlock(h) => self.line(d, &format!("html {:?}", h.literal.trim_end().trim_start_matches([' ', '\t']))),
            NodeValue::BlockQuote => {
                self.line(d, "quote");
                self.kids(node, d + 1)
            }
            NodeValue::Alert(a) => {
                self.line(d, &format!("alert {:?} {:?}", a.alert_type, a.title));
                self.kids(node, d + 1)
            }
            NodeValue::List(l) => {
                let t = if l.list_type == ListType::Ordered { "ol" } else { "ul" };
                // The formatter separates the blocks of an item with blank lines (only a
                // nested list stays right under its paragraph, and not if it begins with a
                // marker on a line of its own), which makes the list loose.
                let lone = |l: &AstNode| l.first_child().is_some_and(|item| matches!(item.data.borrow().value, NodeValue::Item(_)) && item.first_child().is_none_or(|c| matches!(c.data.borrow().value, NodeValue::List(_) | NodeValue::BlockQuote | NodeValue::Alert(_) | NodeValue::ThematicBreak)));
                let spread = node.children().any(|item| {
                    item.children().skip(1).any(|b| !matches!(b.data.borrow().value, NodeValue::List(_)) || lone(b))
                });
                let tight = if l.tight && !spread { "tight" } else { "loose" };
                self.line(d, &format!("{t} {} {tight}", if t == "ol" { l.start } else { 0 }));
                self.kids(node, d + 1)
            }
            NodeValue::Item(_) => {
                self.line(d, "item");
                self.kids(node, d + 1)
            }
            NodeValue::TaskItem(t) => {
                self.line(d, &format!("task {}", t.symbol.is_some()));
                self.kids(node, d + 1)
            }
            NodeValue::FootnoteDefinition(f) => {
                let save = std::mem::take(&mut self.out);
                self.kids(node, 1);
                let body = std::mem::replace(&mut self.out, save);
                self.notes.insert(f.name.clone(), body);
            }
            NodeValue::Table(t) => {
                let al: String = t
                    .alignments
                    .iter()
                    .map(|a| match a {
                        TableAlignment::None => '-',
                        TableAlignment::Left => 'l',
                        TableAlignment::Center => 'c',
                        TableAlignment::Right => 'r',
                    })
                    .collect();
                self.line(d, &format!("table {al}"));
                for row in node.children() {
                    let cells: Vec<String> = row.children().map(|c| inl(c, self.map)).collect();
                    self.line(d + 1, &format!("row {}", cells.join(" ┃ ")));
                }
            }
            NodeValue::DescriptionTerm => {
                // comrak 0.49 may or may not wrap the term in a paragraph.
                let mut s = String::new();
                for c in node.children() {
                    if matches!(c.data.borrow().value, NodeValue::Paragraph) {
                        s.push_str(&inl(c, self.map));
                    } else {
                        inline(c, &mut s, self.map);
                    }
                }
                let s = squeeze(&s);
                self.line(d, &format!("dt {s}"))
            }
            NodeValue::DescriptionItem(_) => {
                self.line(d, "di");
                self.kids(node, d + 1)
            }
            other => {
                let k = kind(&other);
                self.line(d, &k);
                self.kids(node, d + 1)
            }
        }
    }
}
