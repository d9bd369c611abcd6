//! C06: links keep their target, and definitions land in their section.
use crate::core::*;
use crate::{norm, opts, sections::*};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum S { Ext, Stay, Any }

/// How a link is written, its label if it is an inline link to an external URL, and what is promised of it.
const ATOMS: &[(&str, S)] = &[
    ("[a](http://1/)", S::Ext), ("[a](http://2/)", S::Ext), ("[b][a]", S::Stay), ("[a]", S::Stay), ("[A](https://1/)", S::Ext),
    ("[a](http://1/ \"t\")", S::Ext), ("![a](http://1/)", S::Stay), ("![a]", S::Stay), ("[a](./r)", S::Stay), ("[c][A]", S::Stay),
    ("\\[a\\]", S::Any), ("[a][]", S::Stay), ("<http://1/>", S::Stay), ("[![i](./i.png)](http://1/)", S::Any), ("[![i][a]][b]", S::Stay),
    ("[b](http://3/)", S::Ext), ("[a](#f)", S::Stay), ("[m](mailto:x@y.z)", S::Stay), ("[two  words](http://3/)", S::Ext), ("[*a*](http://1/)", S::Ext),
    ("[1](http://4/)", S::Ext), ("[`a`](http://1/)", S::Ext), ("[x [y] z](http://5/)", S::Any), ("[](http://1/)", S::Any), ("[a](../q?x=\"y\" 'u')", S::Stay),
    ("![b][]", S::Stay), ("[a \\] b](http://6/)", S::Any), ("[Two Words](http://3/)", S::Ext), ("[a](<http://1/x y>)", S::Ext), ("[a](/http://1/)", S::Stay), ("[a](http:1)", S::Any),
    ("**[a](http://1/)**", S::Ext), ("[a](ftp://1/)", S::Any), ("[2](http://4/)", S::Ext), ("[a](http://1/a_(b)_c)", S::Ext), ("[a&amp;b](http://1/&amp;c)", S::Ext), ("[b](https://1/ '\"t\"')", S::Ext), ("[^1]", S::Any), ("[d]", S::Any),
];
const DEFS: &[&str] = &[
    "", "[a]: http://1/\n", "[a]: http://9/ \"t\"\n", "[a]: ./r\n[b]: http://1/\n", "[b]: http://1/\n[A]: http://2/\n[a]: http://7/\n", "[a]: <>\n[B]: http://8/ 'x \"y\"'\n",
];
/// What stands before the next link: % is the marker.
const CTX: &[&str] = &[
    " % ", "\n\n% ", "\n\nSec\n---\n\n% ", "\n\n### Sub\n\n% ", "\n\n> % ", "\n\n -  % ", "\n\n| % ", "\n\n## % ", "\n\n#### Low\n\n% ", "\n\nterm\n:   % ", "\n\nx[^f%]\n\n[^f%]: % ", "\n\n1.  q\n\n    > % ", "\n\n> [!NOTE]\n> % ", "\n\n> ## In\n>\n> % ", "\n\n# Top\n\n% ", "\n% ",
];

struct L { style: BTreeMap<String, bool>, links: BTreeMap<String, Vec<(char, String, String, String)>> }

/// Links by marker, and whether they are there without any definition (inline) or not.
fn read(doc: &str) -> L {
    let links = links(doc);
    let d: Vec<usize> = defs(doc).iter().map(|d| d.line).collect();
    let bare = self::links(&without(doc, &d));
    let style = links.iter().map(|(k, v)| (k.clone(), bare.get(k) == Some(v))).collect();
    L { style, links }
}

fn check(r: &mut Rec, doc: &str, atoms: &[usize], spec: &str) {
    let a = read(doc);
    if !(0..atoms.len()).all(|i| a.links.contains_key(&format!("k{i}"))) { r.skipped += 1; return }
    r.case(doc, spec);
    let f = r.fmt(doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = true;
    let b = read(&f);
    if a.links != b.links { r.fail("links", &f, format!("before: {:#?}\nafter: {:#?}", a.links, b.links)); return }
    // Labels, each defined once
    let ds = crate::sections::defs(&f);
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for d in &ds { *seen.entry(label(&d.label)).or_default() += 1; }
    for (l, n) in &seen { if *n > 1 { r.fail("twice", &f, format!("[{l}] is defined {n} times")); } }
    // What the labels stand for besides inline links to external URLs
    let mut taken: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for d in defs(doc) {
        let used = links(&without(doc, &[d.line])) != a.links;
        let t = norm::with_ast(&format!("[{}]\n\n{}\n", d.label, doc.lines().nth(d.line).unwrap()), |root| root.descendants().find_map(|n| match &n.data.borrow().value { comrak::nodes::NodeValue::Link(l) => Some((l.url.clone(), l.title.clone())), _ => None }));
        if used { if let Some(t) = t { taken.entry(label(&d.label)).or_default().push(t) } }
    }
    // Text in brackets, which has the label to itself
    for l in bracketed(doc) { taken.entry(label(&l)).or_default().push(("text".into(), String::new())); }
    for (i, x) in atoms.iter().enumerate() {
        let k = format!("k{i}");
        let (src, s) = ATOMS[*x];
        let (v, inline) = (&a.links[&k], a.style[&k]);
        if v.is_empty() {
            if b.style[&k] != inline { r.fail("links", &f, format!("{k} changed")); }
            continue;
        }
        if s == S::Ext && inline { taken.entry(name(src)).or_default().push((v[0].1.clone(), v[0].2.clone())); }
    }
    for (i, x) in atoms.iter().enumerate() {
        let k = format!("k{i}");
        let (src, s) = ATOMS[*x];
        let (v, inline) = (&a.links[&k], a.style[&k]);
        if v.is_empty() || s == S::Any { continue }
        let now = b.style[&k];
        if s == S::Ext && inline {
            let mut t = taken[&name(src)].clone();
            t.dedup();
            let sole = t.len() == 1;
            if now && sole { r.fail("style", &f, format!("{k} {src} should have become a reference link")); }
        } else if now != inline {
            r.fail("style", &f, format!("{k} {src} should have stayed {}", if inline { "an inline link" } else { "a reference link" }));
        }
    }
    // Each definition at the end of the section that first uses it
    let st = starts(&f);
    let all = &b.links;
    let lines: Vec<&str> = f.lines().collect();
    for d in &ds {
        let less = links(&without(&f, &[d.line]));
        let users: Vec<usize> = all.iter().filter(|(k, v)| less.get(*k) != Some(v)).filter_map(|(k, _)| line_of(&f, k)).collect();
        let Some(first) = users.iter().map(|l| section(&st, *l)).min() else { continue };
        let here = section(&st, d.line);
        if here != first { r.fail("section", &f, format!("[{}] is first used in section {first} and defined in section {here}", d.label)); }
        let end = st.get(here).copied().unwrap_or(lines.len());
        if let Some(l) = lines[d.line..end].iter().find(|l| !l.is_empty() && (!l.starts_with('[') || l.starts_with("[^") || !l.contains("]: "))) {
            r.fail("end", &f, format!("{l:?} comes after the definition of [{}] in its section", d.label));
        }
        if d.line > 0 && !lines[d.line - 1].is_empty() && !ds.iter().any(|e| e.line + 1 == d.line) { r.fail("end", &f, "no blank line before the definitions".into()); }
    }
}

/// The labels that stand in the text, meaning nothing.
fn bracketed(doc: &str) -> Vec<String> {
    norm::with_ast(doc, |root| {
        let mut text = String::new();
        for n in root.descendants() {
            match &n.data.borrow().value {
                comrak::nodes::NodeValue::Text(t) => text.push_str(t),
                comrak::nodes::NodeValue::SoftBreak => text.push(' '),
                _ => text.push('\u{1}'),
            }
        }
        let mut v = vec![];
        for p in text.split('[').skip(1) { if let Some((l, _)) = p.split_once(']') { if !l.contains('\u{1}') { v.push(l.to_string()) } } }
        v
    })
}

fn name(src: &str) -> String {
    let p = src.find('[').unwrap();
    label(&src[p + 1..src.rfind("](").unwrap()])
}

fn doc(parts: &[(usize, usize)], follow: &[&str], defs: &str) -> String {
    let mut s = String::from("Start");
    for (i, (c, a)) in parts.iter().enumerate() {
        s.push_str(&CTX[*c].replace('%', &format!("k{i}")));
        s.push_str(ATOMS[*a].0);
        s.push_str(follow.get(i).unwrap_or(&""));
        // A table has to have its cell closed
        let row = s.rfind('\n').map_or(&s[..], |p| &s[p + 1..]);
        if row.starts_with("| ") && !parts.get(i + 1).is_some_and(|p| p.0 == 0) { s.push_str(" | z |\n| --- | --- |"); }
    }
    if s.contains("[^1]") { s += "\n\n[^1]: note"; }
    if defs.is_empty() { s + "\n" } else { format!("{s}\n\n{defs}") }
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let n = ATOMS.len();
    let nc = CTX.len();
    let rx = [DEFS.len(), 2, nc, if q { 24 } else { n }, if q { 24 } else { n }];
    e.run(domain("pairs", "every pair of links × what stands between them × definitions × in one or two paragraphs", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        check(r, &doc(&[(m[1], m[3]), (m[2], m[4])], &[], DEFS[m[0]]), &[m[3], m[4]], "plain=1 w=200");
    }));
    let seps: &'static [usize] = &[0, 2, 1, 3, 4, 7, 10, 8];
    let defs: &'static [usize] = &[1, 4, 0, 2];
    let (na, ns, nd) = if q { (12, 4, 2) } else { (20, 8, 4) };
    let rx = [nd, ns, ns, na, na, na];
    e.run(domain("triples", "every triple of links × what stands between them × definitions", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        check(r, &doc(&[(1, m[3]), (seps[m[1]], m[4]), (seps[m[2]], m[5])], &[], DEFS[defs[m[0]]]), &m[3..], "plain=1 w=200");
    }));
    let follow: &'static [&'static str] = &[" z", "[^1]", "[d]", "(p)", ":", ": x", "[]", "[a]", "![i](./i)", "<http://e/>", "\\[", "*e*", "'s", "\n(p)", ".", "[ ]", "{x}", "[^2]"];
    let rx = [DEFS.len(), follow.len(), nc + 1, n];
    e.run(domain("follow", "every link × what follows it directly × where it stands × definitions", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        if m[2] < nc { check(r, &doc(&[(m[2], m[3])], &[follow[m[1]]], DEFS[m[0]]), &[m[3]], "plain=1 w=200"); return }
        check(r, &format!("k0 {}{}\n\n{}", ATOMS[m[3]].0, follow[m[1]], DEFS[m[0]]), &[m[3]], "plain=1 w=200");
    }));
    let rx = [3, DEFS.len(), n, n, n.min(if q { 6 } else { n })];
    e.run(domain("widths", "triples of links in one paragraph at widths 8, 12 and 20", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        check(r, &doc(&[(1, m[4]), (0, m[2]), (0, m[3])], &[], DEFS[m[1]]), &[m[4], m[2], m[3]], &format!("w={}", [8, 12, 20][m[0]]));
    }));
    // Histories of sections
    let ev: &'static [&'static str] = &["H2\n--", "### H3", "% [a](http://1/)", "% [b](http://2/)", "% [c]", "% [a](http://3/)", "text", "#### H4", "> % [b](http://2/)", "-   % [d][C]\n-   x", "| % [b](http://2/) |\n| --- |", "## % [a](http://1/)", "x[^%]\n\n[^%]: % [b](http://2/)"];
    let (k, len) = if q { (ev.len() as u64, 4) } else { (ev.len() as u64, 5) };
    e.run(domain("sections", "all sequences of up to 4 (thorough: 5) headings and blocks with links, each of which may be the first to use its label", upto(k, len), |i, r| {
        let ix = upto_digits(i, k, len);
        let mut n = 0;
        let (mut s, mut at) = (String::new(), vec![]);
        for x in ix {
            if ev[x].contains('%') {
                s += &ev[x].replace('%', &format!("k{n}"));
                n += 1;
                at.push(match x { 4 | 9 => 2, 5 => 1, 3 | 8 | 10 | 12 => 15, _ => 0 });
            } else { s += ev[x] }
            s += "\n\n";
        }
        if n == 0 { r.skipped += 1; return }
        check(r, &(s + "[c]: http://c/\n"), &at, "plain=1 w=200");
    }));
    // Links at the beginning of a block, where other syntax begins with the same characters
    let begin: &'static [&'static str] = &["*[a](U)*", "*[a](U) b*", "_[a](U)_", "**[a](U)**", "[a](U)", "*[a]* [b](U)", "\\*[a] [b](U)", "![i](./i) [a](U)", "`c` [a](U)", "*[A] b* [c](U)", "**[a](U) b** c", "[^1][a](U)", "[y][a](U)", "![y][a](U)", "y][a](U)", "\\[y\\][a](U)", "x[y][b](U)[a](U)", "[*y*][a](U)", "\\[ ] [a](U)", "<b>[a](U)</b>", "\"[a](U)\"", "*[a](U)*, *[b](U)*"];
    let end: &'static [&'static str] = &["", " b", " [x]", "\n[x]", " [x] y", ": c", " *[c](U)*", "\n*[c](U)*", " (x): y", " :", " [d](./d)"];
    let pre: &'static [&'static str] = &["", "> ", " -  ", "1.  ", "## ", "term\n:   ", "[^1]: "];
    let urls: &'static [(&'static str, bool)] = &[("http://1/", true), ("https://x.y/z", true), ("./u", false), ("httpd.html", false), ("https", false), ("http.md#x", false), ("x/http://y", false), ("#http://z", false)];
    let rx = [pre.len(), end.len(), begin.len(), urls.len()];
    e.run(domain("begin", "every block beginning with a link or what resembles one × what follows × the kind of block × the kind of target", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (u, ext) = urls[m[3]];
        let p = pre[m[0]];
        let indent = if p.starts_with('>') { p.to_string() } else { " ".repeat(p.rsplit('\n').next().unwrap().len()) };
        let text = format!("{}{}", begin[m[2]], end[m[1]]).replace('U', u);
        if p == "## " && text.contains('\n') { r.skipped += 1; return }
        let doc = format!("x[^1]\n\n{p}{}\n\n{}", text.replace('\n', &format!("\n{indent}")), if p == "[^1]: " { "" } else { "[^1]: note\n" });
        r.case(&doc, "plain=1");
        let f = r.fmt(&doc, &opts::make("plain=1"));
        r.traces += 1;
        r.nontrivial = true;
        if norm::meaning(&doc) != norm::meaning(&f) { r.fail("links", &f, format!("before:\n{}\nafter:\n{}", norm::meaning(&doc), norm::meaning(&f))); return }
        let n = |s: &str| s.matches(&format!("]({u})")).count();
        if ext && n(&f) > 0 && !doc.contains("*[a]") && !doc.contains("*[A]") && !text.contains("*[c]") && !text.contains("][a]") && !text.contains("][b]") { r.fail("style", &f, "an inline link to an external URL remains".into()); }
        if !ext && n(&f) != n(&doc) { r.fail("style", &f, "a relative link did not stay inline".into()); }
    }));
    // Links in footnotes, which move with their reference
    let heads: &'static [&'static str] = &["## B", "B\n---", "### B", "#### B", "# B", "> ## B"];
    let near: &'static [&'static str] = &["\n", "\n\n", "\nmore\n", "\n***\n"];
    let inner: &'static [usize] = &[0, 2, 3, 15];
    let rx = [2, 3, 4, heads.len(), near.len(), 3, 3, inner.len(), inner.len()];
    e.run(domain("notes", "every link in a footnote × the section that refers to it, how far from the next heading, and the one with its definition × a link elsewhere with the same or another label × kinds of headings", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (other, refer, defined) = (m[2], m[1], m[5]);
        let mut s = String::new();
        for sec in 0..3 {
            if sec > 0 { s += &format!("{}\n\n", heads[if sec == 1 { m[3] } else { (m[3] + m[6]) % heads.len() }].replace('B', &format!("B{sec}"))); }
            if other == sec { s += &format!("k1 {}\n\n", ATOMS[inner[m[8]]].0); }
            if m[0] == 1 { s += "- i\n- j\n\n"; }
            if refer == sec { s += &format!("text[^9]{}", near[m[4]]); }
            if defined == sec {
                if !s.is_empty() && !s.ends_with("\n\n") { s.push('\n') }
                s += &format!("[^9]: k0 {}\n\n", ATOMS[inner[m[7]]].0);
            }
        }
        if other == 3 { s += &format!("\n\nk1 {}\n", ATOMS[inner[m[8]]].0); }
        check(r, &(s + "\n[a]: http://a/\n"), &[inner[m[7]], inner[m[8]]], "plain=1 w=200");
    }));
    // Many definitions, numbered or not
    let labels: &'static [&'static str] = &["1", "2", "10", "#3", "x", "y", "#1", "01"];
    let rx = [2, 8, 8, 8, 8];
    e.run(domain("numbers", "every sequence of four labels, numbers among them, in one or two sections", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let mut s = String::new();
        for (j, x) in m[1..].iter().enumerate() {
            if j == 2 && m[0] == 1 { s += "\n\n## Sec\n\n"; }
            s += &format!("k{j} [t{j}][{}] ", labels[*x]);
        }
        s += "\n\n";
        for l in labels { s += &format!("[{l}]: http://{}/\n", l.replace('#', "h")); }
        check(r, &s, &[2, 2, 2, 2], "plain=1 w=200");
    }));
    // Every character
    let cs = &characters(q);
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in the texts, labels, targets and titles of links of all kinds", cs.len() as u64, |i, r| {
        let c = cs[i as usize];
        if !letterlike(c) { r.skipped += 1; return }
        let d = format!("k0 [v{c}w](http://1/) k1 [t][a{c}b] k2 [{c}](http://2/{c}) k3 [{c}z](http://3/ \"{c}\")\n\nk4 ![{c}q](./i{c}) k5 [x{c}y][] k6 [x{c}z](/u{c} \"{c}\")\n\n## S{c}\n\nk7 [x{c}y] k8 [r{c}](http://4/{c}) k9 [b{c}](/{c})\n\n[a{c}b]: http://5/{c}\n[x{c}y]: /w{c} '{c}'\n");
        let spec = ["plain=1", "plain=1 w=12"][c as usize % 2];
        r.case(&d, spec);
        let f = r.fmt(&d, &opts::make(spec));
        r.traces += 1;
        r.nontrivial = true;
        let (a, b) = (read(&d), read(&f));
        if a.links != b.links { return r.fail("links", &f, format!("before: {:#?}\nafter: {:#?}", a.links, b.links)) }
        for k in ["k0", "k2", "k3", "k8"] { if b.style[k] { r.fail("inline", &f, format!("{k} is still inline")) } }
        for k in ["k6", "k9"] { if !b.style[k] { r.fail("reference", &f, format!("{k} is no longer inline")) } }
    }));
    // Sizes
    let ns = &sizes(true);
    let rx = [ns.len(), 6, 3];
    e.run(domain("sizes", "links with labels and targets of their own: from 1 to 70 and selected numbers up to 129, in one paragraph, line by line, in paragraphs, items and sections × inline links, reference links and both", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        if n > 130 { r.skipped += 1; return }
        let url = |i: usize| format!("http://{i}/");
        let mut s = String::new();
        let mut at = vec![];
        for i in 0..n {
            // Each link has a text of its own
            let l = match m[2] { 0 => format!("[t{i}]({})", url(i)), 1 => format!("[t{i}][r{i}]"), _ => if i % 2 == 0 { format!("[t{i}]({})", url(i)) } else { format!("[t{i}][{i}]") } };
            let inline = l.ends_with(')');
            s += &match m[1] {
                0 => format!("k{i} {l} "),
                1 => format!("k{i} {l}\n"),
                2 => format!("k{i} {l}\n\n"),
                3 => format!("-   k{i} {l}\n"),
                4 => format!("k{i} {l}\n\n## S{i}\n\n"),
                _ => format!("k{i} {l}\n\n### S{i}\n\n#### T{i}\n\n"),
            };
            at.push(inline);
        }
        s += "\n\n";
        for (i, a) in at.iter().enumerate() { if !a { s += &format!("[{}]: {}\n", if m[2] == 1 { format!("r{i}") } else { i.to_string() }, url(i)) } }
        r.case(&s, "plain=1 w=200");
        let f = r.fmt(&s, &opts::make("plain=1 w=200"));
        r.traces += 1;
        r.nontrivial = true;
        if norm::meaning(&s) != norm::meaning(&f) { return r.fail("links", &f, "the links changed".into()) }
        if at.iter().any(|a| *a) && f.contains("](http") { r.fail("style", &f, "an inline link to an external URL remains".into()) }
        // Every definition in the section of its only use
        let st = starts(&f);
        let ds = crate::sections::defs(&f);
        if ds.len() != n { r.fail("definitions", &f, format!("{} definitions of {n}", ds.len())) }
        let lines: Vec<&str> = f.lines().collect();
        for d in &ds {
            let Some(i) = (0..n).find(|i| lines[d.line].ends_with(&format!("]: {}", url(*i)))) else { r.fail("target", &f, format!("{:?}", lines[d.line])); continue };
            let Some(u) = line_of(&f, &format!("k{i}")) else { continue };
            if section(&st, u) != section(&st, d.line) { r.fail("section", &f, format!("k{i} is used and defined in different sections")) }
        }
    }));
}
