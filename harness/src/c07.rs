//! C07: every referenced footnote keeps its definition, once, in the section that first refers to it.
use crate::core::*;
use crate::{norm, opts, sections::*};
use comrak::nodes::NodeValue;
use std::collections::BTreeMap;

/// Footnotes that are referenced and defined, by name, with the number of references in
/// the text and in such footnotes. (Of several definitions, comrak uses the last.)
fn read(doc: &str) -> BTreeMap<String, usize> {
    norm::with_ast(doc, |root| {
        let mut text = vec![];
        let mut notes: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for c in root.children() {
            let mut v = vec![];
            let mut stack = vec![c];
            while let Some(n) = stack.pop() {
                match &n.data.borrow().value {
                    NodeValue::FootnoteReference(f) => v.push(label(&f.name)),
                    NodeValue::FootnoteDefinition(_) if n.parent().is_some_and(|p| p.parent().is_some()) => continue,
                    _ => {}
                }
                stack.extend(n.children());
            }
            if let NodeValue::FootnoteDefinition(f) = &c.data.borrow().value { notes.insert(label(&f.name), v); } else { text.extend(v) }
        }
        let mut m: BTreeMap<String, usize> = BTreeMap::new();
        while let Some(k) = text.pop() {
            let n = m.entry(k.clone()).or_default();
            *n += 1;
            if *n == 1 { text.extend(notes.get(&k).cloned().unwrap_or_default()) }
        }
        m.retain(|k, _| notes.contains_key(k));
        m
    })
}

fn check(r: &mut Rec, doc: &str, spec: &str) {
    let a = read(doc);
    if a.is_empty() { r.skipped += 1; return }
    r.case(doc, spec);
    let f = r.fmt(doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = true;
    let b = read(&f);
    if a != b { r.fail("notes", &f, format!("references before: {a:?}\nafter: {b:?}")); return }
    // What else the document holds is C01's matter
    let bodies = |s: &str| { let m = norm::meaning(s); let mut on = false; m.lines().filter(|l| { on |= l.starts_with("footnote "); on }).map(|l| format!("{l}\n")).collect::<String>() };
    let (x, y) = (bodies(doc), bodies(&f));
    if x != y { r.fail("content", &f, format!("before:\n{x}\nafter:\n{y}")); return }
    // As text, too, every name is defined once
    let ds = notes(&f);
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    for d in &ds { *n.entry(label(&d.label)).or_default() += 1; }
    for (k, c) in &n { if *c > 1 { r.fail("twice", &f, format!("[^{k}] is defined {c} times")); } }
    let lines: Vec<&str> = f.lines().collect();
    let st = starts(&f);
    let links = defs(&f);
    let low: Vec<String> = lines.iter().map(|l| l.to_lowercase()).collect();
    let past = |d: &Def| (d.line + 1..lines.len()).find(|i| !lines[*i].is_empty() && !lines[*i].starts_with("    ") && !lines[*i].starts_with(' ')).unwrap_or(lines.len());
    for d in &ds {
        let key = label(&d.label);
        if !b.contains_key(&key) { continue }
        let own = d.line..past(d);
        let mark = format!("[^{key}]");
        let users: Vec<usize> = low.iter().enumerate().filter(|(i, l)| l.contains(&mark) && !own.contains(i)).map(|(i, _)| i).collect();
        let Some(first) = users.iter().map(|l| section(&st, *l)).min() else { continue };
        let here = section(&st, d.line);
        if here != first { r.fail("section", &f, format!("[^{}] is first used in section {first} and defined in section {here}", d.label)); }
        // Nothing but other definitions follows in the section
        let end = st.get(here).copied().unwrap_or(lines.len());
        let mut i = own.end;
        while i < end {
            let l = lines[i];
            if let Some(o) = ds.iter().find(|o| o.line == i) { i = past(o); continue }
            if !(l.is_empty() || links.iter().any(|o| o.line == i)) { r.fail("end", &f, format!("{l:?} comes after the definition of [^{}] in its section", d.label)); break }
            i += 1;
        }
        if let Some(l) = links.iter().find(|l| l.line < d.line && section(&st, l.line) == here) { r.fail("order", &f, format!("the definition of [{}] comes before that of [^{}]", l.label, d.label)); }
    }
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let ev: &'static [&'static str] = &[
        "p[^1]", "q[^2]", "[^1]: one", "[^2]: two[^1]", "## H%", "### L%", "text [l](http://l/)", "> u[^1] v[^2]", "[^2]: two\n\n    - i\n    - j\n\n    > q", "## G%[^1]", "-   w[^2]\n-   x", "#### M%", "[^1]: one [m](http://m/)\n\n    ~~~~\n    c\n    ~~~~",
        "| y[^1] | z[^2] |\n| --- | --- |", "> [^2]: in quote", "[^3]: three[^2] [l](http://l/)", "r[^3][^1]", "# T%", "t\n:   d[^2]", "soft\nline[^2]\nmore",
    ];
    let (k, n) = (ev.len() as u64, 4);
    e.run(domain("events", "all sequences of up to 4 (thorough: 4, and 5 of the first 14) references, definitions, headings and other blocks", upto(k, n), |i, r| {
        let s: Vec<String> = upto_digits(i, k, n).into_iter().enumerate().map(|(j, x)| ev[x].replace('%', &j.to_string())).collect();
        check(r, &(s.join("\n\n") + "\n"), "plain=1 w=200");
    }));
    let k = if q { 8u64 } else { 14 };
    e.run(domain("histories", "all sequences of 5 (thorough also: over 14 kinds) references, definitions and headings", k.pow(5), |i, r| {
        let s: Vec<String> = digits(i, k, 5).into_iter().enumerate().map(|(j, x)| ev[x].replace('%', &j.to_string())).collect();
        check(r, &(s.join("\n\n") + "\n"), "plain=1 w=200");
    }));
    // References in sections, definitions afterwards, in every order
    let rx = [4, 4, 4, 6, 3, 3];
    let marks: &'static [&'static str] = &["", "[^1]", "[^b]", "[^1] and [^b]"];
    e.run(domain("sections", "references to two footnotes in three sections × order and place of the definitions × kinds of headings", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let d = |x: usize| [["[^1]: n1", "[^b]: nb"], ["[^b]: nb [z](http://z/)", "[^1]: n1[^b]"]][x % 2].join("\n");
        let hs = [["## A", "## B"], ["### A", "## B"], ["## A", "### B"]][m[5]];
        let blk = ["p", "> p", "-   p"][m[4]];
        let mut s = String::new();
        let place = m[3] / 2;
        for j in 0..3 {
            if j > 0 { s += &format!("{}\n\n", hs[j - 1]); }
            s += &format!("{blk} {} [k{j}](http://{j}/)\n\n", marks[m[j]]);
            if place == j { s += &format!("{}\n\n", d(m[3])); }
        }
        check(r, &s, "plain=1");
    }));
    // Kinds of content, kinds of places, names
    let body: &'static [&'static str] = &["word", "two\n    lines", "p\n\n    q", "~~~~ c\n    code [^1]\n    ~~~~", "-   a\n    -   b\n\n        c", "> q\n    >\n    > r", "[l](http://l/) ![i](i.png)", "[m]", "# h", "| a | b |\n    | --- | --- |\n    | 1 | 2 |", "<div>\n    x\n    </div>", "\n    late", "", "***", "`[^1]: x`", "1.  one\n    2.  two", "*e* [^o]", "aa  \n    bb", "[^1] self", "long words that go on and on over the edge of the line for sure", "\\[^o]", "    ind", "t\n    :   d", "> [!NOTE]\n    > al"];
    let place: &'static [&'static str] = &["p%", "p%.", "## h%\n\nx", "-   i%", "> q%", "| c% | d |\n| --- | --- |", "*e%*", "[l%](./u)", "[l](http://u/)%", "t\n:   d%", "%", "\"%\"", "a%%", "**s**%", "`c`%x", "%: x", "x%: y", "[%]", "![i%](i.png)", "h%\n---\n\nx", "x  \n%", "> [!NOTE]\n> a%", "long words that go on and on over the edge of the line for%"];
    let name: &'static [&'static str] = &["1", "n", "N", "a-b", "a_b", "*x*", "한", "10", "a.b", "a\\*", "^", "a`b", "\"q\"", "x--y", "1a", "é", "{x}", "a:b", "...", "&amp;", "<x>", "http://a/"];
    let rx = [3, name.len(), place.len()];
    e.run(domain("names", "every footnote name × place of its reference, as it is and with capitals, with options that change punctuation", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = name[m[1]];
        let d = format!("{}\n\n[^{}]: note x--y\n\n[^o]: o\n", place[m[2]].replace('%', &format!("[^{n}]")), if m[0] == 1 { n.to_uppercase() } else { n.into() });
        check_names(r, &d, ["plain=1", "plain=1", "ap=1 en=- sc=1"][m[0]]);
    }));
    let cs = &characters(q);
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in the names and texts of footnotes in two sections", cs.len() as u64, |i, r| {
        let c = cs[i as usize];
        if !letterlike(c) { r.skipped += 1; return }
        let d = format!("x{c}[^a{c}b] y[^{c}]\n\n[^{c}]: {c}z [^z{c}]\n[^a{c}b]: a{c}b\n\n    {c}\n\n## S{c}\n\n{c}[^s{c}] [^a{c}b]\n\n## T\n\n[^z{c}]: z{c}\n[^s{c}]: {c}\n");
        check_names(r, &d, ["plain=1", "", "plain=1 w=12"][c as usize % 3]);
    }));
    let rx = [if q { 2 } else { 4 }, body.len(), body.len(), place.len()];
    e.run(domain("contents", "every pair of contents of two footnotes × place of the references × options", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let d = format!("{}\n\n[^1]: {}\n\n[^n]: {}\n\n[^o]: oo\n\n[m]: http://m/\n", place[m[3]].replace('%', "[^1][^n]"), body[m[1]], body[m[2]]);
        check(r, &d, ["plain=1 w=200", "plain=1 w=16", "plain=1 iw=2 oiw=2 ls=0 ts=1", "plain=1 h1=0 fc=`"][m[0]]);
    }));
    // Sizes
    let ns = &sizes(true);
    let rx = [ns.len(), 8, 2];
    e.run(domain("sizes", "notes, references to a note, sections between, paragraphs, words and lines of a note, notes in notes: one quantity at a time from 1 to 70 and selected numbers up to 129", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        if n > 130 { r.skipped += 1; return }
        let rep = |f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<String>();
        let s = match m[1] {
            0 => rep(&|i| format!("w[^{i}] ")) + "\n\n" + &rep(&|i| format!("[^{i}]: note {i}\n")),
            1 => rep(&|_| "w[^1] ".into()) + "\n\n[^1]: note\n",
            2 => rep(&|i| format!("w[^{i}]\n\n## S{i}\n\n")) + &rep(&|i| format!("[^{i}]: note {i}\n")),
            3 => format!("[^1]: note\n\n{}w[^1]\n\n## End\n\nx\n", rep(&|i| format!("## S{i}\n\np\n\n"))),
            4 => format!("w[^1]\n\n[^1]: note\n\n{}## S\n\nx\n", rep(&|i| format!("    p{i}\n\n"))),
            5 => format!("w[^1]\n\n[^1]: {}\n\n## S\n\nx\n", rep(&|i| format!("word{i} "))),
            6 => format!("w[^1]\n\n{}\n[^{}]: last\n", rep(&|i| format!("[^{i}]: note[^{}]\n", i + 1)), n + 1),
            _ => format!("w[^{0}] v[^1]\n\n## S\n\n[^{0}]: late\n[^1]: {1}\n", "n".repeat(n + 1), rep(&|i| format!("- i{i}\n      "))),
        };
        check(r, &s, ["plain=1 w=200", "plain=1 w=30"][m[2]]);
    }));
}

/// Names are kept as they are; only text may change with the punctuation options.
fn check_names(r: &mut Rec, doc: &str, spec: &str) {
    if spec.contains("plain") { return check(r, doc, spec) }
    let a = read(doc);
    if a.is_empty() { r.skipped += 1; return }
    r.case(doc, spec);
    let f = r.fmt(doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = true;
    if a != read(&f) { r.fail("names", &f, format!("{a:?}\n{:?}", read(&f))); }
}
