//! C11: headings, spacing and breaks have the one documented layout.
//!
//! The reference model writes the whole formatted document itself, from how it was put
//! together: every block comes with its formatted text, and the model decides on blank
//! lines, underlines, breaks and where definitions go.
use crate::core::*;
use crate::opts;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Plain, H1, H2, H3, Deep, List, Ordered, Desc, Indented, Html, Comment, Rule }
use Kind::*;

/// A block: kind, how it is written, how it comes out (% is the number of the block;
/// headings come out with the text only), its definitions, whether it can follow or be
/// followed by a paragraph without a blank line.
struct Block { kind: Kind, src: &'static str, out: &'static str, note: &'static str, def: &'static str, breaks: bool, closed: bool }
const fn b(kind: Kind, src: &'static str, out: &'static str) -> Block { Block { kind, src, out, note: "", def: "", breaks: false, closed: false } }
const fn x(kind: Kind, src: &'static str, out: &'static str) -> Block { Block { kind, src, out, note: "", def: "", breaks: true, closed: true } }

const BLOCKS: &[Block] = &[
    b(Plain, "text %", "text %"),
    x(H1, "# Head %", "Head %"),
    x(H2, "## Sub %", "Sub %"),
    x(H3, "### Low %", "Low %"),
    x(Rule, "***", ""),
    b(List, "- a\n- b", " -  a\n -  b"),
    b(Plain, "> q\n>\n> r", "> q\n>\n> r"),
    Block { kind: Plain, src: "see [l%](http://%/)", out: "see [l%]", note: "", def: "[l%]: http://%/", breaks: false, closed: false },
    Block { kind: Plain, src: "note[^n%]\n\n[^n%]: body %", out: "note[^n%]", note: "[^n%]: body %", def: "", breaks: false, closed: false },
    x(Plain, "```\nx\n\n\ny\n```", "~~~~\nx\n\n\ny\n~~~~"),
    b(Html, "<div>\nx\n</div>", "<div>\nx\n</div>"),
    b(Plain, "| a |\n|--|\n| 1 |", "| a   |\n| --- |\n| 1   |"),
    b(H2, "Set %\n---", "Set %"),
    b(Desc, "Term\n: def", "Term\n:   def"),
    b(Comment, "<!-- c -->", "<!-- c -->"),
    b(Ordered, "3. a\n4. b", "3.  a\n4.  b"),
    b(Indented, "    code", "~~~~\ncode\n~~~~"),
    x(Deep, "##### Deep %", "Deep %"),
    b(H1, "Top\n%\n===", "Top %"),
    b(Plain, "*[AB]: abbr", "*[AB]: abbr"),
    x(Plain, "> [!TIP]\n> t", "> [!TIP]\n> t"),
    b(Plain, "[m%] and[^m%]\n\n[m%]: http://m/%\n\n[^m%]: two", "[m%] and[^m%]"),
    b(Plain, "[z%]: http://z/", ""),
    b(List, "- a\n\n  p\n- b", " -  a\n\n    p\n\n -  b"),
    x(H2, "## `c` *e* %##", "`c` *e* %##"),
    x(H2, "##", ""),
];

/// Display width.
fn width(s: &str) -> usize { unicode_width::UnicodeWidthStr::width(s) }

#[derive(Clone, Copy)]
struct Opt { h1: bool, h2: bool, tb: &'static str, tbl: usize }
fn spec(o: Opt) -> String { format!("plain=1 h1={} h2={} tb={} tbl={}", o.h1 as u8, o.h2 as u8, o.tb.replace(' ', "·"), o.tbl) }

fn heading(level: usize, text: &str, o: Opt) -> String {
    if text.is_empty() { return "#".repeat(level) }
    if (level == 1 && o.h1) || (level == 2 && o.h2) { return format!("{text}\n{}", if level == 1 { "=" } else { "-" }.repeat(width(text))) }
    format!("{} {text}", "#".repeat(level))
}

fn rule(o: Opt) -> String { " ".repeat(o.tbl) + o.tb }

/// What is expected, or None if the blocks cannot stand like this.
fn expect(seq: &[usize], tight: &[bool], o: Opt) -> Option<(String, String)> {
    let (mut src, mut out) = (String::new(), String::new());
    let (mut notes, mut defs): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut last: Option<Kind> = None;
    let mut tail: Vec<&str> = vec![];
    let n = seq.iter().rposition(|k| !matches!(BLOCKS[*k].kind, Html | Comment) && !BLOCKS[*k].out.is_empty() || matches!(BLOCKS[*k].kind, Rule | H2));
    fn flush(out: &mut String, v: &mut Vec<String>) {
        if v.is_empty() { return }
        if !out.is_empty() { out.push('\n') }
        for d in v.drain(..) { out.push_str(&d); out.push('\n') }
    }
    for (i, k) in seq.iter().enumerate() {
        let b = &BLOCKS[*k];
        let num = i.to_string();
        let put = |s: &str| s.replace('%', &num);
        if i > 0 {
            let p = &BLOCKS[seq[i - 1]];
            match (p.kind, b.kind) {
                (List, List) | (Ordered, Ordered) | (Desc, Desc) | (List | Ordered | Desc, Indented) | (Indented, Indented) => return None,
                // A definition of its own may end up between or away from these
                _ if p.src.contains("]: ") && (b.kind == Indented || p.out.is_empty()) && !p.src.starts_with('*') => return None,
                _ => {}
            }
            if tight[i - 1] {
                if !(b.breaks || p.closed && matches!(b.kind, Plain | List | Ordered)) || p.kind == Html || p.kind == Desc || p.src.contains("]: ") { return None }
                if !b.breaks && (p.src.starts_with('>') || b.src.starts_with("|") || b.src.contains("]: ")) { return None }
                // These would go on
                if p.src.starts_with('>') && b.src.starts_with('>') { return None }
                src.push('\n');
            } else { src.push_str("\n\n") }
        }
        src.push_str(&put(b.src));
        let own = match b.kind {
            H1 => heading(1, &put(b.out), o), H2 => heading(2, &put(b.out), o), H3 => heading(3, &put(b.out), o), Deep => heading(5, &put(b.out), o),
            Rule => rule(o),
            _ => put(b.out),
        };
        if own.is_empty() { continue }
        if matches!(b.kind, Html | Comment) && n.is_none_or(|n| i > n) { tail.push(b.out); continue }
        if matches!(b.kind, H2 | H3) && i > 0 { flush(&mut out, &mut notes); flush(&mut out, &mut defs); }
        if !out.is_empty() {
            let heading_before = matches!(last, Some(H1 | H2 | H3 | Deep));
            out.push_str(if b.kind == H2 && !heading_before { "\n\n" } else { "\n" });
        }
        out.push_str(&own);
        out.push('\n');
        last = Some(b.kind);
        if !b.note.is_empty() { notes.push(put(b.note)) }
        if !b.def.is_empty() { defs.push(put(b.def)) }
        if b.src.starts_with("[m%]") { defs.push(put("[m%]: http://m/%")); notes.push(put("[^m%]: two")) }
    }
    flush(&mut out, &mut notes);
    flush(&mut out, &mut defs);
    for t in tail { if !out.is_empty() { out.push('\n') } out.push_str(t); out.push('\n') }
    Some((src + "\n", out))
}

fn check(r: &mut Rec, doc: &str, want: &str, spec: &str) {
    r.case(doc, spec);
    let f = r.fmt(doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = f != *doc;
    if f != *want { r.fail("layout", &f, format!("expected:\n{want}\ngot:\n{f}")); }
}

const OPT: &[Opt] = &[
    Opt { h1: true, h2: true, tb: "- - -", tbl: 3 },
    Opt { h1: false, h2: true, tb: "***", tbl: 0 },
    Opt { h1: true, h2: false, tb: "_ _ _ _", tbl: 1 },
    Opt { h1: false, h2: false, tb: "-----", tbl: 2 },
];

pub fn run(e: &Engine) {
    let q = e.quick();
    let nb = BLOCKS.len();
    let no = OPT.len();
    let go = |r: &mut Rec, seq: &[usize], tight: &[bool], pad: usize, o: Opt| {
        let Some((src, want)) = expect(seq, tight, o) else { r.skipped += 1; return };
        // More blank lines than needed change nothing
        let src = match pad { 0 => src, 1 => "\n\n".to_string() + &src + "\n\n\n", _ => blanks(&src) };
        check(r, &src, &want, &spec(o));
    };
    e.run(domain("sequences", "every sequence of 3 kinds of blocks, with or without blank lines where none are needed, with surplus blank lines or none × heading and break options", volume(&[no, 3, 4, nb, nb, nb]), |i, r| {
        let m = mixed(i, &[no, 3, 4, nb, nb, nb]);
        go(r, &m[3..], &[m[2] & 1 != 0, m[2] & 2 != 0], m[1], OPT[m[0]]);
    }));
    let (k, n) = if q { (20u64, 4) } else { (22, 5) };
    e.run(domain("histories", "every sequence of 1 to 4 (thorough: 5) of 20 (22) kinds of blocks", upto(k, n), |i, r| {
        let s = upto_digits(i, k, n);
        if s.is_empty() { r.skipped += 1; return }
        go(r, &s, &vec![false; s.len() - 1], 0, OPT[s.len() % 2]);
    }));
    // Headings: texts × levels × ways of writing × options × places
    let texts: &'static [(&'static str, &'static str)] = &[
        ("Word", "Word"), ("a", "a"), ("한글 제목", "한글 제목"), ("e\u{301}cole", "e\u{301}cole"), ("😀 go", "😀 go"), ("`code` *em* **st**", "`code` *em* **st**"), ("[rel](./u \"t\")", "[rel](./u \"t\")"),
        ("x  y", "x  y"), ("![i](./i)", "![i](./i)"), ("a\\*b", "a\\*b"), ("１２全角", "１２全角"), ("_em_ 日本", "_em_ 日本"), ("tail \\#", "tail \\#"), ("C#", "C#"), ("a\u{200b}b", "a\u{200b}b"), ("<b>x</b>", "<b>x</b>"), ("\\`", "\\`"),
        ("&copy; a", "&copy; a"), ("a &lt; b", "a &lt; b"), ("1\\. x", "1\\. x"), ("``a`b``", "``a`b``"), ("long words that go on and on over the edge of the line and are never wrapped at all in a heading", "long words that go on and on over the edge of the line and are never wrapped at all in a heading"), ("～wide～", "～wide～"), ("[q](http://q/)", "[q]"), ("x[^1]", "x[^1]"),
    ];
    let ways: &'static [&'static str] = &["#", "# #", "#  ", "# ###", "=", " =", "====="];
    let places: &'static [(&'static str, &'static str, &'static str, &'static str)] = &[("", "", "", ""), ("> ", "> ", "> ", "> "), ("- ", "  ", " -  ", "    "), ("1. ", "   ", "1.  ", "    "), ("> - ", ">   ", ">  -  ", ">     "), (":", "", "", "")];
    let rx = [places.len() - 1, 4, ways.len(), 6, texts.len()];
    e.run(domain("headings", "every heading text × level × way of writing it × heading options × place (top level, quote, items)", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (p, o, lv, (ts, to)) = (places[m[0]], OPT[m[1]], m[3] + 1, texts[m[4]]);
        let hashes = "#".repeat(lv);
        let src = match ways[m[2]] {
            "#" => format!("{hashes} {ts}"), "# #" => format!("{hashes} {ts} {hashes}"), "#  " => format!("{hashes}   {ts}  "), "# ###" => format!("{hashes} {ts} ###   "),
            w => { if lv > 2 { r.skipped += 1; return } let c = if lv == 1 { "=" } else { "-" }; match w { "=" => format!("{ts}\n{}", c.repeat(3)), " =" => format!(" {ts}\n  {}", c.repeat(2)), _ => format!("{ts}\n{}", c.repeat(200)) } }
        };
        let mut want = prefixed(&heading(lv, to, o), p.2, p.3);
        let mut doc = prefixed(&src, p.0, p.1);
        if ts.contains("[^1]") { doc += "\n\n[^1]: n"; want += "\n\n[^1]: n"; }
        if ts.contains("http:") { want += "\n\n[q]: http://q/"; }
        check(r, &(doc + "\n"), &(want + "\n"), &spec(o));
    }));
    // Breaks
    let styles: &'static [&'static str] = &["---", "***", "___", "- - -", "* * *", "_ _ _", "-----------", "*  *  *", "__ __", "- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -", "***  ***"];
    let wrote: &'static [&'static str] = &["***", "---", "___", " - - -", "  *  *  *  *", "   _______________", "- - -\t", "** *", "--  --"];
    let around: &'static [(&'static str, &'static str, &'static str, &'static str)] = &[("", "", "", ""), ("a\n\n", "\n\nb", "a\n\n", "\n\nb"), ("# H\n", "\n## I", "# H\n\n", "\n\n\n## I"), ("> a\n>\n> ", "", "> a\n>\n> ", ""), ("- a\n\n  ", "\n\n  b", " -  a\n\n    ", "\n\n    b"), ("", "\n***", "", "\n\n@"), ("```\nx\n```\n", "\n- l", "~~~~\nx\n~~~~\n\n", "\n\n -  l")];
    let rx = [styles.len(), 4, wrote.len(), around.len()];
    e.run(domain("breaks", "every break style × leading spaces × way of writing a break × what stands around it", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let o = Opt { h1: false, h2: false, tb: styles[m[0]], tbl: m[1] };
        let a = around[m[3]];
        if m[3] > 2 && wrote[m[2]].starts_with(' ') || (m[3] == 4 || m[3] == 6 || m[3] == 5) && wrote[m[2]].contains('-') { r.skipped += 1; return }
        let doc = format!("{}{}{}\n", a.0, wrote[m[2]], a.1);
        let want = format!("{}{}{}\n", a.2, rule(o), a.3.replace('@', &rule(o)));
        check(r, &doc, &want, &spec(o));
    }));
    // Blank lines inside quotes
    let inner: &'static [(&'static str, &'static str)] = &[("p", "p"), ("- x\n- y", " -  x\n -  y"), ("```\nc\n```", "~~~~\nc\n~~~~"), ("# H", "H\n="), ("> n", "> n"), ("| a |\n|---|\n| b |", "| a   |\n| --- |\n| b   |"), ("***", "   - - -"), ("<div>\n</div>", "<div>\n</div>"), ("1. o", "1.  o"), ("## I", "I\n-"), ("t\n: d", "t\n:   d")];
    let k = inner.len();
    e.run(domain("quotes", "every triple of blocks inside a block quote, an alert and a nested quote, with one or two blank lines between", volume(&[3, 2, k, k, k]), |i, r| {
        let m = mixed(i, &[3, 2, k, k, k]);
        let s: Vec<_> = m[2..].iter().map(|j| inner[*j]).collect();
        if s.windows(2).any(|w| w[0] == w[1] && [1, 8, 10].iter().any(|j| inner[*j] == w[0])) { r.skipped += 1; return }
        let doc = s.iter().map(|x| x.0).collect::<Vec<_>>().join(["\n\n", "\n\n\n"][m[1]]);
        let want = s.iter().map(|x| x.1).collect::<Vec<_>>().join("\n\n");
        let (doc, want) = match m[0] {
            0 => (prefixed(&doc, "> ", "> "), prefixed(&want, "> ", "> ")),
            1 => (format!("> [!NOTE]\n{}", prefixed(&doc, "> ", "> ")), format!("> [!NOTE]\n{}", prefixed(&want, "> ", "> "))),
            _ => (prefixed(&doc, "> > ", "> > "), prefixed(&want, "> > ", "> > ")),
        };
        check(r, &(doc + "\n"), &(want + "\n"), &spec(OPT[0]));
    }));
    // Every character
    let cs = &characters(q);
    let rx = [no, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in headings of three levels under four option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (c, o) = (cs[m[1]], OPT[m[0]]);
        if !letterlike(c) || c.is_control() { r.skipped += 1; return }
        let t = format!("a{c}b {c}");
        check(r, &format!("# {t}\n\nx{c}\n\n## {t}\n\n### {t}\ny\n"), &format!("{}\n\nx{c}\n\n\n{}\n\n### {t}\n\ny\n", heading(1, &t, o), heading(2, &t, o)), &spec(o));
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 7, no];
    e.run(domain("sizes", "one quantity at a time (lengths of headings, of breaks and of closing sequences, blank lines, headings, paragraphs) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (n, o) = (ns[m[0]], OPT[m[2]]);
        let (w, b) = ("w".repeat(n), "\n".repeat(n + 1));
        let (d, t) = match m[1] {
            0 => (format!("# {w}\n\nx\n"), format!("{}\n\nx\n", heading(1, &w, o))),
            1 => (format!("p\n\n{w}\n---\nx\n"), format!("p\n\n\n{}\n\nx\n", heading(2, &w, o))),
            2 => (format!("a{b}## H{b}b{b}***{b}c{b}"), format!("a\n\n\n{}\n\nb\n\n{}\n\nc\n", heading(2, "H", o), rule(o))),
            3 => ((0..n).map(|i| format!("## H{i}\np{i}\n")).collect(), (0..n).map(|i| format!("{}{}\n\np{i}\n", if i > 0 { "\n\n" } else { "" }, heading(2, &format!("H{i}"), o))).collect()),
            4 => (format!("a\n\n{}\n\nb\n", "*".repeat(n + 2)), format!("a\n\n{}\n\nb\n", rule(o))),
            5 => ((0..n).map(|i| format!("p{i}\n\n\n")).collect(), (0..n).map(|i| format!("{}p{i}\n", if i > 0 { "\n" } else { "" })).collect()),
            _ => (format!("### {w} {}\nx\n", "#".repeat(n)), format!("### {w}\n\nx\n")),
        };
        check(r, &d, &t, &spec(o));
    }));
}

fn prefixed(s: &str, first: &str, rest: &str) -> String {
    s.split('\n').enumerate().map(|(i, l)| { let p = if i == 0 { first } else { rest }; if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") } }).collect::<Vec<_>>().join("\n")
}

/// Double every blank line outside of code.
fn blanks(s: &str) -> String {
    let mut code = false;
    s.lines().map(|l| { if l.starts_with("```") { code = !code } if l.is_empty() && !code { "\n\n".to_string() } else { format!("{l}\n") } }).collect()
}
