//! C14: warnings name exactly the undefined references and uneven rows, with their lines.
//!
//! Documents are put together from pieces that come with the warnings they deserve; the
//! model only adds up line numbers and follows the directives.
use crate::core::*;
use crate::opts;

/// What is expected: the first and last line where it may be placed, and the label, or
/// "|" for a row.
type Want = (usize, usize, String);

/// Compare the warnings with what is expected, whatever their order.
fn check(r: &mut Rec, doc: &str, spec: &str, mut want: Vec<Want>) {
    r.case(doc, spec);
    let o = opts::make(spec);
    r.calls += 1;
    let Ok(res) = hongdown::format_with_warnings(doc, &o) else { return r.fail("error", "", "refused".into()) };
    r.traces += 1;
    r.nontrivial = !want.is_empty();
    let plain = r.fmt(doc, &o);
    if plain != res.output { r.fail("output", &res.output, format!("warnings change the output:\n{plain}")) }
    let full = want.clone();
    let got: Vec<String> = res.warnings.iter().map(|w| format!("{}: {}", w.line, w.message)).collect();
    for w in &res.warnings {
        let k = want.iter().position(|(a, b, l)| (*a..=*b).contains(&w.line) && if l == "|" { w.message.contains("table row") } else { w.message.contains("reference") && w.message.replace('\\', "").contains(&format!("[{}]", l.replace('\\', ""))) });
        match k { Some(k) => { want.remove(k); } None => { r.fail("warning", &got.join("\n"), format!("not deserved: {}: {}\nexpected: {full:?}\ngot: {got:?}", w.line, w.message)); return } }
    }
    if !want.is_empty() { r.fail("missing", &got.join("\n"), format!("no warning for {want:?}\nexpected: {full:?}\ngot: {got:?}")) }
}

/// Inline pieces: source and the undefined label in it, if any.
const UNITS: &[(&str, &str)] = &[
    ("word", ""), ("[u]", "u"), ("[d]", ""), ("\\[u]", ""), ("`[u]`", ""), ("[t][u]", "u"), ("[u\\]", ""), ("[d][u]", "u"), ("[t][d]", ""), ("[AB]", ""), ("[^f]", ""), ("x[0]", "0"),
    ("[u][]", "u"), ("![i][u]", "u"), ("![u]", "u"), ("![d]", ""), ("*[e]*", "e"), ("[t](./[u])", ""), ("<http://x/[u]>", ""), ("<b title=\"[u]\">", ""), ("[]", ""), ("[ ]", ""), ("[D]", ""), ("[^z]", ""),
    ("\\[u\\]", ""), ("&#91;u&#93;", ""), ("&lbrack;u]", ""), ("[u v]", "u v"), ("([p]).", "p"), ("\\\\[u]", "u"), ("[`c`][u]", "u"), ("<!-- [u] -->", ""), ("~~[s]~~", "s"),
    ("[[w]]", "w"), ("\\![u]", "u"), ("[k]: no", "k"), ("[x]", "x"), ("[ d ]", ""), ("[u](b c)", "u"), ("![a [u] b](./i)", "?"), ("[!NOTE]", ""), ("i[j[0]]", "0"), ("\\`[u]`", "u"), ("**[u]** [d]", "u"), ("\"[u]\"", "u"),
    ("[a\\*b]", "a\\*b"), ("[u...]", "u..."), ("[日本]", "日本"), ("é한[u]", "u"), ("]u[", ""), ("[u", ""), ("u]", ""), ("[ü]", "ü"),
    ("a\\]b[u]", "u"), ("&amp;[u]", "u"), ("[d](./u)", ""), ("<u@x.org>[u]", "u"), ("[*t*][d]", ""), ("[`[u]`](./d)", ""),
];
const TAIL: &str = "\n\n[d]: ./d\n\n[^f]: note\n\n*[AB]: abbr\n";

/// Places: before the first line, before others.
const PLACES: &[(&str, &str)] = &[("", ""), ("> ", "> "), ("- ", "  "), ("10. ", "    "), ("> - ", ">   "), ("# ", "\0"), ("", "\n---"), ("a\n", ""), ("- x\n\n  ", "  "), ("> [!TIP]\n> ", "> "), ("term\n: ", "  "), ("x[^g]\n\n[^g]: ", "    "), ("| h |\n|---|\n| ", "\0 |"), ("[d2]: ./d2\n", ""), ("[d2]: ./d2\n[d3]:\n  ./d3\n", ""), ("---\nt: [fm]\n---\n\n", ""), ("```\n[c]\n\n[c]\n```\n", ""), ("> q\n", ""), ("- q\n", ""), ("  ", " "), ("\t- ", "\0x"), ("- [ ] ", "  "), ("> [d2]: ./d2\n> ", "> "), ("a  \n", ""), ("a\\\n", ""), ("\n\n\n", ""), ("*[X]: y\n\n", ""), ("- - ", "    "), ("1. > ", "   > "), ("t\n===\n", "")];

/// Put units into a place; None if they cannot stand there.
fn put(place: usize, units: &[usize], breaks: &[bool]) -> Option<(String, Vec<Want>)> {
    let (first, rest) = PLACES[place];
    let (rest, end) = match rest { "\0" => ("\0", ""), "\0 |" => ("\0", " |"), "\n---" => ("", "\n---"), "\0x" => return None, x => (x, "") };
    let mut doc = first.to_string();
    let mut want = vec![];
    for (i, u) in units.iter().enumerate() {
        let (s, l) = UNITS[*u];
        if i > 0 {
            if breaks[i - 1] { if rest == "\0" { return None } doc.push('\n'); doc.push_str(rest) } else { doc.push(' ') }
        }
        let starts = i == 0 && !first.ends_with('\n') || i == 0 || breaks[i - 1];
        // These mean something else at the start of a line
        if starts && (["[k]: no", "<!-- [u] -->", "<b title=\"[u]\">"].contains(&s) || s == "[!NOTE]" && place != 0) { return None }
        if first.starts_with('|') && s.contains('|') { return None }
        // That would be the title of the definition before it
        if i == 0 && first.contains("./d") && s.starts_with('"') { return None }
        // A task box stands before the text of an item
        if i == 0 && first.ends_with("- ") | first.ends_with(". ") && ["[ ]", "[x]"].contains(&s) { return None }
        // Whether text within a link may refer is open
        if l == "?" { return None }
        // Two of them would be one reference
        let prev = doc.chars().last().unwrap_or(' ');
        if prev == ']' { return None }
        let line = doc.matches('\n').count() + 1;
        doc.push_str(s);
        if !l.is_empty() { want.push((line, line, l.to_string())) }
    }
    // What opens or closes across pieces
    let t: Vec<&str> = units.iter().map(|u| UNITS[*u].0).collect();
    let odd = |p: &str| t.iter().any(|x| *x == p);
    if odd("[u") && t.iter().any(|x| x.contains(']')) || odd("]u[") && t.len() > 1 || t.iter().filter(|x| x.contains("\\`") || x.matches('`').count() % 2 == 1).count() > 0 && t.iter().filter(|x| x.contains('`')).count() > 1 { return None }
    if (odd("u]") || odd("&lbrack;u]")) && t.iter().any(|x| ["[u", "[u\\]"].contains(x)) || odd("[u\\]") && t.iter().any(|x| x.contains(']')) && t.len() > 1 { return None }
    doc.push_str(end);
    Some((doc, want))
}

const BLOCKS: &[(char, &str, &[(usize, &str)])] = &[
    ('d', "<!-- hongdown-disable -->", &[]),
    ('e', "<!-- hongdown-enable -->", &[]),
    ('f', "<!-- hongdown-disable-file -->", &[]),
    ('l', "<!-- hongdown-disable-next-line -->", &[]),
    ('s', "<!-- hongdown-disable-next-section -->", &[]),
    ('b', "para [u%] x", &[(0, "u%")]),
    ('b', "a [d]\nb [u%]", &[(1, "u%")]),
    ('b', "| a | b |\n|---|---|\n| 1 | 2 | 3 |", &[(2, "|")]),
    ('h', "H2 [u%]\n---", &[(0, "u%")]),
    ('b', "- i\n- [u%]\n\n  [v%]", &[(1, "u%"), (3, "v%")]),
    ('b', "> q [e%]\n>\n> [u%] [v%]", &[(0, "e%"), (2, "u%"), (2, "v%")]),
    ('b', "```\n[c%]\n\n[d0]: x\n```", &[]),
    ('b', "<div>\n[h%]\n</div>", &[]),
    ('b', "T\n: def [u%]\n\n  more [v%]", &[(1, "u%"), (3, "v%")]),
    ('n', "x[^f%] [u%]\n\n[^f%]: note [v%]", &[(0, "u%"), (2, "v%")]),
    ('b', "> [!NOTE]\n> t [u%]", &[(1, "u%")]),
    ('b', "*[AB%]: abbr [AB%]", &[]),
    ('h', "# H [u%]", &[(0, "u%")]),
    ('t', "### Low [u%]", &[(0, "u%")]),
    ('b', "| [u%] | b |\n|---|---|\n| 1 |\n| \\| | `[c]` |\n| [v%] | 2 |", &[(0, "u%"), (2, "|"), (4, "v%")]),
    ('b', "a | b\n---|---\n1 | [u%]\n3", &[(2, "u%"), (3, "|")]),
    ('b', "- | a |\n  |---|\n  | b | c |\n- [ ] task [u%]", &[(2, "|"), (3, "u%")]),
    ('n', "[d%]: ./x%\n[e%]: ./y%", &[]),
    ('b', "uses [d%]", &[(0, "d%")]),
    ('b', "    [c%] [d1]: x", &[]),
    ('b', "1. [d]\n   text [u%]\n2. [AB] [v%]", &[(1, "u%"), (2, "v%")]),
];

fn blocks(items: &[usize]) -> Option<(String, Vec<Want>)> {
    let mut doc = String::new();
    let mut want = vec![];
    let mut mode = 'n';
    for (i, j) in items.iter().enumerate() {
        let (k, s, w) = &BLOCKS[*j];
        if i > 0 { doc.push_str("\n\n") }
        let line = doc.matches('\n').count() + 1;
        // An indented block belongs to what is before
        if s.starts_with("    ") && i > 0 && (BLOCKS[items[i - 1]].1.contains("- ") || BLOCKS[items[i - 1]].1.contains("1. ") || BLOCKS[items[i - 1]].1.contains("\n: ") || BLOCKS[items[i - 1]].1.contains("\n[^") || BLOCKS[items[i - 1]].0 == 'n') { return None }
        if i > 0 && ["- ", "1. "].iter().any(|l| s.starts_with(l) && BLOCKS[items[i - 1]].1.starts_with(l)) { return None }
        if i > 0 && s.starts_with("T\n") && items[..i].iter().rev().map(|j| BLOCKS[*j].1).find(|x| !x.starts_with("[d%]")).is_some_and(|x| x.starts_with("T\n")) { return None }
        let n = i.to_string();
        doc.push_str(&s.replace('%', &n));
        let covered = match (mode, *k) {
            ('d', 'e') => { mode = 'n'; true }
            ('d', 'd') | ('s', 'd') => { mode = 'd'; true }
            ('s', 'h') => { mode = 'n'; false }
            ('s', 'e') => return None,
            ('d' | 's', 'f') => { mode = 'f'; true }
            ('d' | 's' | 'f', _) => true,
            ('l', 'b' | 'h' | 't') => { mode = 'n'; true }
            ('l', _) => return None,
            (_, 'd' | 'f' | 'l' | 's') => { mode = *k; true }
            _ => false,
        };
        if !covered {
            for (o, l) in *w {
                let l = l.replace('%', &n);
                want.push((line + o, line + o, l));
            }
        }
    }
    // Labels defined elsewhere in the document
    let defined = |l: &str| doc.lines().any(|x| x.starts_with(&format!("[{l}]: ./")));
    want.retain(|w| !defined(&w.2));
    Some((doc, want))
}

fn row(n: usize, style: usize, fill: &[&str]) -> Option<String> {
    if n == 0 { return None }
    let c: Vec<&str> = (0..n).map(|i| fill[i % fill.len()]).collect();
    if style > 0 && style < 4 && (c[0].is_empty() || c[n - 1].is_empty()) { return None }
    let b = c.join(" | ");
    Some(match style { 0 => format!("| {b} |"), 1 => format!("| {b}"), 2 => format!("{b} |"), 3 => b, 4 => format!("|{}|", c.join("|")), _ => format!(" |  {b}  | ") })
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let np = PLACES.len();
    let nu = UNITS.len();
    let dress = |doc: String, want: Vec<Want>, k: usize, r: &mut Rec| {
        let doc = doc + TAIL;
        let doc = if k == 1 { doc.replace('\n', "\r\n") } else { doc };
        check(r, &doc, "plain=1", want);
    };
    e.run(domain("pairs", "every pair of inline pieces on one or two lines × place × line ends", volume(&[2, np, 2, nu, nu]), |i, r| {
        let m = mixed(i, &[2, np, 2, nu, nu]);
        match put(m[1], &m[3..], &[m[2] == 1]) { Some((d, w)) => dress(d, w, m[0], r), None => r.skipped += 1 }
    }));
    let (kp, ku) = if q { (8, 26) } else { (np, 36) };
    e.run(domain("triples", "every triple of 26 (thorough: 36) inline pieces on up to three lines × 8 (30) places", volume(&[kp, 4, ku, ku, ku]), |i, r| {
        let m = mixed(i, &[kp, 4, ku, ku, ku]);
        match put(m[0], &m[2..], &[m[1] & 1 != 0, m[1] & 2 != 0]) { Some((d, w)) => dress(d, w, 0, r), None => r.skipped += 1 }
    }));
    // References over line ends
    // Line ends in what a link refers to come last: the parser does not count them
    let over: &'static [(&'static str, &'static str)] = &[("[t @v][u]", "u"), ("[u @v]", "u v"), ("[t @v](./u)", ""), ("<b @title=\"[u]\">", ""), ("`c @d`", ""), ("<!-- @ [u] -->", ""), ("*a @b*", ""), ("[t @v][d]", ""), ("\\[u @v]", ""), ("`[u @v]`", ""), ("[u @v][]", "u v"), ("![i @j][u]", "u"), ("*x @[u]*", "u"),
        ("[t](./u @\"ti\")", ""), ("[t]( @./u)", ""), ("[t][u @v]", "u v"), ("[t][d @ x]", "d x")];
    for (name, rule, from, n, k) in [("breaks", "references and other inlines over line ends × place × what is before and after", 0, 13, 12), ("hidden breaks", "links whose label or target goes over a line end × place × what is before and after", 13, 4, 7)] {
    e.run(domain(name, rule, volume(&[np, n, k, k]), |i, r| {
        let m = mixed(i, &[np, n, k, k]);
        let (s, l) = over[from + m[1]];
        let Some((mut d, mut w)) = put(m[0], &[m[2], m[3]], &[false]) else { r.skipped += 1; return };
        let (first, rest) = PLACES[m[0]];
        if rest.starts_with('\0') || rest.starts_with('\n') { r.skipped += 1; return }
        // Between the two pieces
        let a = UNITS[m[2]].0;
        let at = first.len() + a.len();
        if s.contains('`') && (a.contains('`') || UNITS[m[3]].0.contains('`')) { r.skipped += 1; return }
        // An open bracket of a piece would reach further
        if [a, UNITS[m[3]].0].iter().any(|x| *x == "[u\\]" || *x == "[u") { r.skipped += 1; return }
        let line = d[..at].matches('\n').count() + 1;
        d.insert_str(at, &format!(" {}", s.replace(" @", &format!("\n{rest}"))));
        for x in w.iter_mut() { if x.0 > line { r.skipped += 1; return } }
        // The second piece is one line further down
        let n0 = (!UNITS[m[2]].1.is_empty()) as usize;
        for x in w.iter_mut().skip(n0) { x.0 += 1; x.1 += 1; }
        if !l.is_empty() { w.push((line, line + 1, l.to_string())) }
        dress(d, w, 0, r)
    }));
    }
    let (kb, n) = if q { (BLOCKS.len(), 3) } else { (BLOCKS.len(), 4) };
    e.run(domain("histories", "every sequence of up to 3 (4) blocks and directives", upto(kb as u64, n), |i, r| {
        let s = upto_digits(i, kb as u64, n);
        match blocks(&s) { Some((d, w)) => dress(d, w, 0, r), None => r.skipped += 1 }
    }));
    let (kb, n) = if q { (9, 5) } else { (10, 6) };
    e.run(domain("directives", "every sequence of 5 (6) of 9 (10) blocks and directives", (kb as u64).pow(n as u32), |i, r| {
        match blocks(&digits(i, kb as u64, n)) { Some((d, w)) => dress(d, w, 0, r), None => r.skipped += 1 }
    }));
    // Rows: number of cells in each row
    let fills: &'static [&'static [&'static str]] = &[&["a", "b"], &["x\\|y"], &["`p\\|q`", "c"], &["", "a"], &["-"], &["a", ""], &["--", ":-:"], &["", ""], &["\\\\", "é"], &["한글", "*e*"], &["x\\\\|y"], &["\\\\|", "a"], &["a", "\\|"], &["p \\\\\\| q", "`\\\\|`"]];
    let places: &'static [(&'static str, &'static str)] = &[("", ""), ("> ", "> "), ("- ", "  "), ("> - ", ">   "), ("text\n\n", ""), ("[d9]: x\n\n", ""), ("text\n", ""), ("1. x\n\n   ", "   "), ("# H\n", ""), ("> [!NOTE]\n> ", "> "), ("t\n: ", "  "), ("x[^g]\n\n[^g]: ", "    "), ("- - ", "    "), ("| q |\n|---|\n\n", "")];
    let rx = [places.len(), fills.len(), 6, 4, 7, 7, if q { 3 } else { 7 }];
    e.run(domain("rows", "every number of cells (0 to 6) in each of three rows × 1 to 4 columns × way of writing rows × contents × place", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (p, fill, style, cols) = (places[m[0]], fills[m[1]], m[2], m[3] + 1);
        let head: Vec<&str> = vec!["h"; cols];
        let (Some(h), Some(dl)) = (row(cols, style, &head), row(cols, style, &["---"])) else { r.skipped += 1; return };
        if cols == 1 && (style == 2 || style == 3) { r.skipped += 1; return }
        let mut lines = vec![h, dl];
        let mut want = vec![];
        let base = p.0.matches('\n').count();
        for c in &m[4..] {
            if *c == 0 { continue }
            let Some(x) = row(*c, style, fill) else { r.skipped += 1; return };
            // Not a row, or a block of its own
            if (2..4).contains(&style) && (x.starts_with('-') || *c == 1) || style == 4 && fill[0] == "\\\\" { r.skipped += 1; return }
            lines.push(x);
            if *c != cols { let l = base + lines.len(); want.push((l, l, "|".to_string())) }
        }
        let mut doc = p.0.to_string();
        for (i, l) in lines.iter().enumerate() { if i > 0 { doc.push('\n'); doc.push_str(p.1) } doc.push_str(l) }
        dress(doc, want, 0, r)
    }));
    // Every character
    let cs = &characters(q);
    let rx = [3, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in and around labels that are defined and such that are not, and in cells", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c = cs[m[1]];
        if !letterlike(c) { r.skipped += 1; return }
        let l = format!("u{c}v");
        match m[0] {
            0 => dress(format!("x{c} [{l}] {c}\n{c}[t{c}][{l}]"), vec![(1, 1, l.clone()), (2, 2, l)], 0, r),
            1 => dress(format!("x{c} [{l}] {c}\n{c}[t{c}][{l}] [{l}][]\n\n[{l}]: /{c}"), vec![], 0, r),
            _ => dress(format!("| {c} | b |\n|---|---|\n| {c}x |\n| x{c} | {c} |\n| {c} | {c} | {c} |"), vec![(3, 3, "|".into()), (5, 5, "|".into())], 0, r),
        }
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 9];
    e.run(domain("sizes", "one quantity at a time (undefined references on a line, line by line and in paragraphs, lines before, rows, cells, items, lines of code, lengths of labels) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        let rep = |f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<String>();
        let at = |l: usize, t: &str| (l, l, t.to_string());
        let (doc, want): (String, Vec<Want>) = match m[1] {
            0 => (rep(&|i| format!("x [u{i}] ")).trim_end().into(), (1..=n).map(|i| at(1, &format!("u{i}"))).collect()),
            1 => (rep(&|i| format!("x [u{i}]\n")), (1..=n).map(|i| at(i, &format!("u{i}"))).collect()),
            2 => (rep(&|i| format!("x [u{i}]\n\n")), (1..=n).map(|i| at(2 * i - 1, &format!("u{i}"))).collect()),
            3 => (format!("{}x [u]", "\n".repeat(n)), vec![at(n + 1, "u")]),
            4 => (format!("| a | b |\n|---|---|\n{}", rep(&|i| if i % 2 == 0 { "| 1 |\n".into() } else { "| 1 | 2 |\n".into() })), (1..=n).filter(|i| i % 2 == 0).map(|i| at(i + 2, "|")).collect()),
            5 => (format!("| a |\n|---|\n|{}\n", " c |".repeat(n)), if n > 1 { vec![at(3, "|")] } else { vec![] }),
            6 => (rep(&|i| format!("- i [u{i}]\n")), (1..=n).map(|i| at(i, &format!("u{i}"))).collect()),
            7 => (format!("```\n{}```\n\nx [u]", rep(&|i| format!("[c{i}]\n"))), vec![at(n + 4, "u")]),
            _ => (format!("x [{}]", "l".repeat(n.min(900))), vec![at(1, &"l".repeat(n.min(900)))]),
        };
        dress(doc, want, 0, r)
    }));
}
