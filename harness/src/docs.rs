//! Document grammars shared by the properties about all documents.
use crate::core::{characters, digits, letterlike, mixed, upto, upto_digits, volume, Tier};
use crate::tree;

pub struct Docs {
    pub name: &'static str,
    pub rule: &'static str,
    pub total: u64,
    pub make: Box<dyn Fn(u64) -> Option<(String, String)> + Sync>,
}

fn docs(name: &'static str, rule: &'static str, total: u64, make: impl Fn(u64) -> Option<(String, String)> + Sync + 'static) -> Docs {
    Docs { name, rule, total, make: Box::new(make) }
}

pub const LINES: &[&str] = &[
    "a", "b c", "", "# H", "Sub\n---", " -  x", " -  y", "     -  z", "1.  o", "2.  p", "> q", "> > qq",
    "~~~~ r\ncode\n~~~~", "    ind", "<div>", "| a | b |\n| --- | --- |\n| 1 | 2 |", "Term\n:   def",
    "[L](http://e.x/)", "[^1]", "[^1]: note", "[R]", "[R]: http://r.x/", "***", "> [!NOTE]", "    cont", "----",
    "===", "*  s", "3)  r", "<!-- c -->", "- [ ] t", "\tb", "### T", "d  \ne",
];

pub const INL: &[&str] = &[
    "a", " ", "*", "**", "_", "`", "``", "[", "]", "(", ")", "<", ">", "!", "\\", "|", "#", "-", "+", "1.", "~", "&", ":",
    "\"", "'", ".", " b", "\n",
];

/// Inline text in a place where it can stand: (before, after, continuation line prefix).
pub const PLACES: &[(&str, &str, &str, &str)] = &[
    ("para", "", "\n", ""),
    ("item", "-   ", "\n", "    "),
    ("head", "## ", "\n", "\0"),
    ("quote", "> ", "\n", "> "),
    ("cell", "| ", " | z |\n| --- | --- |\n| y | x |\n", "\0"),
    ("dd", "term\n:   ", "\n", "    "),
    ("note", "t[^n]\n\n[^n]: ", "\n", "    "),
    ("text", "k [", "](./u) l\n", ""),
];

pub fn place(p: usize, inner: &str) -> Option<String> {
    let (_, a, b, cont) = PLACES[p];
    if inner.contains('\n') {
        if cont == "\0" { return None; }
        return Some(format!("{a}{}{b}", inner.replace('\n', &format!("\n{cont}"))));
    }
    Some(format!("{a}{inner}{b}"))
}

/// Option sets that each move several options away from their defaults.
pub const OPTSETS: &[&str] = &[
    "plain=1", "", "plain=1 w=20", "h1=0 h2=0 um=* ls=0 ts=1 fc=` fl=3 sf=0", "sc=1 w=40",
    "um=+ ls=2 ts=2 iw=5 oiw=5 odd=) even=. tb=*·*·* tbl=0", "ap=1 en=- em=0 dl=text",
];

pub fn all(tier: Tier) -> Vec<Docs> {
    let q = tier == Tier::Quick;
    let mut v = vec![];

    let n = LINES.len() as u64;
    let d = if q { 3 } else { 4 };
    v.push(docs("lines", "all sequences of up to 3 (thorough: 4) lines or blocks from the line alphabet", upto(n, d), move |i| {
        let l: Vec<&str> = upto_digits(i, n, d).into_iter().map(|x| LINES[x]).collect();
        Some((l.join("\n") + "\n", "plain=1".into()))
    }));
    v.push(docs("lines-opts", "all sequences of 2 lines, a blank line between or not, under every option set", n * n * 2 * OPTSETS.len() as u64, move |i| {
        let m = mixed(i, &[OPTSETS.len(), 2, n as usize, n as usize]);
        let sep = if m[1] == 0 { "\n" } else { "\n\n" };
        Some((format!("{}{sep}{}\n", LINES[m[2]], LINES[m[3]]), OPTSETS[m[0]].into()))
    }));

    let k = INL.len() as u64;
    let d = 4;
    v.push(docs("inline", "all sequences of 4 inline atoms as a paragraph", k.pow(d as u32), move |i| {
        let s: String = digits(i, k, d).into_iter().map(|x| INL[x]).collect();
        Some((s + "\n", "plain=1".into()))
    }));
    v.push(docs("inline-places", "all sequences of 2 inline atoms with letters around and between, in every place for text, under three option sets", k * k * PLACES.len() as u64 * 3 * 4, move |i| {
        let m = mixed(i, &[3, PLACES.len(), 4, k as usize, k as usize]);
        let (a, b) = (INL[m[3]], INL[m[4]]);
        let s = match m[2] { 0 => format!("x{a}{b}y"), 1 => format!("{a}x{b}"), 2 => format!("x {a}x{b} y"), _ => format!("{a}{b}x{a}{b}") };
        Some((place(m[1], &s)?, ["plain=1", "", "plain=1 w=8"][m[0]].into()))
    }));
    let alphabet: &'static [&'static str] = if q { &["a", " ", "*", "_", "`", "[", "]", "(", ")", "<", ">", "!", "\\", "&", "\n", "#"] } else { &["a", " ", "*", "_", "`", "[", "]", "(", ")", "<", ">", "!", "\\", "&", "\n", "#", "|", "~", "-", "1.", ":"] };
    let k = alphabet.len() as u64;
    v.push(docs("chars", "all strings of 5 special characters", k.pow(5), move |i| {
        Some((digits(i, k, 5).into_iter().map(|x| alphabet[x]).collect::<String>() + "\n", "plain=1".into()))
    }));

    let nc = tree::CONTAINERS.len();
    for (name, rule, depth, sets) in [
        ("tree2", "every leaf block in every nesting of up to two containers, alone or with paragraphs before and after, under every option set", 2usize, OPTSETS.len()),
        ("tree3", "every leaf block in every nesting of three containers, alone or with paragraphs before and after", 3, 1),
    ] {
        if q && depth == 3 { continue; }
        let paths: Vec<Vec<usize>> = if depth == 2 {
            (0..upto(nc as u64, 2)).map(|i| upto_digits(i, nc as u64, 2)).collect()
        } else {
            (0..(nc as u64).pow(3)).map(|i| digits(i, nc as u64, 3)).collect()
        };
        let paths: Vec<_> = paths.into_iter().filter(|p| tree::allowed(p)).collect();
        let radix = vec![sets, paths.len(), tree::LEAVES, 4];
        v.push(docs(name, rule, volume(&radix), move |i| {
            let m = mixed(i, &radix);
            Some((tree::build(&paths[m[1]], m[2], m[3]), OPTSETS[m[0]].into()))
        }));
    }

    // Siblings: what stands next to what, inside one container
    let r = vec![if q { 5 } else { 9 }, tree::LEAVES, tree::LEAVES, if q { 1 } else { tree::LEAVES }];
    v.push(docs("siblings", "every pair (thorough: triple) of neighbouring leaf blocks, at the top level and in every container", volume(&r), move |i| {
        let m = mixed(i, &r);
        let mut lines = tree::sl(&tree::leaf(m[1]).1);
        lines.push(String::new());
        lines.extend(tree::sl(&tree::leaf(m[2]).1));
        if !q { lines.push(String::new()); lines.extend(tree::sl(&tree::leaf(m[3]).1)); }
        let c = if q { [0, 1, 3, 7, 8][m[0]] } else { m[0] };
        if c > 0 { lines = tree::wrap(c - 1, lines); }
        Some((lines.join("\n") + "\n", "plain=1".into()))
    }));

    // Wrapping
    let words: &'static [&'static str] = &["aa", "bbbb", "ccccccc", "`x y`", "[l k](./u)", "*e f*", "가나", "-", "1.", "#", "\n", "g.  H", "<b c>", "[q](http://u/)"];
    let wd = if q { 3 } else { 4 };
    let r = vec![if q { 4 } else { 8 }, 3, words.len().pow(wd as u32)];
    v.push(docs("wrap", "every sequence of 3 (thorough: 4) words of all kinds at widths 8, 12 and 16, in every place for text", volume(&r), move |i| {
        let m = mixed(i, &r);
        let d = digits(m[2] as u64, words.len() as u64, wd);
        let mut s = String::from("start");
        for x in d { if words[x] == "\n" { s.push('\n') } else { if !s.ends_with('\n') { s.push(' ') } s.push_str(words[x]) } }
        Some((place(m[0], &s)?, format!("plain=1 w={}", [8, 12, 16][m[1]])))
    }));

    // Lists: nesting and order of items
    let items: &'static [&'static str] = &["- a", "  - b", "    - c", "1. d", "   1. e", "", "  f", "9. g", "    h", "- [x] i", "* j", "10) k", "   - l", "    1. m", "  - - n", "- > o"];
    let ld = if q { 4 } else { 5 };
    let k = items.len() as u64;
    v.push(docs("list-lines", "all sequences of 4 (thorough: 5) list lines", k.pow(ld as u32), move |i| {
        Some((digits(i, k, ld).into_iter().map(|x| items[x]).collect::<Vec<_>>().join("\n") + "\n", "plain=1".into()))
    }));

    // Emphasis
    let em: &'static [&'static str] = &["a", "b ", "*", "**", "_", "__", "\\*", " ", "`c`", "[k](./u)", "\\_", "."];
    let ed = if q { 4 } else { 5 };
    let k = em.len() as u64;
    v.push(docs("emphasis", "all sequences of 4 (thorough: 5) emphasis delimiters, escapes, letters and spaces, between letters", k.pow(ed as u32) * 2, move |i| {
        let s: String = digits(i / 2, k, ed).into_iter().map(|x| em[x]).collect();
        Some((if i % 2 == 0 { format!("x{s}y\n") } else { format!("*{s}*\n") }, "plain=1".into()))
    }));

    // Links, images and references
    let texts: &'static [&'static str] = &["t", "two words", "*e*", "`c`", "a `]` b", "x \\] y", "![i](./i.png)", "", "line\nbreak", "T", "a & b", "^t", "1"];
    let dests: &'static [&'static str] = &["http://e.x/", "./rel", "<a b>", "#frag", "", "http://e.x/a_(b)", "mailto:m@e.x", "http://e.x/?a=b&amp;c", "https://e.x/*a*", "t", "\\*"];
    let titles: &'static [&'static str] = &["", " \"ti\"", " 'a \"b\"'", " (p)"];
    let after: &'static [&'static str] = &["", " z", "[^1]", "[q]", "(p)", ": x", "[]"];
    let r = vec![2, 4, PLACES.len(), texts.len(), dests.len(), titles.len(), after.len()];
    v.push(docs("links", "every link and image text × destination × title × way of writing it × what follows, in places for text", volume(&r), move |i| {
        let m = mixed(i, &r);
        let (bang, t, d, ti, af) = (["", "!"][m[0]], texts[m[3]], dests[m[4]], titles[m[5]], after[m[6]]);
        let (inner, tail) = match m[1] {
            0 => (format!("k {bang}[{t}]({d}{ti}){af}"), String::new()),
            1 => { if t.is_empty() || d.is_empty() { return None } (format!("k {bang}[{t}][r]{af}"), format!("\n[r]: {d}{ti}\n")) }
            2 => { if t.is_empty() || d.is_empty() || t.contains(['!', '^']) { return None } (format!("k {bang}[{t}]{af}"), format!("\n[{}]: {d}{ti}\n", t.replace('\n', " "))) }
            _ => { if t.is_empty() || d.is_empty() { return None } (format!("{bang}[{t}][]{af}"), format!("\n[{}]: {d}{ti}\n", t.replace('\n', " "))) }
        };
        Some((place(m[2], &inner)? + &tail, "plain=1".into()))
    }));

    // Two links that may want the same label, across sections
    let ls: &'static [&'static str] = &["[a](http://1/)", "[a](http://2/)", "[a]", "[A][a]", "[b][a]", "[a](http://1/ \"t\")", "![a](http://1/)", "![a][a]", "[a][]", "[`a`](http://1/)", "\\[a]", "<http://1/>", "[^a]", "[a](./l)", "[1](http://3/)", "[*a*](http://1/)"];
    let seps: &'static [&'static str] = &[" ", "\n\n", "\n\nH2\n--\n\n", "\n\n### H3 ", "\n\n> "];
    let ends: &'static [&'static str] = &["", "\n[a]: http://1/\n", "\n[a]: http://9/ \"t\"\n", "\n[^a]: note [a](http://5/)\n"];
    let r = vec![ends.len(), seps.len(), seps.len(), ls.len(), ls.len(), if q { 4 } else { ls.len() }];
    v.push(docs("labels", "every triple of links that may compete for a label × what stands between them × what is defined at the end", volume(&r), move |i| {
        let m = mixed(i, &r);
        Some((format!("{}{}{}{}{}\n{}", ls[m[3]], seps[m[1]], ls[m[4]], seps[m[2]], ls[m[5]], ends[m[0]]), "plain=1".into()))
    }));

    // Words and markers that are only dangerous at the start of a line
    let words: &'static [&'static str] = &["aa", "<div>", "<b c>", "<b>", "|", "--", "---", "===", ":", "-|-", "2.", "1)", "+", "*", "~~~", "```", ">", "[x]:", "[^1]:", "\\#", "#", "[a](<b c>)", "``a ` b``", "[", "<!-- c d -->", "&#35;", "!", "<x@y.z>", "\\", "  \n", "*[A]:", "&gt;", "{#", "http://a/b"];
    let wd = 3;
    let r = vec![if q { 4 } else { 8 }, 3, words.len().pow(wd as u32)];
    v.push(docs("wrap-markers", "every sequence of 3 words that would be markup at the start of a line, at widths 8, 10 and 13, in 4 (thorough: 8) places for text", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s: Vec<&str> = digits(m[2] as u64, words.len() as u64, wd).into_iter().map(|x| words[x]).collect();
        Some((place([0, 1, 6, 3, 2, 4, 5, 7][m[0]], s.join(" ").trim_end())?, format!("plain=1 w={}", [8, 10, 13][m[1]])))
    }));

    // Tables
    let cells: &'static [&'static str] = &["a", "", "`x|y`", "`x\\|y`", "\\|", "*e*", "[l](http://u/)", "한글", "a\\\\", "<b>", "[^n]", "b  c", "`\\\\`", "&#124;"];
    let delims: &'static [&'static str] = &["---", ":-:", "-:", ":-"];
    let r = vec![6, delims.len(), cells.len(), cells.len(), cells.len()];
    v.push(docs("tables", "every triple of cells × alignment × shape of the table", volume(&r), move |i| {
        let m = mixed(i, &r);
        let (d, a, b, c) = (delims[m[1]], cells[m[2]], cells[m[3]], cells[m[4]]);
        Some((match m[0] {
            0 => format!("| {a} | {b} |\n| {d} | --- |\n| {c} | z |\n"),
            1 => format!("{a} | {b}\n{d} | ---\n{c}\n{b} | {c} | {a}\n\n[^n]: note\n"),
            2 => format!("> | {a} |\n> |{d}|\n> | {b} |\n> | {c}\n"),
            3 => format!("-   | {a} | {b} |\n    |{d}|--|\n    | {c} | y |\n"),
            4 => format!("p\n\n|{a}|{b}|{c}|\n|{d}|-|-|\n\nq\n"),
            _ => format!("|{a}|\n|{d}|\n|{b}|\n|{c}|\n{c} text\n"),
        }, "plain=1".into()))
    }));

    // Description lists
    let dl: &'static [&'static str] = &["T", "U *e*", ":   d", ":   e  ", "    f", "", "    - x", "    ~~~\n    c\n    ~~~", ":   > q", "~   t", ":  - y", "    1. n", "# H", "para"];
    let k = dl.len() as u64;
    let dd = if q { 4 } else { 5 };
    v.push(docs("descriptions", "all sequences of 4 (thorough: 5) lines of description lists", k.pow(dd as u32), move |i| {
        Some((digits(i, k, dd).into_iter().map(|x| dl[x]).collect::<Vec<_>>().join("\n") + "\n", "plain=1".into()))
    }));
    // Alerts with titles of their own
    let titles: &'static [&'static str] = &["", "  ", "Title", " Title", " *T*  `c`", "\\*t\\*", " a &amp; b & c", "&lt;b> ", " [x]", " ]", "\t[^1]", " \\", " a\\\\b", " <!-- c -->", " | x |", " \"it's\"...", " &#32;t", " -- # T"];
    let kinds: &'static [&'static str] = &["[!NOTE]", "[!tip]", "[!Important]", "[!WARNING]", "[!caution]", "[!OTHER]", " [!note]", "[! NOTE]"];
    let bodies: &'static [&'static str] = &["", "b", "\nb", "- i\n- j", "    code", "> [!TIP] u\n> v", "> q", "# h", "~~~\nc\n~~~", "\n\nb", "[d]: /u\n\nx [d]", "b\n\nc  \nd"];
    let holders: &'static [(&'static str, &'static str)] = &[("", ""), ("> ", "> "), ("- ", "  "), ("- x\n\n  ", "  "), ("1. ", "   "), ("- - ", "    "), ("a[^9]\n\n[^9]: ", "    "), ("p\n\n", ""), ("p\n", ""), ("t\n:   x\n\n    ", "    "), ("- > ", "  > ")];
    let r = vec![2, titles.len(), kinds.len(), bodies.len(), holders.len()];
    v.push(docs("alerts", "every alert title of its own or without one, kind of alert, first block and container", volume(&r), move |i| {
        let m = mixed(i, &r);
        let (h, ind) = holders[m[4]];
        // Those with two spaces become alerts, a known finding: not every one is tried
        if m[2] == 6 && (m[1] > 2 || m[4] > 1) { return None }
        let all = format!("{}{}\n{}", kinds[m[2]], titles[m[1]], bodies[m[3]]);
        let s = all.trim_end_matches('\n').split('\n').enumerate().map(|(n, l)| format!("{}>{}{l}", if n > 0 { ind } else { h }, if l.is_empty() { "" } else { " " })).collect::<Vec<_>>().join("\n");
        Some((s + "\n", ["plain=1", "w=12"][m[0]].into()))
    }));
    // Tasks
    let marks: &'static [&'static str] = &["[ ]", "[x]", "[X]", "[-]", "[]", "[  ]", "[x] [ ]", "\\[ ]", "[\u{a0}]", "[x]\t", "[\t]"];
    let texts: &'static [&'static str] = &[" a", "", "a", " `c` b\n  d", " a\n\n  p", "\n  a", " \n\n  a", " - b", " a\n  - [x] b\n  - [X] c", " # h", " > q", " [y](./u)", "(u)", " [ ]", "\n  ~~~\n  c\n  ~~~"];
    let bullets: &'static [&'static str] = &["- ", "* ", "1. ", "2)  ", "> - ", "t\n:   - ", "- - ", "x[^n]\n\n[^n]: - "];
    let r = vec![2, bullets.len(), marks.len(), texts.len(), marks.len() + 1];
    v.push(docs("tasks", "every mark of a task and what looks like one × what follows it × kind of list × the next item", volume(&r), move |i| {
        let m = mixed(i, &r);
        let b = bullets[m[1]];
        let last = b.rsplit('\n').next().unwrap();
        let (ind, lead) = if let Some(x) = last.strip_prefix("> ") { (format!("> {}", " ".repeat(x.len())), "> - ".to_string()) } else if last.starts_with("[^") { ("      ".into(), "    - ".into()) } else { (" ".repeat(last.len()), if last.len() > 3 { format!("{}{}", " ".repeat(last.len() - 2), &last[last.len() - 2..]) } else { last.to_string() }) };
        let t = texts[m[3]].split('\n').enumerate().map(|(n, l)| if n == 0 { l.to_string() } else if l.is_empty() { ind.trim_end().to_string() } else { format!("{ind}{}", &l[2..]) }).collect::<Vec<_>>().join("\n");
        let mut s = format!("{b}{}{t}\n", marks[m[2]]);
        if m[4] > 0 { s += &format!("{lead}{} z\n", marks[m[4] - 1]); }
        Some((s, ["plain=1", "plain=1 um=* iw=2 oiw=2 ls=0 ts=1"][m[0]].into()))
    }));
    // Code spans: runs of backticks, spaces at the edges, and what would need an escape elsewhere
    let ca: &'static [&'static str] = &["`", "``", "```", " ", "x", "|", "\\", "*", "\n"];
    let cl = if q { 4 } else { 5 };
    let k = ca.len() as u64;
    let r = vec![if q { 5 } else { 8 }, 4, k.pow(cl as u32) as usize];
    v.push(docs("code-spans", "every sequence of 4 (thorough: 5) runs of backticks, spaces, letters, pipes, backslashes and line breaks between delimiters of 1, 2 and 4 backticks, in places for text", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s: String = digits(m[2] as u64, k, cl as usize).into_iter().map(|x| ca[x]).collect();
        let d = ["`", "``", "````", "`` "][m[1]];
        let e: String = d.chars().rev().collect();
        let p = if q { [0, 4, 1, 7, 8][m[0]] } else { m[0] + (m[0] == 8) as usize };
        Some((if p == 8 { format!("[d]: /u\ny {d}{s}{e} [d] z") } else { place(p, &format!("y {d}{s}{e} z"))? } + "\n", "plain=1".into()))
    }));
    // Entities, which stay as they are written
    let ent: &'static [&'static str] = &["&amp;", "&lt;", "&#60;", "&#x3C;", "&#X3c;", "&CounterClockwiseContourIntegral;", "&nbsp;", "&fjlig;", "&copy", "&nope;", "&#0;", "&amp;lt;", "\\&amp;", "&#42;", "&ast;", "&#x20;", "&hellip;", "&quot;", "&#91;", "&lbrack;", "&bsol;", "&#x1F600;", "&#0000065;", "&;", "&#;", "&#x;", "a", "*", "_", "[", "`", " ", "\\", "<", "&"];
    let k = ent.len();
    let r = vec![3, PLACES.len(), 6, k, k];
    v.push(docs("entities", "all pairs of entities, what looks like them, and special characters, in every place for text, under three option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        let (a, b) = (ent[m[3]], ent[m[4]]);
        let s = match m[2] { 0 => format!("x{a}{b}y"), 1 => format!("{a} x{b}"), 2 => format!("*{a}*z{b}{a}"), 3 => format!("\"{a}\" -- it's{b}..."), 4 => format!("'{a} -- \"x{b}...'\" {a}"), _ => format!("[d]: /d\n{a}x{b}y{a}") };
        Some((place(m[1], &s)?, ["plain=1", "", "plain=1 w=8 sc=1"][m[0]].into()))
    }));

    // Punctuation that is replaced
    let pun: &'static [&'static str] = &["a", "s", " ", "'", "\"", ".", "-", "8", "(", "]", "\u{2019}", "\u{201c}", ",", "\n"];
    let k = pun.len() as u64;
    let pd = if q { 5 } else { 6 };
    let r = vec![5, k.pow(pd) as usize];
    v.push(docs("punctuation", "all sequences of 5 (thorough: 6) quotes, periods, hyphens, letters, digits, spaces and brackets under five option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s: String = digits(m[1] as u64, k, pd as usize).into_iter().map(|x| pun[x]).collect();
        Some((s + "\n", ["", "ap=1", "en=-- em=---", "ap=1 en=- sq=0", "w=8 el=0 em=- dq=0"][m[0]].into()))
    }));

    // Characters of other scripts, and spaces of all kinds
    let uni: &'static [&'static str] = &["\u{a0}", "é", "e\u{301}", "한", "👩‍👩‍👧", "\u{3000}", "\u{200b}", "\u{feff}", "\u{2028}", "\t", "\u{85}", "a", " ", "*", "_", "\"", "'", "\n", "”", "\u{ad}"];
    let k = uni.len() as u64;
    let r = vec![2, 4, k.pow(3) as usize];
    v.push(docs("unicode", "all sequences of 3 characters of other scripts, spaces of all kinds, delimiters and quotes, between letters, in places for text, under two option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s: String = digits(m[2] as u64, k, 3).into_iter().map(|x| uni[x]).collect();
        Some((place([0, 1, 2, 4][m[1]], &format!("x{s}y"))?, ["plain=1 w=8", ""][m[0]].into()))
    }));

    // Single characters that are special to some text tools, in every part of the syntax
    let odd: &'static [&'static str] = &["\u{1}", "\u{2}", "\u{3}", "\u{7}", "\u{8}", "\t", "\u{b}", "\u{c}", "\u{e}", "\u{1a}", "\u{1b}", "\u{1c}", "\u{1d}", "\u{1e}", "\u{1f}", " ", "\u{7f}", "\u{80}", "\u{85}", "\u{9f}", "\u{a0}", "\u{ad}", "\u{301}", "\u{34f}", "\u{5d0}", "\u{61c}", "\u{1680}", "\u{180e}", "\u{2003}", "\u{2007}", "\u{200b}", "\u{200d}", "\u{200e}", "\u{2028}", "\u{2029}", "\u{202e}", "\u{202f}", "\u{205f}", "\u{2060}", "\u{3000}", "\u{e000}", "\u{fe0f}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10ffff}", "ß", "İ", "K", "ﬁ"];
    let slots: &'static [&'static str] = &["%", "a\n%\nb", "a\n\n%\n\nb", "[x][%] [y]\n\n[%]: /u\n[y]: /v", "[%][] [y]\n\n[%]: /u\n[y]: /v", "[%] [y]\n\n[%]: /u\n[y]: /v", "![%] ![x][%]\n\n[%]: /u", "[%](/u) [%](http://u/)", "[t](/%) [t](http://u/%)", "[t](</%> \"%\")", "[t](http://u/ \"%\")", "[r]\n\n[r]: <%>\n", "[r]\n\n[r]: /u '%'", "`%`", "`` % ``", "~~~~ %\nx\n~~~~", "~~~~ x %\nx\n~~~~", "~~~~\n%\n~~~~", "    %\n    b", "# %", "### a %", "%\n===", "a\n%\n---", "- %", "- a\n\n  %", "1. %\n2. b", "-%", "> %", "> [!NOTE]\n> %", "> [!NOTE] %\n> a", "| % | b |\n| --- | --- |\n| c | % |", "| a |\n| --- |%\n| b |", "[^%] [^x]\n\n[^%]: a\n\n[^x]: b", "[^x]\n\n[^x]: %", "[^x]\n\n[^x]: a\n\n    %", "*[%]: b\n\n%", "*[a]: %", "<b t=\"%\">", "<b %>", "<div>\n%\n</div>", "<!-- % -->", "a <!-- % --> b", "<http://u/%>", "%\n:   d", "t\n:   %", "- [ ] %", "- [%] a", "*%*", "**a%** b", "a %b% c", "***%", "<!-- hongdown-disable -->\n%\n<!-- hongdown-enable -->\n%", "<!-- hongdown-proper-nouns: % -->\n\n# a %", "---\nt: %\n---\n\na", "***\n%", "a  \n%", "a\\\n%", "\\%", "&#%;", "&amp;%", "http://u/%", "a@b.c%"];
    let r = vec![3, 5, slots.len(), odd.len()];
    v.push(docs("characters", "every one of 50 control, space, format, combining and case-changing characters × every part of the syntax × before, after, between, instead of and around letters × option set", volume(&r), move |i| {
        let m = mixed(i, &r);
        let c = odd[m[3]];
        let c = match m[1] { 0 => c.to_string(), 1 => format!("{c}k"), 2 => format!("k{c}"), 3 => format!("k{c}k"), _ => format!("{c}k{c}") };
        // White space at the edges of labels is dropped, which no page shows, and comrak
        // neither finds nor drops a footnote whose name has it
        if slots[m[2]].contains("[%]") && c.trim_matches([' ', '\t']) != c || slots[m[2]].starts_with("[^%]") && c.trim() != c { return None }
        let d = slots[m[2]].replace('%', &c);
        Some((d + "\n", ["plain=1", "plain=1 w=8", ""][m[0]].into()))
    }));

    // Every character
    let cs = characters(q);
    let all: &'static [&'static str] = &[
        "%k k% k%k %\n%k *k%* **%** *%k* ~~k%~~ `%` `k%`  %\n\n# %k k%\n\n> %k\n>\n> k%\n\n - %k\n - k%\n\n1. %\n2. k%k\n\nk%k\n:   %k\n\n| %k | k% |\n| --- | --- |\n| k%k | % |\n\n## k%k %\n\n~~~~ k%\n%\nk%\n~~~~\n\n    %k\n    k%\n\nk%\n",
        "[k%k](/k%k) [k%](http://u/%k) [%](<http://u/ %>) ![k%](%k \"k%k\") [%k][k%k] [k%k][] [k%k] ![x][k%k]\n<http://u/%> <b t=\"%k\"> \\% k[^1]% k[^k%k]\n\n<div>\nk% %\n</div>\n\n<!-- k% % -->\n\n[k%k]: </u%k> 'k% %'\n\n[^1]: %k k%\n\n    %\n\n[^k%k]: k%k\n",
        "k%\"k%k\"% '%' %'s k%'k % -- %--k %... \"%\"k%\n\n### k%k %k k%\n\n- [ ] %k\n- [x] k%\n\n> [!NOTE]\n> %k k%\n\n***\n\nk%  \n%k\\\n%\n",
    ];
    let r = vec![if q { 1 } else { 2 }, all.len(), cs.len()];
    v.push(docs("every-character", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in every part of the syntax: before, after, between and instead of letters, under one (thorough: each) of two option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        let c = cs[m[2]];
        // A byte order mark at the start stays there
        if !letterlike(c) || c == '\u{feff}' { return None }
        Some((all[m[1]].replace('%', &c.to_string()), ["plain=1 w=8", ""][(m[0] + m[1] + m[2]) % 2].into()))
    }));

    // Inlines inside each other
    let around: &'static [&'static str] = &["*%*", "**%**", "_%_", "[%](./u)", "[%](http://u/)", "[%][r]", "![%](./i)", "\"%\"", "`%`", "<b>%</b>", "\\*%\\*", "***%***", "[%]", "a%b", "% c", "![%][r]"];
    let cores: &'static [&'static str] = &["a", "a b", "a*b", "a]b", "`c`", "a\nb", "<http://x/>", "[^1]", "a\\]b", "<x@y.z>"];
    let k = around.len();
    let r = vec![if q { 2 } else { 4 }, 2, k, k, k, cores.len()];
    v.push(docs("inside", "every core in every three inlines around it, in places for text, at two widths", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s = [m[4], m[3], m[2]].iter().fold(cores[m[5]].to_string(), |s, w| around[*w].replace('%', &s));
        Some((place([0, 1, 2, 4][m[0]], &s)? + "\n[r]: http://r/ \"t\"\n\n[^1]: n\n", ["plain=1", "plain=1 w=8"][m[1]].into()))
    }));

    // Definitions, notes, comments and other blocks that move
    let pieces: &'static [&'static str] = &["p[^1] [L](http://e.x/)", "[^1]: note [L2](http://f.x/)", "[R]: http://r.x/ \"t\"", "see [R]", "<!-- c -->", "## H", "<div>\nx\n</div>", "* i", "*[AB]: Abbr", "[^2]: second[^1]\n\n    more", "---\nf: m\n---", "[^2] ![i][R]", "***", "T\n: def [R]"];
    let k = pieces.len() as u64;
    let pd = if q { 4 } else { 5 };
    v.push(docs("pieces", "all sequences of up to 4 (thorough: 5) blocks with definitions, notes, comments, abbreviations, headings and front matter", upto(k, pd), move |i| {
        let s: Vec<&str> = upto_digits(i, k, pd).into_iter().map(|x| pieces[x]).collect();
        Some((s.join("\n\n") + "\n", "plain=1".into()))
    }));
    // Headings: what would close them, underline them, or need an escape
    let ha: &'static [&'static str] = &["#", " ", "a", "\\", "=", "-", "\n", "`c`", "*", "##", "[x]:", "<div>", "{#i}", "1."];
    let hl = if q { 4 } else { 5 };
    let k = ha.len() as u64;
    let r = vec![2, 5, upto(k, hl) as usize];
    v.push(docs("headings", "all sequences of up to 4 (thorough: 5) pieces that mean something at the ends of headings, as headings of three levels in both styles, under two option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        let s: String = upto_digits(m[2] as u64, k, hl).into_iter().map(|x| ha[x]).collect();
        if m[1] > 1 && s.contains('\n') { return None }
        Some((match m[1] { 0 => format!("{s}\n===\n"), 1 => format!("{s}\n---\n"), n => format!("{} {s}\n", &"###"[..n - 1]) }, ["plain=1", "plain=1 h1=0 h2=0 w=8"][m[0]].into()))
    }));

    // What goes on over a line end inside containers
    let over: &'static [&'static str] = &["[a\nb](u)", "[a\nb][r]", "![a\nb](http://u/)", "[a][r\ns]", "`a\nb`", "<b\nc>", "*[A]: x\ny", "[q]: u\n\"t\"", "*a\nb*", "[a](http://u/\n\"t\")", "<!-- a\nb -->", "a\\\nb", "a  \nb", "[r\ns]", "[r\ns][]", "\n", "x", "[a](http://u/ \"t\nv\")", "[a `b\nc`](http://u/)", "[![a\nb](i)\nc](http://u/)", "[^1]: x\ny"];
    let conts: &'static [(&'static str, &'static str)] = &[("", ""), ("> ", "> "), (">", ">"), ("> > ", "> > "), ("- ", "  "), ("> - ", ">   "), ("- > ", "  > "), ("t\n: ", "  "), ("[^9]\n\n[^9]: ", "    "), ("> [!NOTE]\n> ", "> "), ("1. - ", "     "), ("> t\n> : ", ">   "), ("t\n: > ", "  > ")];
    let k = over.len();
    let r = vec![3, conts.len(), 5, k, k];
    v.push(docs("over-lines", "every pair of inlines, definitions and comments that go on over a line end × container × how the further lines are marked × width", volume(&r), move |i| {
        let m = mixed(i, &r);
        let (a, c) = conts[m[1]];
        let c = match m[2] { 0 => c.to_string(), 1 => format!("{c}  "), 2 => String::new(), 3 => c.trim_end().to_string(), _ => format!("{c}\t") };
        let s = format!("{} {}", over[m[3]], over[m[4]]);
        Some((format!("{a}{}\n\n[r]: /u\n\n[r s]: http://v/ 'w'\n", s.replace('\n', &format!("\n{c}"))), ["plain=1", "plain=1 w=8", ""][m[0]].into()))
    }));

    // Indentation of nested lists at and below the width of a marker
    let outer: &'static [&'static str] = &["- a\n", "- a\n\n  p\n", "1. a\n", "-\n", "> - a\n", "t\n:   - a\n"];
    let nest: &'static [&'static str] = &["- b\n", "- b\n- c\n", "- b\n\n  q\n", "1. b\n2. c\n", "- b\n  - c\n", "- b\n  1. c\n", "1. b\n   - c\n", "- b\n  > q\n", "- b\n  ~~~\n  c\n  ~~~\n"];
    let r = vec![4, 2, 3, outer.len(), nest.len(), 2];
    v.push(docs("indents", "every nested list of two kinds and their mixtures × indent_width 1 to 4 × that of ordered lists 4 and 2 × spaces around the marker", volume(&r), move |i| {
        let m = mixed(i, &r);
        let pre = [("", "  "), ("", "  "), ("", "   "), ("", "  "), ("> ", ">   "), ("", "      ")][m[3]].1;
        let tail = if m[5] == 0 { String::new() } else { format!("\n{pre}z\n") };
        let text: String = nest[m[4]].split_inclusive('\n').map(|l| if l == "\n" { format!("{}\n", pre.trim_end()) } else { format!("{pre}{l}") }).collect();
        Some((format!("{}{text}{tail}", outer[m[3]]), format!("plain=1 iw={} oiw={} {}", m[0] + 1, [4, 2][m[1]], ["", "ls=0 ts=1", "ls=0 ts=2"][m[2]])))
    }));

    // References: how often, in what form, and how long their target is
    let forms: &'static [&'static str] = &["[a]", "[x][a]", "[a][]", "![a]", "![x][A]", "[b]", "[x](%)", "[a](%)", "[A]"];
    let k = forms.len();
    let r = vec![2, if q { 3 } else { 4 }, 4, if q { 3 } else { 7 }, k, k, k];
    v.push(docs("references", "every three forms of references repeated up to 3 (thorough: 7) times × length of the target × places for text", volume(&r), move |i| {
        let m = mixed(i, &r);
        let url = format!("http://e.x/{}", "p".repeat([0, 40, 200, 1200][m[1]]));
        let one = format!("{} {} {}", forms[m[4]], forms[m[5]], forms[m[6]]).replace('%', &url);
        let s = vec![one; [1, 3, 2, 6, 4, 5, 7][m[3]]].join(" ");
        Some((place(m[2], &s)? + &format!("\n[a]: {url}\n[b]: /b{}\n", "q".repeat([0, 40, 200, 1200][m[1]])), ["plain=1", "plain=1 w=20"][m[0]].into()))
    }));

    // Sizes: how many, how long, how deep, one quantity at a time
    let ns: Vec<usize> = (1..=if q { 130 } else { 300 }).chain([200, 255, 256, 257, 512, 513, 1000, 1025]).collect();
    let r = vec![ns.len(), SIZES, if q { 2 } else { 3 }];
    v.push(docs("sizes", "each of the quantities of a document (items, levels, columns, rows, definitions, notes, links, lines, lengths of words, of code, of runs of characters, of targets) from 1 to 130 (thorough: 300) and selected numbers up to 1025 × three option sets", volume(&r), move |i| {
        let m = mixed(i, &r);
        Some((sized(m[1], ns[m[0]])?, ["", "plain=1 w=20 um=* ls=0 ts=1 fc=` fl=3", "plain=1"][m[2]].into()))
    }));
    v
}

pub const SIZES: usize = 50;

/// A document with one quantity of the given size.
pub fn sized(kind: usize, n: usize) -> Option<String> {
    let rep = |f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<String>();
    let words = |n: usize| (0..n).map(|i| ["alpha", "be", "gamma's", "x"][i % 4]).collect::<Vec<_>>().join(" ");
    let deep = n <= 40;
    Some(match kind {
        0 => rep(&|i| format!("p{i}\n\n")),
        1 => rep(&|i| format!("- i{i}\n")),
        2 => rep(&|i| format!("- i{i}\n\n")),
        3 => rep(&|i| format!("{i}. i{i}\n")),
        4 => format!("{n}. i\n{}. j\n\n   k\n", n + 1),
        5 if deep => rep(&|i| format!("{}- l{i}\n", "  ".repeat(i - 1))),
        6 if deep => rep(&|i| format!("{}1. l{i}\n", "   ".repeat(i - 1))),
        7 if deep => format!("{}q\n", "> ".repeat(n)),
        8 if deep => rep(&|i| format!("{}- l{i}\n\n", "  ".repeat(i - 1))) + &format!("{}end\n", "  ".repeat(n)),
        9 if n <= 130 => format!("|{}\n|{}\n|{}\n", " a |".repeat(n), " --- |".repeat(n), " b |".repeat(n)),
        10 => format!("| a | b |\n| --- | --- |\n{}", rep(&|i| format!("| {i} | x |\n"))),
        11 => format!("| a |\n| --- |\n| {} |\n", "c".repeat(n)),
        12 => rep(&|i| format!("[t{i}] ")) + "\n\n" + &rep(&|i| format!("[t{i}]: http://e.x/{i}\n")),
        13 => rep(&|i| format!("[t{i}](http://e.x/{i})\n")),
        14 => rep(&|i| format!("w[^{i}] ")) + "\n\n" + &rep(&|i| format!("[^{i}]: note {i}\n")),
        15 => format!("w[^n]\n\n[^n]: {}\n", words(n)),
        16 => format!("~~~~ x\n{}~~~~\n", rep(&|i| format!("{}c{i}\n", " ".repeat(i % 5)))),
        17 => format!("{f} x\n```\n{f}\n", f = "`".repeat(n.max(4))),
        18 => format!("~~~~~~~~~~\n{}\n{}\n~~~~~~~~~~\n", "`".repeat(n.min(12)), "~".repeat(n.min(9))),
        19 => format!("{f}\n{}\n{f}\n", "~".repeat(n + 2), f = "~".repeat(n + 3)),
        20 => format!("a {f}c{f} b\n", f = "`".repeat(n)),
        21 => format!("a `{}` b\n", "c d".repeat(n)),
        22 => format!("## {}\n\nx\n", words(n)),
        23 => format!("{}\n===\n\n{}\n---\n", words(n), "h".repeat(n)),
        24 => format!("a {} b\n", "w".repeat(n)),
        25 => words(n) + "\n",
        26 => rep(&|i| format!("line {i}\n")),
        27 => rep(&|i| format!("h{i}  \n")) + "end\n",
        28 => rep(&|i| format!("h{i}\\\n")) + "end\n",
        29 => format!("a{}b\n", "\n".repeat(n + 1)),
        30 => format!("a [{}](./u) b\n", words(n)),
        31 => format!("a [t](http://e.x/{}) b\n", "u".repeat(n)),
        32 => format!("a [t](./{} \"{}\") b\n", "u".repeat(n), words(n)),
        33 => rep(&|i| format!("> q{i}\n")),
        34 => format!("> [!NOTE]\n{}", rep(&|i| format!("> q{i}\n"))),
        35 => format!("<div>\n{}</div>\n\nx\n", rep(&|i| format!("h{i}\n"))),
        36 => format!("---\n{}---\n\nx\n", rep(&|i| format!("k{i}: v\n"))),
        37 => rep(&|i| format!("- [{}] t{i}\n", if i % 2 == 0 { 'x' } else { ' ' })),
        38 => rep(&|i| format!("T{i}\n:   d{i}\n\n")),
        39 => format!("T\n{}", rep(&|i| format!(":   d{i}\n"))),
        40 => rep(&|i| format!("## H{i}\n\n[a{i}](http://e.x/{i})\n\n")),
        41 => format!("a {}z{} b\n", "*".repeat(n.min(9)), "*".repeat(n.min(9))),
        42 => rep(&|i| format!("*e{i}* **s{i}** `c{i}` ")) + "\n",
        43 => rep(&|i| format!("\"q{i}\" it's -- x... ")) + "\n",
        44 => format!("-   a\n\n    {}\n-   b\n", words(n)),
        45 => rep(&|i| format!("a\\*{i}\\_ ")) + "\n",
        46 => rep(&|i| format!("<!-- c{i} -->\n\n")) + "x\n",
        47 => format!("{}\n\nx\n", "-".repeat(n + 2)),
        48 => format!("![{}](./i.png) {}\n", words(n), words(n)),
        49 => rep(&|i| format!("- i{i}\n\n  p{i}\n\n      code{i}\n\n")),
        _ => return None,
    })
}
