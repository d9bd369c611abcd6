//! C03: formatting is total, deterministic and leaves clean output.
use crate::core::*;
use crate::{docs, opts};

const ALPHA: &[&str] = &[
    "a", " ", "\n", "\t", "\r", "\0", "*", "_", "`", "~", "[", "]", "(", ")", "<", ">", "!", "\\", "|", "#", "-", "+", "=", "1", ".", ":", "^", "&", ";", "\"", "'", "한", "\u{301}", "\u{1}", "/", "{", "\u{a0}", "\u{2028}", "\u{b}", "$", "@",
];

pub fn clean(doc: &str, f: &str) -> Option<String> {
    if !f.is_empty() && !f.ends_with('\n') { return Some("no newline at the end".into()); }
    if f.ends_with("\n\n") { return Some("blank line at the end".into()); }
    if f == "\n" { return Some("only a newline".into()); }
    if f.starts_with('\n') { return Some("blank line at the start".into()); }
    if !doc.contains('\r') && f.contains('\r') { return Some("carriage return out of nowhere".into()); }
    for c in f.chars().filter(|c| c.is_control() && !matches!(c, '\n' | '\r' | '\t')) {
        if c == '\0' || !doc.contains(c) { return Some(format!("internal marker {c:?}")); }
    }
    None
}

pub fn one(r: &mut Rec, doc: &str, spec: &str) {
    r.case(doc, spec);
    let o = opts::make(spec);
    let f = r.fmt(doc, &o);
    r.nontrivial = f != doc;
    let w = hongdown::format_with_warnings(doc, &o).expect("a result");
    let w2 = hongdown::format_with_warnings(doc, &o).expect("a result");
    r.calls += 2;
    r.traces += 1;
    let lines = |w: &hongdown::FormatResult| w.warnings.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join("\n");
    if w.output != f || w2.output != f { r.fail("deterministic", &f, format!("second: {:?}\nthird: {:?}", w.output, w2.output)); }
    if lines(&w) != lines(&w2) { r.fail("warnings", &lines(&w), lines(&w2)); }
    if doc.contains("hongdown-disable") { return; }
    if let Some(why) = clean(doc, &f) { r.fail("clean", &f, why); }
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let k = ALPHA.len() as u64;
    e.run(domain("strings", "all strings of up to 3 (thorough: 4) characters from the alphabet of all special characters", upto(k, if q { 3 } else { 4 }), |i, r| {
        let s: String = upto_digits(i, k, if q { 3 } else { 4 }).into_iter().map(|x| ALPHA[x]).collect();
        one(r, &s, "");
    }));
    // Every character
    let cs = &characters(q);
    let slots: &'static [&'static str] = &["%", "%a", "a%", "a %", "a%b\n%\nc%", "a\n\n%\n\nb", "- %", "> %", "# %", "[%]", "[%]: /u\n\n[%]", "[^%]: a\n\n[^%]", "| % |\n|---|\n| %a |", "`%", "```%\n%\n```", "<%>", "&%;", "\\%", "\"%\" '%' %'s %... -- %"];
    let rx = [slots.len(), cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others in every part of the syntax", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (s, c) = (slots[m[0]], cs[m[1]]);
        if q && m[0] > 4 && (m[0] + m[1]) % 4 > 0 { r.skipped += 1; return }
        one(r, &s.replace('%', &c.to_string()), ["", "w=8 sc=1", "plain=1"][m[1] % 3]);
    }));
    let core: &'static [&'static str] = &["a", " ", "\n", "\t", "\r", "\0", "*", "`", "[", "]", "<", ">", "-", ":", "|", "#", "1.", "한"];
    let k = core.len() as u64;
    let n = if q { 4 } else { 5 };
    e.run(domain("strings-long", "all strings of 4 (thorough: 5) characters from the smaller alphabet, followed by a letter or nothing", k.pow(n as u32) * 2, |i, r| {
        let s: String = digits(i / 2, k, n).into_iter().map(|x| core[x]).collect();
        one(r, &if i % 2 == 0 { s } else { s + "a\n" }, "");
    }));
    let lines: &'static [&'static str] = &[
        "a", "", " ", "\ta", "    \t", "- ", "-\ta", "1.", ">", ">\t", "> -", "***", "---", "===", "|", "| a |", "|-|", "[a]: <>", "[a]:", "[^a]:", "[^a]: b", "[^a]", "~~~", "```", "<!--", "-->", "<div>", "<script>", "&#0;", ":", ":   d", "> [!NOTE]", "#", "# #", "\\", "a\\", "a  ", "*[a]: b", "[]", "![]()", "\u{feff}a", "- [ ]", "a\r", "\r", "\0", "<?php", "<![CDATA[", "+++", "{#a}", "<!-- hongdown-enable -->",
    ];
    let k = lines.len() as u64;
    let n = if q { 3 } else { 4 };
    e.run(domain("lines", "all sequences of up to 3 (thorough: 4) lines, whole and broken blocks of all kinds", upto(k, n), |i, r| {
        let s: Vec<&str> = upto_digits(i, k, n).into_iter().map(|x| lines[x]).collect();
        one(r, &s.join("\n"), "");
    }));
    // Extreme options on every shared document line
    let ext: &'static [&'static str] = &[
        "w=8", "w=8 ls=3 ts=3", "w=10000", "ls=0 ts=0", "ls=3 ts=3", "iw=1 oiw=1", "iw=1000 oiw=1000", "fl=3 fc=`", "fl=200", "tb=*** tbl=0", "tb=-·-·- tbl=3", "dl=a·b`c", "dl=~", "en=- em=--", "en=a em=b", "em=-", "pad=end odd=) even=)", "sc=1 pn=,a cn=A", "plain=1 ap=1", "h1=0 h2=0",
    ];
    let l = docs::LINES.len();
    let rx = [ext.len(), l, l];
    e.run(domain("options", "every pair of lines under options at the ends of their ranges", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        one(r, &format!("{}\n\n{}\n", docs::LINES[m[1]], docs::LINES[m[2]]), ext[m[0]]);
    }));
    // Order of formatting, and hashing: nothing may depend on what came before
    let pool: Vec<String> = [
        "", "a\n", "# H\n\n[a](http://1/) [b](http://2/) [c](http://3/) [d](http://4/)\n", "[x] [y] [z] [w]\n\n[v]\n", "<!-- hongdown-proper-nouns: Foo -->\n\n# A foo\n", "# a Foo Bar\n",
        "a[^1] b[^2] c[^3]\n\n[^3]: n [q](http://q/)\n[^1]: m\n[^2]: o [r](http://r/)\n", "<!-- hongdown-disable -->\n\n*  a\n", "<!-- hongdown-disable-file -->\n\n*  a\n", "- a\n  - b\n\n1. c\n   1. d\n", "~~~ text\ncode\n~~~\n", "| a |\n|-|\n| b | c |\n| d |\n\n[u] [t]\n",
        "[a] [A][a] [b][a]\n\nX\n--\n\n[a](http://2/)\n\n[a]: http://1/\n", "> [!NOTE]\n> [n]\n", "---\na: b\n---\n\n'q' -- ...\n",
    ].iter().map(|s| s.to_string()).collect();
    let base: Vec<String> = pool.iter().map(|d| fresh(d)).collect();
    let n = if q { 3 } else { 4 };
    let p = pool.len() as u64;
    e.run(domain("order", "every order of 3 (thorough: 4) documents of a pool formatted one after the other in one process, against each formatted in a process of its own", p.pow(n as u32), |i, r| {
        let ix = digits(i, p, n);
        r.case(&ix.iter().map(|x| pool[*x].as_str()).collect::<Vec<_>>().join("\u{1e}"), "sc=1");
        let o = opts::make("sc=1");
        r.nontrivial = true;
        for x in &ix {
            let w = hongdown::format_with_warnings(&pool[*x], &o).expect("a result");
            r.calls += 1;
            r.traces += 1;
            let got = show(&w);
            if got != base[*x] { r.fail("order", &got, format!("formatted alone:\n{}", base[*x])); }
        }
    }));
    // Many equal calls: random hash seeds must not show
    e.run(domain("repeat", "every document of the pool formatted 200 times", p, |i, r| {
        r.case(&pool[i as usize], "sc=1");
        let o = opts::make("sc=1");
        for _ in 0..200 {
            let got = show(&hongdown::format_with_warnings(&pool[i as usize], &o).expect("a result"));
            r.calls += 1;
            if got != base[i as usize] { r.fail("repeat", &got, base[i as usize].clone()); return; }
        }
        r.traces += 1;
    }));
    // Names that overlap: the lists are sets, and their order in memory must not show
    let names: &'static [&'static str] = &["Alpha·Beta", "Beta·Gamma", "Gamma·Alpha", "ALPHA·Beta", "Beta·GAMMA", "Alpha", "Beta", "bETA", "Alpha·Beta·Gamma", "Alpha-Beta", "Beta-Gamma", "A·B", "B·C", "GitHub·Beta", "Beta·Github"];
    let heads: &'static [&'static str] = &["The alpha beta gamma", "Alpha beta gamma alpha beta", "The alpha-beta-gamma beta", "A b c a b", "The github beta github", "The Alpha `Beta` gamma *beta gamma* alpha"];
    let k = if q { 9 } else { names.len() };
    let rn = [heads.len(), 3, k, k, k];
    e.run(domain("names", "headings under all triples of nine (thorough: fifteen) names that overlap or differ in case, given as proper or common nouns by options and directives, formatted twelve times", volume(&rn), |i, r| {
        let m = mixed(i, &rn);
        let v = [names[m[2]], names[m[3]], names[m[4]]];
        let (spec, pre) = match m[1] {
            0 => (format!("sc=1 pn={}", v.join(",")), String::new()),
            1 => (format!("sc=1 pn={} cn={}", v[..2].join(","), v[2]), String::new()),
            _ => (format!("sc=1 pn={}", v[0]), format!("<!-- hongdown-proper-nouns: {} -->\n\n<!-- hongdown-common-nouns: {} -->\n\n", v[1].replace('·', " "), v[2].replace('·', " "))),
        };
        let doc = format!("{pre}# {}\n", heads[m[0]]);
        one(r, &doc, &spec);
        let o = opts::make(&spec);
        let f = r.fmt(&doc, &o);
        for _ in 0..8 {
            let g = r.fmt(&doc, &o);
            if g != f { r.fail("names", &f, format!("another time: {g:?}")); return; }
        }
    }));
    // Growth: long runs of every construct end in time
    let units: &'static [&'static str] = &[
        ">", "> ", "[", "]", "*", "*a ", "**a *b ", "_a ", "`", "` `` ", "[a](http://x/)\n", "[a](http://x/%) ", "[a%][b%] ", "[a%] ", "[^%] ", "[^%]: n\n", "## H%\n\nt\n\n", "# W ", "word ", "word\n", "word\n\n", "| x | y |\n", "a | ", "<div>\n", "![", "&", "\\", "t\n:   d\n\n", "~~~\na\n~~~\n\n", "\"a ", "'a ", "'", ".", "-a-", "<a ", "[a](", "![a](http://x/)\n", "a", "한", "- [ ] a\n", "- a\n\n", "a  \n", "> [!NOTE]\n> a\n\n", "a\r\n", "[a%]: http://x/%\n", "- ", "1. ", "<!-- hongdown-disable-next-line -->\n*  a\n\n", "*a **b ", "~", "<", "(", "\t", "\n", "\0", "&amp;", "http://a.b/ ", "*[a%]: b\n", "- a\n  - b\n",
    ];
    let sizes: &'static [usize] = if q { &[50, 700] } else { &[50, 700, 3000] };
    let rg = [units.len(), sizes.len(), 3];
    e.run(domain("growth", "every construct repeated 50 and 700 (thorough: 3000) times, plain, closed again, and after a heading", volume(&rg), |i, r| {
        let m = mixed(i, &rg);
        let u = units[m[0]];
        let n = if u.starts_with(['>', '-', '1']) && !u.ends_with('\n') { sizes[m[1]].min(700) } else { sizes[m[1]] };
        let mut s = String::new();
        for x in 0..n { s.push_str(&u.replace('%', &x.to_string())); }
        match m[2] { 1 => s.push_str(&["]", ")", "*", "`", "\"", "'", ">"].map(|c| c.repeat(n)).concat()), 2 => s = format!("| a | b |\n| - | - |\n{s}\n\n# H\n\n{s}\n"), _ => {} }
        let spec = if m[2] == 2 { "sc=1" } else { "" };
        r.case(&format!("{n} times {u:?}, form {}", m[2]), spec);
        let o = opts::make(spec);
        let t = std::time::Instant::now();
        let f = r.fmt(&s, &o);
        let d = t.elapsed();
        r.traces += 1;
        if d.as_secs() > 20 { r.fail("slow", "", format!("took {d:?} for {} bytes", s.len())); }
        if !s.contains("hongdown-disable") && let Some(why) = clean(&s, &f) { r.fail("clean", &f, why); }
    }));
    // Depth: nesting must not exhaust the stack of the command's threads (a process of its own)
    let nest: &'static [&'static str] = &[">", "> ", "- ", "1. ", "*a **b ", "[", "![", "> [!NOTE]\n"];
    let depths: &'static [usize] = &[10, 100, 1000, 12000];
    let rn = [nest.len(), depths.len()];
    let mut d = domain("depth", "every nesting construct 10, 100, 1000 and 12000 levels deep, formatted in a process with the usual 8 MiB stack", volume(&rn), |i, r| {
        let m = mixed(i, &rn);
        let n = depths[m[1]];
        let s = if nest[m[0]].contains('\n') { (0..n.min(300)).map(|x| "> ".repeat(x + 1) + "[!NOTE]\n").collect() } else { nest[m[0]].repeat(n) } + "a" + match nest[m[0]] { "[" => "](u)", "![" => "](u)", "*a **b " => "** *", _ => "" }.repeat(n).as_str() + "\n";
        r.case(&format!("{n} times {:?}", nest[m[0]]), "");
        r.calls += 1;
        r.traces += 1;
        let out = child(&s, "");
        if out.is_none() { r.fail("depth", "the process died", format!("{n} levels of {:?}", nest[m[0]])); }
    });
    d.threads = 4;
    e.run(d);
}

fn show(w: &hongdown::FormatResult) -> String {
    format!("{}\u{1d}{}", w.output, w.warnings.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join("\n"))
}

/// Format in a process of its own.
fn fresh(doc: &str) -> String {
    child(doc, "sc=1").expect("a fresh process")
}

fn child(doc: &str, spec: &str) -> Option<String> {
    use std::io::{Read, Write};
    use std::process::*;
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["warn", spec]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let doc = doc.to_string();
    let w = std::thread::spawn(move || { let _ = i.write_all(doc.as_bytes()); });
    let mut s = String::new();
    c.stdout.take()?.read_to_string(&mut s).ok()?;
    let _ = w.join();
    c.wait().ok()?.success().then_some(s)
}

/// `hdmc warn SPEC`: the other side of `child`.
pub fn serve(spec: &str) {
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    print!("{}", show(&hongdown::format_with_warnings(&s, &opts::make(spec)).unwrap()));
}
