//! C04: code blocks and code spans come out exactly as they went in.
use crate::core::*;
use crate::{docs, norm, opts, tree};
use comrak::nodes::NodeValue;

#[derive(Clone, PartialEq, Debug)]
pub struct Block { pub fenced: bool, pub ch: u8, pub len: usize, pub info: String, pub literal: String, pub closed: bool }

pub fn codes(doc: &str) -> (Vec<Block>, Vec<String>) {
    norm::with_ast_raw(doc, |root| {
        let (mut b, mut s) = (vec![], vec![]);
        for n in root.descendants() {
            match &n.data.borrow().value {
                NodeValue::CodeBlock(c) => b.push(Block { fenced: c.fenced, ch: c.fence_char, len: c.fence_length, info: c.info.clone(), literal: c.literal.clone(), closed: c.closed }),
                NodeValue::Code(c) => s.push(c.literal.clone()),
                _ => {}
            }
        }
        (b, s)
    })
}

/// The longest run of `c` at the start of a line.
fn longest(code: &str, c: char) -> usize {
    code.split('\n').map(|l| { let t = l.trim_start(); t.len() - t.trim_start_matches(c).len() }).max().unwrap_or(0)
}

/// The opening fence lines of the output, without what containers put before them.
fn openers(out: &str, ch: char) -> Vec<String> {
    let mut v = vec![];
    let mut open: Option<usize> = None;
    for l in out.lines() {
        let Some(p) = l.find(&ch.to_string().repeat(3)) else { continue };
        let t = &l[p..];
        let run = t.len() - t.trim_start_matches(ch).len();
        if !l[..p].chars().all(|c| " >-*+.:[]^".contains(c) || c.is_alphanumeric() || c == ')') { continue }
        match open {
            None => { open = Some(run); v.push(t.to_string()); }
            Some(n) if t.trim_end().len() == run && run >= n => open = None,
            _ => {}
        }
    }
    v
}

/// `want`: info and contents of the blocks as they were put together.
fn blocks(r: &mut Rec, doc: &str, spec: &str, want: Option<&[(String, String)]>) {
    let (a, sa) = codes(doc);
    if let Some(w) = want {
        if w.len() != a.len() || w.iter().zip(&a).any(|(x, y)| x.1 != y.literal) { r.skipped += 1; return }
    } else if a.is_empty() { r.skipped += 1; return }
    r.case(doc, spec);
    let o = opts::make(spec);
    let f = r.fmt(doc, &o);
    r.nontrivial = true;
    r.traces += 1;
    let (b, sb) = codes(&f);
    if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.literal != y.literal) {
        r.fail("contents", &f, format!("before: {a:#?}\nafter: {b:#?}"));
        return;
    }
    if sa != sb { r.fail("spans", &f, format!("before: {sa:?}\nafter: {sb:?}")); }
    let ch = o.fence_char.as_char();
    let dl = &o.default_language;
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let info = if x.info.trim().is_empty() { dl.clone() } else { x.info.clone() };
        if y.info != info { r.fail("info", &f, format!("info {:?}, expected {info:?}", y.info)); }
        if !y.fenced { r.fail("fence", &f, format!("block {i} has no fence")); continue }
        // An info string with a backtick cannot follow a backtick fence
        if y.ch as char != ch && !info.contains('`') { r.fail("fence", &f, format!("fence character {:?}", y.ch as char)); }
        let need = o.min_fence_length.get().max(longest(&x.literal, y.ch as char) + 1);
        if y.len < need { r.fail("fence", &f, format!("fence of {} characters, {need} needed", y.len)); }
        if !y.closed { r.fail("fence", &f, format!("block {i} is not closed")); }
    }
    if let (Some(w), true) = (want, b.iter().all(|y| y.ch as char == ch)) {
        let v = openers(&f, ch);
        let e: Vec<String> = w.iter().zip(&b).map(|(w, y)| {
            let info = if w.0.trim().is_empty() { dl.as_str() } else { w.0.trim() };
            let sp = if !info.is_empty() && (o.space_after_fence || info.starts_with(ch)) { " " } else { "" };
            format!("{}{sp}{info}", ch.to_string().repeat(y.len))
        }).collect();
        if v != e { r.fail("opening", &f, format!("opening fences {v:?}, expected {e:?}")); }
    }
}

/// A fence that the content cannot close.
fn fenced(info: &str, code: &[&str], ch: char) -> Vec<String> {
    let n = code.iter().map(|l| longest(l, ch)).max().unwrap_or(0).max(2) + 1;
    let f = ch.to_string().repeat(n);
    let mut v = vec![format!("{f}{info}")];
    v.extend(code.iter().map(|s| s.to_string()));
    v.push(f);
    v
}
fn text(code: &[&str]) -> String { code.iter().map(|l| format!("{l}\n")).collect() }

/// Blocks of code inside a path of containers, whitespace in code kept.
fn inside(path: &[usize], mut lines: Vec<String>) -> String {
    for c in path.iter().rev() { lines = tree::wrap(*c, lines); }
    lines.join("\n") + "\n"
}

const CODE: &[&str] = &[
    "a", "", "`", "```", "````", "~~~", "~~~~", "~~~~~ x", "  ~~~~", "\t~~~~", "     ~~~~~~", "\"q\" -- it's...", "# H", "- x",
    "  ", "    i", "> q", "<!-- hongdown-disable -->", "\\* &amp;", "[^1]: x", "[a]: b", "| x |", "trailing  ", "x ~~~~~~ y",
    "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau", "a\tb", "***", "한글 “…”", ":   d", "\u{a0}```", "1. o", "----",
];
const INFO: &[&str] = &["", "rust", " rust", "rust  a=\"b\" -- ...", "a\\*b", "a&amp;b", "{.x #y}", "a~b", "x`y", "\tc", "hongdown-no-format", "rust hongdown-no-format", "it's \"q\"...", "[a]", "*b*", "TEXT", "한글", "-", " ~", "a\\", "a#b", "\\", "&copy;"];

/// What a code span holds, by the rules of CommonMark.
fn span(raw: &str) -> String {
    let s = raw.replace('\n', " ");
    if s.len() > 1 && s.starts_with(' ') && s.ends_with(' ') && s.trim_matches(' ') != "" { s[1..s.len() - 1].to_string() } else { s }
}

fn spans(r: &mut Rec, place: usize, before: &str, raws: &[(String, String)], between: &str, after: &str, spec: &str) {
    let inner = format!("{before}{}{after}", raws.iter().map(|(d, c)| format!("{d}{c}{d}")).collect::<Vec<_>>().join(between));
    let Some(doc) = docs::place(place, &inner) else { r.skipped += 1; return };
    let want: Vec<String> = raws.iter().map(|(_, c)| span(c)).collect();
    let (b0, have) = codes(&doc);
    if have != want || !b0.is_empty() { r.skipped += 1; return }
    r.case(&doc, spec);
    let f = r.fmt(&doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = true;
    let (b1, got) = codes(&f);
    if got != want { r.fail("span", &f, format!("{want:?} became {got:?}")); return }
    if !b1.is_empty() { r.fail("span", &f, "a code block appeared".into()); }
    // As written, too, where it was written on one line
    let mut p = 0;
    for (d, c) in raws {
        if c.contains('\n') || (docs::PLACES[place].0 == "cell" && c.contains('|')) { continue }
        let raw = format!("{d}{c}{d}");
        match f[p..].find(&raw) {
            Some(q) => p += q + raw.len(),
            None => { r.fail("spelling", &f, format!("{raw:?} is not there as written")); return }
        }
    }
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let k = CODE.len() as u64;
    let nc = tree::CONTAINERS.len();
    let sets: &'static [&'static str] = &["", "fc=` fl=3 sf=0", "fc=` sc=1 ap=1 en=- w=20", "fl=3 dl=text w=8 h1=0"];
    let paths: Vec<Vec<usize>> = (0..upto(nc as u64, 2)).map(|i| upto_digits(i, nc as u64, 2)).filter(|p| tree::allowed(p) && *p != [6, 1]).collect();
    // (an alert that begins a description is a known finding of C01)
    let paths = &paths;

    let n = 3;
    let tops: &'static [&'static [usize]] = &[&[], &[2], &[0], &[7], &[6], &[1], &[3], &[5]];
    let rx = [if q { 2 } else { tops.len() }, if q { 2 } else { 4 }, upto(k, n) as usize];
    e.run(domain("contents", "all sequences of up to 3 lines of code × fence character of the source × containers × option sets", volume(&rx) * 2, |i, r| {
        let m = mixed(i / 2, &rx);
        let c: Vec<&str> = upto_digits(m[2] as u64, k, n).into_iter().map(|x| CODE[x]).collect();
        let ch = if i % 2 == 0 { '~' } else { '`' };
        let d = inside(tops[m[0]], fenced("rs", &c, ch));
        blocks(r, &d, sets[m[1]], Some(&[("rs".into(), text(&c))]));
    }));
    let rx = [sets.len(), paths.len(), 4, upto(k, if q { 1 } else { 2 }) as usize];
    e.run(domain("containers", "all sequences of up to 1 (thorough: 2) lines of code in every nesting of up to two containers, alone or with paragraphs before and after, under four option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c: Vec<&str> = upto_digits(m[3] as u64, k, 2).into_iter().map(|x| CODE[x]).collect();
        let mut v = fenced("", &c, '~');
        if m[2] & 1 != 0 { v.insert(0, String::new()); v.insert(0, "before".into()); }
        if m[2] & 2 != 0 { v.extend(["".into(), "after".into()]); }
        blocks(r, &inside(&paths[m[1]], v), sets[m[0]], Some(&[(String::new(), text(&c))]));
    }));
    // Runs of the fence character of every length, anywhere in the line
    let rx = [2, 2, 7, 13, 6, 4, if q { 4 } else { nc + 1 }];
    e.run(domain("runs", "a run of 0 to 12 of either fence character, indented by 0 to 5 or after a tab or inside a line, × fence option × configured length 3 to 9 × containers", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (out, run) = (['~', '`'][m[0]], ['~', '`'][m[1]]);
        let rn = run.to_string().repeat(m[3]);
        let l = format!("{}{rn}", " ".repeat(m[4]));
        let (x, y, z) = match m[5] { 0 => (String::new(), l, String::new()), 1 => ("x".into(), format!("{l} info"), "y".into()), 2 => ("x".into(), format!("\t{l}"), rn.clone()), _ => (format!("x{l}"), l, format!("{rn}{run}")) };
        let c = [x.as_str(), y.as_str(), z.as_str()];
        let path: &[usize] = if m[6] == 0 { &[] } else { &[[2, 0, 4, 1, 3, 5, 6, 7][m[6] - 1]] };
        let d = inside(path, fenced("", &c, if run == '~' { '`' } else { '~' }));
        blocks(r, &d, &format!("fc={out} fl={}", m[2] + 3), Some(&[(String::new(), text(&c))]));
    }));
    let lang: &'static [&'static str] = &["", "text", "a~b"];
    let rx = [2, 2, 2, lang.len(), 2, INFO.len(), nc + 1, 2];
    e.run(domain("info", "every info string × fence options × space option × default language × containers × code", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let info = INFO[m[5]];
        let ch = ['~', '`'][m[0]];
        if ch == '`' && info.contains('`') || ch == '~' && info.starts_with('~') { r.skipped += 1; return }
        let path: &[usize] = if m[6] == 0 { &[] } else { &[m[6] - 1] };
        let c: &[&str] = [&["x ... \"y\""][..], &["", "    a", ""][..]][m[7]];
        let mut spec = format!("fc={} fl={} sf={}", ['~', '`'][m[1]], [3, 4][m[2]], m[4]);
        if !lang[m[3]].is_empty() { spec += &format!(" dl={}", lang[m[3]]); }
        blocks(r, &inside(path, fenced(info, c, ch)), &spec, Some(&[(info.into(), text(c))]));
    }));
    // Indented code becomes a fenced block with the same contents
    let n = if q { 2 } else { 3 };
    let rx = [if q { 4 } else { tops.len() }, 3, upto(k, n) as usize];
    e.run(domain("indented", "all sequences of up to 2 (thorough: 3) lines of indented code × containers × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c: Vec<&str> = upto_digits(m[2] as u64, k, n).into_iter().map(|x| CODE[x]).collect();
        if c.is_empty() || c[0].trim().is_empty() || c[c.len() - 1].trim().is_empty() { r.skipped += 1; return }
        let mut v: Vec<String> = vec!["before".into(), String::new()];
        v.extend(c.iter().map(|l| if l.is_empty() { String::new() } else { format!("    {l}") }));
        v.extend([String::new(), "after".into()]);
        blocks(r, &inside(tops[m[0]], v), sets[m[1]], Some(&[(String::new(), text(&c))]));
    }));
    // Fences as they may be written: indented, unclosed, closed by a longer one
    let open: &'static [&'static str] = &["~~~", "```", " ~~~~", "  ```", "   ~~~~~ x", "~~~ a", "```` b c"];
    let close: &'static [&'static str] = &["~~~", "```", " ~~~~~~  ", "   ``````", "", "~~~ x", "    ~~~", "``"];
    let rx = [2, nc + 1, open.len(), close.len(), if q { 8 } else { k as usize }, close.len(), 2];
    e.run(domain("fences", "every opening line × two candidate closing lines with code between, something after it or the end of the file, × containers", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let mut v = vec![open[m[2]].to_string(), CODE[(m[4] * if q { 3 } else { 1 }) % CODE.len()].into(), close[m[3]].into(), " b".into(), close[m[5]].into()];
        if m[6] == 1 { v.extend(["".into(), "after `c`".into()]); }
        let path: &[usize] = if m[1] == 0 { &[] } else { &[m[1] - 1] };
        blocks(r, &inside(path, v), sets[m[0]], None);
    }));
    // Several blocks
    let some: &'static [&'static str] = &["~~~\na\n~~~", "```rs\n~~~~~\n```", "    ind", "~~~~~ x\n```\n~~~~~", "- l\n\n      ind", "para `c  d`", "> ~~~\n> q\n> ~~~", "~~~\n~~~", "1. ```\n   o\n   ```"];
    let rx = [sets.len(), 2, some.len(), some.len(), some.len()];
    e.run(domain("several", "every triple of blocks with code × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        blocks(r, &(m[2..].iter().map(|x| some[*x]).collect::<Vec<_>>().join(if m[1] == 0 { "\n\n" } else { "\n" }) + "\n"), sets[m[0]], None);
    }));
    // Spans
    let atoms: &'static [&'static str] = &["a", " ", "`", "\"", "'", ".", "-", "\\", "*", "\n", "|", "_", "<", "[", "]", "&lt;", "한"];
    let k = atoms.len() as u64;
    let n = if q { 3 } else { 4 };
    let delims: &'static [&'static str] = &["`", "``", "```"];
    let specs: &'static [&'static str] = &["", "ap=1 en=- em=-- sc=1 w=8"];
    let rx = [specs.len(), docs::PLACES.len(), delims.len(), upto(k, n) as usize];
    e.run(domain("spans", "all code spans of up to 3 (thorough: 4) characters × delimiter length × places × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c: String = upto_digits(m[3] as u64, k, n).into_iter().map(|x| atoms[x]).collect();
        let d = delims[m[2]];
        spans(r, m[1], "x ", &[(d.into(), c)], "", " y", specs[m[0]]);
    }));
    let kinds: &'static [(&'static str, &'static str)] = &[("`", "a  b"), ("``", " ` "), ("`", "\"q\" -- it's..."), ("`", "  "), ("```", "``x``"), ("`", "Word Case"), ("`", "a\nb"), ("`", "alpha beta gamma delta"), ("`", "\\"), ("`", "*x*"), ("`", " y "), ("``", "`")];
    let around: &'static [&'static str] = &[" ", "\"", "'", "*", "", "... ", " -- ", "\n", "가", "(", "[", "\\*"];
    let specs: &'static [&'static str] = &["", "ap=1 en=- sc=1 w=8", "sc=1 w=16 plain=1", "w=20"];
    let rx = [specs.len(), docs::PLACES.len(), if q { 7 } else { kinds.len() }, kinds.len(), around.len(), around.len()];
    e.run(domain("span-pairs", "every pair of code spans × what stands before, between and after them × places × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let p = |x: usize| (kinds[x].0.to_string(), kinds[x].1.to_string());
        let (a, b) = (around[m[4]], around[m[5]]);
        spans(r, m[1], &format!("Words here {a}"), &[p(m[2]), p(m[3])], b, a, specs[m[0]]);
    }));
    // Every character
    let cs = &characters(q);
    let rx = [3, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, at the start, in and at the end of lines of code, and in code spans", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c = cs[m[1]];
        match m[0] {
            0 => { let code = [format!("{c}"), format!("x{c}y{c}"), format!("{c} z"), format!(" {c}")]; let v: Vec<&str> = code.iter().map(|s| s.as_str()).collect(); blocks(r, &inside(&[], fenced("t", &v, if c == '~' { '`' } else { '~' })), "", Some(&[("t".into(), text(&v))])) }
            1 => blocks(r, &format!("- i\n\n~~~~~ t{c}u\nx{c}\n~~~~~\n"), "fc=~ fl=3", Some(&[(format!("t{c}u"), format!("x{c}\n"))])),
            _ => spans(r, 0, "x ", &[("``".into(), format!("a{c}b")), ("``".into(), format!("{c}d")), ("``".into(), format!("d{c}"))], " y ", " z", "w=20"),
        }
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 9, 3];
    e.run(domain("sizes", "one quantity at a time (lines of code, lengths of runs of the fence characters, of info strings, of lines and of code spans) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (n, spec) = (ns[m[0]], ["", "fc=` fl=3 sf=0 w=20", "fl=9"][m[2]]);
        let line = |i: usize| format!("{}l{i} \"q\"...", ["", "  ", "\t", "    "][i % 4]);
        let rep = |c: &str| c.repeat(n);
        let (info, code, ch): (String, Vec<String>, char) = match m[1] {
            0 => ("rs".into(), (0..n).map(line).collect(), '~'),
            1 => ("".into(), vec!["x".into(), rep("~")], '`'),
            2 => ("".into(), vec![rep("`"), "x".into()], '~'),
            3 => (rep("i"), vec!["x".into()], '~'),
            4 => ("".into(), vec!["a".into(), rep("w ").trim_end().into()], '`'),
            5 => ("".into(), (0..n).map(|_| String::new()).chain(["x".into()]).collect(), '~'),
            6 => ("x".into(), ["a".to_string()].into_iter().chain((0..n).map(|_| String::new())).collect(), '~'),
            7 => {
                let c = rep("`");
                return spans(r, 0, "x ", &[(format!("{c}`"), format!(" {c} "))], "", " y", spec);
            }
            _ => return spans(r, 0, "x ", &(0..n).map(|i| ("`".to_string(), format!("c  {i}"))).collect::<Vec<_>>(), " z ", " y", spec),
        };
        let c: Vec<&str> = code.iter().map(|s| s.as_str()).collect();
        let place: &[usize] = [&[][..], &[2]][n & 1];
        blocks(r, &inside(place, fenced(&info, &c, ch)), spec, Some(&[(info.clone(), text(&c))]));
    }));
}
