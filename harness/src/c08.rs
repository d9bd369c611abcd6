//! C08: prose is wrapped between words, within the line width.
//!
//! A paragraph is put together from units that must stay in one piece; the reference
//! model knows what each unit looks like in the output and how wide it is, and follows
//! the output unit by unit.
use crate::core::*;
use crate::opts;

/// A place for a paragraph: lines before it, what its first and further lines start with,
/// the same in the output, and how many columns of the first line are not counted.
struct Ctx {
    name: &'static str,
    pre: &'static str,
    first: &'static str,
    cont: &'static str,
    opre: &'static str,
    ofirst: &'static str,
    ocont: &'static str,
    free: usize,
}

const fn ctx(name: &'static str, pre: &'static str, first: &'static str, cont: &'static str, opre: &'static str, ofirst: &'static str, ocont: &'static str, free: usize) -> Ctx {
    Ctx { name, pre, first, cont, opre, ofirst, ocont, free }
}

const CTX: &[Ctx] = &[
    ctx("paragraph", "", "", "", "", "", "", 0),
    ctx("quote", "", "> ", "> ", "", "> ", "> ", 0),
    ctx("item", "", "- ", "  ", "", " -  ", "    ", 4),
    ctx("second paragraph of an item", "- x\n\n", "  ", "  ", " -  x\n\n", "    ", "    ", 0),
    ctx("ordered item", "", "7. ", "   ", "", "7.  ", "    ", 4),
    ctx("footnote", "a[^n]\n\n", "[^n]: ", "    ", "a[^n]\n\n", "[^n]: ", "      ", 0),
    ctx("description", "t\n", ":   ", "    ", "t\n", ":   ", "    ", 0),
    ctx("nested item", "- x\n", "  - ", "    ", " -  x\n", "     -  ", "        ", 8),
    ctx("quoted item", "", "> - ", ">   ", "", ">  -  ", ">     ", 4),
    ctx("second paragraph of a footnote", "a[^n]\n\n[^n]: b\n\n", "    ", "    ", "a[^n]\n\n[^n]: b\n\n", "      ", "      ", 0),
    ctx("alert", "> [!TIP]\n", "> ", "> ", "> [!TIP]\n", "> ", "> ", 0),
    ctx("task", "", "- [ ] ", "  ", "", " -  [ ] ", "    ", 8),
    ctx("second paragraph of a description", "t\n: b\n\n", "  ", "  ", "t\n:   b\n\n", "    ", "    ", 0),
    ctx("quote in an item", "- x\n\n", "  > ", "  > ", " -  x\n\n", "    > ", "    > ", 0),
    ctx("nested quote", "> a\n>\n", "> > ", "> > ", "> a\n>\n", "> > ", "> > ", 0),
    ctx("quote in a footnote", "a[^n]\n\n[^n]: b\n\n", "    > ", "    > ", "a[^n]\n\n[^n]: b\n\n", "      > ", "      > ", 0),
    ctx("ordered item in an item", "- x\n", "  1. ", "     ", " -  x\n", "    1)  ", "        ", 8),
    ctx("second paragraph of a nested item", "- x\n  - y\n\n", "    ", "    ", " -  x\n     -  y\n\n", "        ", "        ", 0),
    ctx("item in a footnote", "a[^n]\n\n[^n]: b\n\n", "    - ", "      ", "a[^n]\n\n[^n]: b\n\n", "       -  ", "          ", 4),
];

/// Display width.
fn width(s: &str) -> usize { unicode_width::UnicodeWidthStr::width(s) }

/// A unit as written and as it comes out; `risky` ones may be escaped in the output.
#[derive(Clone)]
struct Unit { src: String, out: String, risky: bool }
fn u(s: &str) -> Unit { Unit { src: s.into(), out: s.into(), risky: false } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sep { Space, Double, Soft, Hard, Slash }
use Sep::*;

/// Take `unit` from the start of `line`: what is left of the line.
fn take<'a>(line: &'a str, unit: &Unit) -> Option<&'a str> {
    if let Some(r) = line.strip_prefix(unit.out.as_str()) { return Some(r) }
    if !unit.risky { return None }
    let l = unit.out.len();
    (0..=l).filter(|i| unit.out.is_char_boundary(*i)).find_map(|i| line.strip_prefix(format!("{}\\{}", &unit.out[..i], &unit.out[i..]).as_str()))
}

fn check(r: &mut Rec, c: &Ctx, units: &[Unit], seps: &[Sep], w: usize) {
    let mut doc = format!("{}{}", c.pre, c.first);
    for (i, x) in units.iter().enumerate() {
        if i > 0 {
            match seps[i - 1] {
                Space => doc.push(' '),
                Double => doc.push_str("  "),
                s => { doc.push_str(match s { Soft => "\n", Hard => "  \n", _ => "\\\n" }); doc.push_str(c.cont); if x.risky { r.skipped += 1; return } }
            }
        }
        doc.push_str(&x.src);
    }
    doc.push('\n');
    // The only paragraph of a footnote is filled as a whole
    let seps: Vec<Sep> = seps.iter().map(|s| if c.name == "footnote" && *s == Soft { Space } else { *s }).collect();
    let seps = &seps[..];
    let spec = format!("plain=1 w={w}");
    r.case(&doc, &spec);
    let f = r.fmt(&doc, &opts::make(&spec));
    r.traces += 1;
    if let Err(e) = follow(c, units, seps, w, &f) { r.fail("wrap", &f, format!("{e}, in {}", c.name)); }
    r.nontrivial = f != doc;
}

fn follow(c: &Ctx, units: &[Unit], seps: &[Sep], w: usize, f: &str) -> Result<(), String> {
    let body = f.strip_prefix(c.opre).ok_or(format!("does not start with {:?}", c.opre))?;
    let mut lines = body.split('\n');
    let mut first = true;
    // The next line, without what it starts with, and the columns there are for it
    let mut next = || -> Result<(&str, usize), String> {
        let l = lines.next().ok_or("lines are missing")?;
        let (p, free) = if first { (c.ofirst, c.free) } else { (c.ocont, 0) };
        first = false;
        let t = l.strip_prefix(p).ok_or(format!("{l:?} does not start with {p:?}"))?;
        Ok((t, (w + free).saturating_sub(width(p))))
    };
    let n = units.len();
    let hard = |i: usize| i < seps.len() && matches!(seps[i], Hard | Slash);
    let mut i = 0;
    while i < n {
        // One source line that fits stays; from the first that does not, the rest of the
        // segment is filled anew
        let mut end = i;
        while end + 1 < n && !matches!(seps[end], Soft | Hard | Slash) { end += 1 }
        let mut text = units[i].out.clone();
        for j in i + 1..=end { text += if seps[j - 1] == Double { "  " } else { " " }; text += &units[j].out; }
        let (l, room) = next()?;
        let ends = |l: &str, i: usize| -> Result<(), String> { if l == if hard(i) { "  " } else { "" } { Ok(()) } else { Err(format!("{l:?} left at the end of a line")) } };
        if width(&text) <= room {
            let mut rest = l;
            for j in i..=end {
                if j > i { rest = rest.strip_prefix(if seps[j - 1] == Double { "  " } else { " " }).ok_or(format!("{l:?} is not the line {text:?}, which fits in {room}"))?; }
                rest = take(rest, &units[j]).ok_or(format!("{l:?} is not the line {text:?}, which fits in {room}"))?;
            }
            ends(rest, end)?;
            i = end + 1;
            continue;
        }
        while end + 1 < n && !hard(end) { end += 1 }
        let (mut l, mut room) = (l, room);
        loop {
            let start = i;
            let mut rest = take(l, &units[i]).ok_or(format!("{l:?} does not start with {:?}", units[i].out))?;
            while i < end {
                // After the last unit of the line nothing is left
                if rest.is_empty() { break }
                let sp = if seps[i] == Double { rest.strip_prefix("  ").or_else(|| rest.strip_prefix(' ')) } else { rest.strip_prefix(' ') };
                i += 1;
                rest = sp.and_then(|s| take(s, &units[i])).ok_or(format!("{:?} expected at {rest:?} in {l:?}", units[i].out))?;
            }
            let used = width(l) - width(rest);
            if i == end { ends(rest, end)? }
            if used > room && i > start { return Err(format!("{l:?} takes {used} columns of {room}, with more than one unit")); }
            if i == end { i += 1; break }
            // One space is counted after each word that is not the last
            let with = used + 1 + width(&units[i + 1].out) + 1;
            if with + 1 < room && !units[i + 1].risky { return Err(format!("{:?} would have fitted after {l:?} (in {room} columns)", units[i + 1].out)); }
            i += 1;
            (l, room) = next()?;
        }
    }
    match next().map(|l| l.0) { Ok(l) if !l.is_empty() && lines_left(f) => Err(format!("{l:?} follows")), _ => Ok(()) }
}

fn lines_left(f: &str) -> bool { !f.contains("]: http") }

pub fn run(e: &Engine) {
    let q = e.quick();
    let mk = |s: &str, o: &str| Unit { src: s.into(), out: o.into(), risky: false };
    let pool: Vec<Vec<Unit>> = vec![
        vec![u("aaaa")], vec![u("b")], vec![u("ccccccc")], vec![u("한국")], vec![u("e\u{301}e\u{301}x")], vec![u("`a b`")], vec![u("[l k](./u)")],
        vec![mk("[q w](http://u/)", "[q w]")], vec![u("*dd"), u("ee*")], vec![u("![i j](./i)")], vec![u("😀,")], vec![u("``a ` b``.")],
        vec![u("**f**g")], vec![u("[t](./u \"v w\")")], vec![mk("[z](<./u v>)", "[z](<./u v>)")], vec![u("x`c d`y")], vec![u("ab\\*")], vec![u("(한글)")], vec![u("<http://a/>")], vec![u("x<b>y</b>")],
    ];
    let pool = &pool;
    let np = if q { 14 } else { pool.len() } as u64;
    let (k, ws): (usize, &'static [usize]) = if q { (3, &[8, 13, 17, 20]) } else { (4, &[8, 11, 13, 17, 20, 23]) };
    let nc = CTX.len();
    e.run(domain("units", "every sequence of 3 (thorough: 4) units of all kinds (narrow, wide, combining, code, links, images, emphasis, escapes) after a word × context × width", volume(&[nc, ws.len()]) * np.pow(k as u32), |i, r| {
        let m = mixed(i, &[nc, ws.len(), np.pow(k as u32) as usize]);
        let mut us = vec![u("st")];
        for x in digits(m[2] as u64, np, k) { us.extend(pool[x].clone()); }
        let seps = vec![Space; us.len() - 1];
        check(r, &CTX[m[0]], &us, &seps, ws[m[1]]);
    }));
    let (len, words) = if q { (5usize, 5usize) } else { (6, 6) };
    let cs = if q { 12 } else { nc };
    e.run(domain("lengths", "every sequence of 5 (thorough: 6) words of length 1 to 5 (6) × width 8 to 16 × context", volume(&[cs, 9]) * (len as u64).pow(words as u32), |i, r| {
        let m = mixed(i, &[cs, 9, len.pow(words as u32)]);
        let us: Vec<Unit> = digits(m[2] as u64, len as u64, words).iter().enumerate().map(|(j, x)| u(&((b'a' + j as u8) as char).to_string().repeat(x + 1))).collect();
        check(r, &CTX[m[0]], &us, &vec![Space; words - 1], 8 + m[1]);
    }));
    let kinds = [Space, Double, Soft, Hard, Slash];
    let pats: &'static [&'static [&'static str]] = &[&["aa", "bbb", "cc", "dddd", "e", "ff"], &["aaaa", "b", "한국", "`c c`", "dd", "eeeee"], &["aaa", "bbb", "ccc", "ddd", "eee", "fff"], &["aaaaaaaaaaaaaa", "b", "cccccc", "d", "eeeeeeeeeeee", "f"]];
    let ws: &'static [usize] = if q { &[8, 11, 14, 18] } else { &[8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 21, 24] };
    e.run(domain("separators", "every sequence of 5 separators (space, two spaces, line break, both hard breaks) between six words × width × context", volume(&[nc, ws.len(), pats.len(), 3125]), |i, r| {
        let m = mixed(i, &[nc, ws.len(), pats.len(), 3125]);
        let us: Vec<Unit> = pats[m[2]].iter().map(|s| u(s)).collect();
        let seps: Vec<Sep> = digits(m[3] as u64, 5, 5).into_iter().map(|x| kinds[x]).collect();
        check(r, &CTX[m[0]], &us, &seps, ws[m[1]]);
    }));
    let big: &'static [usize] = if q { &[40, 80] } else { &[30, 40, 60, 72, 80, 100, 120, 200] };
    let np2 = pool.len();
    e.run(domain("margin", "a long line × every remainder from 0 to 14 columns × every pair of units × common widths × context", volume(&[nc, big.len(), 15, np2, np2]), |i, r| {
        let m = mixed(i, &[nc, big.len(), 15, np2, np2]);
        let room = big[m[1]] + CTX[m[0]].free - width(CTX[m[0]].ofirst) - m[2];
        let mut us = vec![];
        let mut left = room;
        while left > 6 { us.push(u("word")); left -= 5; }
        us.push(u(&"z".repeat(left)));
        us.retain(|x| !x.out.is_empty());
        us.extend(pool[m[3]].clone());
        us.extend(pool[m[4]].clone());
        us.push(u("end"));
        let seps = vec![Space; us.len() - 1];
        check(r, &CTX[m[0]], &us, &seps, big[m[1]]);
    }));
    let risky: &'static [&'static str] = &["-", "+", "#", "##", "1.", "1)", "23.", ">", "---", "=", "===", "*", "~~~", "|", ":", "[^1]:", "[x]:", "~", "aa", "b"];
    let nr = risky.len();
    let cs = if q { 8 } else { nc };
    e.run(domain("markers", "every triple of words that would be markup at the start of a line × lengths of the words before × width × context", volume(&[cs, 2, 6, nr, nr, nr]), |i, r| {
        let m = mixed(i, &[cs, 2, 6, nr, nr, nr]);
        let x = |s: &str| if ["aa", "b"].contains(&s) { u(s) } else { let s2 = match s { "*" | "|" => format!("\\{s}"), _ => s.to_string() }; Unit { src: s2.clone(), out: s2, risky: true } };
        let mut us = vec![u("k"), u(&"y".repeat(m[2] + 1))];
        us.extend([m[3], m[4], m[5]].iter().map(|j| x(risky[*j])));
        us.push(u("end"));
        check(r, &CTX[m[0]], &us, &vec![Space; us.len() - 1], [9, 12][m[1]]);
    }));
    // What a paragraph begins with
    let firsts: Vec<Vec<Unit>> = pool.iter().cloned().chain(vec![
        vec![u("*[g h](./u)*")], vec![u("**[g](./u)**"), u("h")], vec![u("*[g](./u)*"), u("h:")], vec![mk("*[g h](http://u/)*", "*[g h]*")], vec![u("[g h](./u):")], vec![u("*g*:")],
        vec![u("\\*[g](./u):")], vec![u("![g](./u):")], vec![u("-g")], vec![u("1.g")], vec![u("#g")], vec![u(".")], vec![u("(g)")], vec![u("<b>g</b>")], vec![u("`g`:")], vec![u("g:")], vec![u("\"g")], vec![u("&amp;")], vec![u("\\#"), u("g")],
    ]).collect();
    let firsts = &firsts;
    let rf = [nc, firsts.len(), 3, 2, 20];
    e.run(domain("first", "a paragraph that begins with a unit of each kind, then words of two patterns × separators × width 8 to 27 × context", volume(&rf), |i, r| {
        let m = mixed(i, &rf);
        let mut us = firsts[m[1]].clone();
        let k = us.len() - 1;
        us.extend([["aa", "bbb", "c", "ddd", "ee", "f"], ["aaaaaaa", "b", "`c c`", "한국", "ddddddddddddd", "e"]][m[3]].iter().map(|s| u(s)));
        let seps = (0..us.len() - 1).map(|j| if j < k { Space } else { match m[2] { 0 => Space, 1 => Soft, _ => [Soft, Space, Space, Soft, Space, Space][j - k] } }).collect::<Vec<_>>();
        check(r, &CTX[m[0]], &us, &seps, 8 + m[4]);
    }));
    // Punctuation at the edges of words
    let marks: Vec<char> = (33u8..127).map(|c| c as char).filter(|c| !c.is_ascii_alphanumeric() && *c != '\\').chain("–—…“”‘’«»·†§".chars()).collect();
    let marks = &marks;
    let rm = [4, marks.len(), 2, 32, 3];
    e.run(domain("marks", "a word that begins or ends with each mark, every sequence of five separators (space, line break) around it × words of three patterns × context", volume(&rm), |i, r| {
        let m = mixed(i, &rm);
        let c = marks[m[1]];
        let x = if m[2] == 0 { "mm@" } else { "@mm" }.replace('@', &if "*_`".contains(c) { format!("\\{c}") } else { c.to_string() });
        let risky = "*_`[]<>|~&!$^".contains(c) || m[2] == 1 && "#+-=:.".contains(c);
        let mid = Unit { src: x.clone(), out: x, risky };
        let p = [["aa", "bbb", "", "ccccccccccccccc", "d", "ee"], ["aaaaaaaaaaaaaaaa", "b", "", "c", "dddddd", "ee"], ["a", "bb", "", "cc", "한국", "e"]][m[4]];
        let us: Vec<Unit> = p.iter().map(|s| if s.is_empty() { mid.clone() } else { u(s) }).collect();
        let seps: Vec<Sep> = digits(m[3] as u64, 2, 5).into_iter().map(|x| [Space, Soft][x]).collect();
        check(r, &CTX[m[0]], &us, &seps, 12);
    }));
    // Every character
    let cs = &characters(q);
    let rx = [2, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in words and as one, wrapped at each of them", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c = cs[m[1]];
        if !letterlike(c) || c.is_control() { r.skipped += 1; return }
        let us = [u("al"), u(&format!("x{c}y")), u("be"), u(&format!("{c}")), u("ga"), u(&format!("{c}z")), u("de"), u(&format!("w{c}"))];
        let seps = vec![[Space, Soft][m[0]]; us.len() - 1];
        check(r, &CTX[0], &us, &seps, [8, 14][m[0]]);
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [nc, ns.len(), 6, 3];
    e.run(domain("sizes", "one quantity at a time (words on a line or on lines of their own, hard breaks, lengths of words and of code × context × width) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (n, w) = (ns[m[1]], [80, 30, 8][m[3]]);
        if n > 130 && m[0] > 2 { r.skipped += 1; return }
        let word = |i: usize| u(["alpha", "be", "gamma", "x", "한글", "`c d`"][i % 6]);
        let us: Vec<Unit> = match m[2] {
            0 | 1 | 2 => (0..=n).map(word).collect(),
            3 => vec![u("a"), u(&"w".repeat(n)), u("b")],
            4 => vec![u("a"), u(&format!("`{}`", "c d".repeat(n))), u("b")],
            _ => vec![u("a"), u(&"한".repeat(n)), u("b"), u("cc")],
        };
        let seps = vec![[Space, Soft, Hard, Space, Space, Soft][m[2]]; us.len() - 1];
        check(r, &CTX[m[0]], &us, &seps, w);
    }));
}
