//! C12: lists have the configured markers, numbers and indentation.
//!
//! The reference model writes the formatted list itself, from the list it put together.
use crate::core::*;
use crate::opts;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Bullet, Ordered, Task, OrderedTask }
use Kind::*;
impl Kind { fn ordered(self) -> bool { matches!(self, Ordered | OrderedTask) } fn task(self) -> bool { matches!(self, Task | OrderedTask) } }

#[derive(Clone, Debug)]
enum Part { Lines(Vec<String>), Code, Quote, Table, Head, Html, Sub(List) }

/// A list; each part of an item but the first comes with or without a blank line before it.
#[derive(Clone, Debug)]
struct List { kind: Kind, start: u64, loose: bool, mark: char, items: Vec<Vec<(bool, Part)>> }

#[derive(Clone, Copy)]
struct Opt { um: char, ls: usize, ts: usize, iw: usize, odd: char, even: char, oiw: usize }
const DEF: Opt = Opt { um: '-', ls: 1, ts: 2, iw: 4, odd: '.', even: ')', oiw: 4 };
fn spec(o: Opt) -> String { format!("plain=1 um={} ls={} ts={} iw={} odd={} even={} oiw={}", o.um, o.ls, o.ts, o.iw, o.odd, o.even, o.oiw) }

fn block(p: &Part) -> (Vec<String>, Vec<String>) {
    let v = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match p {
        Part::Lines(l) => (l.clone(), l.clone()),
        Part::Code => (v(&["```", "c", "", "  d", "```"]), v(&["~~~~", "c", "", "  d", "~~~~"])),
        Part::Quote => (v(&["> q", "> r"]), v(&["> q", "> r"])),
        Part::Table => (v(&["| a |", "|---|", "| b |"]), v(&["| a   |", "| --- |", "| b   |"])),
        Part::Head => (v(&["# H"]), v(&["H", "="])),
        Part::Html => (v(&["<div>", "x", "</div>"]), v(&["<div>", "x", "</div>"])),
        Part::Sub(_) => unreachable!(),
    }
}

fn put(out: &mut Vec<String>, first: &str, cont: &str, lines: &[String]) {
    for (i, l) in lines.iter().enumerate() {
        let p = if i == 0 { first } else { cont };
        out.push(if l.is_empty() { String::new() } else { format!("{p}{l}") });
    }
}

/// As written: content right after the marker.
fn source(l: &List, indent: usize, out: &mut Vec<String>) {
    for (n, item) in l.items.iter().enumerate() {
        if n > 0 && l.loose { out.push(String::new()) }
        let marker = if l.kind.ordered() { format!("{}{} ", l.start + n as u64, if l.mark == '-' { '.' } else { ')' }) } else { format!("{} ", l.mark) };
        let col = indent + marker.len();
        let lead = " ".repeat(indent) + &marker + if l.kind.task() { if n % 2 == 0 { "[ ] " } else { "[x] " } } else { "" };
        for (i, (blank, p)) in item.iter().enumerate() {
            if *blank && i > 0 { out.push(String::new()) }
            match p {
                Part::Sub(s) => source(s, col, out),
                p => { let cont = " ".repeat(col); put(out, if i == 0 { &lead } else { &cont }, &cont, &block(p).0) },
            }
        }
    }
}

struct Up { dd: bool, depth: usize, base: usize, content: usize, bullet: bool }

/// As it has to come out. None where the configured indentation cannot hold the list.
fn target(l: &List, o: Opt, up: &Up, other: bool, out: &mut Vec<String>) -> Option<()> {
    let depth = up.depth + 1;
    let leading = if l.kind.ordered() || up.dd { 0 } else { o.ls };
    let trailing = o.ts.max(1);
    let base = if depth == 1 { up.base } else {
        // Indented as configured, but never so far that the marker would be code
        let b = (up.base + if l.kind.ordered() { o.oiw } else { o.iw }).min(up.content + 3 - leading);
        // A list of another kind never starts before the text of its item
        if up.bullet && !l.kind.ordered() { b } else { b.max(up.content) }
    };
    if depth > 1 && base + leading < up.content { return None }
    let blanks = l.loose && l.items.len() > 1 || l.items.iter().any(|i| i.iter().skip(1).any(|(b, p)| *b || !matches!(p, Part::Sub(_))));
    for (n, item) in l.items.iter().enumerate() {
        if n > 0 && blanks { out.push(String::new()) }
        let (marker, width) = if l.kind.ordered() {
            let num = (l.start + n as u64).min(999_999_999).to_string();
            let d = if (depth % 2 == 1) != other { o.odd } else if depth % 2 == 1 { if o.odd == '.' { ')' } else { '.' } } else if other { if o.even == '.' { ')' } else { '.' } } else { o.even };
            let w = o.oiw.max(num.len() + 2);
            (format!("{:<w$}", format!("{num}{d}")), w)
        } else {
            let m = if !other { o.um } else if o.um == '-' { '*' } else { '-' };
            (format!("{}{m}{}", " ".repeat(leading), " ".repeat(trailing)), leading + 1 + trailing)
        };
        let content = base + width;
        let lead = " ".repeat(base) + &marker + if l.kind.task() { if n % 2 == 0 { "[ ] " } else { "[x] " } } else { "" };
        for (i, (blank, p)) in item.iter().enumerate() {
            match p {
                Part::Sub(s) => {
                    if *blank { out.push(String::new()) }
                    target(s, o, &Up { dd: false, depth, base, content, bullet: !l.kind.ordered() }, false, out)?;
                }
                p => {
                    if i > 0 { out.push(String::new()) }
                    let cont = " ".repeat(content);
                    put(out, if i == 0 { &lead } else { &cont }, &cont, &block(p).1);
                }
            }
        }
    }
    Some(())
}

/// An item: what comes after its first line.
fn item(v: usize, t: &str, sub: &dyn Fn() -> List) -> Vec<(bool, Part)> {
    let line = |s: &str| (false, Part::Lines(vec![format!("{t}{s}")]));
    let more = |s: &str| (true, Part::Lines(vec![format!("{t}{s}"), format!("and {s}")]));
    match v {
        0 => vec![line("a")],
        1 => vec![(false, Part::Lines(vec![format!("{t}a"), "b c".into()]))],
        2 => vec![line("a"), (false, Part::Sub(sub()))],
        3 => vec![line("a"), more("p")],
        4 => vec![line("a"), (true, Part::Sub(sub()))],
        5 => vec![line("a"), (false, Part::Sub(sub())), more("p")],
        6 => vec![line("a"), (true, Part::Code)],
        7 => vec![line("a"), (false, Part::Code)],
        8 => vec![line("a"), (true, Part::Quote), (true, Part::Sub(sub()))],
        9 => vec![line("a"), (true, Part::Table), more("p")],
        10 => vec![line("a"), more("p"), (true, Part::Sub(sub()))],
        11 => vec![(false, Part::Code), more("p")],
        12 => vec![(false, Part::Head), more("p")],
        13 => vec![line("a"), (true, Part::Html), (true, Part::Head)],
        14 => vec![line("a"), (false, Part::Sub(sub())), (true, Part::Code), (true, Part::Sub(sub()))],
        _ => vec![line("a"), (true, Part::Quote)],
    }
}
const V: usize = 16;

/// Where the whole list stands: what is before it, what its lines start with, the same in the output.
const PLACES: &[(&str, &str, &str, &str)] = &[("", "", "", ""), ("p\n\n", "", "p\n\n", ""), ("", "> ", "", "> "), ("> [!TIP]\n", "> ", "> [!TIP]\n", "> "), ("# H\n", "", "H\n=\n\n", ""), ("> > a\n>\n", "> ", "> > a\n>\n", "> "), ("t\n", "", "t\n", "")];
/// The last place: a description, where lists stand five columns in, without leading spaces.
const DD: usize = PLACES.len() - 1;

fn check(r: &mut Rec, lists: &[List], o: Opt, place: usize, after: bool) {
    let (mut src, mut want) = (vec![], vec![]);
    let mut other = false;
    for (i, l) in lists.iter().enumerate() {
        if i > 0 {
            other = lists[i - 1].kind.ordered() == l.kind.ordered() && !other;
            if lists[i - 1].kind.ordered() == l.kind.ordered() && (lists[i - 1].mark == '-') == (l.mark == '-') { r.skipped += 1; return }
            src.push(String::new());
            want.push(String::new());
        }
        source(l, if place == DD { 4 } else { 0 }, &mut src);
        if target(l, o, &Up { dd: place == DD, depth: 0, base: if place == DD { 5 } else { 0 }, content: 0, bullet: false }, other, &mut want).is_none() { r.skipped += 1; return }
    }
    if place == DD { for v in [&mut src, &mut want] { v[0].replace_range(..1, ":"); } }
    if after { src.extend(["".into(), "end".into()]); want.extend(["".to_string(), "end".into()]); }
    let (a, p, b, t) = PLACES[place];
    let join = |v: &[String], p: &str| v.iter().map(|l| format!("{p}{l}").trim_end().to_string() + "\n").collect::<String>();
    let (doc, want) = (a.to_string() + &join(&src, p), b.to_string() + &join(&want, t));
    let s = spec(o);
    r.case(&doc, &s);
    let f = r.fmt(&doc, &opts::make(&s));
    r.traces += 1;
    r.nontrivial = f != doc;
    if f != want { r.fail("list", &f, format!("expected:\n{want}\ngot:\n{f}")); }
}

const KINDS: [Kind; 4] = [Bullet, Ordered, Task, OrderedTask];

fn list(kind: Kind, start: u64, loose: bool, items: Vec<Vec<(bool, Part)>>) -> List { List { kind, start, loose, mark: '-', items } }

pub fn run(e: &Engine) {
    let q = e.quick();
    let flat = |k: Kind| move || list(k, 1, false, vec![item(0, "y", &|| unreachable!()), item(1, "z", &|| unreachable!())]);
    let opts: &'static [Opt] = &[DEF, Opt { um: '*', ls: 0, ts: 1, iw: 2, odd: ')', even: '.', oiw: 3 }, Opt { um: '+', ls: 2, ts: 1, iw: 6, odd: '.', even: '.', oiw: 5 }, Opt { um: '-', ls: 0, ts: 3, iw: 5, odd: ')', even: ')', oiw: 2 }];
    // Two items of every kind, nested lists of every kind
    let rx = [2, PLACES.len(), opts.len(), KINDS.len(), 2, V, V, KINDS.len(), 2];
    e.run(domain("items", "every pair of items (16 kinds of contents) × kinds of the list and of nested lists × loose or tight × place × options × a paragraph after it or none", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        // A box needs a paragraph after it
        if KINDS[m[3]].task() && m[5..7].iter().any(|v| [11, 12].contains(v)) { r.skipped += 1; return }
        let k2 = KINDS[m[7]];
        let sub = flat(k2);
        let two = m[8] == 1;
        let mut items = vec![item(m[5], "s", &sub), item(m[6], "u", &sub)];
        if !two { items.truncate(1); if m[6] > 0 { r.skipped += 1; return } }
        if m[4] == 1 && !two { r.skipped += 1; return }
        check(r, &[list(KINDS[m[3]], 1, m[4] == 1, items)], opts[m[2]], m[1], m[0] == 1);
    }));
    // Three levels
    let d = V;
    let (kk, pl) = if q { (3, 1) } else { (4, 3) };
    let rx = [opts.len(), kk, kk, kk, 2, 2, d, d, if q { 4 } else { 8 }, pl];
    e.run(domain("nesting", "every nesting of three levels of bullets, numbers and boxes × loose or tight × contents of the items of each level × options", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        if (KINDS[m[1]].task() && m[6..8].iter().any(|v| [11, 12].contains(v))) || (KINDS[m[2]].task() && [11, 12].contains(&m[7])) { r.skipped += 1; return }
        let inner = || list(KINDS[m[3]], if [2, 5, 14].contains(&m[7]) { 1 } else { 8 }, m[5] == 1, vec![item(m[8] % 2, "v", &|| unreachable!()), item([0, 3, 6, 7][m[8] / 2], "w", &|| unreachable!())]);
        let mid = || list(KINDS[m[2]], 1, m[5] == 1, vec![item(m[7], "x", &inner), item(0, "y", &inner)]);
        check(r, &[list(KINDS[m[1]], 9, m[4] == 1, vec![item(m[6], "s", &mid), item(m[7], "u", &mid)])], opts[m[0]], [0, 1, DD][m[9]], false);
    }));
    // Many levels
    let dd = if q { 6 } else { 8 };
    let rx = [opts.len(), 2, 4, if q { 1 } else { 3 }, 1 << dd];
    e.run(domain("deep", "every sequence of bullets and numbers over six (thorough: eight) levels × loose or tight × what stands around the nested lists × options", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        fn level(k: usize, d: usize, v: usize, loose: bool) -> List {
            let kind = if k & 1 == 1 { Ordered } else { Bullet };
            let a = if d == 1 { item(0, &format!("d{d}"), &|| unreachable!()) } else { item([2, 5, 4, 14][v], &format!("d{d}"), &|| level(k >> 1, d - 1, v, loose)) };
            list(kind, 1, loose, vec![a, item(0, "z", &|| unreachable!())])
        }
        if m[2] == 3 && m[4] % 5 > 0 { r.skipped += 1; return }
        check(r, &[level(m[4], dd, m[2], m[1] == 1)], opts[m[0]], [0, 1, DD][m[3]], false);
    }));
    // Numbers
    let starts: &'static [u64] = &[0, 1, 2, 7, 8, 9, 10, 97, 98, 99, 100, 997, 9998, 99_999, 123_456_788, 999_999_997];
    let rx = [2, 10, 4, starts.len(), 4, 5, 2];
    e.run(domain("numbers", "start numbers around each change of width × number of items × contents × width of ordered lists × markers × nesting", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let o = Opt { oiw: m[1] + 1, odd: ['.', ')'][m[2] % 2], even: ['.', ')'][m[2] / 2], ..DEF };
        let sub = flat([Ordered, Bullet][m[6]]);
        let v = [0, 1, 2, 3, 6][m[5]];
        if starts[m[3]] + m[4] as u64 > 999_999_999 { r.skipped += 1; return }
        let l = list(Ordered, starts[m[3]], false, (0..=m[4]).map(|j| item(if j % 2 == 0 { v } else { 0 }, &format!("t{j}"), &sub)).collect());
        let l = if m[0] == 0 { l } else { list(Bullet, 1, false, vec![vec![(false, Part::Lines(vec!["o".into()])), (false, Part::Sub(List { start: 1, ..l.clone() }))], vec![(false, Part::Lines(vec!["o".into()])), (true, Part::Sub(l))]]) };
        check(r, &[l], o, 0, false);
    }));
    // All widths
    let rx = [3, 4, 4, 8, 8, KINDS.len(), KINDS.len(), 8];
    e.run(domain("widths", "every marker × leading × trailing spaces × both indentation widths from 1 to 8 × kinds of two nested levels × contents", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let o = Opt { um: ['-', '*', '+'][m[0]], ls: m[1], ts: m[2], iw: m[3] + 1, oiw: m[4] + 1, ..DEF };
        let (k1, k2) = (KINDS[m[5]], KINDS[m[6]]);
        let inner = flat(k1);
        let mid = || list(k2, 1, false, vec![item([0, 2][m[7] & 1], "x", &inner), item(1, "y", &inner)]);
        check(r, &[list(k1, 1, m[7] & 2 != 0, vec![item([2, 4][m[7] & 1], "s", &mid), item([1, 3][m[7] >> 2 & 1], "u", &mid)])], o, 0, false);
    }));
    // Lists next to each other keep apart by their markers
    let rx = [3, 3, 3, 2, 2, 2, opts.len(), 2, 3];
    e.run(domain("neighbours", "every sequence of two and three lists next to each other × kinds × loose or tight × options × contents", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let mk = |j: usize, alt: bool| { let mut l = list(KINDS[m[j]], 1, m[3 + j] == 1, vec![item([0, 1, 3][m[8]], "s", &flat(Bullet)), item(0, "t", &flat(Bullet))]); if alt { l.mark = '*' } l };
        let ls = if m[7] == 0 { vec![mk(0, false), mk(1, true)] } else { vec![mk(0, false), mk(1, true), mk(2, false)] };
        check(r, &ls, opts[m[6]], 0, true);
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 6, KINDS.len(), opts.len()];
    e.run(domain("sizes", "one quantity at a time (items, numbers, lines of an item, levels (to 30) × kinds) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (n, k, o) = (ns[m[0]], KINDS[m[2]], opts[m[3]]);
        let plain = |j: usize| item(0, &format!("t{j}"), &|| unreachable!());
        let l = match m[1] {
            0 => list(k, 1, false, (0..n).map(plain).collect()),
            1 => list(k, 1, true, (0..n).map(plain).collect()),
            2 => list(k, n as u64, false, (0..2).map(plain).collect()),
            3 => list(k, 1, false, (0..n).map(|j| if j + 1 == n { item(2, "s", &flat(k)) } else { plain(j) }).collect()),
            4 => list(k, 1, false, vec![vec![(false, Part::Lines((0..n).map(|j| format!("l{j}")).collect()))], plain(0)]),
            _ => {
                if n > 30 { r.skipped += 1; return }
                let mut l = list(k, 1, false, vec![plain(n)]);
                for j in (0..n).rev() { let s = l.clone(); l = list(k, 1, false, vec![item(2, &format!("u{j}"), &move || s.clone()), plain(j)]) }
                l
            }
        };
        if o.um == '+' && m[1] == 4 && n > 200 { r.skipped += 1; return }
        check(r, &[l], o, [0, 1][n & 1], true);
    }));
}
