//! C13: tables keep their cells and line up.
//!
//! The reference model writes the whole expected table from pairs of source cells and
//! formatted cells with their widths; no part of the output is read back.
use crate::core::*;
use crate::opts;

/// A cell as it is written, as it comes out, and how many columns it takes then.
#[derive(Clone, Copy)]
struct Cell { src: &'static str, out: &'static str, w: usize }
const fn c(src: &'static str, out: &'static str, w: usize) -> Cell { Cell { src, out, w } }
const fn s(src: &'static str, w: usize) -> Cell { Cell { src, out: src, w } }

const CELLS: &[Cell] = &[
    s("", 0), s("a", 1), s("abcde", 5), s("한글", 4), s("e\u{301}x", 2), s("a\\|b", 4), s("`x`", 3), s("`a\\|b`", 6),
    s("[t](./u)", 8), s("*em*", 4), s("日本語テ", 8), s("**st** x", 8),
    s("_em_", 4), s("~~no~~", 6), s("![i](./p)", 9), s("<b>x</b>", 8), s("ab cd", 5), s("\\*", 2), s("&amp;", 5), s("😀", 2), s("～", 2),
    s("`` ` ``", 7), s("\\|", 2), s("a \\| b \\| c", 11), s("\\\\", 2), s("three", 5), s("abcd", 4), s("ab", 2), s("<http://x.y/>", 13), c("[r][r]", "[r]", 3),
    s("*a\\|b*", 6), s("[a\\|b](./u)", 11), s("한", 2), s("x한y", 4), s("\u{200b}z", 1), s("note[^1]", 8), s("[l]", 3), s("1", 1), s("\\[x]", 4), s("--", 2), s("`  `", 4), s("０１", 4), s("⚠\u{fe0f}", 2), s("warn ⚠\u{fe0f}", 7), s("❤\u{fe0f} x", 4), s("👩\u{200d}🚀", 2), s("ａｂ", 4), s("<!-- c -->", 10),
    s("a long cell that goes on and on, well past the width of eighty columns, and is never wrapped", 92),
];
// Cells that punctuation changes
const PUNCT: &[Cell] = &[s("a", 1), c("\"q\"", "“q”", 3), c("a...", "a…", 2), c("x -- y", "x — y", 5), c("'go on'", "‘go on’", 7), s("it's", 4), s("`\"q\"...`", 8), c("\"한\" -- `--`", "“한” — `--`", 11), c("a\\|\"b\"...", "a\\|“b”…", 7)];

fn tail(used: &[Cell], src: &mut String, out: &mut String) {
    let any = |t: &str| used.iter().any(|c| c.src.contains(t));
    if any("[r][r]") { src.push_str("\n\n[r]: http://r/"); }
    if any("[l]") { src.push_str("\n\n[l]: http://l/"); }
    if any("[^1]") { src.push_str("\n\n[^1]: foot"); out.push_str("\n\n[^1]: foot"); }
    // Definitions come in the order of use
    let mut defs = vec![];
    for c in used { for (t, d) in [("[r][r]", "[r]: http://r/"), ("[l]", "[l]: http://l/")] { if c.src == t && !defs.contains(&d) { defs.push(d) } } }
    if !defs.is_empty() { out.push_str("\n\n"); out.push_str(&defs.join("\n")); }
}

const ALIGN: [&str; 4] = ["---", ":--", "--:", ":-:"];

fn row(cells: &[Cell], al: &[usize], ws: &[usize]) -> String {
    let mut o = "|".to_string();
    for ((c, a), w) in cells.iter().zip(al).zip(ws) {
        let n = w - c.w;
        let l = match a { 2 => n, 3 => n / 2, _ => 0 };
        o += &format!(" {}{}{} |", " ".repeat(l), c.out, " ".repeat(n - l));
    }
    o
}

/// The whole table: rows are cut or filled up to the number of columns.
fn table(rows: &[Vec<Cell>], al: &[usize]) -> String {
    let n = al.len();
    let full: Vec<Vec<Cell>> = rows.iter().map(|r| (0..n).map(|i| r.get(i).copied().unwrap_or(CELLS[0])).collect()).collect();
    let ws: Vec<usize> = (0..n).map(|i| full.iter().map(|r| r[i].w).max().unwrap().max(3)).collect();
    let mut out = vec![row(&full[0], al, &ws)];
    let mut d = "|".to_string();
    for (a, w) in al.iter().zip(&ws) {
        d += &match a { 1 => format!(" :{} |", "-".repeat(w - 1)), 2 => format!(" {}: |", "-".repeat(w - 1)), 3 => format!(" :{}: |", "-".repeat(w - 2)), _ => format!(" {} |", "-".repeat(*w)) };
    }
    out.push(d);
    out.extend(full[1..].iter().map(|r| row(r, al, &ws)));
    out.join("\n")
}

/// How rows are written: 0 with both outer pipes, 1 without a trailing one, 2 without a
/// leading one, 3 with neither, 4 tight, 5 with extra spaces.
fn source(rows: &[Vec<Cell>], al: &[usize], style: usize) -> Option<String> {
    let mut v = vec![];
    for (i, r) in rows.iter().enumerate() {
        if style > 0 && style < 4 && (r.is_empty() || r[0].src.is_empty() || r.last().unwrap().src.is_empty()) { return None }
        // A row that would be no row
        if r.is_empty() { return None }
        // A backslash before a pipe would escape it
        if style == 4 && r.iter().any(|c| c.src.ends_with('\\')) { return None }
        if (2..4).contains(&style) && (r[0].src.starts_with("<") || r[0].src == "--" || i == 0 && r.len() == 1) { return None }
        let sep = match style { 4 => "|", 5 => "   |  ", _ => " | " };
        let body = r.iter().map(|c| c.src).collect::<Vec<_>>().join(sep);
        v.push(match style { 0 | 5 => format!("| {body} |"), 1 => format!("| {body}"), 2 => format!("{body} |"), 3 => body, _ => format!("|{body}|") });
        if i == 0 {
            let d = al.iter().map(|a| match style { 4 => ["-", ":-", "-:", ":-:"][*a], 5 => ["------", ":------", "------:", ":------:"][*a], _ => ALIGN[*a] }).collect::<Vec<_>>();
            v.push(match style { 0 | 5 => format!("| {} |", d.join(" | ")), 1 => format!("| {}", d.join(" | ")), 2 => format!("{} |", d.join(" | ")), 3 => d.join(" | "), _ => format!("|{}|", d.join("|")) });
            // Without pipes, one column is a setext heading
            if style == 3 && al.len() == 1 { return None }
        }
    }
    Some(v.join("\n"))
}

fn prefixed(s: &str, first: &str, rest: &str) -> String {
    s.split('\n').enumerate().map(|(i, l)| { let p = if i == 0 { first } else { rest }; if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") } }).collect::<Vec<_>>().join("\n")
}

const PLACES: &[(&str, &str, &str, &str)] = &[("", "", "", ""), ("> ", "> ", "> ", "> "), ("- ", "  ", " -  ", "    "), ("1. ", "   ", "1.  ", "    "), ("> - ", ">   ", ">  -  ", ">     "), ("- - ", "    ", " -\n     -  ", "        "), ("> > ", "> > ", "> > ", "> > "), ("- x\n\n  ", "  ", " -  x\n\n    ", "    "), ("> [!NOTE]\n> ", "> ", "> [!NOTE]\n> ", "> "), ("t\n: ", "  ", "t\n:   ", "    "), ("# H\n", "", "# H\n\n", ""), ("para\n", "", "para\n\n", "")];

fn case(r: &mut Rec, rows: &[Vec<Cell>], al: &[usize], style: usize, place: usize, spec: &str) {
    let Some(src) = source(rows, al, style) else { r.skipped += 1; return };
    let p = PLACES[place];
    let (mut doc, mut want) = (prefixed(&src, p.0, p.1), prefixed(&table(rows, al), p.2, p.3));
    let used: Vec<Cell> = rows.iter().flat_map(|r| r.iter().take(al.len()).copied()).collect();
    // A label that only a dropped cell uses
    if rows.iter().any(|r| r.iter().skip(al.len()).any(|c| c.src.contains("[r]") || c.src.contains("[l]") || c.src.contains("[^"))) { r.skipped += 1; return }
    tail(&used, &mut doc, &mut want);
    let (doc, want) = (doc + "\n", want + "\n");
    r.case(&doc, spec);
    let f = r.fmt(&doc, &opts::make(spec));
    r.traces += 1;
    r.nontrivial = f != doc;
    if f != want { r.fail("table", &f, format!("expected:\n{want}\ngot:\n{f}")); }
}

const PLAIN: &str = "plain=1 h1=0 h2=0";

pub fn run(e: &Engine) {
    let q = e.quick();
    let n = CELLS.len();
    e.run(domain("cells", "every header cell and data cell × alignment × way of writing rows, one and two columns", volume(&[n, n, 4, 6, 2]), |i, r| {
        let m = mixed(i, &[n, n, 4, 6, 2]);
        let (h, d) = (CELLS[m[0]], CELLS[m[1]]);
        let rows = if m[4] == 0 { vec![vec![h], vec![d]] } else { vec![vec![h, CELLS[1]], vec![d, h]] };
        case(r, &rows, &vec![m[2]; m[4] + 1], m[3], 0, PLAIN);
    }));
    let k = if q { 16 } else { 20 };
    e.run(domain("grids", "every two by two grid of 16 (thorough: 20) cells × two alignments", volume(&[4, 4, k, k, k, k]), |i, r| {
        let m = mixed(i, &[4, 4, k, k, k, k]);
        let g = |j: usize| CELLS[m[j]];
        case(r, &[vec![g(2), g(3)], vec![g(4), g(5)]], &[m[0], m[1]], 0, 0, PLAIN);
    }));
    let k = if q { 13 } else { 16 };
    e.run(domain("columns", "every column of a header and three cells of 13 (16) × alignment × way of writing rows", volume(&[4, 6, k, k, k, k]), |i, r| {
        let m = mixed(i, &[4, 6, k, k, k, k]);
        let rows: Vec<_> = m[2..].iter().map(|j| vec![CELLS[*j], CELLS[1]]).collect();
        case(r, &rows, &[m[0], 0], m[1], 0, PLAIN);
    }));
    // Number of cells in each row, from none to two more than columns
    let (cols, nr) = (4usize, if q { 3usize } else { 4 });
    let per = (cols + 3).pow(nr as u32) as u64;
    e.run(domain("shapes", "every number of cells (1 to columns + 2) in each of up to 3 (4) rows × 1 to 4 columns × alignments × way of writing rows × place", volume(&[cols, 4, 6, PLACES.len(), nr + 1]) * per, |i, r| {
        let (a, b) = (i / per, i % per);
        let m = mixed(a, &[cols, 4, 6, PLACES.len(), nr + 1]);
        let d = digits(b, cols as u64 + 3, nr);
        let n = m[0] + 1;
        if d[m[4]..].iter().any(|x| *x > 0) || d[..m[4]].iter().any(|x| *x > n + 2) { r.skipped += 1; return }
        let pool = [CELLS[1], CELLS[3], CELLS[9], CELLS[5], CELLS[2]];
        let mk = |len: usize, off: usize| (0..len).map(|j| pool[(j + off) % 5]).collect::<Vec<_>>();
        let mut rows = vec![mk(n, 0)];
        for (j, len) in d[..m[4]].iter().enumerate() { rows.push(mk(*len, j + 1)); }
        // In the last places a row needs its pipe to go on
        let al: Vec<usize> = (0..n).map(|j| (j + m[1]) % 4).collect();
        case(r, &rows, &al, m[2], m[3], PLAIN);
    }));
    let rx = [PLACES.len(), 6, 4, n, 3];
    e.run(domain("places", "every cell × alignment × way of writing rows × place × column", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let mut rows = vec![vec![CELLS[1]; 3], vec![CELLS[1]; 3]];
        rows[1][m[4]] = CELLS[m[3]];
        case(r, &rows, &[m[2], 0, m[2]], m[1], m[0], PLAIN);
    }));
    let k = PUNCT.len();
    e.run(domain("punctuation", "every pair of cells that punctuation changes × alignment × place, with default punctuation", volume(&[PLACES.len(), 4, k, k, k]), |i, r| {
        let m = mixed(i, &[PLACES.len(), 4, k, k, k]);
        case(r, &[vec![PUNCT[m[2]], PUNCT[m[3]]], vec![PUNCT[m[4]], PUNCT[m[2]]]], &[m[1], 3 - m[1]], 0, m[0], "h1=0 h2=0");
    }));
    // One column of every width against another
    let words = ["", "a", "ab", "abc", "abcd", "abcde", "abcdef", "한", "한글", "한글a", "e\u{301}", "abcdefgh"];
    let ww = [0, 1, 2, 3, 4, 5, 6, 2, 4, 5, 1, 8];
    let cell = move |j: usize| Cell { src: words[j], out: words[j], w: ww[j] };
    e.run(domain("widths", "every three contents of 12 widths in a column × alignment", volume(&[4, 2, 12, 12, 12]), |i, r| {
        let m = mixed(i, &[4, 2, 12, 12, 12]);
        let rows: Vec<_> = m[2..].iter().map(|j| if m[1] == 0 { vec![cell(*j)] } else { vec![cell(*j), cell(m[2])] }).collect();
        case(r, &rows, &[m[0], (m[0] + 1) % 4][..m[1] + 1], 0, 0, PLAIN);
    }));
    // Every character
    let cs = &characters(q);
    let rx = [4, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII and white space, in cells of every alignment", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c = cs[m[1]];
        if !letterlike(c) || c.is_control() { r.skipped += 1; return }
        let cell = |t: String| { let w = unicode_width::UnicodeWidthStr::width(t.as_str()); Cell { src: Box::leak(t.into_boxed_str()), out: "", w } };
        let cell = |t: String| { let x = cell(t); Cell { out: x.src, ..x } };
        case(r, &[vec![cell(format!("{c}")), CELLS[1]], vec![cell(format!("x{c}y{c}z")), CELLS[3]]], &[m[0]; 2], 0, 0, PLAIN);
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 4, 4, 2];
    e.run(domain("sizes", "one quantity at a time (columns, rows, widths of cells, surplus cells × alignment) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        // Widths up to the largest are made once
        let wide = |ch: &'static str, w: usize| { let t: &'static str = Box::leak(ch.repeat(n).into_boxed_str()); s(t, n * w) };
        let (rows, cols) = match m[1] {
            0 => ((0..3).map(|i| (0..n).map(|j| CELLS[(i + j) % 13]).collect()).collect::<Vec<_>>(), n),
            1 => ((0..=n).map(|i| vec![CELLS[1 + i % 12], CELLS[(i * 5) % 13]]).collect(), 2),
            2 => (vec![vec![wide("w", 1), CELLS[1]], vec![CELLS[3], wide("한", 2)]], 2),
            _ => (vec![vec![CELLS[1], CELLS[2]], (0..n).map(|j| CELLS[1 + j % 12]).collect()], 2),
        };
        if n > 300 && m[1] != 1 { r.skipped += 1; return }
        case(r, &rows, &vec![m[2]; cols], 0, [0, 1][m[3]], PLAIN);
    }));
}
