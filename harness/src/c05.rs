//! C05: what directives cover is kept byte for byte, and the rest is formatted as usual.
use crate::core::*;
use crate::{norm, opts};
use comrak::nodes::NodeValue;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Disable, Enable, File, Line, Section, H1, H2, Block, Def, Note }

/// Items in a spelling that formatting would change; % is the position in the document.
const ITEMS: &[(K, &str)] = &[
    (K::Disable, "<!-- hongdown-disable -->"),
    (K::Enable, "<!-- hongdown-enable -->"),
    (K::File, "<!-- hongdown-disable-file -->"),
    (K::Line, "<!-- hongdown-disable-next-line -->"),
    (K::Section, "<!-- hongdown-disable-next-section -->"),
    (K::Block, "text% ... \"q\"   __b__\n   more%"),
    (K::H2, "##   Sec% ##"),
    (K::Block, "* item%\n* it%\n\n  * sub%"),
    (K::Block, "[l%][d] ![i%][e]  [x%](http://x%/) n%[^n]..."),
    (K::H1, "#  Top%"),
    (K::Block, "###  Low%"),
    (K::Block, "```\ncode%...\n\n\n<!--hongdown-disable-->\n```"),
    (K::Block, "|a%|b|\n|-|:-|\n|1|2..."),
    (K::Block, "<div>\nx%...\n</div>"),
    (K::Block, ">q%...\n>* r%"),
    (K::Block, "- - -"),
    (K::Block, "- dash%\n- it%"),
    (K::Block, "    ind%...\n\n    <!-- hongdown-enable -->"),
    (K::Block, "t% ... <!-- hongdown-disable -->  ..."),
    (K::Block, "1)  o%\n2)  p%"),
    (K::Block, "1.  o%\n2.  p%"),
    (K::H1, "Sub%\n==="),
    (K::Def, "[u%]:   http://u%/   'un...used'"),
    (K::Note, "[^m%]:  note%..."),
    (K::Block, "*[AB%]:  ab..."),
    (K::Block, "T%\n: d% ..."),
    (K::Block, "<!-- hongdown-proper-nouns: Zz% -->"),
];
const TAIL: &str = "\n\n[d]:    http://d/  'ti'\n[e]: <./e>\n\n[^n]:   the  note...\n";

struct Cover { directive: String, text: String, to_end: bool, gap: bool, exact_end: bool }

/// Build the document, what has to be kept, and the document with the kept parts cut out.
/// None where the property does not say what covers what.
fn build(items: &[(K, String)], seps: &[&str], tail: &str) -> Option<(String, Vec<Cover>, String)> {
    let mut doc = String::new();
    let mut cut = String::new();
    let mut covers: Vec<Cover> = vec![];
    // Mode: what is covered now, since which byte of doc
    let mut mode = K::Block;
    let mut from = 0;
    for (i, (k, s)) in items.iter().enumerate() {
        let sep = if i == 0 { "" } else { seps[i - 1] };
        let was = mode;
        let start = doc.len() + sep.len();
        doc.push_str(sep);
        doc.push_str(s);
        // A covered run ends before this item
        let ends = match (was, k) {
            (K::Disable, K::Enable) => true,
            (K::Section, K::H1 | K::H2) => true,
            (K::Section, K::Enable) => return None,
            (K::Line, K::Enable | K::Disable | K::Section | K::Line | K::Def | K::Note) => return None,
            _ => false,
        };
        if ends {
            let t = &doc[from..start];
            let exact_end = was == K::Disable;
            covers.push(Cover { directive: String::new(), text: t.to_string(), to_end: false, gap: false, exact_end });
            mode = K::Block;
        }
        match (mode, k) {
            (K::Disable | K::Section, K::Disable) => { mode = K::Disable; continue; }
            // The rest of the file is covered in any case
            (K::Disable | K::Section, K::File) => { mode = K::File; continue; }
            (K::Disable | K::File, _) => continue,
            (K::Section, _) => continue,
            (K::Line, K::Block | K::H1 | K::H2) if !s.contains("hongdown-proper") => {
                covers.push(Cover { directive: items[i - 1].1.clone(), text: format!("\n{s}"), to_end: false, gap: true, exact_end: false });
                cut.push_str(sep);
                cut.push_str("<!-- cut -->");
                mode = K::Block;
                continue;
            }
            (K::Line, K::Block) => return None,
            (_, K::Disable | K::Section | K::File) => {
                mode = *k;
                from = doc.len();
                covers.push(Cover { directive: s.clone(), text: String::new(), to_end: false, gap: false, exact_end: false });
                cut.push_str(sep);
                cut.push_str("<!-- cut -->");
                continue;
            }
            (_, K::Line) => mode = K::Line,
            _ => {}
        }
        cut.push_str(sep);
        cut.push_str(s);
    }
    doc.push_str(tail);
    if matches!(mode, K::Disable | K::Section | K::File) {
        let t = &doc[from..];
        covers.push(Cover { directive: String::new(), text: t.to_string(), to_end: true, gap: false, exact_end: true });
    } else {
        cut.push_str(tail);
    }
    // Join the records of where a run begins and where it ends
    let mut v: Vec<Cover> = vec![];
    for c in covers {
        if c.directive.is_empty() {
            let last = v.last_mut().unwrap();
            last.text = c.text;
            last.to_end = c.to_end;
            last.exact_end = c.exact_end;
        } else { v.push(c) }
    }
    Some((doc, v, cut))
}

fn is_def(l: &str) -> bool {
    l.starts_with('[') && l.contains("]:")
}
/// Lines of formatted text outside of covered runs: text lines in order, definitions sorted.
fn lines(s: &str) -> (Vec<String>, Vec<String>) {
    let l = s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).filter(|l| {
        let t = l.trim_start();
        !(t == "<!-- cut -->" || t == "<!--" || t == "-->" || t.starts_with("hongdown-") || t.starts_with("<!--") && (t.contains("hongdown-disable") || t.contains("hongdown-enable")))
    });
    let (mut d, t): (Vec<_>, Vec<_>) = l.map(String::from).partition(|l| is_def(l));
    d.sort();
    (t, d)
}

fn case(r: &mut Rec, items: &[(K, String)], seps: &[&str], tail: &str, spec: &str) {
    let Some((doc, covers, cut)) = build(items, seps, tail) else { r.skipped += 1; return };
    // The directives have to be blocks of their own where they stand
    let mut line = 1;
    let (mut expected, mut blocks) = (vec![], vec![]);
    for (i, (k, s)) in items.iter().enumerate() {
        if i > 0 { line += seps[i - 1].matches('\n').count(); }
        if matches!(k, K::Disable | K::Enable | K::File | K::Line | K::Section) { expected.push(line); } else if !matches!(k, K::Def | K::Note) { blocks.push(line); }
        line += s.matches('\n').count();
    }
    let (mut starts, mut any) = (vec![], vec![]);
    norm::with_ast_raw(&doc, |root| {
        for c in root.children() {
            any.push(c.data.borrow().sourcepos.start.line);
            if let NodeValue::HtmlBlock(_) = c.data.borrow().value { starts.push(c.data.borrow().sourcepos.start.line); }
        }
    });
    if !expected.iter().all(|l| starts.contains(l)) || !blocks.iter().all(|l| any.contains(l)) { r.skipped += 1; return }
    r.case(&doc, spec);
    let o = opts::make(spec);
    let f = r.fmt(&doc, &o);
    r.nontrivial = !covers.is_empty();
    r.traces += 1;
    // 1. Every covered run is there, in order, right after its directive
    let mut rest = String::new();
    let mut pos = 0;
    for c in &covers {
        let t = if c.exact_end { c.text.as_str() } else { c.text.trim_end_matches('\n') };
        let want = format!("{}{}", c.directive, t);
        let ends_line = |p: usize| f[p..].is_empty() || f[p..].starts_with('\n') || c.exact_end;
        // Blank lines between a directive for the next block and the block are not covered
        let at = |p: usize| {
            let d = p + c.directive.len();
            let g = if c.gap { d + f[d..].len() - f[d..].trim_start_matches('\n').len() } else { d };
            let t = if c.gap { t.trim_start_matches('\n') } else { t };
            (f[g..].starts_with(t) && (!c.gap || g > d) && ends_line(g + t.len())).then_some((p, g + t.len()))
        };
        let hit = f[pos..].match_indices(c.directive.as_str()).map(|(p, _)| pos + p).filter(|p| *p == 0 || f[..*p].ends_with('\n')).find_map(at);
        match hit {
            Some((a, b)) => {
                rest.push_str(&f[pos..a]);
                rest.push_str("\n<!-- cut -->\n");
                pos = b;
                if c.to_end && f[pos..].trim_end_matches('\n') != "" {
                    r.fail("kept", &f, format!("something follows text that is kept to the end: {:?}", &f[pos..]));
                    return;
                }
                if c.to_end && !f[pos..].is_empty() { r.fail("kept", &f, "the end of the file changed".into()); return; }
            }
            None => {
                r.fail("kept", &f, format!("not found as written: {want:?}"));
                return;
            }
        }
    }
    rest.push_str(&f[pos..]);
    // 2. The rest is formatted as if there were no directives
    let g = r.fmt(&cut, &o);
    let (mut t1, d1) = lines(&rest);
    let (mut t2, d2) = lines(&g);
    if doc.contains("next-line") {
        // A list next to one that is kept cannot have the same marker, and a break after
        // one cannot be indented
        let plain = |v: &mut Vec<String>| for l in v.iter_mut() {
            *l = l.trim_start().to_string();
            for (a, b) in [("- ", "* "), ("1)", "1."), ("2)", "2.")] { if let Some(x) = l.strip_prefix(a) { *l = format!("{b}{x}"); } }
        };
        plain(&mut t1);
        plain(&mut t2);
    }
    if t1 != t2 { r.fail("rest", &f, format!("outside: {t1:#?}\nexpected: {t2:#?}")); }
    let all: Vec<&str> = f.lines().collect();
    for d in &d2 {
        let kept = d.split("]:").next().unwrap().to_string() + "]:";
        if !d1.contains(d) && !all.iter().any(|l| l.starts_with(&kept)) { r.fail("rest", &f, format!("definition missing: {d}")); }
    }
    for w in d1.windows(2) { if w[0] == w[1] { r.fail("rest", &f, format!("definition twice: {}", w[0])); } }
    // 3. Nothing that the kept text needs is lost
    let (a, b) = (norm::meaning_modulo(&doc, true, false), norm::meaning_modulo(&f, true, false));
    if a != b && !covers.is_empty() { r.fail("meaning", &f, format!("meaning before:\n{a}\nafter:\n{b}")); }
    // 4. It stays that way
    let h = r.fmt(&f, &o);
    if h != f { r.fail("again", &f, format!("formatted again: {h:?}")); }
}

fn seq(ix: &[usize]) -> Vec<(K, String)> {
    ix.iter().enumerate().map(|(i, x)| (ITEMS[*x].0, ITEMS[*x].1.replace('%', &i.to_string()))).collect()
}

pub fn run(e: &Engine) {
    let q = e.quick();
    let k = ITEMS.len() as u64;
    let n = if q { 3 } else { 4 };
    e.run(domain("items", "all sequences of up to 3 (thorough: 4) directives and blocks of all kinds, with definitions at the end or not", upto(k, n) * 2, |i, r| {
        let ix = upto_digits(i / 2, k, n);
        case(r, &seq(&ix), &vec!["\n\n"; ix.len()], if i % 2 == 0 { TAIL } else { "\n" }, "");
    }));
    // Longer histories over fewer kinds
    let core = 9u64;
    let n = if q { 5 } else { 6 };
    e.run(domain("histories", "all sequences of 4 and 5 (thorough: up to 6) of the five directives, a paragraph, a section heading, a list and links", upto(core, n) - upto(core, 3), |i, r| {
        let ix = upto_digits(i + upto(core, 3), core, n);
        case(r, &seq(&ix), &vec!["\n\n"; ix.len()], TAIL, "");
    }));
    let seps: &'static [&'static str] = &["\n", "\n\n", "\n\n\n\n"];
    // (blocks after a directive that matter for spacing)
    let few: &'static [usize] = &[5, 6, 7, 8, 11, 13, 15, 16, 21];
    let ends: &'static [&'static str] = &["", "\n", "\n\n\n", TAIL];
    let rx = [ends.len(), 3, 3, 3, 5, if q { few.len() } else { k as usize }, 6, if q { few.len() } else { k as usize }];
    e.run(domain("spacing", "directive, block, directive, block with no, one and three blank lines between them, after different ends", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let ix = [m[4], if q { few[m[5]] } else { m[5] }, m[6], if q { few[m[7]] } else { m[7] }];
        case(r, &seq(&ix), &[seps[m[1]], seps[m[2]], seps[m[3]]], ends[m[0]], "");
    }));
    let sets: &'static [&'static str] = &["plain=1 w=20", "h1=0 h2=0 um=* ls=0 ts=1", "sc=1 w=40", "ap=1 en=- em=0 fc=`"];
    let rx = [if q { 2 } else { sets.len() }, 9, k as usize, 9, k as usize];
    e.run(domain("options", "pairs of directives and blocks under other options", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        case(r, &seq(&m[1..]), &["\n\n"; 4], TAIL, sets[m[0]]);
    }));
    // Spellings of directives, and comments that are none
    let words: &'static [(&'static str, K)] = &[("disable", K::Disable), ("enable", K::Enable), ("disable-file", K::File), ("disable-next-line", K::Line), ("disable-next-section", K::Section)];
    let yes: &'static [&'static str] = &["<!-- hongdown-% -->", "<!--hongdown-%-->", "<!--   hongdown-%\t-->", "<!--\nhongdown-%\n-->", "  <!-- hongdown-% -->", "<!-- hongdown-% -->  "];
    let no: &'static [&'static str] = &["<!-- hongdown-%d -->", "<!-- hongdown -% -->", "<!-- hongdown-% x -->", "<!-- Hongdown-% -->", "<!-- x hongdown-% -->", "<!-- hongdown-% --> x", "<!-- hongdown-%", "<div>\n<!-- hongdown-% -->\n</div>", "    <!-- hongdown-% -->", "`<!-- hongdown-% -->`", "~~~\n<!-- hongdown-% -->\n~~~", "x <!-- hongdown-% -->", "<!-- hongdown-%: x -->", "\\<!-- hongdown-% -->", "<p><!-- hongdown-% --></p>"];
    let rx = [2, words.len(), yes.len() + no.len(), 20];
    e.run(domain("spellings", "every directive in every spelling, and comments and code that only look like one, before and after blocks", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let b = 5 + m[3];
        if m[2] < yes.len() {
            let d = (words[m[1]].1, yes[m[2]].replace('%', words[m[1]].0).trim_end().to_string());
            let mut v = seq(&[5, 0, b, 5]);
            v[1] = d;
            if m[0] == 1 { v.insert(1, (K::Disable, ITEMS[0].1.into())); }
            case(r, &v, &["\n\n"; 5], TAIL, "");
        } else {
            let d = (K::Block, no[m[2] - yes.len()].replace('%', words[m[1]].0));
            if m[0] == 1 { return; }
            let x = seq(&[5, b, 5]);
            // A document in which nothing is covered: the look-alike changes nothing else
            let doc = format!("{}\n\n{}\n\n{}\n\n{}\n", x[0].1, d.1, x[1].1, x[2].1);
            let plain = format!("{}\n\n{}\n\n{}\n\n{}\n", x[0].1, no[m[2] - yes.len()].replace("hongdown-%d", "nothing").replace("hongdown-%", "nothing").replace("hongdown -%", "nothing").replace("Hongdown-%", "nothing"), x[1].1, x[2].1);
            r.case(&doc, "");
            r.nontrivial = true;
            r.traces += 1;
            let o = opts::make("");
            let (f, g) = (r.fmt(&doc, &o), r.fmt(&plain, &o));
            let name = ["hongdown-%d", "hongdown -%", "Hongdown-%", "hongdown-%"].map(|n| n.replace('%', words[m[1]].0));
            let mut h = f.clone();
            for n in &name { h = h.replace(n.as_str(), "nothing"); }
            let mut g2 = g.clone();
            for n in &name { g2 = g2.replace(n.as_str(), "nothing"); }
            if h != g2 { r.fail("look-alike", &f, format!("with other words: {g:?}")); }
        }
    }));
    // Every character
    let cs = &characters(q);
    let rx = [if q { 1 } else { 4 }, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, at the start, in and at the end of lines under one of the kinds of directives (thorough: each)", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (c, m) = (cs[m[1]], (m[0] + m[1]) % 4);
        if m > 1 && c.is_ascii() { r.skipped += 1; return }
        let b = (K::Block, format!("x{c}y  z\n{c}...\nw \"q\"{c}\n{c}"));
        let one = |x: usize| (ITEMS[x].0, ITEMS[x].1.replace('%', "5"));
        let v = match m { 0 => vec![one(5), one(0), b, one(1), one(5)], 1 => vec![one(2), b, one(5)], 2 => vec![one(5), one(3), b, one(5)], _ => vec![one(5), one(4), b, one(6), one(5)] };
        let seps = vec!["\n\n"; v.len()];
        case(r, &v, &seps, "\n", "");
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 10, 2];
    e.run(domain("sizes", "one quantity at a time (covered blocks, covered regions, blocks before, lines, blank lines, words) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        let one = |x: usize, i: usize| (ITEMS[x].0, ITEMS[x].1.replace('%', &i.to_string()));
        let mut v = vec![one(5, 9000)];
        let all = |v: &mut Vec<(K, String)>, x: &[usize]| for i in 0..n { for y in x { v.push(one(*y, i)) } };
        match m[1] {
            0 => { v.push(one(0, 0)); all(&mut v, &[5]); v.push(one(1, 0)); }
            1 => all(&mut v, &[0, 5, 1]),
            2 => all(&mut v, &[3, 5]),
            3 => all(&mut v, &[4, 5, 6]),
            4 => { all(&mut v, &[5]); v.extend([one(0, 0), one(8, 0), one(1, 0)]); }
            5 => { v.push(one(2, 0)); all(&mut v, &[8]); }
            6 => { v.push(one(4, 0)); all(&mut v, &[10, 5]); v.push(one(6, 0)); }
            7 => { v.push(one(3, 0)); v.push((K::Block, (0..n).map(|i| format!("line{i}   ... \"q\"\n")).collect::<String>().trim_end().into())); }
            8 => { v.push(one(0, 0)); v.push((K::Block, format!("a{}b...", "\n".repeat(n + 1)))); v.push(one(1, 0)); }
            _ => { v.push(one(0, 0)); v.push((K::Block, format!("a{}...", " w".repeat(n)))); v.push(one(1, 0)); }
        }
        v.push(one(5, 9001));
        let seps = vec!["\n\n"; v.len()];
        if v.len() > 700 { r.skipped += 1; return }
        case(r, &v, &seps, [TAIL, "\n"][m[2]], "");
    }));
}
