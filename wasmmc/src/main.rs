//! wasmmc: the functions of the WebAssembly package, run natively, against the library.
//!
//! wasmmc check C22 [DOMAIN INDEX]   decide the property, or replay one case
//! wasmmc call                       one call, from and to JSON (for the JavaScript side)
#[path = "../../harness/src/core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../../harness/src/docs.rs"]
#[allow(dead_code)]
mod docs;
#[path = "../../harness/src/opts.rs"]
#[allow(dead_code)]
mod opts;
#[path = "../../harness/src/tree.rs"]
#[allow(dead_code)]
mod tree;
mod script;
mod values;

use core::*;
use hongdown::Options;
use js_sys::Function;
use std::cell::RefCell;
use std::rc::Rc;
use values::*;
use wasm_bindgen::{JsError, JsValue};

unsafe extern "Rust" {
    safe fn hdmock_format(input: &str, options: JsValue) -> Result<String, JsError>;
    #[link_name = "hdmock_formatWithWarnings"]
    safe fn hdmock_warnings(input: &str, options: JsValue) -> Result<JsValue, JsError>;
    #[link_name = "hdmock_formatWithCodeFormatter"]
    safe fn hdmock_code(input: &str, options: JsValue, f: Option<Function>) -> Result<JsValue, JsError>;
}

/// What the library gives: the text and the warnings
pub type Answer = (String, Vec<(usize, String)>);
pub fn library(doc: &str, o: &Options) -> Answer {
    let r = hongdown::format_with_warnings(doc, o).unwrap();
    (r.output, r.warnings.into_iter().map(|w| (w.line, w.message)).collect())
}
/// An answer of the package, if it has the documented shape
pub fn answer(v: &JsValue) -> Option<Answer> {
    let JsValue::Array(w) = v.get("warnings") else { return None };
    let w = w.iter().map(|w| Some((w.get("line").as_f64()? as usize, w.get("message").as_string()?))).collect::<Option<Vec<_>>>()?;
    Some((v.get("output").as_string()?, w))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry { Format, Warnings, Code, Keeping }
pub const ENTRIES: [Entry; 4] = [Entry::Format, Entry::Warnings, Entry::Code, Entry::Keeping];

/// Call the package
pub fn call(entry: Entry, doc: &str, o: JsValue, f: Option<Function>) -> Result<Answer, String> {
    let shape = |v: Result<JsValue, JsError>| v.map_err(|e| e.0).and_then(|v| answer(&v).ok_or(format!("result {v:?}")));
    match entry {
        Entry::Format => hdmock_format(doc, o).map(|s| (s, vec![])).map_err(|e| e.0),
        Entry::Warnings => shape(hdmock_warnings(doc, o)),
        Entry::Code => shape(hdmock_code(doc, o, f)),
        Entry::Keeping => shape(hdmock_code(doc, o, Some(Function::new(|_| Ok(JsValue::Null))))),
    }
}

fn same(r: &mut Rec, entry: Entry, doc: &str, js: JsValue, want: &Answer) {
    r.calls += 1;
    r.traces += 1;
    match call(entry, doc, js, None) {
        Err(e) => r.fail("error", &e, format!("{entry:?}: {e}")),
        Ok(got) => {
            if got.0 != want.0 { r.fail("output", &got.0, format!("{entry:?}: the library gives {:?}", want.0)); }
            if entry != Entry::Format && got.1 != want.1 { r.fail("warnings", &format!("{:?}", got.1), format!("{entry:?}: the library gives {:?}", want.1)); }
        }
    }
}

fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    let v = fields();
    let v: &'static [Value] = Box::leak(v.into_boxed_slice());
    let n = v.len();
    let object = |xs: &[&Value]| JsValue::Object(xs.iter().map(|x| (x.field.to_string(), x.js.clone())).collect());
    let base = [vec![], sentence()];
    let base: &'static [Vec<Value>; 2] = Box::leak(Box::new(base));
    // One field, on every document that shows it
    let rx = [2, DOCS.len(), ENTRIES.len(), n];
    e.run(domain("fields", "every value (valid, out of range, null, undefined) of every field × sentence case off and on × documents × entry points", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let x = &v[m[3]];
        let mut xs: Vec<&Value> = base[m[0]].iter().filter(|b| b.field != x.field).collect();
        xs.push(x);
        let mut o = Options::default();
        for x in &xs { (x.set)(&mut o); }
        let want = library(DOCS[m[1]], &o);
        r.case(DOCS[m[1]], &format!("{:?} {:?}", object(&xs), ENTRIES[m[2]]));
        let mut plain = Options::default();
        for x in &base[m[0]] { (x.set)(&mut plain); }
        r.nontrivial = want != library(DOCS[m[1]], &plain);
        same(r, ENTRIES[m[2]], DOCS[m[1]], object(&xs), &want);
    }));
    // Numbers over a range, each on a document whose result differs from one to the next
    let wide: &'static str = Box::leak(format!("{}\n", ["a"; 1200].join(" ")).into_boxed_str());
    let top = 2049u64;
    let numbers: [(&'static str, &'static str, usize, fn(&mut Options, usize) -> Option<()>); 7] = [
        ("lineWidth", wide, usize::MAX, |o, n| hongdown::config::LineWidth::new(n).ok().map(|x| o.line_width = x)),
        ("indentWidth", "- a\n\n  - b\n\n    c\n", 1 << 17, |o, n| hongdown::config::IndentWidth::new(n).ok().map(|x| o.indent_width = x)),
        ("orderedListIndentWidth", "1. a\n\n   1. b\n\n      c\n", 1 << 17, |o, n| hongdown::config::IndentWidth::new(n).ok().map(|x| o.ordered_list_indent_width = x)),
        ("minFenceLength", "```\nc\n```\n", 1 << 17, |o, n| hongdown::config::MinFenceLength::new(n).ok().map(|x| o.min_fence_length = x)),
        ("leadingSpaces", "- a\n", 1 << 17, |o, n| hongdown::config::LeadingSpaces::new(n).ok().map(|x| o.leading_spaces = x)),
        ("trailingSpaces", "- a\n", 1 << 17, |o, n| hongdown::config::TrailingSpaces::new(n).ok().map(|x| o.trailing_spaces = x)),
        ("thematicBreakLeadingSpaces", "***\n", 1 << 17, |o, n| hongdown::config::LeadingSpaces::new(n).ok().map(|x| o.thematic_break_leading_spaces = x)),
    ];
    let rx = [numbers.len(), top as usize + 3 * 21];
    e.run(domain("numbers", "every numeric field × every number to 2048, and the powers of two to 2^32 with their neighbours", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (field, doc, most, set) = &numbers[m[0]];
        let n = match m[1] as u64 { x if x < top => x, x => { let x = x - top; (1u64 << (12 + x / 3)) + x % 3 - 1 } };
        if n as usize > *most { r.skipped += 1; return }
        let mut o = Options::default();
        r.nontrivial = set(&mut o, n as usize).is_some();
        let js = JsValue::Object(vec![(field.to_string(), JsValue::Num(n as f64))]);
        r.case(doc, &format!("{js:?}"));
        same(r, Entry::Warnings, doc, js, &library(doc, &o));
    }));
    // Pairs and triples
    const SOME: [Entry; 2] = [Entry::Warnings, Entry::Code];
    let entries: &'static [Entry] = if deep { &ENTRIES } else { &SOME };
    let rx = [2, entries.len(), n, n];
    e.run(domain("pairs", "all pairs of values of two fields × sentence case off and on × entry points (thorough: all), on a document that shows all of them", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (a, b) = (&v[m[2]], &v[m[3]]);
        if m[2] >= m[3] || a.field == b.field { r.skipped += 1; return }
        let mut xs: Vec<&Value> = base[m[0]].iter().filter(|c| c.field != a.field && c.field != b.field).collect();
        // both orders of the fields in the object
        if m[2] % 2 == 0 { xs.extend([a, b]); } else { xs.extend([b, a]); }
        let mut o = Options::default();
        for x in &xs { (x.set)(&mut o); }
        r.case(DOCS[0], &format!("{:?} {:?}", object(&xs), entries[m[1]]));
        r.nontrivial = true;
        same(r, entries[m[1]], DOCS[0], object(&xs), &library(DOCS[0], &o));
    }));
    if deep {
        let rx = [n, n, n];
        e.run(domain("triples", "all triples of values of three fields, on a document that shows all of them", volume(&rx), |i, r| {
            let m = mixed(i, &rx);
            let xs = [&v[m[0]], &v[m[1]], &v[m[2]]];
            if m[0] >= m[1] || m[1] >= m[2] || xs[0].field == xs[1].field || xs[1].field == xs[2].field || xs[0].field == xs[2].field { r.skipped += 1; return }
            let mut o = Options::default();
            for x in &xs { (x.set)(&mut o); }
            r.case(DOCS[0], &format!("{:?}", object(&xs)));
            r.nontrivial = true;
            same(r, Entry::Warnings, DOCS[0], object(&xs), &library(DOCS[0], &o));
        }));
    }
    // Values of a wrong type are refused, or leave the default; what is no dash pattern may
    // also mean no dashes (the documentation leaves it open)
    let wrong = wrong();
    let wrong: &'static [(&'static str, JsThunk)] = Box::leak(wrong.into_boxed_slice());
    let rx = [ENTRIES.len(), wrong.len()];
    e.run(domain("types", "every field with values of other types, and dashes with what is no pattern: an error, the default or no dash", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (f, js) = (&wrong[m[1]].0, wrong[m[1]].1());
        let o = JsValue::Object(vec![(f.to_string(), js)]);
        r.case(DOCS[0], &format!("{o:?} {:?}", ENTRIES[m[0]]));
        r.calls += 1;
        r.nontrivial = true;
        if let Ok(got) = call(ENTRIES[m[0]], DOCS[0], o, None) {
            let mut other = Options::default();
            if *f == "enDash" { other.en_dash = hongdown::config::DashSetting::Disabled; }
            if *f == "emDash" { other.em_dash = hongdown::config::DashSetting::Disabled; }
            if [Options::default(), other].iter().all(|o| library(DOCS[0], o).0 != got.0) { r.fail("type", &got.0, "neither refused nor the default".into()); }
        }
    }));
    let objects: &'static [fn() -> JsValue] = &[|| JsValue::Undefined, || JsValue::Null, || JsValue::Object(vec![]), || JsValue::Object(vec![("unknown".into(), JsValue::Num(3.0))]), || JsValue::Object(vec![("line_width".into(), JsValue::Num(20.0)), ("setext_h1".into(), JsValue::Bool(false))])];
    let rx = [objects.len(), DOCS.len(), ENTRIES.len()];
    e.run(domain("objects", "no options, empty ones, and unknown names × documents × entry points", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let o = objects[m[0]]();
        r.case(DOCS[m[1]], &format!("{o:?} {:?}", ENTRIES[m[2]]));
        same(r, ENTRIES[m[2]], DOCS[m[1]], o, &library(DOCS[m[1]], &Options::default()));
    }));
    // All documents: the package parses and formats as the library does
    let sets: &'static [(&'static str, JsThunk)] = &[
        ("", || JsValue::Undefined),
        ("sc=1 w=40 en=- ap=1", || JsValue::Object(vec![("headingSentenceCase".into(), true.into()), ("lineWidth".into(), 40.0.into()), ("enDash".into(), "-".into()), ("curlyApostrophes".into(), true.into())])),
    ];
    let nc = tree::CONTAINERS.len() as u64;
    let depth = if deep { 3 } else { 2 };
    let rx = [sets.len(), ENTRIES.len(), 4, tree::LEAVES, upto(nc, depth) as usize];
    e.run(domain("trees", "every block in every path of up to two (thorough: three) containers × neighbours × entry points × two option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let p = upto_digits(m[4] as u64, nc, depth);
        if !tree::allowed(&p) { r.skipped += 1; return }
        let doc = tree::build(&p, m[3], m[2]);
        r.case(&doc, &format!("{} {:?}", sets[m[0]].0, ENTRIES[m[1]]));
        same(r, ENTRIES[m[1]], &doc, (sets[m[0]].1)(), &library(&doc, &opts::make(sets[m[0]].0)));
    }));
    let lines: &'static [&'static str] = &["a", "", "# H", "- x", "[^1]", "[^1]: n", "[r]", "[r]: /u", "[u][v]", "| a | b |", "| --- | --- |", "| 1 |", "---", "~~~~ x", "> [!NOTE]", "> q", "Term", ":   d", "- [ ] t", "\"q\" -- it's...", "*[A]: B", "<!-- hongdown-disable -->", "a\r", "\u{0}b", "---\r", "    c"];
    let k = lines.len() as u64;
    let n = 4;
    let entries: &'static [Entry] = if deep { &ENTRIES } else { &SOME };
    let rx = [entries.len(), upto(k, n) as usize];
    e.run(domain("lines", "all documents of up to four of twenty-six lines, with carriage returns and NUL, × entry points", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let doc: String = upto_digits(m[1] as u64, k, n).iter().map(|d| format!("{}\n", lines[*d])).collect();
        r.case(&doc, &format!("{:?}", entries[m[0]]));
        same(r, entries[m[0]], &doc, JsValue::Undefined, &library(&doc, &Options::default()));
    }));
    // Sizes: nothing gives out at some number
    let ns = sizes(!deep);
    let ns: &'static [usize] = Box::leak(ns.into_boxed_slice());
    let units: &'static [&'static str] = &["[a%] ", "[a%]\n\n", "a[^%]\n\n", "a [b](http://x/%)\n\n", "## H%\n\n", "~~~~ x\nc%\n~~~~\n\n", "- a%\n", "| a% |", "> ", "a% \"b\" -- c ", "\n", "    a%\n", "[^%]: n\n", "- [ ] [b%]\n\n"];
    let rx = [ENTRIES.len(), units.len(), ns.len()];
    e.run(domain("sizes", "every construct (most with a warning) repeated 1 to 70 (thorough: 150) and selected numbers of times up to 1025 × entry points", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[2]];
        if units[m[1]] == "> " && n > 300 { r.skipped += 1; return }
        let doc = (0..n).map(|x| units[m[1]].replace('%', &x.to_string())).collect::<String>() + "[z]\n";
        r.case(&doc, &format!("{:?}", ENTRIES[m[0]]));
        r.nontrivial = n > 1;
        same(r, ENTRIES[m[0]], &doc, JsValue::Undefined, &library(&doc, &Options::default()));
    }));
    // The callback
    let kinds: &'static [(&'static str, bool)] = &[(" x", false), (" y z", false), ("", false), (" x hongdown-no-format", false), ("", true), ("x", false), (" X", false), ("\ty", false)];
    let answers: &'static [&'static str] = &["upper", "null", "undefined", "throws", "number", "bool", "object", "empty", "bare", "crlf", "fence", "x only", "language"];
    let places: &'static [&'static [usize]] = &[&[], &[2], &[0], &[7], &[6], &[1], &[3], &[4], &[5], &[0, 2], &[2, 0]];
    let n = if deep { 3 } else { 2 };
    let rx = [2, 2, places.len(), answers.len(), upto(kinds.len() as u64, n) as usize];
    e.run(domain("callback", "up to two (thorough: three) code blocks of eight kinds × eleven places × thirteen kinds of answers × with and without a default language × the same code in all blocks or not", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let blocks: Vec<(&str, bool, String)> = upto_digits(m[4] as u64, kinds.len() as u64, n).iter().enumerate().map(|(j, k)| (kinds[*k].0, kinds[*k].1, format!("code {}\nend\n", j * m[0]))).collect();
        if blocks.is_empty() || (m[0] == 0 && blocks.len() == 1) { r.skipped += 1; return }
        let dl = ["", "y"][m[1]];
        let how = answers[m[3]];
        let reply = |lang: &str, code: &str| match how {
            "upper" => Some(code.to_uppercase()), "empty" => Some(String::new()), "bare" => Some("no line end".into()),
            "crlf" => Some("a\r\nb\r\n".into()), "fence" => Some("~~~~~\n```\n".into()), "x only" if lang == "x" => Some("only x\n".into()), "language" => Some(format!("{lang}\n{code}")), _ => None,
        };
        let text = |new: bool| {
            let mut v: Vec<String> = vec![];
            for (info, indented, code) in &blocks {
                if !v.is_empty() { v.extend(["".into(), "Text".into(), "".into()]); }
                let words: Vec<&str> = info.split([' ', '\t']).filter(|w| !w.is_empty()).collect();
                let lang = words.first().copied().unwrap_or(dl);
                let c = if new && !lang.is_empty() && !words.contains(&"hongdown-no-format") { reply(lang, code) } else { None };
                match c {
                    None if *indented => v.extend(code.lines().map(|l| format!("    {l}"))),
                    c => { v.push(format!("~~~~~~~~{info}")); v.extend(c.as_deref().unwrap_or(code).lines().map(|l| l.to_string())); v.push("~~~~~~~~".into()); }
                }
            }
            for c in places[m[2]].iter().rev() { v = tree::wrap(*c, v); }
            v.join("\n") + "\n"
        };
        let doc = text(false);
        // an indented block is not one in some containers
        let have = codes(&doc);
        if have.len() != blocks.len() || have.iter().zip(&blocks).any(|(a, b)| *a != b.2) { r.skipped += 1; return }
        let mut want_calls: Vec<(String, String)> = blocks.iter().filter_map(|(info, _, code)| {
            let words: Vec<&str> = info.split([' ', '\t']).filter(|w| !w.is_empty()).collect();
            let lang = words.first().copied().unwrap_or(dl);
            (!lang.is_empty() && !words.contains(&"hongdown-no-format")).then(|| (lang.to_string(), code.clone()))
        }).collect();
        let mut o = Options::default();
        o.default_language = dl.into();
        let want = library(&text(true), &o);
        r.case(&doc, &format!("{how} {dl}"));
        r.nontrivial = !want_calls.is_empty();
        r.calls += 1;
        r.traces += 1;
        let calls: Rc<RefCell<Vec<(String, String)>>> = Default::default();
        let log = calls.clone();
        let f = Function::new(move |a| {
            let (l, c) = (a[0].as_string().unwrap_or("?".into()), a[1].as_string().unwrap_or("?".into()));
            log.borrow_mut().push((l.clone(), c.clone()));
            Ok(match how {
                "null" => JsValue::Null, "undefined" => JsValue::Undefined, "throws" => return Err("failed".into()), "number" => JsValue::Num(1.0), "bool" => JsValue::Bool(true),
                "object" => JsValue::Object(vec![("code".into(), "x".into())]), "upper" => JsValue::Str(c.to_uppercase()), "empty" => JsValue::Str(String::new()),
                "bare" => "no line end".into(), "crlf" => "a\r\nb\r\n".into(), "fence" => "~~~~~\n```\n".into(), "language" => JsValue::Str(format!("{l}\n{c}")), _ => if l == "x" { "only x\n".into() } else { JsValue::Null },
            })
        });
        let js = JsValue::Object(vec![("defaultLanguage".into(), dl.into())]);
        match call(Entry::Code, &doc, js, Some(f)) {
            Err(e) => r.fail("error", &e, e.clone()),
            Ok(got) => if got != want { r.fail("callback", &got.0, format!("{:?}, expected {want:?}", got.1)) },
        }
        let mut calls = calls.borrow().clone();
        calls.sort();
        want_calls.sort();
        if calls != want_calls { r.fail("calls", &format!("{calls:?}"), format!("expected {want_calls:?}")); }
    }));
    script::run(e);
}

/// The code of a document's blocks
fn codes(doc: &str) -> Vec<String> {
    let arena = comrak::Arena::new();
    let mut o = comrak::Options::default();
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.description_lists = true;
    o.extension.tasklist = true;
    comrak::parse_document(&arena, doc, &o).descendants().filter_map(|n| match &n.data.borrow().value { comrak::nodes::NodeValue::CodeBlock(c) => Some(c.literal.clone()), _ => None }).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("call") => script::serve(),
        Some("check") => {
            let only = a.get(3).map(|d| (d.clone(), a[4].parse().unwrap()));
            let e = Engine::new("C22", "model_checking", only);
            run(&e);
            std::process::exit(e.finish());
        }
        _ => eprintln!("usage: wasmmc check C22 [DOMAIN INDEX]"),
    }
}
