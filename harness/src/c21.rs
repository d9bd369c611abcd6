//! C21: external code formatters are used safely.
//!
//! The formatters are scripted actors (this program again): every order of what a formatter
//! can do with its pipes and its end, up to a depth, is run by the real library and command.
//! A model of each script says what it answers; the rest of the document must come out as if
//! the answer had been in the source.
use crate::cli::*;
use crate::core::*;
use crate::{c04, opts, tree};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn raise(sig: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

const SMALL: &str = "out\n";
fn large(c: char) -> String { format!("{}\n", c.to_string().repeat(1999)).repeat(100) }

/// `hdmc actor LOG SCRIPT [ARG…]`: what a formatter does, one letter after the other
pub fn actor(a: &[String]) -> ! {
    let log = &a[0];
    let pid = std::process::id();
    let _ = std::fs::write(format!("{log}/{pid}.args"), a[2..].join("\u{1}"));
    let mut files: Vec<Option<File>> = (0..3).map(|i| Some(unsafe { File::from_raw_fd(i) })).collect();
    let mut read: Vec<u8> = vec![];
    let mut said = 0;
    let put = |f: &mut Option<File>, b: &[u8]| { if let Some(f) = f { let _ = f.write_all(b); } };
    for c in a[1].chars() {
        match c {
            'r' => if let Some(f) = &mut files[0] {
                let _ = f.read_to_end(&mut read);
                let _ = std::fs::write(format!("{log}/{pid}.in"), &read);
            },
            'h' => if let Some(f) = &mut files[0] {
                let mut b = [0; 10];
                if let Ok(n) = f.read(&mut b) { read.extend(&b[..n]); }
            },
            'i' => files[0] = None,
            'c' => files[1] = None,
            'C' => files[2] = None,
            'o' => put(&mut files[1], SMALL.as_bytes()),
            'O' => put(&mut files[1], large('o').as_bytes()),
            'e' => put(&mut files[2], b"complaint\n"),
            'E' => put(&mut files[2], large('e').as_bytes()),
            'b' => put(&mut files[1], b"caf\xe9\n"),
            'n' => put(&mut files[1], b"crlf\r\nend"),
            'y' => { put(&mut files[1], &read[said..]); said = read.len(); }
            'u' => put(&mut files[1], String::from_utf8_lossy(&read).to_uppercase().as_bytes()),
            's' => std::thread::sleep(Duration::from_millis(70)),
            'm' => std::thread::sleep(Duration::from_millis(700)),
            'l' => std::thread::sleep(Duration::from_millis(2600)),
            'd' => std::thread::sleep(Duration::from_millis(1800)),
            '0' => std::process::exit(0),
            '1' => std::process::exit(1),
            '9' => std::process::exit(129),
            'k' => unsafe { raise(9); },
            'a' => unsafe { raise(15); },
            'S' => std::thread::sleep(Duration::from_secs(100)),
            'T' => unsafe { raise(19); },
            'I' => { for s in [1, 2, 13, 15] { unsafe { signal(s, 1); } } }
            'L' => loop { if let Some(f) = &mut files[1] { if f.write_all(b"more and more\n").is_err() { break } } else { break } std::thread::sleep(Duration::from_millis(5)); },
            'G' => { let _ = std::process::Command::new("sleep").arg("3").spawn(); }
            _ => {}
        }
    }
    std::process::exit(0)
}

enum Answer { Text(String), Fails(&'static str) }

/// What a script answers to this code
fn model(script: &str, code: &str) -> Answer {
    let mut out: Vec<u8> = vec![];
    let (mut read, mut said, mut open_in, mut open_out) = (0, 0, true, true);
    for c in script.chars() {
        let mut put = |b: &[u8]| if open_out { out.extend(b) };
        match c {
            'r' if open_in => read = code.len(),
            'h' if open_in => read = (read + 10).min(code.len()),
            'i' => open_in = false,
            'c' => open_out = false,
            'o' => put(SMALL.as_bytes()),
            'O' => put(large('o').as_bytes()),
            'b' => put(b"caf\xe9\n"),
            'n' => put(b"crlf\r\nend"),
            'y' => { put(&code.as_bytes()[said..read]); said = read; }
            'u' => put(code[..read].to_uppercase().as_bytes()),
            '0' => break,
            '1' => return Answer::Fails("1"),
            '9' => return Answer::Fails("129"),
            'k' | 'a' => return Answer::Fails("signal"),
            'S' | 'T' | 'L' => return Answer::Fails("time"),
            _ => {}
        }
    }
    match String::from_utf8(out) { Ok(t) => Answer::Text(t), Err(_) => Answer::Fails("utf") }
}

fn me() -> String { std::env::current_exe().unwrap().to_string_lossy().into_owned() }
fn command(log: &Scratch, script: &str) -> Vec<String> { vec![me(), "actor".into(), log.0.to_string_lossy().into_owned(), script.into()] }

/// What the actors have left: what each read to the end, its arguments, and whether it is still there
struct Left { inputs: Vec<String>, args: Vec<String>, alive: Vec<String> }
fn left(log: &Scratch) -> Left {
    let mut l = Left { inputs: vec![], args: vec![], alive: vec![] };
    let Ok(d) = std::fs::read_dir(&log.0) else { return l };
    for f in d.flatten() {
        let n = f.file_name().to_string_lossy().into_owned();
        let text = || String::from_utf8_lossy(&std::fs::read(f.path()).unwrap_or_default()).into_owned();
        if n.ends_with(".in") { l.inputs.push(text()); }
        if let Some(pid) = n.strip_suffix(".args") {
            l.args.push(text());
            let there = || {
                let st = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
                let mut f = st.rsplit(')').next().unwrap_or("").split_whitespace();
                let zombie = f.next() == Some("Z") && f.next() == Some(&std::process::id().to_string());
                let cmd = std::fs::read(format!("/proc/{pid}/cmdline")).unwrap_or_default();
                zombie || String::from_utf8_lossy(&cmd).contains(&*log.0.to_string_lossy())
            };
            if there() { std::thread::sleep(Duration::from_millis(300)); if there() { l.alive.push(pid.into()); } }
        }
    }
    l.inputs.sort();
    l
}

/// One code block of a document
#[derive(Clone)]
struct Block { info: String, code: String, indented: bool }
impl Block {
    fn lines(&self, code: &str) -> Vec<String> {
        // an answer that ends without a line end is a line all the same
        if self.indented && !code.trim().is_empty() { return code.lines().map(|l| if l.is_empty() { String::new() } else { format!("    {l}") }).collect() }
        let f = "~".repeat(20);
        let mut v = vec![format!("{f}{}", self.info)];
        v.extend(code.lines().map(|l| l.to_string()));
        v.push(f);
        v
    }
}

/// What a formatter for a language is like
#[derive(Clone)]
struct Tool { lang: String, script: String, timeout: u64 }

/// Lines before the code of a block that make a directive apply to it
fn document(path: &[usize], blocks: &[(Block, Option<String>)], head: &str, between: &str) -> (String, Vec<usize>) {
    let mut v: Vec<String> = head.lines().map(|l| l.to_string()).collect();
    let mut at = vec![];
    let mut body: Vec<String> = vec![];
    for (i, (b, new)) in blocks.iter().enumerate() {
        if i > 0 { body.push(String::new()); body.extend(between.lines().map(|l| l.to_string())); body.push(String::new()); }
        at.push(body.len());
        body.extend(b.lines(new.as_deref().unwrap_or(&b.code)));
    }
    // where the body begins below what its containers put before it
    let marked: Vec<String> = body.iter().map(|_| "mark".to_string()).collect();
    let mut m = marked;
    for c in path.iter().rev() { m = tree::wrap(*c, m); body = tree::wrap(*c, body); }
    let first = m.iter().position(|l| l.contains("mark")).unwrap();
    let base = v.len() + first + 1;
    v.extend(body);
    (v.join("\n") + "\n", at.iter().map(|a| a + base).collect())
}

/// Run a document with tools, and compare with the answers of the model
fn judge(r: &mut Rec, path: &[usize], blocks: &[Block], head: &str, between: &str, tools: &[Tool], spec: &str) {
    let log = Scratch::new();
    let o0 = opts::make(spec);
    let mut o = opts::make(spec);
    for t in tools { o.code_formatters.insert(t.lang.clone(), hongdown::CodeFormatter { command: command(&log, &t.script), timeout_secs: t.timeout }); }
    let plain: Vec<_> = blocks.iter().map(|b| (b.clone(), None)).collect();
    let (doc, lines) = document(path, &plain, head, between);
    // what CommonMark makes of the source, e.g. of tabs or of indentation in containers
    if tools.len() + blocks.len() > 2 || !path.is_empty() {
        let have: Vec<String> = c04::codes(&doc).0.into_iter().map(|b| b.literal).collect();
        if have != blocks.iter().map(|b| b.code.clone()).collect::<Vec<_>>() { r.skipped += 1; return }
    }
    let (mut want, mut warns, mut inputs, mut calls) = (vec![], vec![], vec![], 0);
    for (b, line) in blocks.iter().zip(&lines) {
        let words: Vec<&str> = if b.indented { vec![] } else { b.info.split([' ', '\t']).filter(|w| !w.is_empty()).collect() };
        let lang = words.first().copied().unwrap_or(&o.default_language);
        let tool = tools.iter().find(|t| t.lang == lang && !words.contains(&"hongdown-no-format"));
        let mut new = None;
        if let Some(t) = tool {
            calls += 1;
            if let Some(p) = t.script.find('r') && !t.script[..p].contains('i') && t.timeout > 0 { inputs.push(b.code.clone()); }
            match model(&t.script, &b.code) { Answer::Text(s) => new = Some(s), Answer::Fails(w) => warns.push((*line, w, lang.to_string())) }
        }
        want.push((b.clone(), new));
    }
    let (wanted, _) = document(path, &want, head, between);
    let shown = if doc.len() > 3000 { format!("{}… ({} bytes)", doc.chars().take(300).collect::<String>(), doc.len()) } else { doc.clone() };
    r.case(&shown, &format!("{spec} {}", tools.iter().map(|t| format!("{}:{}:{}", t.lang, t.script, t.timeout)).collect::<Vec<_>>().join(" ")));
    let t0 = Instant::now();
    let got = hongdown::format_with_warnings(&doc, &o).unwrap();
    let time = t0.elapsed();
    let w = hongdown::format_with_warnings(&wanted, &o0).unwrap();
    r.calls += 1;
    r.traces += 1;
    r.nontrivial = calls > 0;
    if got.output != w.output { r.fail("output", &clip(&got.output), format!("expected {:?}", clip(&w.output))); }
    let bad: Vec<(usize, String)> = got.warnings.iter().filter(|x| !w.warnings.iter().any(|y| y.message == x.message)).map(|x| (x.line, x.message.clone())).collect();
    if bad.len() != warns.len() { r.fail("warnings", &format!("{bad:?}"), format!("expected {warns:?}")); }
    else {
        let mut rest = bad.clone();
        for (line, what, _) in &warns {
            if let Some(p) = rest.iter().position(|(l, m)| l == line && m.to_lowercase().contains(what)) { rest.remove(p); }
            else { r.fail("warning", &format!("{bad:?}"), format!("expected {warns:?}")); break }
        }
    }
    let limit: u64 = 20 + tools.iter().map(|t| t.timeout).sum::<u64>();
    if time > Duration::from_secs(limit) { r.fail("slow", "", format!("took {time:?}")); }
    let l = left(&log);
    if !l.alive.is_empty() { r.fail("left", "", format!("processes left: {:?}", l.alive)); }
    inputs.sort();
    if tools.iter().all(|t| t.timeout > 0) {
        if l.args.len() != calls { r.fail("calls", &l.args.len().to_string(), format!("{} runs instead of {calls}", l.args.len())); }
        if l.inputs != inputs { r.fail("input", &clip(&format!("{:?}", l.inputs)), format!("expected {:?}", clip(&format!("{inputs:?}")))); }
    }
}
fn clip(s: &str) -> String { if s.len() > 600 { format!("{}… {} bytes, hash {:x}", s.chars().take(300).collect::<String>(), s.len(), fnv(&[s])) } else { s.into() } }

fn tool(script: &str, timeout: u64) -> Tool { Tool { lang: "x".into(), script: script.into(), timeout } }
fn block(info: &str, code: &str) -> Block { Block { info: info.into(), code: code.into(), indented: false } }
fn sized(n: usize) -> String {
    let mut s = "c".repeat(n.saturating_sub(1));
    // lines of a thousand characters
    for i in (999..s.len()).step_by(1000) { s.replace_range(i..=i, "\n"); }
    s.push('\n');
    s
}

fn many(name: &str, rule: &str, total: u64, run: impl Fn(u64, &mut Rec) + Sync + 'static) -> Domain<'static> {
    let mut d = domain(name, rule, total, run);
    d.threads = 64;
    d
}

pub fn run(e: &Engine) {
    let q = e.quick();
    const DEFAULT: u64 = 5;
    // Everything a formatter can do with its pipes, in every order
    let acts: &'static [char] = &['r', 'h', 'i', 'o', 'O', 'e', 'E', 'b', 'y', 'c', 's', 'C'];
    let ends: &'static [char] = if q { &['0', '1', 'k'] } else { &['0', '1', '9', 'k', 'a'] };
    let sizes: &'static [usize] = if q { &[21, 200_000] } else { &[1, 21, 65_537, 200_000] };
    let n = 3;
    let rx = [upto(acts.len() as u64, n) as usize, ends.len(), sizes.len()];
    e.run(many("scripts", "all sequences of up to three steps (read all or some of the input, close it, write little or much to stdout or stderr, invalid text, echo, close stdout or stderr, pause) × exit 0, exit 1, killed (thorough: exit 129, SIGTERM) × short and long code", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        let s: String = upto_digits(m[0] as u64, acts.len() as u64, n).iter().map(|d| acts[*d]).chain([ends[m[1]]]).collect();
        judge(r, &[], &[block(" x", &sized(sizes[m[2]]))], "", "", &[tool(&s, 20)], "");
    }));
    if !q {
        let acts: &'static [char] = &['r', 'h', 'i', 'o', 'O', 'E', 'y', 'c', 's'];
        let rx = [9usize.pow(4), 2, 2];
        e.run(many("longer-scripts", "all sequences of four steps of nine × exit 0 or 1 × short and long code", volume(&rx), move |i, r| {
            let m = mixed(i, &rx);
            let s: String = digits(m[0] as u64, 9, 4).iter().map(|d| acts[*d]).chain([['0', '1'][m[1]]]).collect();
            judge(r, &[], &[block(" x", &sized([21, 200_000][m[2]]))], "", "", &[tool(&s, 20)], "");
        }));
    }
    // Not ending in time
    let acts: &'static [&'static str] = &["", "r", "h", "i", "o", "O", "e", "E", "b", "y", "c", "C", "ry", "rO", "Or", "oE", "ic", "icC", "rcC"];
    let hangs: &'static [&'static str] = &["S", "IS", "T", "L", "l", "m"];
    let rx = [acts.len(), hangs.len(), 3, 2];
    e.run(many("time", "nineteen beginnings × sleeping on, ignoring signals, stopped, writing without end, ending after 2.6 s or 0.7 s × a timeout of 0 s, 1 s or 6 s (where the actor ends) × short and long code", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        let t = [0, 1, 6][m[2]];
        let (a, h) = (acts[m[0]], hangs[m[1]]);
        // with closed pipes, or for a second, nothing to wait for, or too close to call
        let ends = "lm".contains(h);
        if t == 6 && !ends || h == "m" && t == 1 || h == "L" && a.contains('c') { r.skipped += 1; return }
        // an actor that ends too late is one that does not end
        let s = if ends && t < 6 { format!("{a}{h}S") } else { format!("{a}{h}0") };
        judge(r, &[], &[block(" x", &sized([21, 200_000][m[3]]))], "", "", &[tool(&s, t)], "");
    }));
    e.run(many("late", "a formatter that ends 1.6 s after its timeout of 1 s, well or not, having said all or nothing before", 8, move |i, r| {
        let m = mixed(i, &[2, 4]);
        let s = [["ryl0", "lry0", "ryl1", "l0"], ["rycl0", "cl0", "rycCl0", "il0"]][m[0]][m[1]];
        let log = Scratch::new();
        let mut o = opts::make("");
        o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: command(&log, s), timeout_secs: 1 });
        let doc = "~~~~ x\nab\n~~~~\n";
        r.case(doc, s);
        r.nontrivial = true;
        r.calls += 1;
        let g = hongdown::format_with_warnings(doc, &o).unwrap();
        if g.output != doc || g.warnings.len() != 1 || !g.warnings[0].message.contains("time") { r.fail("late", &g.output, format!("{:?}", g.warnings)); }
        if !left(&log).alive.is_empty() { r.fail("left", "", "a process is left".into()); }
    }));
    // Late by less than a second. (The command may be kept from looking at the clock, so only
    // what comes out three times counts.)
    e.run(many("just-late", "a formatter that ends 0.8 s after its timeout of 1 s, well or not, having said all or nothing before", 4, move |i, r| {
        let s = ["rydu0", "rud0", "ryd1", "d0"][i as usize];
        let doc = "~~~~ x\nab\n~~~~\n";
        r.case(doc, s);
        r.nontrivial = true;
        let mut last = None;
        for _ in 0..3 {
            let log = Scratch::new();
            let mut o = opts::make("");
            o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: command(&log, s), timeout_secs: 1 });
            r.calls += 1;
            let g = hongdown::format_with_warnings(doc, &o).unwrap();
            if g.output == doc && g.warnings.len() == 1 && g.warnings[0].message.contains("time") && left(&log).alive.is_empty() { return }
            last = Some(g);
        }
        let g = last.unwrap();
        r.fail("just-late", &g.output, format!("{:?}", g.warnings));
    }));
    // A process of the formatter that keeps its pipes open
    e.run(many("grandchild", "a formatter that ends but leaves a process with its pipes for 3 s × what it did before × timeouts of 1 s and 6 s: no hang, and the old or the new code", 12, move |i, r| {
        let m = mixed(i, &[6, 2]);
        let s = ["G0", "ryG0", "Gry0", "G1", "oG0", "EG0"][m[0]];
        let log = Scratch::new();
        let mut o = opts::make("");
        let t = [1, 6][m[1]];
        o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: command(&log, s), timeout_secs: t });
        let doc = "~~~~ x\nab\n~~~~\n";
        r.case(doc, &format!("{s} {t}"));
        r.nontrivial = true;
        r.calls += 1;
        let t0 = Instant::now();
        let g = hongdown::format_with_warnings(doc, &o).unwrap();
        let new = match model(s, "ab\n") { Answer::Text(c) => hongdown::format(&format!("~~~~ x\n{c}~~~~\n"), &Default::default()).unwrap(), _ => doc.into() };
        if !(g.output == doc && g.warnings.len() == 1 || g.output == new && g.warnings.is_empty()) { r.fail("output", &g.output, format!("{:?}", g.warnings)); }
        if t0.elapsed() > Duration::from_secs(t + 20) { r.fail("slow", "", format!("took {:?}", t0.elapsed())); }
    }));
    // Sizes around those of pipes and buffers
    let sizes: Vec<usize> = [1usize, 4096, 8192, 65_536, 131_072, 262_144, 1_048_576].iter().flat_map(|n| [n - 1, *n, n + 1]).filter(|n| *n > 0).collect();
    let scripts: &'static [&'static str] = &["ry0", "0", "hy0", "i0", "ro0", "Ory0", "EryE0", "ry1", "1", "ryk", "hcE0", "sry0", "yhyry0", "syhysry0"];
    let (sizes, k) = (sizes.clone(), sizes.len());
    e.run(many("sizes", "code of every size within one byte of the sizes of pages, buffers and pipes × fourteen scripts", (k * scripts.len()) as u64, move |i, r| {
        let m = mixed(i, &[k, scripts.len()]);
        judge(r, &[], &[block(" x", &sized(sizes[m[0]]))], "", "", &[tool(scripts[m[1]], 20)], "");
    }));
    // Which blocks are whose
    let infos: &'static [&'static str] = &["", " ", "x", " x", "  x  ", "\tx", "X", "xy", " x y", " y x", " x hongdown-no-format", " hongdown-no-format", " hongdown-no-format x", " x a hongdown-no-format b", " x hongdown-no-formatted", " x hongdown-no-forma", " x -hongdown-no-format", " x Hongdown-No-Format", " x{1}", " {x}", " x,y", " .x", " x.y", "x:y", " x=hongdown-no-format", " x\thongdown-no-format", " x\ty", " ex", " x#", " y", " y hongdown-no-format", " 한", " 한글", " x  hongdown-no-format  "];
    let dls: &'static [&'static str] = &["", "dl=x", "dl=y", "dl=z"];
    let sets: &'static [&'static [&'static str]] = &[&["x"], &["y"], &["x", "y"], &["X"], &["한"], &["hongdown-no-format"], &[]];
    let places: &'static [&'static [usize]] = &[&[], &[2], &[0], &[7], &[6], &[1], &[3], &[2, 0], &[0, 2]];
    let rx = [if q { 2 } else { places.len() }, sets.len(), dls.len(), infos.len() + 1];
    e.run(many("languages", "info strings, and indented code × default languages × seven sets of formatters × at the top level and in an item (thorough: nine places)", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        let b = match infos.get(m[3]) { Some(s) => block(s, "a b\n"), None => Block { info: "".into(), code: "a b\n".into(), indented: true } };
        let t: Vec<Tool> = sets[m[1]].iter().map(|l| Tool { lang: l.to_string(), script: "ru0".into(), timeout: DEFAULT * 4 }).collect();
        judge(r, places[m[0]], &[b], "", "", &t, dls[m[2]]);
    }));
    // Exactly the code
    let lines: &'static [&'static str] = &["a", "", "  b", "\tc", "~~~~", "\u{e9}\u{d55c}", "d  ", "> e", "- f", "it's \"q\"", "    g", "\\* &amp;"];
    let n = if q { 2 } else { 3 };
    let rx = [places.len(), 2, upto(lines.len() as u64, n) as usize];
    e.run(many("codes", "code of up to two (thorough: three) lines of twelve × nine places × an answer in capitals, or one with other line ends", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        let c: String = upto_digits(m[2] as u64, lines.len() as u64, n).iter().map(|d| format!("{}\n", lines[*d])).collect();
        let b = block(" x", &c);
        judge(r, places[m[0]], &[b], "", "", &[tool(["ru0", "rno0"][m[1]], 20)], "");
    }));
    // Several blocks
    let kinds: &'static [(&'static str, bool)] = &[(" x", false), (" bad", false), (" none", false), (" x hongdown-no-format", false), (" bytes", false), (" dead", false), ("", true), (" gone", false)];
    let heads: &'static [&'static str] = &["", "---\ntitle: x\n---\n\n# Head\n\nText that is long enough to be wrapped into two lines, if the line width of eighty is applied.\n\n"];
    let n = if q { 2 } else { 3 };
    let betweens: &'static [&'static str] = &["Text", "## Section\n\nText [a] link\n\n[a]: http://e.x/"];
    let rx = [places.len(), heads.len(), if q { 1 } else { 2 }, upto(kinds.len() as u64, n) as usize];
    e.run(many("blocks", "up to two (thorough: three) blocks of eight kinds (formatted, refused, without a formatter, opting out, answered with invalid text, killed, indented, no such command) × nine places × with and without a head", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        if m[2] == 1 && !places[m[0]].is_empty() { r.skipped += 1; return }
        let b: Vec<Block> = upto_digits(m[3] as u64, kinds.len() as u64, n).iter().enumerate().map(|(j, k)| Block { info: kinds[*k].0.into(), code: format!("code {j}\nx\n"), indented: kinds[*k].1 }).collect();
        if b.is_empty() { r.skipped += 1; return }
        let t = |l: &str, s: &str| Tool { lang: l.into(), script: s.into(), timeout: 20 };
        judge(r, places[m[0]], &b, heads[m[1]], betweens[m[2]], &[t("x", "ru0"), t("bad", "re1"), t("bytes", "rb0"), t("dead", "rk"), t("gone", "c9")], "");
    }));
    // Parts that are left alone
    let off: &'static [(&'static str, &'static str, bool)] = &[
        ("<!-- hongdown-disable -->\n\n", "", false), ("<!-- hongdown-disable-file -->\n\n", "", false), ("<!-- hongdown-disable-next-section -->\n\nText\n\n", "", false),
        ("<!-- hongdown-disable -->\n\n<!-- hongdown-enable -->\n\n", "", true), ("<!-- hongdown-disable-next-line -->\n", "", false), ("Text\n\n", "", true),
    ];
    e.run(many("disabled", "a block where formatting is disabled, and enabled again × a formatter that answers, and one that fails", (off.len() * 2) as u64, move |i, r| {
        let m = mixed(i, &[off.len(), 2]);
        let (before, after, on) = off[m[0]];
        let log = Scratch::new();
        let mut o = opts::make("");
        o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: command(&log, ["ru0", "1"][m[1]]), timeout_secs: 20 });
        let doc = format!("{before}~~~~ x\nab\n~~~~\n{after}");
        r.case(&doc, "");
        r.nontrivial = true;
        r.calls += 1;
        let g = hongdown::format_with_warnings(&doc, &o).unwrap();
        if g.output.contains("AB") != (on && m[1] == 0) { r.fail("output", &g.output, String::new()); }
        if g.warnings.len() != (on && m[1] == 1) as usize { r.fail("warnings", &format!("{:?}", g.warnings.iter().map(|w| &w.message).collect::<Vec<_>>()), String::new()); }
    }));
    // Commands that cannot be started, and arguments
    e.run(many("commands", "programs that are missing, a directory, not executable or no program × with a block before and after", 12, move |i, r| {
        let m = mixed(i, &[6, 2]);
        let log = Scratch::new();
        let s = Scratch::new();
        let plain = s.put("plain", "text").to_string_lossy().into_owned();
        let junk = s.put("junk", "\u{7f}not a program").to_string_lossy().into_owned();
        { use std::os::unix::fs::PermissionsExt; let _ = std::fs::set_permissions(&junk, std::fs::Permissions::from_mode(0o755)); }
        let dir = s.0.to_string_lossy().into_owned();
        let p: Vec<String> = [vec!["/nonexistent/program".to_string()], vec!["no-such-program-hdmc".into(), "-".into()], vec![dir], vec![plain], vec![junk], vec![String::new()]][m[0]].clone();
        let mut o = opts::make("");
        o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: p.clone(), timeout_secs: 20 });
        o.code_formatters.insert("y".into(), hongdown::CodeFormatter { command: command(&log, "ru0"), timeout_secs: 20 });
        let doc = if m[1] == 0 { "~~~~ x\nab\n~~~~\n".to_string() } else { "~~~~ y\nab\n~~~~\n\n~~~~ x\nab\n~~~~\n\n~~~~ y\nab\n~~~~\n".into() };
        let want = doc.replace("y\nab", "y\nAB");
        r.case(&doc, &format!("program {}", m[0]));
        r.nontrivial = true;
        r.calls += 1;
        let g = hongdown::format_with_warnings(&doc, &o).unwrap();
        if g.output != want { r.fail("output", &g.output, format!("expected {want:?}")); }
        let line = [1, 5][m[1]];
        if g.warnings.len() != 1 || g.warnings[0].line != line || g.warnings[0].message.is_empty() { r.fail("warnings", &format!("{:?}", g.warnings.iter().map(|w| w.line).collect::<Vec<_>>()), format!("{:?}, expected line {line}", g.warnings)); }
    }));
    let args: &'static [&'static str] = &["-", "", "a b", "'q'", "\"", "$HOME", "*", "--x=y", "\u{e9}", "a\nb", "~", "|", ";", "\\", "%s", "{}"];
    e.run(many("arguments", "all pairs of sixteen arguments, which are passed as they are", 17 * 16, move |i, r| {
        let v: Vec<&str> = upto_digits(i, 16, 2).iter().map(|d| args[*d]).collect();
        let log = Scratch::new();
        let mut o = opts::make("");
        let mut c = command(&log, "ru0");
        c.extend(v.iter().map(|s| s.to_string()));
        o.code_formatters.insert("x".into(), hongdown::CodeFormatter { command: c, timeout_secs: 20 });
        r.case("~~~~ x\nab\n~~~~\n", &v.join("|"));
        r.calls += 1;
        r.nontrivial = true;
        let g = hongdown::format_with_warnings("~~~~ x\nab\n~~~~\n", &o).unwrap();
        if g.output != "~~~~ x\nAB\n~~~~\n" { r.fail("output", &g.output, String::new()); }
        if left(&log).args != [v.join("\u{1}")] { r.fail("arguments", &format!("{:?}", left(&log).args), format!("expected {v:?}")); }
    }));
    // The command
    let scripts: &'static [&'static str] = &["ru0", "1", "k", "b0", "S", "O0", "ruE0", "m0", "ru1", "l0"];
    let forms: &'static [(&'static str, u64)] = &[("x = CMD\n", 5), ("x = { command = CMD }\n", 5), ("x = { command = CMD, timeout = 1 }\n", 1), ("x = { command = CMD, timeout = 6 }\n", 6)];
    let modes: &'static [&'static str] = &["--write", "--check", "", "--stdin"];
    let rx = [scripts.len(), forms.len(), modes.len(), 2];
    e.run(many("command", "the command with formatters in its configuration × ten scripts × four ways to write it (with the default timeout of 5 s, 1 s, 6 s) × four modes × one file or three", volume(&rx), move |i, r| {
        let m = mixed(i, &rx);
        let (sc, (form, t), mode, files) = (scripts[m[0]], forms[m[1]], modes[m[2]], [1, 3][m[3]]);
        if mode == "--stdin" && files > 1 || sc == "m0" && t == 1 { r.skipped += 1; return }
        let (s, log) = (Scratch::new(), Scratch::new());
        let cmd = format!("[{}]", command(&log, sc).iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(", "));
        s.put(".hongdown.toml", format!("[code_block.formatters]\n{}", form.replace("CMD", &cmd)));
        let texts: Vec<String> = (0..files).map(|j| format!("Title\n=====\n\n~~~~ x\ncode {j}\n~~~~\n")).collect();
        let mut a: Vec<String> = vec![];
        if !mode.is_empty() { a.push(mode.into()); }
        if mode != "--stdin" { for (j, t) in texts.iter().enumerate() { s.put(&format!("f{j}.md"), t); a.push(format!("f{j}.md")); } }
        let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        r.case(&a.join(" "), &format!("{sc} {}", form.trim()));
        r.nontrivial = true;
        r.calls += 1;
        r.traces += 1;
        let run = Call { limit: 60, ..Call::new(&s.0, &av) }.stdin(if mode == "--stdin" { &texts[0] } else { "" }).run();
        let late = sc == "S" || sc == "l0" && t == 1;
        let (mut differ, mut out) = (false, String::new());
        for (j, text) in texts.iter().enumerate() {
            let ans = if late { Answer::Fails("time") } else { model(sc, &format!("code {j}\n")) };
            let new = match &ans { Answer::Text(c) => format!("Title\n=====\n\n~~~~ x\n{}~~~~\n", c), _ => text.clone() };
            differ |= new != *text;
            out += &new;
            let name = if mode == "--stdin" { "<stdin>".to_string() } else { format!("f{j}.md") };
            if mode != "--stdin" {
                let got = String::from_utf8(s.read(&name).unwrap()).unwrap();
                if &got != if mode == "--write" { &new } else { text } { r.fail("file", &clip(&got), format!("{name} expected {:?}", clip(&new))); }
            }
            let w: Vec<&str> = run.err.lines().filter(|l| l.contains("warning") && l.contains(&name)).collect();
            match ans {
                Answer::Text(_) => if !w.is_empty() { r.fail("warnings", &w.join("\n"), "none expected".into()); },
                Answer::Fails(k) => if w.len() != 1 || !w[0].starts_with(&format!("{name}:4:")) || !w[0].to_lowercase().contains(k) { r.fail("warnings", &format!("{}", w.len()), format!("{w:?}, expected one at {name}:4 about {k}")); },
            }
        }
        let code = (mode == "--check" && differ) as i32;
        if run.code != code { r.fail("status", &run.code.to_string(), format!("exit {}, expected {code}: {}", run.code, run.err)); }
        if (mode.is_empty() || mode == "--stdin") && run.text() != out { r.fail("stdout", &clip(&run.text()), format!("expected {:?}", clip(&out))); }
        let l = left(&log);
        if l.args.len() != files { r.fail("calls", &l.args.len().to_string(), format!("{} runs", l.args.len())); }
        if !l.alive.is_empty() { r.fail("left", "", format!("processes left: {:?}", l.alive)); }
    }));
}
