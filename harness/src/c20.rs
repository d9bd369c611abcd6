//! C20: a failed or interrupted run is reported and never corrupts a file silently.
//!
//! The preloaded library fails, shortens or cuts off each file-system event of the real
//! command in turn (one worker, so that a run's events are always the same).
use crate::c19::{Event, World, letter};
use crate::cli::*;
use crate::core::*;
use std::collections::BTreeMap;

fn text(w: &World, i: usize) -> (Vec<u8>, Option<String>) {
    let old = (w.kinds[i].text)(i);
    let new = std::str::from_utf8(&old).ok().map(|t| hongdown::format(t, &Default::default()).unwrap());
    (old, new)
}

/// The operations a file has seen so far, repetitions as one
fn history(ev: &[Event], file: i32) -> String {
    let mut h = String::new();
    for e in ev.iter().filter(|e| e.n >= 0 && e.file == file) { let l = letter(e); if !h.ends_with(l) && "orOwmst".contains(l) { h.push(l); } }
    h
}

/// What an error should come to
#[derive(Clone, Copy, PartialEq)]
enum Fault { Errno(i32), Short(i32) }
impl Fault {
    fn spec(self) -> String { match self { Fault::Errno(e) => e.to_string(), Fault::Short(k) => format!("s{k}") } }
    /// The caller has to go on as if nothing had happened
    fn harmless(self) -> bool { matches!(self, Fault::Short(_) | Fault::Errno(4)) }
}
use Fault::*;

fn faults(l: char) -> Vec<Fault> {
    match l {
        'o' => vec![Errno(13), Errno(5), Errno(2), Errno(24), Errno(4)],
        'r' => vec![Errno(5), Errno(21), Errno(4), Short(1), Short(3)],
        'O' => vec![Errno(13), Errno(28), Errno(30), Errno(5), Errno(4)],
        'w' => vec![Errno(28), Errno(5), Errno(122), Errno(4), Short(1), Short(7)],
        'm' | 's' | 't' => vec![Errno(28), Errno(5), Errno(13)],
        'p' | 'q' => vec![Errno(4), Short(1)],
        _ => vec![],
    }
}

/// Which file (by number, −1: configuration or standard input) each fault is about, and
/// whether the run can no longer do what it was asked to
fn judge(r: &mut Rec, w: &World, s: &Scratch, run: &Run, base: &Run, hit: &[(i32, char, Fault)], config: bool) {
    r.calls += 1;
    r.traces += 1;
    r.nontrivial = true;
    let hard: Vec<(i32, char)> = hit.iter().filter(|h| !h.2.harmless() && !"pq".contains(h.1)).map(|h| (h.0, h.1)).collect();
    let parallel = matches!(w.mode, "--write" | "--check");
    if hard.is_empty() {
        // nothing may show
        if run.code != base.code { r.fail("status", &run.code.to_string(), format!("exit {} instead of {}: {}", run.code, base.code, run.err)); }
        if run.out != base.out { r.fail("stdout", &run.text(), format!("prints {:?} instead of {:?}", run.text(), base.text())); }
        if run.err != base.err { r.fail("stderr", &run.err, format!("errors {:?} instead of {:?}", run.err, base.err)); }
    } else {
        if !run.failed() { r.fail("status", &run.code.to_string(), format!("exit {} in spite of a failure: {}", run.code, run.err)); }
        for (f, l) in &hard {
            let name = match f { -1 if config => ".hongdown.toml".to_string(), -1 => "stdin".into(), f => format!("f{f}.md") };
            if !run.err.lines().any(|x| x.contains(&name) && x.to_lowercase().contains("error")) { r.fail("silent", &format!("{name} {l}"), format!("no error about {name}: {:?}", run.err)); }
        }
    }
    let whole_run = config && hard.iter().any(|h| h.0 == -1);
    for i in 0..w.kinds.len() {
        let (old, new) = text(w, i);
        let got = s.read(&format!("f{i}.md")).unwrap_or_default();
        let mine = hard.iter().find(|h| h.0 == i as i32);
        let want: &[u8] = match &new {
            Some(n) if w.mode == "--write" && mine.is_none() && !whole_run => n.as_bytes(),
            _ => &old,
        };
        // a file whose own writing failed may hold anything that was reported
        if mine.is_some_and(|m| "wst".contains(m.1)) && w.mode == "--write" { continue }
        if got != want { r.fail(if got == old { "not-handled" } else { "file" }, &format!("f{i}.md"), format!("f{i}.md holds {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(want))); }
        // what is said about the others
        if parallel && mine.is_none() && !whole_run && !hard.is_empty() {
            let about = |t: &str| t.lines().filter(|l| l.contains(&format!("f{i}.md"))).map(|l| l.to_string()).collect::<Vec<_>>();
            if about(&run.err) != about(&base.err) || about(&run.text()) != about(&base.text()) { r.fail("others", &format!("f{i}.md"), format!("about f{i}.md: {:?} {:?} instead of {:?} {:?}", about(&run.err), about(&run.text()), about(&base.err), about(&base.text()))); }
        }
    }
    if !parallel && !run.text().is_empty() && !base.text().starts_with(&run.text()) && !hard.is_empty() && w.mode.is_empty() {
        // the texts that are printed are those of files that could be read
        let mut want = String::new();
        for i in 0..w.kinds.len() { if let (_, Some(n)) = text(w, i) && !hard.iter().any(|h| h.0 == i as i32) { want += &n; } }
        if !want.starts_with(&run.text()) { r.fail("stdout", &run.text(), format!("prints {:?}, which is not the beginning of {want:?}", run.text())); }
    }
    let n = crate::c17::snapshot(&s.0).len();
    if n != w.kinds.len() + config as usize { r.fail("files", &n.to_string(), format!("{n} files are left")); }
}

const CONFIG: &str = "[punctuation]\nellipsis = true\n";

struct Case { w: World, config: bool, base: Run, events: Vec<Event> }

fn go(w: &World, config: bool, env: &[(&str, &str)]) -> (Scratch, Run, Vec<Event>) {
    if config { w.run_with(1, env, &[(".hongdown.toml", CONFIG)]) } else { w.run(1, env) }
}

pub fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    let modes = ["--write", "--check", "", "--diff"];
    let mut lists: Vec<String> = vec![];
    for n in 1..=3 { for i in 0..4u64.pow(n) { lists.push(digits(i, 4, n as usize).iter().map(|d| ['U', 'F', 'W', 'B'][*d]).collect()); } }
    let mut cases: Vec<Case> = vec![];
    for l in &lists { for m in modes { for config in [false, true] {
        if config && l.len() > 2 { continue }
        let w = World::new(l, m);
        let (_s, base, events) = go(&w, config, &[]);
        let events: Vec<Event> = events.into_iter().filter(|x| x.n >= 0).collect();
        cases.push(Case { w, config, base, events });
    } } }
    let cases = &cases;
    // One fault
    let mut one: Vec<(usize, usize, Fault)> = vec![];
    for (c, k) in cases.iter().enumerate() { for (n, ev) in k.events.iter().enumerate() { for f in faults(letter(ev)) { one.push((c, n, f)); } } }
    let one = &one;
    e.run(domain("faults", "lists of one to three files (to be formatted, formatted, with a warning, not UTF-8), with and without a configuration file × --write, --check, --diff, standard output × each event of the run × each error it can have, and short transfers", one.len() as u64, |i, r| {
        let (c, n, f) = one[i as usize];
        let k = &cases[c];
        let ev = &k.events[n];
        r.case(&format!("{}{}", k.w.name(), if k.config { " with a configuration" } else { "" }), &format!("{} of file {} after {}: {}", ev.op, ev.file, history(&k.events[..n], ev.file), f.spec()));
        r.ident = format!("event {n}");
        let (s, run, _) = go(&k.w, k.config, &[("HDMC_FAULT", &format!("{n}:{}", f.spec()))]);
        judge(r, &k.w, &s, &run, &k.base, &[(ev.file, letter(ev), f)], k.config);
    }));
    // Two faults in one run: after the first one the events may be others, so the second is
    // chosen among those of the run with the first
    let pairs: Vec<usize> = (0..one.len()).filter(|i| { let k = &cases[one[*i].0]; !k.config && (deep || k.w.mode == "--write" && k.w.kinds.len() <= 2) }).collect();
    let pairs = &pairs;
    e.run(domain("two-faults", "each fault of these (quick: under --write on up to two files) and, in the run that it leads to, each fault at each later event", pairs.len() as u64, |i, r| {
        let (c, n, f) = one[pairs[i as usize]];
        let k = &cases[c];
        let first = &k.events[n];
        let (_s, _, ev) = go(&k.w, k.config, &[("HDMC_FAULT", &format!("{n}:{}", f.spec()))]);
        let ev: Vec<Event> = ev.into_iter().filter(|x| x.n >= 0).collect();
        for (m, e2) in ev.iter().enumerate().skip(n + 1) {
            for g in faults(letter(e2)) {
                if !deep && !matches!(g, Errno(28) | Errno(5) | Errno(4) | Short(1)) { continue }
                r.case(&k.w.name(), &format!("{} of file {} after {}: {}, {} of file {}: {}", first.op, first.file, history(&k.events[..n], first.file), f.spec(), e2.op, e2.file, g.spec()));
                r.ident = format!("events {n} {m}");
                let (s, run, _) = go(&k.w, k.config, &[("HDMC_FAULT", &format!("{n}:{},{m}:{}", f.spec(), g.spec()))]);
                let before = r.fails.len();
                judge(r, &k.w, &s, &run, &k.base, &[(first.file, letter(first), f), (e2.file, letter(e2), g)], k.config);
                if r.fails.len() > before { return }
            }
        }
    }));
    // Being cut off
    let mut cuts: Vec<(usize, usize, i64)> = vec![];
    for (c, k) in cases.iter().enumerate() {
        if k.config { continue }
        for (n, ev) in k.events.iter().enumerate() {
            if letter(ev) == 'w' {
                let len = ev.ret;
                if deep || k.w.kinds.len() == 1 { cuts.extend((0..=len).map(|b| (c, n, b))); }
                else { cuts.extend([0, 1, len / 2, len - 1, len].map(|b| (c, n, b))); }
            } else { cuts.push((c, n, 0)); }
        }
    }
    let cuts = &cuts;
    e.run(domain("cut-off", "the same runs, killed before each event, and within each write after every number of bytes (quick: five numbers if there is more than one file)", cuts.len() as u64, |i, r| {
        let (c, n, b) = cuts[i as usize];
        let k = &cases[c];
        let ev = &k.events[n];
        r.case(&k.w.name(), &format!("killed at {} of file {} after {}", ev.op, ev.file, history(&k.events[..n], ev.file)));
        r.ident = format!("event {n}, {b} bytes");
        let (s, run, _) = go(&k.w, false, &[("HDMC_FAULT", &format!("{n}:k{b}"))]);
        r.calls += 1;
        r.traces += 1;
        r.nontrivial = true;
        if run.code != -9 { panic!("the run was not killed: {}", run.code) }
        for i in 0..k.w.kinds.len() {
            let (old, new) = text(&k.w, i);
            let got = s.read(&format!("f{i}.md")).unwrap_or_default();
            let new = new.map(|n| n.into_bytes()).filter(|_| k.w.mode == "--write");
            if got == old || new.as_ref() == Some(&got) { continue }
            let what = match &new { _ if got.is_empty() => "is empty", Some(n) if n.starts_with(&got) => "holds the beginning of its new text", _ => "holds something else" };
            r.fail("cut", &format!("f{i}.md {what}"), format!("f{i}.md {what}: {:?}", String::from_utf8_lossy(&got)));
        }
    }));
    // Output that fails
    let mut outs: Vec<(usize, usize, i32)> = vec![];
    for (c, k) in cases.iter().enumerate() { for (n, ev) in k.events.iter().enumerate() { if letter(ev) == 'p' { for f in [32, 28, 5] { outs.push((c, n, f)); } } } }
    let outs = &outs;
    e.run(domain("output", "the same runs × each write to standard output or standard error × EPIPE, ENOSPC, EIO: a failure of standard output shows in the exit status, and files hold their old or new text", outs.len() as u64, |i, r| {
        let (c, n, f) = outs[i as usize];
        let k = &cases[c];
        let ev = &k.events[n];
        r.case(&k.w.name(), &format!("{} fails after {}: {f}", ev.path, history(&k.events[..n], ev.file)));
        r.ident = format!("event {n}");
        r.nontrivial = true;
        let (s, run, _) = go(&k.w, k.config, &[("HDMC_FAULT", &format!("{n}:{f}"))]);
        r.calls += 1;
        r.traces += 1;
        if ev.path == "stdout" && run.code == 0 { r.fail("status", "0", format!("exit 0 although {} was not written: {}", ev.path, run.err)); }
        if run.code < 0 { r.fail("signal", &run.code.to_string(), format!("ended by signal {}", -run.code)); }
        for i in 0..k.w.kinds.len() {
            let (old, new) = text(&k.w, i);
            let got = s.read(&format!("f{i}.md")).unwrap_or_default();
            let new = new.map(|n| n.into_bytes()).filter(|_| k.w.mode == "--write");
            if got != old && new.as_ref() != Some(&got) { r.fail("file", &format!("f{i}.md"), format!("f{i}.md holds {:?}", String::from_utf8_lossy(&got))); }
        }
    }));
    // Standard input
    let mut sin: Vec<(&str, usize, Fault)> = vec![];
    for m in ["", "--check", "--diff"] { for n in 0..2 { for f in faults('r') { sin.push((m, n, f)); } } }
    let sin = &sin;
    e.run(domain("stdin", "standard input failing or coming in parts × no mode, --check, --diff", sin.len() as u64, |i, r| {
        let (m, n, f) = sin[i as usize];
        let s = Scratch::new();
        let text = "* x\n* y\n";
        let mut a = vec!["-"];
        if !m.is_empty() { a.push(m); }
        r.case(text, &format!("{m} event {n} {}", f.spec()));
        r.nontrivial = true;
        let base = Call::new(&s.0, &a).stdin(text).run();
        let run = Call::new(&s.0, &a).stdin(text).env("HDMC_ROOT", &s.0).env("HDMC_STDIN", "1").env("LD_PRELOAD", shim()).env("HDMC_FAULT", format!("{n}:{}", f.spec())).run();
        r.calls += 2;
        r.traces += 1;
        if f.harmless() { if (run.code, &run.out, &run.err) != (base.code, &base.out, &base.err) { r.fail("differs", &run.text(), format!("exit {} {:?} {:?}", run.code, run.text(), run.err)); } }
        else if !run.failed() || run.err.is_empty() || !run.out.is_empty() { r.fail("status", &run.code.to_string(), format!("exit {} {:?} {:?}", run.code, run.text(), run.err)); }
    }));
    // More kinds of failures at once, each file with its own
    let mut w: Vec<World> = vec![];
    for i in 0..7u64.pow(3) { w.push(World::new(&digits(i, 7, 3).iter().map(|d| ['U', 'F', 'B', 'X', 'D', 'E', 'W'][*d]).collect::<String>(), "--write")); }
    let w = &w;
    e.run(domain("mixed", "three files, each of seven kinds (to be formatted, formatted, with a warning, not UTF-8, failing to open, create or write) under --write", w.len() as u64, |i, r| {
        let w = &w[i as usize];
        r.case(&w.name(), "");
        let (s, run, _) = go(w, false, &[]);
        r.calls += 1;
        r.traces += 1;
        let mut fail: BTreeMap<usize, bool> = BTreeMap::new();
        for (i, k) in w.kinds.iter().enumerate() {
            let (old, new) = text(w, i);
            let bad = new.is_none() || k.fails.is_some();
            fail.insert(i, bad);
            let got = s.read(&format!("f{i}.md")).unwrap();
            if k.name != 'E' && got != (if bad { old } else { new.unwrap().into_bytes() }) { r.fail("file", &format!("f{i}.md"), format!("f{i}.md holds {:?}", String::from_utf8_lossy(&got))); }
            let named = run.err.lines().any(|l| l.starts_with("Error") && l.contains(&format!("f{i}.md")));
            if named != bad { r.fail("silent", &format!("f{i}.md"), format!("f{i}.md failed: {bad}, but {:?}", run.err)); }
        }
        r.nontrivial = fail.values().any(|b| *b);
        if fail.values().any(|b| *b) != run.failed() || (run.code != 0) != run.failed() { r.fail("status", &run.code.to_string(), format!("exit {}: {}", run.code, run.err)); }
    }));
}
