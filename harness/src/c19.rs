//! C19: parallel runs give the result of a sequential run.
//!
//! The real command runs under a scheduler in the preloaded library: one thread at a time,
//! from one file-system event to the next, in an order given beforehand. All orders of the
//! events of a few files are explored, and all points at which one worker can be preempted
//! at an allocation. The reference handles the files one after the other with the library.
use crate::cli::*;
use crate::core::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// A line of the shim's log
pub struct Event { pub n: i64, pub file: i32, pub op: String, pub path: String, pub ret: i64 }
pub fn events(log: &[u8]) -> Vec<Event> {
    String::from_utf8_lossy(log).lines().filter_map(|l| {
        let f: Vec<&str> = l.split(' ').collect();
        Some(Event { n: f.first()?.parse().ok()?, file: f.get(1)?.parse().ok()?, op: f.get(2)?.to_string(), path: f[3..f.len() - 1].join(" "), ret: f.last()?.parse().ok()? })
    }).collect()
}
pub fn letter(e: &Event) -> char {
    match e.op.as_str() {
        "open" => 'o', "create" | "openw" => 'O', "read" => 'r', "close" => 'c', "rename" | "unlink" => 'm', "fsync" | "fdatasync" => 's', "ftruncate64" => 't',
        "write" if e.path == "stdout" || e.path == "stderr" => 'p',
        "write" => 'w',
        _ => '-',
    }
}

/// What a file is: its text, and the call on it that fails
#[derive(Clone, Copy)]
pub struct Kind { pub name: char, pub text: fn(usize) -> Vec<u8>, pub fails: Option<(char, i32)> }
fn rough(i: usize) -> Vec<u8> { format!("# Number {i}\n\n* item {i}\n* it's \"{i}\"\n\n[l{i}]: https://example.com/{i}\n\nSee [l{i}].\n").into_bytes() }
fn fine(i: usize) -> Vec<u8> { format!("Number {i}\n========\n\nAll is well with {i}.\n").into_bytes() }
fn warns(i: usize) -> Vec<u8> { format!("* See [this {i}]\n").into_bytes() }
fn bytes(i: usize) -> Vec<u8> { format!("* caf{i}").bytes().chain([0xe9, b'\n']).collect() }
fn rich(i: usize) -> Vec<u8> {
    format!("# The Title {i}\n\nText with \"quotes {i}\", it's... and -- more, [a link {i}][r{i}] and a note.[^n{i}] Then `code {i}` and *emphasis {i}*, <b>html</b>, and some more words so that the line is longer than eighty columns.\n\n## Section {i}\n\n* one {i}\n* two\n  1. three\n\n| a | b{i} |\n|--|--|\n| 한 | x |\n\n```x{i}\ncode {i}\n```\n\n> [!NOTE]\n> quote {i}\n\n[r{i}]: https://example.com/{i} \"t\"\n[^n{i}]: The note {i}.\n\n### Last *{i}*\n\nTerm {i}\n: Def\n\n[undefined {i}] reference.\n").into_bytes()
}
pub const KINDS: &[Kind] = &[
    Kind { name: 'U', text: rough, fails: None },
    Kind { name: 'F', text: fine, fails: None },
    Kind { name: 'W', text: warns, fails: None },
    Kind { name: 'B', text: bytes, fails: None },
    Kind { name: 'X', text: rough, fails: Some(('o', 13)) },
    Kind { name: 'D', text: rough, fails: Some(('O', 28)) },
    Kind { name: 'E', text: rough, fails: Some(('w', 5)) },
    Kind { name: 'R', text: rich, fails: None },
];
fn kinds(s: &str) -> Vec<Kind> { s.chars().map(|c| *KINDS.iter().find(|k| k.name == c).unwrap()).collect() }

/// A run of the command on files f0.md, f1.md, …
pub struct World { pub kinds: Vec<Kind>, pub mode: &'static str, pub args: Vec<String>, pub links: Vec<(usize, usize, bool)> }
impl World {
    pub fn new(k: &str, mode: &'static str) -> World { let kinds = kinds(k); World { args: (0..kinds.len()).map(|i| format!("f{i}.md")).collect(), kinds, mode, links: vec![] } }
    pub fn name(&self) -> String { format!("{} {} {}", self.mode, self.kinds.iter().map(|k| k.name).collect::<String>(), if self.links.is_empty() { String::new() } else { format!("{:?} {:?}", self.args, self.links) }) }
    /// Run it; returns the directory, the run and the log
    pub fn run(&self, threads: usize, env: &[(&str, &str)]) -> (Scratch, Run, Vec<Event>) { self.run_with(threads, env, &[]) }
    pub fn run_with(&self, threads: usize, env: &[(&str, &str)], more: &[(&str, &str)]) -> (Scratch, Run, Vec<Event>) {
        let s = Scratch::new();
        for (f, t) in more { s.put(f, t); }
        for (i, k) in self.kinds.iter().enumerate() { s.put(&format!("f{i}.md"), (k.text)(i)); }
        for (from, to, hard) in &self.links {
            let (a, b) = (format!("f{from}.md"), s.path(&format!("f{to}.md")));
            if *hard { std::fs::hard_link(s.path(&a), b).unwrap() } else { std::os::unix::fs::symlink(a, b).unwrap() }
        }
        let mut a: Vec<&str> = [self.mode].into_iter().filter(|m| !m.is_empty()).collect();
        a.extend(self.args.iter().map(|x| x.as_str()));
        let fails: Vec<String> = self.kinds.iter().enumerate().filter_map(|(i, k)| k.fails.map(|(l, e)| format!("{i}:{l}:{e}"))).collect();
        let log = format!("{}.log", s.0.display());
        let mut c = Call::new(&s.0, &a).env("RAYON_NUM_THREADS", threads.to_string()).env("HDMC_ROOT", &s.0).env("HDMC_LOG", &log).env("LD_PRELOAD", shim());
        if !fails.is_empty() { c = c.env("HDMC_FAIL", fails.join(",")); }
        for (k, v) in env { c = c.env(k, v); }
        let run = c.run();
        let ev = events(&std::fs::read(&log).unwrap_or_default());
        let _ = std::fs::remove_file(&log);
        (s, run, ev)
    }
    /// Compare with one file after the other. `lines` are the error lines of such a run.
    fn judge(&self, r: &mut Rec, s: &Scratch, run: &Run, lines: &[String]) {
        r.calls += 1;
        r.traces += 1;
        let (mut fail, mut out) = (false, vec![]);
        for (i, k) in self.kinds.iter().enumerate() {
            let old = (k.text)(i);
            let new = crate::opts::make("");
            let new = std::str::from_utf8(&old).ok().map(|t| hongdown::format(t, &new).unwrap());
            let f = format!("f{i}.md");
            let changes = new.as_ref().is_some_and(|n| n.as_bytes() != old);
            let write = self.mode == "--write";
            let stop = k.fails.is_some_and(|(l, _)| l == 'o' || write && changes);
            if new.is_none() || stop || !write && changes { fail = true; }
            if write && changes && !stop { out.push(f.clone()); }
            let got = s.read(&f).unwrap();
            let want: &[u8] = match &new { Some(n) if write && !stop => n.as_bytes(), _ => &old };
            // after a failed write the file is C20's matter
            if got != want && !(write && k.fails.is_some_and(|(l, _)| l == 'w')) { r.fail("file", &format!("{f} {:?}", String::from_utf8_lossy(&got)), format!("{f} holds {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(want))); }
        }
        if if fail { !run.failed() } else { !run.ok() } { r.fail("status", &run.code.to_string(), format!("exit {}, expected {}: {}", run.code, fail as i32, run.err)); }
        let mut got: Vec<String> = run.text().lines().map(|l| l.to_string()).collect();
        got.sort();
        if !self.links.is_empty() || self.args.len() != self.kinds.len() { got.truncate(out.len()); if out.is_empty() || self.links.len() + out.len() > 1 { got = out.clone(); } }
        out.sort();
        if got != out { r.fail("stdout", &got.join(" "), format!("prints {got:?}, expected {out:?}")); }
        let got = sorted(&run.err);
        if got != *lines && self.links.is_empty() && self.args.len() == self.kinds.len() { r.fail("stderr", &got.join("\n"), format!("errors {got:?}, one after the other {lines:?}")); }
    }
}
fn sorted(e: &str) -> Vec<String> { let mut v: Vec<String> = e.lines().map(|l| l.to_string()).collect(); v.sort(); v }

/// Number of ways to interleave sequences, and the i-th way
fn ways(n: &[usize]) -> u64 {
    let mut r: u128 = 1;
    let mut total = 0u128;
    for k in n { for j in 1..=*k as u128 { total += 1; r = r * total / j; } }
    r as u64
}
fn nth(n: &[usize], mut i: u64) -> String {
    let mut left = n.to_vec();
    let mut out = String::new();
    'next: while left.iter().any(|x| *x > 0) {
        for f in 0..left.len() {
            if left[f] == 0 { continue }
            left[f] -= 1;
            let w = ways(&left);
            if i < w { out.push((b'0' + f as u8) as char); continue 'next; }
            i -= w;
            left[f] += 1;
        }
        unreachable!();
    }
    out
}

/// All schedules of the events with these letters, for each world
fn schedules(e: &Engine, name: &str, rule: &str, points: &'static str, worlds: Vec<World>) {
    // the events of each file, with a single thread
    let solo: Vec<(Vec<usize>, Vec<String>)> = worlds.iter().map(|w| {
        let (_s, run, ev) = w.run(1, &[]);
        let nf = w.kinds.len() + w.links.len();
        ((0..nf).map(|f| ev.iter().filter(|x| x.n >= 0 && x.file == f as i32 && points.contains(letter(x))).count()).collect(), sorted(&run.err))
    }).collect();
    let sizes: Vec<u64> = solo.iter().map(|s| ways(&s.0)).collect();
    let (worlds, solo, sizes) = (&worlds, &solo, &sizes);
    // worlds whose threads cannot be ordered at will are given up after a few attempts
    let stuck: Vec<AtomicU64> = sizes.iter().map(|_| AtomicU64::new(0)).collect();
    let seen: Mutex<HashMap<usize, std::collections::HashSet<String>>> = Default::default();
    let (stuck, seen) = (&stuck, &seen);
    e.run(domain(name, rule, sizes.iter().sum(), |i, r| {
        let (mut w, mut j) = (0, i);
        while j >= sizes[w] { j -= sizes[w]; w += 1; }
        let order = nth(&solo[w].0, j);
        r.case(&worlds[w].name(), &order);
        if stuck[w].load(Relaxed) > 16 { r.skipped += 1; return }
        r.nontrivial = sizes[w] > 1;
        let threads = worlds[w].args.len().max(1);
        let (s, run, ev) = worlds[w].run(threads, &[("HDMC_SCHED", &order), ("HDMC_POINTS", points)]);
        if ev.iter().any(|x| x.op == "infeasible") { stuck[w].fetch_add(1, Relaxed); r.skipped += 1; }
        else { seen.lock().unwrap().entry(w).or_default().insert(ev.iter().filter(|x| x.n >= 0 && points.contains(letter(x))).map(|x| format!("{}{}", x.file, letter(x))).collect()); }
        worlds[w].judge(r, &s, &run, &solo[w].1);
    }));
    let distinct: usize = seen.lock().unwrap().values().map(|s| s.len()).sum();
    if distinct > 0 {
        let mut x = e.extra.lock().unwrap();
        let o = x.entry("schedules").or_insert_with(|| serde_json::json!({}));
        o[name] = serde_json::json!({ "enumerated": sizes.iter().sum::<u64>(), "distinct_executions_observed": distinct, "worlds": worlds.len(), "infeasible": stuck.iter().map(|s| s.load(Relaxed)).sum::<u64>() });
    }
}

pub fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    let both = ["--write", "--check"];
    let all = "UFWBXDE";
    // Two files
    let (mut w, mut c) = (vec![], vec![]);
    for a in all.chars() { for b in all.chars() { for m in both { if m == "--check" && "DE".contains([a, b]) { continue } if m == "--write" { &mut w } else { &mut c }.push(World::new(&format!("{a}{b}"), m)); } } }
    schedules(e, "two", "two files of every kind (to be formatted, formatted, with a warning, not UTF-8, failing to open, create or write) under --write × all orders of their open, read, create and write events", "orOw", w);
    schedules(e, "two-check", "two files of every kind under --check × all orders of their open, read and print events", "orp", c);
    // Three
    let mut w = vec![];
    for k in ["UUU", "UFU", "UBU", "XUU", "UUD", "FUB", "WWW", "EUU", "UXF", "FFF", "BXU"] { for m in both { if m == "--check" && k.contains(['D', 'E']) { continue } w.push(World::new(k, m)); } }
    schedules(e, "three", "three files in eleven combinations of kinds × --write and --check × all orders of their open, create and write events", if deep { "oOwp" } else { "oOw" }, w);
    if deep {
        let mut w = vec![];
        for k in ["UU", "UW", "FU", "BU", "UE"] { for m in both { w.push(World::new(k, m)); } }
        schedules(e, "two-all", "two files in five combinations × --write and --check × all orders of all their events, closing included", "orOwpc", w);
        schedules(e, "four", "four files × --write × all orders of their open, create and write events", "oOw", vec![World::new("UUUU", "--write"), World::new("UBFU", "--write")]);
        schedules(e, "five", "five files × --write × all orders of their open and write events", "ow", vec![World::new("UUUUU", "--write")]);
    } else {
        schedules(e, "four", "four files in two combinations × --write and --check × all orders of their open and write events", "ow", vec![World::new("UUUU", "--write"), World::new("UBUF", "--write"), World::new("UUUU", "--check")]);
    }
    // Several names of one file
    let mut w = vec![];
    for hard in [false, true] { for k in ["U", "F"] { for m in both {
        let mut x = World::new(k, m);
        x.links = vec![(0, 1, hard)];
        x.args = vec!["f0.md".into(), "f1.md".into()];
        w.push(x);
        let mut x = World::new(k, m);
        x.links = vec![(0, 1, hard)];
        x.args = vec!["f1.md".into(), "f0.md".into()];
        w.push(x);
    } } }
    schedules(e, "names", "one file under two names (symbolic or hard link), in both orders × all orders of the events there are", "orOwc", w);
    // Preemption at allocations
    let combos = if deep { vec!["RR", "RRR", "RU", "RF", "RB", "UR", "WR", "BR", "FR", "RX", "RD"] } else { vec!["RR", "UR"] };
    let mut cases: Vec<(World, usize, u64, Vec<String>)> = vec![];
    for k in combos { for m in both {
        let w = World::new(k, m);
        let (_s, run, ev) = w.run(1, &[("HDMC_COUNT", "1")]);
        let n: BTreeMap<i32, u64> = ev.iter().filter(|x| x.op == "allocations").map(|x| (x.file, x.ret as u64)).collect();
        for f in 0..w.kinds.len() {
            // the quick tier stops the first worker only, and with "RR" only under --check
            if !deep && (f > 0 && k == "RR" || k == "RR" && m == "--write" || k == "UR" && m == "--check") { continue }
            let n = n.get(&(f as i32)).copied().unwrap_or(0);
            if n > 0 { cases.push((World::new(k, m), f, n, sorted(&run.err))); }
        }
    } }
    let total = cases.iter().map(|c| c.2).sum();
    let cases = &cases;
    e.run(domain("preempted", "two or three files (one with every kind of construct; quick: two pairs, thorough: eleven combinations), one worker stopped at each of its allocations until the others are done × --write and --check", total, |i, r| {
        let (mut c, mut j) = (0, i);
        while j >= cases[c].2 { j -= cases[c].2; c += 1; }
        let (w, f, _, lines) = &cases[c];
        r.case(&w.name(), &format!("worker of file {f} stopped at its allocation {}", j + 1));
        let (s, run, ev) = w.run(w.kinds.len(), &[("HDMC_MALLOC", &format!("{f}:{}", j + 1))]);
        r.nontrivial = ev.iter().any(|x| x.op == "preempted");
        w.judge(r, &s, &run, lines);
    }));
    // The scheduler's luck, with all numbers of threads and files
    let pool = "UFWBUURUFUWU";
    e.run(domain("plain", "one to twelve files × one to eight threads × --write and --check × a failing file in every position, without control", 12 * 8 * 2 * 13, |i, r| {
        let m = mixed(i, &[12, 8, 2, 13]);
        let n = m[0] + 1;
        if m[3] > n { r.skipped += 1; return }
        let mut k: Vec<char> = pool.chars().take(n).collect();
        if m[3] > 0 { k[m[3] - 1] = ['B', 'X'][m[1] % 2]; }
        // the shim knows ten files
        if n > 10 { k = k.iter().map(|c| if *c == 'X' { 'B' } else { *c }).collect(); }
        let w = World::new(&k.iter().collect::<String>(), both[m[2]]);
        r.case(&w.name(), &format!("{} threads", m[1] + 1));
        r.nontrivial = n > 1;
        let s1 = w.run(1, &[]).1;
        let (s, run, _) = w.run(m[1] + 1, &[]);
        w.judge(r, &s, &run, &sorted(&s1.err));
    }));
}
