//! The exploration engine: walks finite domains completely, in parallel, and keeps
//! measured counts, failures, known findings and evidence.
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub const ROOT: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

pub fn fnv(parts: &[&str]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.as_bytes().iter().chain(&[0xffu8]) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h ^ (h >> 29)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case reports while it runs.
#[derive(Default)]
pub struct Rec {
    pub calls: u64,
    pub traces: u64,
    pub skipped: u64,
    pub nontrivial: bool,
    pub doc: String,
    pub opts: String,
    /// What else tells this case from others, but is not part of a failure's identity
    pub ident: String,
    pub fails: Vec<(String, String, String)>,
}

impl Rec {
    /// Declare the input of this case.
    pub fn case(&mut self, doc: &str, opts: &str) {
        self.doc = doc.to_string();
        self.opts = opts.to_string();
    }
    /// A property was broken: its kind, what was observed (part of the identity of the
    /// failure), and an explanation.
    pub fn fail(&mut self, kind: &str, observed: &str, detail: String) {
        self.fails.push((kind.to_string(), observed.to_string(), detail));
    }
    /// One run of the code under test.
    pub fn fmt(&mut self, doc: &str, o: &hongdown::Options) -> String {
        self.calls += 1;
        hongdown::format(doc, o).unwrap_or_else(|e| format!("ERROR {e}"))
    }
}

pub struct Domain<'a> {
    pub name: String,
    pub rule: String,
    pub total: u64,
    pub threads: usize,
    pub run: Box<dyn Fn(u64, &mut Rec) + Sync + 'a>,
}

pub fn domain<'a>(name: &str, rule: &str, total: u64, run: impl Fn(u64, &mut Rec) + Sync + 'a) -> Domain<'a> {
    Domain { name: name.into(), rule: rule.into(), total, threads: 8, run: Box::new(run) }
}

pub struct Failure {
    pub kind: String,
    pub domain: String,
    pub index: u64,
    pub doc: String,
    pub opts: String,
    pub observed: String,
    pub detail: String,
}

impl Failure {
    pub fn key(&self, id: &str) -> u64 {
        fnv(&[id, &self.kind, &self.doc, &self.opts, &self.observed])
    }
}

pub struct Engine {
    pub id: String,
    pub tier: Tier,
    pub level: &'static str,
    pub assumptions: Vec<String>,
    seed: i64,
    start: Instant,
    known: HashMap<u64, String>,
    seen: Vec<Mutex<HashSet<u64>>>,
    failures: Mutex<Vec<Failure>>,
    nfail: AtomicUsize,
    states: AtomicU64,
    calls: AtomicU64,
    traces: AtomicU64,
    skipped: AtomicU64,
    nontrivial: AtomicU64,
    samples: Mutex<Vec<serde_json::Value>>,
    domains: Mutex<Vec<serde_json::Value>>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    only: Option<(String, u64)>,
    filter: Option<String>,
    pub extra: Mutex<serde_json::Map<String, serde_json::Value>>,
    dump: bool,
}

thread_local! { static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Engine {
    pub fn new(id: &str, level: &'static str, only: Option<(String, u64)>) -> Engine {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = HashMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{ROOT}/known/{id}.txt")) {
            for l in t.lines() {
                let mut it = l.split(' ');
                if let (Some(h), Some(f)) = (it.next(), it.next()) {
                    if let Ok(h) = u64::from_str_radix(h, 16) {
                        known.insert(h, f.to_string());
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|_| {}));
        Engine {
            id: id.into(), tier, level, assumptions: vec![], seed, start: Instant::now(), known,
            seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            failures: Mutex::new(vec![]), nfail: AtomicUsize::new(0),
            states: 0.into(), calls: 0.into(), traces: 0.into(), skipped: 0.into(), nontrivial: 0.into(),
            samples: Mutex::new(vec![]), domains: Mutex::new(vec![]), known_hits: Mutex::new(BTreeMap::new()),
            only, filter: std::env::var("HDMC_DOMAIN").ok(), extra: Default::default(),
            dump: std::env::var("HDMC_DUMP").is_ok(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    pub fn run(&self, d: Domain) {
        if let Some((name, idx)) = &self.only {
            if *name == d.name {
                let mut r = Rec::default();
                let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d.run)(*idx, &mut r)));
                if p.is_err() { r.fail("panic", "", "panicked".into()); }
                println!("domain {} case {}\ndocument:\n{}\noptions: {}", name, idx, r.doc, r.opts);
                for (k, o, t) in &r.fails { println!("FAIL {k}\nobserved:\n{o}\n{t}"); }
                self.nfail.fetch_add(r.fails.len(), Relaxed);
            }
            return;
        }
        if let Some(f) = &self.filter { if !d.name.contains(f.as_str()) { return; } }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicBool::new(false);
        let chunk = (d.total / (d.threads as u64 * 64)).clamp(1, 64);
        let before = (self.states.load(Relaxed), self.calls.load(Relaxed), self.nfail.load(Relaxed));
        let slots: Vec<Mutex<Option<(Instant, u64)>>> = (0..d.threads).map(|_| Mutex::new(None)).collect();
        let limit = Duration::from_secs(if d.threads == 8 { 40 } else { 120 });
        let step = (d.total / 3).max(1);
        std::thread::scope(|s| {
            let workers: Vec<_> = (0..d.threads).map(|w| {
                let (next, slots, d) = (&next, &slots, &d);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                    let a = next.fetch_add(chunk, Relaxed);
                    if a >= d.total { break; }
                    for i in a..(a + chunk).min(d.total) {
                        *slots[w].lock().unwrap() = Some((Instant::now(), i));
                        let mut r = Rec::default();
                        let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d.run)(i, &mut r)));
                        if let Err(e) = p {
                            let m = e.downcast_ref::<String>().cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            r.fail("panic", &m, format!("panicked: {m}"));
                        }
                        *slots[w].lock().unwrap() = None;
                        self.absorb(d, i, r, i % step == 0);
                    }
                }).unwrap()
            }).collect();
            // A case that does not end is a violation, too
            let (slots, d2, done2) = (&slots, &d, &done);
            s.spawn(move || {
                while !done2.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    for sl in slots.iter() {
                        let cur = *sl.lock().unwrap();
                        if let Some((t, i)) = cur {
                            if t.elapsed() > limit {
                                let mut r = Rec::default();
                                r.fail("hang", "", format!("case did not end within {limit:?}"));
                                self.absorb(d2, i, r, true);
                                let code = self.finish();
                                std::process::exit(code);
                            }
                        }
                    }
                }
            });
            for w in workers { let _ = w.join(); }
            done.store(true, Relaxed);
        });
        let n = self.states.load(Relaxed) - before.0;
        self.domains.lock().unwrap().push(json!({
            "domain": d.name, "rule": d.rule, "cases": d.total, "new_states": n,
            "formatter_calls": self.calls.load(Relaxed) - before.1,
            "failures_including_known": self.nfail.load(Relaxed) - before.2,
            "seconds": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0 }));
        eprintln!("[{}] {}: {} cases, {} new states, {:.1?}, fails {}", self.id, d.name, d.total, n, t0.elapsed(), self.nfail.load(Relaxed) - before.2);
    }

    fn absorb(&self, d: &Domain, i: u64, r: Rec, sample: bool) {
        self.calls.fetch_add(r.calls, Relaxed);
        self.traces.fetch_add(r.traces, Relaxed);
        self.skipped.fetch_add(r.skipped, Relaxed);
        if !r.doc.is_empty() || !r.opts.is_empty() {
            let h = fnv(&[&r.doc, &r.opts, &r.ident]);
            if self.seen[(h >> 58) as usize].lock().unwrap().insert(h) {
                self.states.fetch_add(1, Relaxed);
                if r.nontrivial { self.nontrivial.fetch_add(1, Relaxed); }
            }
            if sample {
                let mut v = self.samples.lock().unwrap();
                if v.len() < 60 { v.push(json!({"domain": d.name, "case": i, "input": r.doc, "options": r.opts, "detail": r.ident})); }
            }
        }
        for (kind, observed, detail) in r.fails {
            self.nfail.fetch_add(1, Relaxed);
            let f = Failure { kind, domain: d.name.clone(), index: i, doc: r.doc.clone(), opts: r.opts.clone(), observed, detail };
            if let Some(k) = self.known.get(&f.key(&self.id)) {
                *self.known_hits.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
                continue;
            }
            let mut v = self.failures.lock().unwrap();
            if self.dump || v.len() < 3000 { v.push(f); }
        }
    }

    /// Write the evidence, print findings and violations, and return the exit status.
    pub fn finish(&self) -> i32 {
        if self.only.is_some() {
            return if self.nfail.load(Relaxed) > 0 { 1 } else { 0 };
        }
        let mut fails = std::mem::take(&mut *self.failures.lock().unwrap());
        fails.sort_by(|a, b| (a.doc.len() + a.opts.len(), &a.doc, &a.opts, &a.kind).cmp(&(b.doc.len() + b.opts.len(), &b.doc, &b.opts, &b.kind)));
        let states = self.states.load(Relaxed);
        let mut cov = serde_json::Map::new();
        let doms = self.domains.lock().unwrap().clone();
        match self.level {
            "model_checking" => {
                cov.insert("states".into(), json!(states));
                cov.insert("transitions".into(), json!(self.calls.load(Relaxed)));
                cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Relaxed)));
            }
            _ => {
                cov.insert("evaluations".into(), json!(self.calls.load(Relaxed)));
                cov.insert("distinct_nontrivial".into(), json!(self.nontrivial.load(Relaxed)));
                cov.insert("rule".into(), json!("every case of every domain listed; a case is non-trivial if the run changed, refused or reported something (see domains)"));
            }
        }
        if self.level == "model_checking" { cov.insert("nontrivial_states".into(), json!(self.nontrivial.load(Relaxed))); }
        cov.insert("samples".into(), json!(self.samples.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), json!(self.filter.is_none()));
        cov.insert("excluded_cases".into(), json!(self.skipped.load(Relaxed)));
        cov.insert("domains".into(), json!(doms));
        cov.insert("known_findings_hit".into(), json!(*self.known_hits.lock().unwrap()));
        for (k, v) in self.extra.lock().unwrap().iter() { cov.insert(k.clone(), v.clone()); }
        let ev = json!({
            "property": self.id, "tier": if self.quick() { "quick" } else { "thorough" }, "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": fails.len() });
        let dir = format!("{ROOT}/evidence");
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
        let titles = finding_titles(&self.id);
        for (k, t) in &titles {
            let n = self.known_hits.lock().unwrap().get(k).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} [{} cases in this run] {}", self.id, k, n, t);
        }
        if self.dump {
            let mut out = std::io::stdout().lock();
            for f in &fails { let _ = writeln!(out, "DUMP {}", json!({"key": format!("{:016x}", f.key(&self.id)), "kind": f.kind, "domain": f.domain, "index": f.index, "doc": f.doc, "opts": f.opts, "observed": f.observed, "detail": f.detail})); }
        }
        let show: usize = std::env::var("HDMC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        let mut shown: BTreeMap<(String, String), usize> = BTreeMap::new();
        let mut n = 0;
        for f in &fails {
            let c = shown.entry((f.kind.clone(), f.domain.clone())).or_insert(0);
            *c += 1;
            if *c > show { continue; }
            n += 1;
            let path = format!("{dir}/replay/{}-{}.json", self.id, n);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({
                "property": self.id, "domain": f.domain, "index": f.index, "kind": f.kind, "input": f.doc, "options": f.opts,
                "observed": f.observed, "detail": f.detail,
                "replay": format!("cd /verif && ./check {} --replay {} {}", self.id, f.domain, f.index) })).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  {} in {} #{}: {:?} [{}]\n  -> {:?}\n  {}", f.kind, f.domain, f.index, clip(&f.doc), f.opts, clip(&f.observed), clip(&f.detail).replace('\n', "\n  "));
        }
        println!("[{}] states {} calls {} compared {} failures {} (known {}) in {:.1?}", self.id, states, self.calls.load(Relaxed),
            self.traces.load(Relaxed), fails.len(), self.known_hits.lock().unwrap().values().sum::<u64>(), self.start.elapsed());
        if fails.is_empty() { 0 } else { 1 }
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 700 { s.chars().take(700).collect::<String>() + "…" } else { s.to_string() }
}

fn finding_titles(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{ROOT}/known_findings.jsonl")).unwrap_or_default();
    t.lines().filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "known")
        .map(|v| (v["id"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string())).collect()
}

/// The digits of `i` in base `k`, most significant first.
pub fn digits(mut i: u64, k: u64, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for x in v.iter_mut().rev() { *x = (i % k) as usize; i /= k; }
    v
}

/// Mixed-radix digits, first radix varying slowest.
pub fn mixed(mut i: u64, radix: &[usize]) -> Vec<usize> {
    let mut v = vec![0; radix.len()];
    for (x, r) in v.iter_mut().zip(radix).rev() { *x = (i % *r as u64) as usize; i /= *r as u64; }
    v
}
pub fn volume(radix: &[usize]) -> u64 { radix.iter().map(|r| *r as u64).product() }

/// All sequences of length 0..=n over k symbols: count and decoding.
pub fn upto(k: u64, n: usize) -> u64 { (0..=n as u32).map(|d| k.pow(d)).sum() }
pub fn upto_digits(mut i: u64, k: u64, n: usize) -> Vec<usize> {
    for d in 0..=n {
        let c = k.pow(d as u32);
        if i < c { return digits(i, k, d); }
        i -= c;
    }
    unreachable!()
}

/// Numbers of things: each up to 70 (thorough: 150), and where limits tend to be.
pub fn sizes(quick: bool) -> Vec<usize> {
    (1..=if quick { 70 } else { 150 }).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1025]).collect()
}

/// Every character of the basic plane from U+0020 on but controls, and selected ones
/// beyond it; of the large blocks (Han, Hangul, private use), quick takes every 16th.
pub fn characters(quick: bool) -> Vec<char> {
    let rare = |c: u32| (0x3400..0xd7a4).contains(&c) || (0xe000..0xf900).contains(&c);
    (0x20..0x1_0000u32).filter(|c| !quick || !rare(*c) || c % 16 == 0)
        .chain((0x1_0000..0x1_f000).step_by(16)).chain(0x1_f000..0x1_fc00).chain((0x2_0000..0x11_0000).step_by(1024))
        .filter(|c| !(0x7f..0xa0).contains(c)).filter_map(char::from_u32).collect()
}
/// Whether a character neither is ASCII nor a space, nor a quotation mark or dash.
pub fn letterlike(c: char) -> bool {
    !c.is_ascii() && !c.is_whitespace() && !"‘’‚‛“”„‟«»‹›…–—".contains(c)
}
