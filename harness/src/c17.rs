//! C17: exactly the selected files are processed.
//!
//! A scratch tree has one file per relevant kind of path. The reference is a glob matcher
//! and a reader of ignore files of its own; where the documentation leaves a pattern open
//! (one without a slash, below the top level), the file may be processed or not.
use crate::cli::*;
use crate::core::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::symlink;
use std::path::Path;

/// Every file of the tree; all hold text that is not formatted
const FILES: &[&str] = &[
    "a.md", "b.md", "c.markdown", "D.MD", "F.MarkDown", "docs/G.MARKDOWN", "n.txt", "noext", ".hidden.md", "ab.md", "md", "a.md.bak", "é.md", "x y.md",
    "docs/a.md", "docs/b.md", "docs/e.markdown", "docs/n.txt", "docs/.h.md", "docs/deep/a.md", "docs/deep/er/z.md", "docs/.dir/a.md",
    "vendor/a.md", "vendor/docs/a.md", "dir.md/in.md", "dir.md/in.txt", "build/a.md", "build/sub/b.md",
    ".git/a.md", ".git/docs/b.md", ".github/a.md",
];

/// One segment of a glob against a name
fn seg(p: &[u8], n: &[u8]) -> bool {
    match (p.first(), n.first()) {
        (None, None) => true,
        (Some(b'*'), _) => seg(&p[1..], n) || (!n.is_empty() && seg(p, &n[1..])),
        (Some(b'?'), Some(_)) => { let k = std::str::from_utf8(n).map_or(1, |s| s.chars().next().unwrap().len_utf8()); seg(&p[1..], &n[k..]) }
        (Some(b'['), Some(c)) => { let e = p.iter().position(|x| *x == b']').unwrap(); p[1..e].contains(c) && seg(&p[e + 1..], &n[1..]) }
        (Some(a), Some(b)) => a == b && seg(&p[1..], &n[1..]),
        _ => false,
    }
}
fn segs(p: &[&str], n: &[&str]) -> bool {
    match p.first() {
        None => n.is_empty(),
        // at the end: everything below; elsewhere: any number of directories
        Some(&"**") if p.len() == 1 => !n.is_empty(),
        Some(&"**") => (0..=n.len()).any(|k| segs(&p[1..], &n[k..])),
        Some(s) => !n.is_empty() && seg(s.as_bytes(), n[0].as_bytes()) && segs(&p[1..], &n[1..]),
    }
}
/// Whether a pattern of the configuration matches: open for patterns without a slash that
/// match a name further down
fn glob(p: &str, path: &str) -> Option<bool> {
    let n: Vec<&str> = path.split('/').collect();
    if p.contains('/') {
        let p: Vec<&str> = p.split('/').collect();
        if segs(&p, &n) { return Some(true); }
        // a pattern that matches a directory may or may not stand for what is in it
        return if (1..n.len()).any(|k| segs(&p, &n[..k])) { None } else { Some(false) };
    }
    if n.len() == 1 { return Some(seg(p.as_bytes(), path.as_bytes())); }
    if n.iter().any(|x| seg(p.as_bytes(), x.as_bytes())) { None } else { Some(false) }
}

/// Ignore files: the directory ("" or "docs/") and the lines, weakest first
pub fn ignored(rules: &[(String, Vec<&str>)], path: &str) -> bool {
    ignored_as(rules, path, false)
}
fn ignored_dir(rules: &[(String, Vec<&str>)], path: &str) -> bool { ignored_as(rules, path, true) }
fn ignored_as(rules: &[(String, Vec<&str>)], path: &str, dir: bool) -> bool {
    let n: Vec<&str> = path.split('/').collect();
    (1..=n.len()).any(|k| {
        let (p, is_dir) = (n[..k].join("/"), dir || k < n.len());
        let mut out = false;
        for (dir, lines) in rules {
            let Some(rel) = p.strip_prefix(dir.as_str()) else { continue };
            for l in lines {
                let (neg, l) = l.strip_prefix('!').map_or((false, *l), |x| (true, x));
                let (only_dir, l) = l.strip_suffix('/').map_or((false, l), |x| (true, x));
                if only_dir && !is_dir { continue }
                let r: Vec<&str> = rel.split('/').collect();
                let hit = match l.strip_prefix('/') {
                    Some(x) => segs(&x.split('/').collect::<Vec<_>>(), &r),
                    None if l.contains('/') => segs(&l.split('/').collect::<Vec<_>>(), &r),
                    None => seg(l.as_bytes(), r[r.len() - 1].as_bytes()),
                };
                if hit { out = !neg; }
            }
        }
        out
    })
}

fn text(name: &str) -> String { format!("# {name}\n\n* x\n") }

/// The tree in a directory of its own, and what git would have there
fn plant(s: &Scratch, at: &str) {
    for f in FILES { s.put(&format!("{at}/{f}"), text(f)); }
    s.put(&format!("{at}/.git/HEAD"), "ref: refs/heads/main\n");
    for d in ["objects", "refs", "info"] { std::fs::create_dir_all(s.path(&format!("{at}/.git/{d}"))).unwrap(); }
}

/// The files that --check names, relative to `top`
fn reported(run: &Run, cwd: &Path, top: &Path) -> BTreeSet<String> {
    run.err.lines().filter_map(|l| l.strip_suffix(": not formatted")).map(|f| {
        let p = std::fs::canonicalize(cwd.join(f)).unwrap_or_else(|_| cwd.join(f));
        p.strip_prefix(top).map_or_else(|_| p.to_string_lossy().into_owned(), |p| p.to_string_lossy().into_owned())
    }).collect()
}

fn subsets(n: usize, most: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for k in 1..=most {
        let mut idx: Vec<usize> = (0..k).collect();
        loop {
            out.push(idx.clone());
            let Some(i) = (0..k).rev().find(|i| idx[*i] < n - k + i) else { break };
            idx[i] += 1;
            for j in i + 1..k { idx[j] = idx[j - 1] + 1; }
        }
    }
    out
}

fn list(p: &[&str]) -> String { format!("[{}]", p.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ")) }

struct Select<'a> { include: Vec<&'a str>, exclude: Vec<&'a str>, git: bool, rules: Vec<(String, Vec<&'a str>)>, base: &'a str }
impl Select<'_> {
    fn wants(&self, f: &str) -> Option<bool> {
        let Some(rel) = f.strip_prefix(self.base) else { return Some(false) };
        if self.git && (f.starts_with(".git/") || ignored(&self.rules, f)) { return Some(false); }
        let any = |ps: &[&str]| {
            let m: Vec<Option<bool>> = ps.iter().map(|p| glob(p, rel)).collect();
            if m.contains(&Some(true)) { Some(true) } else if m.contains(&None) { None } else { Some(false) }
        };
        match (any(&self.include), any(&self.exclude)) {
            (Some(false), _) | (_, Some(true)) => Some(false),
            (Some(true), Some(false)) => Some(true),
            _ => None,
        }
    }
    fn judge(&self, r: &mut Rec, got: &BTreeSet<String>) {
        for f in FILES {
            match self.wants(f) {
                Some(true) if !got.contains(*f) => r.fail("left-out", f, format!("{f} is selected and was not processed")),
                Some(false) if got.contains(*f) => r.fail("processed", f, format!("{f} is not selected and was processed")),
                _ => {}
            }
        }
        for f in got { if !FILES.contains(&f.as_str()) && ![".hongdown.toml", ".gitignore", "c.toml", ".git/HEAD"].contains(&f.as_str()) { r.fail("other", f, format!("{f} is no file of the tree")); } }
    }
}

thread_local! { static TREE: std::cell::OnceCell<Scratch> = const { std::cell::OnceCell::new() }; }
/// A tree for each thread, since --check changes nothing; `f` also puts it back
fn with_tree<T>(f: impl FnOnce(&Scratch) -> T) -> T {
    TREE.with(|t| f(t.get_or_init(|| { let s = Scratch::new(); plant(&s, "w"); s })))
}

const INCLUDE: &[&str] = &["**/*.md", "docs/**/*.md", "docs/*.md", "*.md", "a.md", "**/a.md", "docs/**", "docs/[ab].md", "**/docs/?.md", "*.markdown", "**/deep/**", "vendor/docs/*", "./a.md", "**/*"];
const EXCLUDE: &[&str] = &["vendor/**", "docs/deep/**", "**/a.md", "docs/a.md", "*.txt", "**/docs/**", "**/.*", "build/**", "a.md"];

pub fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    let include: Vec<&str> = INCLUDE.iter().copied().filter(|p| !p.starts_with("./")).collect();
    let include = &include;
    // Include × exclude × git_aware × where the configuration is
    let inc: Vec<Vec<usize>> = subsets(include.len(), 2).into_iter().filter(|s| !s.is_empty()).collect();
    let exc = subsets(EXCLUDE.len(), if deep { 2 } else { 1 });
    let (inc, exc) = (&inc, &exc);
    let places = ["project file in the current directory", "project file, from a directory below", "--config with an absolute path, from elsewhere", "--config with a bare name", "--config with ../", "user's file only"];
    e.run(domain("patterns", "every one or two include patterns × every set of exclude patterns (quick: up to one, thorough: two) × git_aware × six places of the configuration, over a tree with a .gitignore for a file and a directory", (inc.len() * exc.len() * 2 * places.len()) as u64, |i, r| {
        let m = mixed(i, &[exc.len(), inc.len(), 2, places.len()]);
        let sel = Select {
            include: inc[m[1]].iter().map(|k| include[*k]).collect(), exclude: exc[m[0]].iter().map(|k| EXCLUDE[*k]).collect(), git: m[2] == 0,
            rules: vec![(String::new(), vec!["b.md", "/build/"])], base: "",
        };
        let conf = format!("include = {}\nexclude = {}\n{}", list(&sel.include), list(&sel.exclude), ["", "git_aware = false\n"][m[2]]);
        r.case(&conf, places[m[3]]);
        with_tree(|s| {
            s.put("w/.gitignore", "b.md\n/build/\n");
            for f in ["w/.hongdown.toml", "home/.hongdown.toml", "w/c.toml"] { let _ = std::fs::remove_file(s.path(f)); }
            std::fs::create_dir_all(s.path("else")).unwrap();
            let (file, cwd, arg): (&str, &str, Option<String>) = match m[3] {
                0 => ("w/.hongdown.toml", "w", None),
                1 => ("w/.hongdown.toml", "w/docs/deep", None),
                2 => ("w/c.toml", "else", Some(s.path("w/c.toml").to_string_lossy().into_owned())),
                3 => ("w/c.toml", "w", Some("c.toml".into())),
                4 => ("w/c.toml", "w/docs", Some("../c.toml".into())),
                _ => ("home/.hongdown.toml", "w", None),
            };
            s.put(file, &conf);
            let mut c = Call::new(&s.path(cwd), &["--check"]);
            c.home = Some(s.path("home"));
            if let Some(a) = arg { c.args.extend(["--config".into(), a]); }
            let run = c.run();
            r.calls += 1;
            r.traces += 1;
            if run.code > 1 || run.code < 0 || run.err.contains("Error") { r.fail("error", &run.err, format!("exit {}: {}", run.code, run.err)); return }
            let got = reported(&run, &s.path(cwd), &std::fs::canonicalize(s.path("w")).unwrap());
            r.nontrivial = !got.is_empty();
            sel.judge(r, &got);
        });
    }));
    // Ignore files
    let lines = ["a.md", "/a.md", "docs/", "docs/*.md", "*.md", "!a.md", "build/", "/docs/deep", "**/deep/", "!docs/", "*", "!*.md", "vendor/docs/*", "# a.md", ""];
    let sets: Vec<Vec<usize>> = { let mut v = vec![vec![]]; for a in 0..lines.len() { v.push(vec![a]); for b in 0..lines.len() { if a != b { v.push(vec![a, b]); } } } v };
    let sets = &sets;
    let nested: &[&[&str]] = &[&[], &["a.md"], &["!a.md"], &["/deep/"], &["*", "!b.md"]];
    let info: &[&[&str]] = &[&[], &["a.md"], &["docs/"]];
    let others: &[&str] = &["", "a.md\n", "*\n"];
    let confs = [("", "**/*.md"), ("", "**/*"), ("docs/", "**/*.md")];
    let (nn, ni, no) = if deep { (nested.len(), info.len(), others.len()) } else { (nested.len(), 2, 2) };
    e.run(domain("ignored", "every .gitignore of up to two lines × five kinds of docs/.gitignore × .git/info/exclude × a file .ignore (of no meaning) × git_aware × the configuration at the top or in docs", (sets.len() * nn * ni * no * 2 * confs.len()) as u64, |i, r| {
        let m = mixed(i, &[sets.len(), nn, ni, no, 2, confs.len()]);
        // without ignore files all of these are the same
        if m[4] == 1 && (m[1] > 1 || m[2] > 1) && !deep { r.skipped += 1; return }
        let gi: Vec<&str> = sets[m[0]].iter().map(|k| lines[*k]).collect();
        let real = |v: &[&'static str]| -> Vec<&'static str> { v.iter().copied().filter(|l| !l.is_empty() && !l.starts_with('#')).collect() };
        let top: Vec<&'static str> = real(&sets[m[0]].iter().map(|k| lines[*k]).collect::<Vec<_>>());
        let (base, pat) = confs[m[5]];
        let sel = Select {
            include: vec![pat], exclude: vec![], git: m[4] == 0,
            rules: vec![(String::new(), real(info[m[2]])), (String::new(), top), ("docs/".into(), real(nested[m[1]]))], base,
        };
        // the directory of the configuration is itself ignored: nothing is said about that
        if !base.is_empty() && sel.git && ignored_dir(&sel.rules, "docs") { r.skipped += 1; return }
        r.case(&format!("{gi:?} docs {:?} info {:?} .ignore {:?}", nested[m[1]], info[m[2]], others[m[3]]), &format!("git_aware {} in {base:?} {pat}", m[4] == 0));
        with_tree(|s| {
            for f in ["w/.hongdown.toml", "home/.hongdown.toml", "w/c.toml", "w/docs/.hongdown.toml"] { let _ = std::fs::remove_file(s.path(f)); }
            s.put("w/.gitignore", gi.iter().map(|l| format!("{l}\n")).collect::<String>());
            s.put("w/docs/.gitignore", nested[m[1]].iter().map(|l| format!("{l}\n")).collect::<String>());
            s.put("w/.git/info/exclude", info[m[2]].iter().map(|l| format!("{l}\n")).collect::<String>());
            s.put("w/.ignore", others[m[3]]);
            s.put(&format!("w/{base}.hongdown.toml"), format!("include = [{pat:?}]\ngit_aware = {}\n", m[4] == 0));
            let cwd = s.path(&format!("w/{base}"));
            let run = Call::new(&cwd, &["--check"]).run();
            r.calls += 1;
            r.traces += 1;
            let got: BTreeSet<String> = reported(&run, &cwd, &std::fs::canonicalize(s.path("w")).unwrap()).into_iter().filter(|f| FILES.contains(&f.as_str())).collect();
            r.nontrivial = got.len() < FILES.len();
            if run.code > 1 || run.code < 0 { r.fail("error", &run.err, format!("exit {}: {}", run.code, run.err)); }
            sel.judge(r, &got);
            for f in ["w/docs/.gitignore", "w/.ignore", "w/.git/info/exclude", &format!("w/{base}.hongdown.toml")] { let _ = std::fs::remove_file(s.path(f)); }
        });
    }));
    // The reader of ignore files against git itself
    let git = Path::new("/usr/bin/git");
    if git.exists() {
        e.run(domain("git", "the reference for ignore files against `git check-ignore`: every .gitignore of up to two lines × docs/.gitignore × .git/info/exclude, every file", (sets.len() * nested.len() * info.len()) as u64, |i, r| {
            let m = mixed(i, &[sets.len(), nested.len(), info.len()]);
            thread_local! { static G: std::cell::OnceCell<Scratch> = const { std::cell::OnceCell::new() }; }
            G.with(|g| {
                let s = g.get_or_init(|| { let s = Scratch::new(); plant(&s, "w"); s });
                s.put("w/.gitignore", sets[m[0]].iter().map(|k| format!("{}\n", lines[*k])).collect::<String>());
                s.put("w/docs/.gitignore", nested[m[1]].iter().map(|l| format!("{l}\n")).collect::<String>());
                s.put("w/.git/info/exclude", info[m[2]].iter().map(|l| format!("{l}\n")).collect::<String>());
                let real = |v: &[&'static str]| -> Vec<&'static str> { v.iter().copied().filter(|l| !l.is_empty() && !l.starts_with('#')).collect() };
                let top: Vec<&'static str> = real(&sets[m[0]].iter().map(|k| lines[*k]).collect::<Vec<_>>());
                let rules = vec![(String::new(), real(info[m[2]])), (String::new(), top), ("docs/".to_string(), real(nested[m[1]]))];
                let files: Vec<&str> = FILES.iter().copied().filter(|f| !f.starts_with(".git/")).collect();
                let out = std::process::Command::new(git).args(["-c", "core.quotePath=false", "check-ignore", "--no-index"]).args(&files).current_dir(s.path("w")).env_clear().env("HOME", "/nonexistent-home").output().expect("git");
                let got: BTreeSet<String> = String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect();
                let want: BTreeSet<String> = files.iter().filter(|f| ignored(&rules, f)).map(|f| f.to_string()).collect();
                r.case(&format!("{rules:?}"), "");
                r.traces += 1;
                r.nontrivial = !want.is_empty();
                if out.status.code().is_none_or(|c| c > 1) { r.skipped += 1; return }
                if got != want { panic!("the reference for ignore files differs from git: {rules:?}\n git {got:?}\n here {want:?}"); }
            });
        }));
    }
    // Path arguments
    let args = ["a.md", "n.txt", "docs", "docs/", ".", "docs/deep", "dir.md", ".hidden.md", "./docs/b.md", "vendor/../docs/deep", "link", "flink.md", "build/a.md", "self", "D.MD", "missing.md", "empty", "via"];
    let na = args.len();
    let most = if deep { 3 } else { 2 };
    let want_of = |a: &str| -> Vec<&'static str> {
        let below = |d: &str| FILES.iter().copied().filter(|f| f.starts_with(d) && { let l = f.to_lowercase(); l.ends_with(".md") || l.ends_with(".markdown") }).collect::<Vec<_>>();
        match a {
            "docs" | "docs/" | "link" => below("docs/"), "." => below(""), "docs/deep" | "vendor/../docs/deep" => below("docs/deep/"), "dir.md" => below("dir.md/"),
            "./docs/b.md" => vec!["docs/b.md"], "flink.md" => vec!["a.md"], "self" => below("vendor/"), "via" => { let mut v = below("docs/deep/"); v.push("a.md"); v } "missing.md" | "empty" => vec![],
            f => FILES.iter().copied().filter(|x| *x == f).collect(),
        }
    };
    e.run(domain("arguments", "every list of one to three (quick: two) arguments out of files, directories, links to both, a directory that holds links to both, directories named like files, a loop of links, an empty directory and a missing file, beside a configuration whose include, exclude and .gitignore must not matter × --check and --write", (upto(na as u64, most) - 1) * 2, |i, r| {
        let list: Vec<&str> = upto_digits(i / 2 + 1, na as u64, most).into_iter().map(|k| args[k]).collect();
        let write = i % 2 == 1;
        r.case(&list.join(" "), if write { "--write" } else { "--check" });
        r.nontrivial = true;
        let go = |s: &Scratch, r: &mut Rec| {
            let _ = symlink("docs", s.path("w/link"));
            let _ = symlink("a.md", s.path("w/flink.md"));
            let _ = symlink("vendor", s.path("w/self"));
            let _ = symlink(".", s.path("w/vendor/loop"));
            std::fs::create_dir_all(s.path("w/empty")).unwrap();
            std::fs::create_dir_all(s.path("w/via")).unwrap();
            let _ = symlink("../docs/deep", s.path("w/via/out"));
            let _ = symlink("../a.md", s.path("w/via/one.md"));
            s.put("w/.hongdown.toml", "include = [\"n.txt\"]\nexclude = [\"**/a.md\"]\n");
            s.put("w/.gitignore", "b.md\n");
            let mut a = vec![if write { "--write" } else { "--check" }];
            a.extend(&list);
            let run = Call::new(&s.path("w"), &a).run();
            r.calls += 1;
            r.traces += 1;
            let want: BTreeSet<String> = list.iter().flat_map(|a| want_of(a)).map(|f| f.to_string()).collect();
            let missing = list.contains(&"missing.md");
            let top = std::fs::canonicalize(s.path("w")).unwrap();
            let got: BTreeSet<String> = if write {
                FILES.iter().filter(|f| s.read(&format!("w/{f}")).unwrap() != text(f).as_bytes()).map(|f| f.to_string()).collect()
            } else { reported(&run, &s.path("w"), &top) };
            if run.ok() == (missing || !write && !want.is_empty()) { r.fail("status", &run.code.to_string(), format!("exit {}: {}", run.code, run.err)); }
            if missing != run.err.contains("Error reading missing.md") && missing { r.fail("missing", &run.err, format!("no error for the missing file: {}", run.err)); }
            if got != want {
                let d: Vec<String> = got.symmetric_difference(&want).cloned().collect();
                r.fail("files", &d.join(" "), format!("expected {want:?}, got {got:?}"));
            }
            for f in ["w/link", "w/flink.md", "w/self", "w/vendor/loop", "w/via/out", "w/via/one.md"] { let _ = std::fs::remove_file(s.path(f)); }
            for f in ["w/.hongdown.toml", "w/.gitignore"] { let _ = std::fs::remove_file(s.path(f)); }
            for d in ["w/empty", "w/via"] { let _ = std::fs::remove_dir(s.path(d)); }
            if write { for f in FILES { s.put(&format!("w/{f}"), text(f)); } }
        };
        with_tree(|s| go(s, r));
    }));
    // --write on a selection leaves every other file alone
    let wi: Vec<Vec<usize>> = inc.iter().filter(|s| s.len() == 1).cloned().collect();
    let wi = &wi;
    e.run(domain("written", "every include pattern × every exclude pattern × git_aware under --write: the selected files and nothing else change, nothing is added", (wi.len() * (EXCLUDE.len() + 1) * 2) as u64, |i, r| {
        let m = mixed(i, &[wi.len(), EXCLUDE.len() + 1, 2]);
        let sel = Select {
            include: wi[m[0]].iter().map(|k| include[*k]).collect(), exclude: EXCLUDE.iter().copied().skip(m[1]).take(1).collect(), git: m[2] == 0,
            rules: vec![(String::new(), vec!["b.md", "/build/"])], base: "",
        };
        let conf = format!("include = {}\nexclude = {}\n{}", list(&sel.include), list(&sel.exclude), ["", "git_aware = false\n"][m[2]]);
        r.case(&conf, "--write");
        let s = Scratch::new();
        plant(&s, "w");
        s.put("w/.gitignore", "b.md\n/build/\n");
        s.put("w/.hongdown.toml", &conf);
        let before = snapshot(&s.path("w"));
        let run = Call::new(&s.path("w"), &["--write"]).run();
        r.calls += 1;
        r.traces += 1;
        let after = snapshot(&s.path("w"));
        let got: BTreeSet<String> = before.keys().chain(after.keys()).filter(|f| before.get(*f) != after.get(*f)).cloned().collect();
        r.nontrivial = !got.is_empty();
        if !run.ok() && !run.err.is_empty() && !run.err.contains("warning") { r.fail("error", &run.code.to_string(), format!("exit {}: {}", run.code, run.err)); }
        sel.judge(r, &got);
        for f in got.iter().filter(|f| FILES.contains(&f.as_str())) { if after.get(f).map(|b| b.as_slice()) != Some(hongdown::format(&text(f), &Default::default()).unwrap().as_bytes()) { r.fail("content", f, format!("{f} does not hold its formatted text")); } }
    }));
    // Sizes
    e.run(domain("sizes", "a file 0 to 48 directories down, or 1 to 48 files in a directory, or a name of 1 to 240 characters × by a directory as argument or by an include pattern × --check and --write", 3 * 49 * 2 * 2, |i, r| {
        let m = mixed(i, &[3, 49, 2, 2]);
        let n = m[1];
        let mut files: Vec<String> = match m[0] {
            0 => vec![format!("top{}/z.md", "/d".repeat(n))],
            1 => (0..=n).map(|k| format!("top/f{k}.md")).collect(),
            _ => vec![format!("top/{}.md", "n".repeat(n * 5 + 1).chars().take(240).collect::<String>())],
        };
        files.sort();
        let s = Scratch::new();
        for f in &files { s.put(&format!("w/{f}"), text(f)); }
        s.put("w/top/other.txt", "x");
        let write = m[3] == 1;
        let mut a = vec![if write { "--write" } else { "--check" }];
        if m[2] == 0 { a.push("top") } else { s.put("w/.hongdown.toml", "include = [\"top/**/*.md\"]\n"); }
        r.case(&format!("{} {n}", ["depth", "files", "name"][m[0]]), &a.join(" "));
        r.nontrivial = true;
        let run = Call::new(&s.path("w"), &a).run();
        r.calls += 1;
        r.traces += 1;
        let top = std::fs::canonicalize(s.path("w")).unwrap();
        let mut got: Vec<String> = if write { files.iter().filter(|f| s.read(&format!("w/{f}")).unwrap() != text(f).as_bytes()).cloned().collect() } else { reported(&run, &s.path("w"), &top).into_iter().collect() };
        got.sort();
        if got != files { r.fail("files", &got.join(" "), format!("expected {files:?}, got {got:?}\n{}", run.err)); }
    }));
    // Files that are alike
    let same: &'static [&'static str] = &["a/README.md", "b/README.md", "b/c/README.md", "b/c/readme.md", "b/Readme.markdown", "c/README.md", "README.md"];
    e.run(domain("alike", "every set of seven files of one or similar names in several directories, with the same, or different text of the same length × by a directory, by file names or by an include pattern × --check and --write", (1 << 7) * 2 * 3 * 2, |i, r| {
        let m = mixed(i, &[1 << 7, 2, 3, 2]);
        let files: Vec<&str> = (0..7).filter(|k| m[0] >> k & 1 == 1).map(|k| same[k]).collect();
        if files.is_empty() { r.skipped += 1; return }
        let s = Scratch::new();
        let of = |k: usize| format!("# {}\n\n* x\n", if m[1] == 0 { 'x' } else { (b'a' + k as u8) as char });
        for (k, f) in files.iter().enumerate() { s.put(&format!("w/top/{f}"), of(k)); }
        let write = m[3] == 1;
        let names: Vec<String> = files.iter().map(|f| format!("top/{f}")).collect();
        let mut a = vec![if write { "--write" } else { "--check" }];
        match m[2] { 0 => a.push("top"), 1 => a.extend(names.iter().map(|f| f.as_str())), _ => { s.put("w/.hongdown.toml", "include = [\"top/**/*.md\", \"top/**/*.markdown\"]\n"); } }
        r.case(&names.join(" "), &format!("{} {} {write}", ["same", "different"][m[1]], ["directory", "files", "include"][m[2]]));
        r.nontrivial = true;
        let run = Call::new(&s.path("w"), &a).run();
        r.calls += 1;
        r.traces += 1;
        let top = std::fs::canonicalize(s.path("w")).unwrap();
        let got: BTreeSet<String> = if write { names.iter().enumerate().filter(|(k, f)| s.read(&format!("w/{f}")).unwrap() != of(*k).as_bytes()).map(|(_, f)| f.clone()).collect() } else { reported(&run, &s.path("w"), &top) };
        if got != names.iter().cloned().collect() { r.fail("alike", &format!("{got:?}"), format!("expected {names:?}, got {got:?}\n{}", run.err)); }
    }));
    // Every character
    let cs = &characters(e.quick());
    let n = cs.len().div_ceil(64);
    e.run(domain("characters", "every character of the basic plane from the space on (quick: a 16th of Han, Hangul and private use) and selected others in the names of files and directories, 64 characters at a time × by a directory, by file names or by an include pattern × --check and --write", (n * 3 * 2) as u64, |i, r| {
        let m = mixed(i, &[n, 3, 2]);
        let some = &cs[m[0] * 64..((m[0] + 1) * 64).min(cs.len())];
        let mut files: Vec<String> = some.iter().filter(|c| !matches!(c, '/' | '.')).flat_map(|c| [format!("top/{c}.md"), format!("top/a{c}b.md"), format!("top/{c}/z.md")]).collect();
        files.sort();
        files.dedup();
        let s = Scratch::new();
        for f in &files { s.put(&format!("w/{f}"), text(f)); }
        s.put("w/top/other.txt", "x");
        let write = m[2] == 1;
        let mut a = vec![if write { "--write" } else { "--check" }];
        match m[1] { 0 => a.push("top"), 1 => a.extend(files.iter().map(|f| f.as_str())), _ => { s.put("w/.hongdown.toml", "include = [\"top/**/*.md\"]\n"); } }
        r.case(&format!("{:x}", some[0] as u32), &format!("{} {write}", ["directory", "files", "include"][m[1]]));
        r.nontrivial = true;
        let run = Call::new(&s.path("w"), &a).run();
        r.calls += 1;
        r.traces += 1;
        let top = std::fs::canonicalize(s.path("w")).unwrap();
        let got: BTreeSet<String> = if write { files.iter().filter(|f| s.read(&format!("w/{f}")).unwrap() != text(f).as_bytes()).cloned().collect() } else { reported(&run, &s.path("w"), &top) };
        let lost: Vec<&String> = files.iter().filter(|f| !got.contains(*f)).collect();
        if !lost.is_empty() || got.len() != files.len() { r.fail("names", &format!("{lost:?}"), format!("not processed: {lost:?}\n{}", run.err)); }
    }));
}

/// Every file below a directory
pub fn snapshot(top: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(top: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() && !p.is_symlink() { walk(top, &p, out); }
            else { out.insert(p.strip_prefix(top).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default()); }
        }
    }
    let mut m = BTreeMap::new();
    walk(top, top, &mut m);
    m
}
