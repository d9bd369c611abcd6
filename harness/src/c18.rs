//! C18: all ways to run the command agree with each other.
use crate::cli::*;
use crate::core::*;
use crate::opts;
use std::os::unix::fs::MetadataExt;

/// Applies a unified diff. Lines end at line feeds only; a line before the remark about a
/// missing newline has none.
pub fn patch(name: &str, old: &str, diff: &str) -> Result<String, String> {
    let src: Vec<&str> = old.split_inclusive('\n').collect();
    let mut out = String::new();
    let mut at = 0;
    let lines: Vec<&str> = diff.split_inclusive('\n').collect();
    if lines.is_empty() { return Ok(old.into()); }
    if lines.len() < 3 || lines[0] != format!("--- {name}\n") || lines[1] != format!("+++ {name}\n") { return Err("no head".into()); }
    let mut i = 2;
    let (mut new_at, mut hunks) = (0usize, 0);
    while i < lines.len() {
        let h = lines[i].strip_prefix("@@ -").and_then(|l| l.strip_suffix(" @@\n")).ok_or_else(|| format!("no hunk at line {}: {:?}", i + 1, lines[i]))?;
        let (a, b) = h.split_once(" +").ok_or("hunk head")?;
        let range = |r: &str| -> Result<(usize, usize), String> {
            let (s, n) = r.split_once(',').unwrap_or((r, "1"));
            let (s, n): (usize, usize) = (s.parse().map_err(|_| "number")?, n.parse().map_err(|_| "number")?);
            Ok((if n == 0 { s } else { s.checked_sub(1).ok_or("zero")? }, n))
        };
        let ((os, mut on), (ns, mut nn)) = (range(a)?, range(b)?);
        if os < at { return Err("hunks overlap".into()); }
        while at < os { out += src.get(at).ok_or("hunk beyond the end")?; at += 1; new_at += 1; }
        if new_at != ns { return Err(format!("new line number {ns}, expected {new_at}")); }
        i += 1;
        hunks += 1;
        let mut changes = 0;
        while on + nn > 0 {
            let l = *lines.get(i).ok_or("short hunk")?;
            i += 1;
            let bare = lines.get(i).is_some_and(|n| n.starts_with("\\ "));
            if bare { i += 1; }
            let body = if bare { &l[1..l.len() - 1] } else { &l[1..] };
            let (minus, plus) = match l.as_bytes()[0] { b' ' => (true, true), b'-' => (true, false), b'+' => (false, true), _ => return Err(format!("line {l:?}")) };
            if minus {
                if src.get(at) != Some(&body) { return Err(format!("{:?} is not in the input at line {}, which is {:?}", body, at + 1, src.get(at))); }
                at += 1;
                on = on.checked_sub(1).ok_or("too many lines")?;
            }
            if plus { out += body; new_at += 1; nn = nn.checked_sub(1).ok_or("too many lines")?; }
            if minus != plus { changes += 1; }
        }
        if changes == 0 { return Err("hunk without a change".into()); }
    }
    if hunks == 0 { return Err("no hunks".into()); }
    for s in &src[at..] { out += s; }
    Ok(out)
}

/// What a path argument can be
const KINDS: &[(&str, Option<&[u8]>)] = &[
    ("formatted", Some(b"Title\n=====\n\nText that is fine.\n")),
    ("unformatted", Some(b"# Title\n\n* item\n* other\n")),
    ("no-newline", Some(b"Text without an end")),
    ("crlf", Some(b"Title\r\n=====\r\n\r\ntext\r\n")),
    ("empty", Some(b"")),
    ("bytes", Some(b"caf\xe9 *x*\n")),
    ("missing", None),
    ("undefined", Some(b"See [this one] there.\n\n* x\n")),
    ("directory", None),
    ("bom", Some("\u{feff}# Title\n".as_bytes())),
    ("blank", Some(b"\n\n")),
    ("long", Some(b"aaaa bbbb cccc dddd eeee ffff gggg hhhh iiii jjjj kkkk llll mmmm nnnn oooo pppp qqqq rrrr ssss\n\n> x\n")),
];
const MODES: &[&str] = &["", "--write", "--check", "--diff"];

struct File { arg: String, path: String, old: Vec<u8>, new: Option<String> }
fn formatted(old: &[u8], spec: &str) -> Option<String> {
    std::str::from_utf8(old).ok().map(|t| hongdown::format(t, &opts::make(spec)).unwrap())
}

/// Lay the files out and say what each argument stands for: files, or `None` for an error
fn lay(s: &Scratch, kinds: &[usize], spec: &str) -> Vec<Option<Vec<File>>> {
    kinds.iter().enumerate().map(|(i, k)| {
        let (name, content) = KINDS[*k];
        let arg = format!("{}{name}.md", ["b", "a", "c", "d"][i]);
        match content {
            Some(c) => {
                s.put(&arg, c);
                Some(vec![File { path: arg.clone(), arg, old: c.to_vec(), new: formatted(c, spec) }])
            }
            None if name == "directory" => {
                let d = format!("{}dir", ["b", "a", "c", "d"][i]);
                Some([("one.md", KINDS[1].1.unwrap()), ("two.markdown", KINDS[0].1.unwrap())].iter().map(|(f, c)| {
                    let p = format!("{d}/{f}");
                    s.put(&p, c);
                    File { arg: d.clone(), path: p, old: c.to_vec(), new: formatted(c, spec) }
                }).collect())
            }
            None => None,
        }
    }).collect()
}

fn mtime(s: &Scratch, f: &str) -> (i64, u64) { let m = std::fs::metadata(s.path(f)).unwrap(); (m.mtime_nsec() + m.mtime() * 1_000_000_000, m.ino()) }

fn judge(r: &mut Rec, s: &Scratch, mode: &str, args: &[Option<Vec<File>>], names: &[String], times: &[(String, (i64, u64))], run: &Run) {
    // what each argument should print, up to the first error
    let mut out = vec![String::new()];
    let (mut errors, mut differ, mut open) = (false, vec![], false);
    for (a, name) in args.iter().zip(names) {
        let bad = match a {
            None => Some(name.clone()),
            Some(fs) => fs.iter().find(|f| f.new.is_none()).map(|f| f.path.clone()),
        };
        if let Some(p) = bad {
            errors = true;
            open = true;
            if !run.err.contains(&p) { r.fail("silent", &p, format!("no message about {p}: {}", run.err)); }
        }
        for f in a.iter().flatten() {
            let Some(new) = &f.new else { continue };
            if new.as_bytes() != f.old { differ.push(f); }
            if open && matches!(mode, "" | "--diff") { continue }
            match mode {
                "" => out.push(new.clone()),
                "--diff" if new.as_bytes() != f.old => out.push(format!("--- {}\n", f.path)),
                _ => {}
            }
        }
        // without --write or --check, the rest after an error may be left out
        if open && matches!(mode, "" | "--diff") { break }
    }
    let fail = errors || mode == "--check" && !differ.is_empty();
    if fail && !run.failed() || !fail && !run.ok() { r.fail("status", &run.code.to_string(), format!("exit {}, expected {}: {}", run.code, fail as i32, run.err)); }
    let text = run.text();
    match mode {
        "" => {
            let want = out.concat();
            if if open { !text.starts_with(&want) } else { text != want } { r.fail("stdout", &text, format!("expected {want:?}, got {text:?}")); }
        }
        "--check" => {
            if !text.is_empty() { r.fail("stdout", &text, format!("--check prints {text:?}")); }
            for f in args.iter().flatten().flatten() {
                let named = run.err.lines().any(|l| l.contains(&f.path) && !l.contains("warning"));
                let want = f.new.as_ref().is_none_or(|n| n.as_bytes() != f.old);
                if named != want { r.fail("named", &f.path, format!("{} {}: {}", f.path, if want { "is not reported" } else { "is reported" }, run.err)); }
            }
        }
        "--write" => {
            let mut want: Vec<String> = differ.iter().map(|f| f.path.clone()).collect();
            let mut got: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            want.sort();
            got.sort();
            if want != got { r.fail("stdout", &text, format!("expected the names {want:?}, got {got:?}")); }
        }
        _ => {
            // cut into one diff per file
            let mut rest = text.as_str();
            for f in args.iter().take_while(|a| a.is_some()).flatten().flatten() {
                let Some(new) = &f.new else { break };
                let old = std::str::from_utf8(&f.old).unwrap();
                if new == old { continue }
                let end = rest[rest.len().min(1)..].find("\n--- ").map_or(rest.len(), |p| p + 2);
                match patch(&f.path, old, &rest[..end]) {
                    Err(e) => r.fail("patch", &e, format!("{e}\n{rest}")),
                    Ok(t) if t != *new => r.fail("patched", &t, format!("the patch gives {t:?} instead of {new:?}\n{rest}")),
                    Ok(_) => {}
                }
                rest = &rest[end..];
            }
            if !rest.is_empty() && !open { r.fail("stdout", rest, format!("also prints {rest:?}")); }
        }
    }
    for f in args.iter().flatten().flatten() {
        let now = s.read(&f.path).unwrap();
        let want = match &f.new { Some(n) if mode == "--write" => n.as_bytes(), _ => &f.old };
        if now != want { r.fail("file", &f.path, format!("{} holds {:?}", f.path, String::from_utf8_lossy(&now))); }
        let t = times.iter().find(|t| t.0 == f.path).unwrap().1;
        if want == f.old && mtime(s, &f.path) != t { r.fail("touched", &f.path, format!("{} was written though nothing changes", f.path)); }
    }
    // nothing new, and nothing gone
    let n = crate::c17::snapshot(&s.0).len();
    if n != times.len() { r.fail("files", &n.to_string(), format!("{} files instead of {}", n, times.len())); }
}

fn times(s: &Scratch) -> Vec<(String, (i64, u64))> {
    crate::c17::snapshot(&s.0).into_keys().map(|f| {
        let h = std::fs::File::options().append(true).open(s.path(&f)).unwrap();
        h.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)).unwrap();
        let t = mtime(s, &f);
        (f, t)
    }).collect()
}

pub fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    let nk = KINDS.len();
    let most = if deep { 4 } else { 3 };
    let lim = if deep { nk } else { 9 };
    e.run(domain("arguments", "every list of one to three (thorough: four) arguments out of formatted, unformatted, without final newline, CRLF, empty, not UTF-8, missing, with a warning, directory (thorough: BOM, blank, long) × standard output, --write, --check, --diff × default options or width 20", (upto(lim as u64, most) - 1) * 8, |i, r| {
        let kinds = upto_digits(i / 8 + 1, lim as u64, most);
        let mode = MODES[(i % 4) as usize];
        let spec = ["", "w=20"][(i / 4 % 2) as usize];
        if !spec.is_empty() && kinds.len() > 2 { r.skipped += 1; return }
        let s = Scratch::new();
        let args = lay(&s, &kinds, spec);
        let names: Vec<String> = kinds.iter().enumerate().map(|(i, k)| format!("{}{}", ["b", "a", "c", "d"][i], if KINDS[*k].0 == "directory" { "dir".into() } else { format!("{}.md", KINDS[*k].0) })).collect();
        r.case(&names.join(" "), &format!("{mode} {spec}"));
        let times = times(&s);
        let mut a: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
        if !mode.is_empty() { a.insert(0, mode); }
        if !spec.is_empty() { a.push("--line-width=20"); }
        let run = Call::new(&s.0, &a).run();
        r.calls += 1;
        r.traces += 1;
        r.nontrivial = kinds.iter().any(|k| *k > 0);
        judge(r, &s, mode, &args, &names, &times, &run);
    }));
    // The same file in every mode and by every way in
    let docs: Vec<(&str, Vec<u8>)> = KINDS.iter().filter_map(|k| k.1.map(|c| (k.0, c.to_vec()))).collect();
    let docs = &docs;
    let ways = ["--stdin", "-", "--stdin -"];
    e.run(domain("stdin", "every kind of text on standard input × --stdin, - or both × no mode, --check, --diff × three option sets", (docs.len() * ways.len() * 3 * 3) as u64, |i, r| {
        let m = mixed(i, &[docs.len(), ways.len(), 3, 3]);
        let (name, text) = &docs[m[0]];
        let mode = ["", "--check", "--diff"][m[2]];
        let spec = ["", "w=20", "dq=0"][m[3]];
        r.case(name, &format!("{} {mode} {spec}", ways[m[1]]));
        r.nontrivial = true;
        let s = Scratch::new();
        if m[3] == 2 { s.put("c.toml", "[punctuation]\ncurly_double_quotes = false\n"); }
        let mut a: Vec<&str> = ways[m[1]].split(' ').collect();
        if !mode.is_empty() { a.push(mode); }
        match m[3] { 1 => a.push("--line-width=20"), 2 => a.extend(["--config", "c.toml"]), _ => {} }
        let run = Call::new(&s.0, &a).stdin(text).run();
        r.calls += 1;
        r.traces += 1;
        let Ok(old) = std::str::from_utf8(text) else {
            if !run.failed() || !run.out.is_empty() || run.err.is_empty() { r.fail("status", &run.code.to_string(), format!("invalid text on standard input: exit {} {}", run.code, run.err)); }
            return;
        };
        let new = formatted(text, spec).unwrap();
        let out = run.text();
        let fail = mode == "--check" && old != new;
        if fail && !run.failed() || !fail && !run.ok() { r.fail("status", &run.code.to_string(), format!("exit {}: {}", run.code, run.err)); }
        match mode {
            "" if out != new => r.fail("stdout", &out, format!("expected {new:?}, got {out:?}")),
            "--check" if !out.is_empty() => r.fail("stdout", &out, format!("--check prints {out:?}")),
            "--check" if run.err.contains("not formatted") != (old != new) => r.fail("named", &run.err, run.err.clone()),
            "--diff" => {
                let name = out.lines().next().and_then(|l| l.strip_prefix("--- ")).unwrap_or("").to_string();
                match patch(&name, old, &out) {
                    Ok(t) if t == new => {}
                    x => r.fail("patch", &out, format!("{x:?} instead of {new:?}\n{out}")),
                }
            }
            _ => {}
        }
    }));
    // Short texts in all modes at once
    let lines = ["a", "* x", "", "# h", "b\r\rc", "\"q\"  ", "\tc", "\\\r", "- y"];
    let (nl, len) = if deep { (lines.len(), 4) } else { (6, 4) };
    e.run(domain("texts", "every text of up to four lines of an alphabet, with and without a final newline: --diff, --check, --write and standard output agree", (upto(nl as u64, len)) * 2, |i, r| {
        let mut t = upto_digits(i / 2, nl as u64, len).into_iter().map(|k| lines[k]).collect::<Vec<_>>().join("\n");
        if i % 2 == 1 { t.push('\n'); }
        four(r, &t);
    }));
    let n = if deep { 12 } else { 10 };
    e.run(domain("hunks", "a text of many paragraphs with every subset of ten (thorough: twelve) places to change at different distances × with and without a final newline", (1 << n) * 2, |i, r| {
        let gaps = [0usize, 1, 2, 0, 3, 4, 1, 0, 5, 2, 0, 3];
        let mut t = String::new();
        for (b, gap) in gaps.iter().enumerate().take(n) {
            for k in 0..*gap { t += &format!("Paragraph {b} {k}.\n\n"); }
            t += if i / 2 >> b & 1 == 1 { "\\*changed  line...\n\n\n" } else { "As it is.\n\n" };
        }
        t += if i % 2 == 1 { "End.\n" } else { "End." };
        four(r, &t);
    }));
    // Options that exclude each other
    let sets = ["--write --check", "--write --diff", "--check --diff", "--write --check --diff", "--nothing", "--line-width", "--config"];
    e.run(domain("refused", "modes that exclude each other, unknown and incomplete options: a failure that changes and prints nothing; no arguments at all", sets.len() as u64 + 4, |i, r| {
        let s = Scratch::new();
        s.put("f.md", "* x\n");
        let modes = ["", "--write", "--check", "--diff"];
        let mut a: Vec<&str> = match sets.get(i as usize) { Some(x) => x.split(' ').collect(), None => vec![modes[i as usize - sets.len()]] };
        if (i as usize) < sets.len() { a.insert(0, "f.md"); }
        a.retain(|x| !x.is_empty());
        r.case(&a.join(" "), "");
        r.nontrivial = true;
        let run = Call::new(&s.0, &a).stdin("* y\n").run();
        r.calls += 1;
        r.traces += 1;
        if !run.failed() || run.err.is_empty() || !run.out.is_empty() { r.fail("accepted", &run.code.to_string(), format!("exit {} out {:?} err {}", run.code, run.text(), run.err)); }
        if s.read("f.md").unwrap() != b"* x\n" { r.fail("file", "f.md", "the file changed".into()); }
    }));
    // Sizes
    let ns = &sizes(!deep);
    let rx = [ns.len(), 6];
    e.run(domain("sizes", "one quantity at a time (changed lines, kept lines before and after a change, alternating ones, lines that go, length of a line) from 1 to 70 (thorough: 150) and selected numbers up to 1025", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let n = ns[m[0]];
        let rep = |f: &dyn Fn(usize) -> String| (1..=n).map(f).collect::<String>();
        let keep = |i: usize| format!("Paragraph {i}.\n\n");
        let t = match m[1] {
            0 => rep(&|i| format!("*   item {i}\n")),
            1 => rep(&keep) + "\\*changed  line...\n\n" + &rep(&keep) + "End.\n",
            2 => rep(&|i| format!("Changed{i}...\n\nKept {i}.\n\n")) + "End.\n",
            3 => format!("a\n{}b\n", "\n".repeat(n)),
            4 => format!("a {}...\n", "w".repeat(n)),
            _ => rep(&|i| format!("Changed{i}...\n\n{}", (0..i % 9).map(keep).collect::<String>())) + "End.",
        };
        four(r, &t);
    }));
    // Names and permissions of files
    let texts: &'static [&'static str] = &["*   a\n", "a\n", "*   a", "a\r\nb...\r\n", "", "*x* [u]\n\n***\n"];
    let names: &'static [&'static str] = &[
        "a b.md", " a.md", "a.md ", "한글.md", "e\u{301}.md", "[a].md", "{a,b}.md", "*.md", "?.md", "$HOME.md", "~.md", "%s.md", "a'b\".md", "a\\b.md", "#a.md", "a:1.md", "a,b.md", "&amp;.md", ".md", ".a.md", "a", "a.txt", "a.MD", "a.md.md", "a.md~", "a.bak", "a.tmp",
        "d/a.md", "d e/f/a.md", ".git/a.md", ".d/a.md", "node_modules/a.md", "target/a.md", "d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/a.md", "stdin", "hongdown.toml.md", "README.md", "CON", "<stdin>",
    ];
    let rn = [texts.len(), 3, names.len() + 2];
    e.run(domain("names", "files with unusual names, hidden, in directories, long, given as such, with ./ before it and with the whole path", volume(&rn), |i, r| {
        let m = mixed(i, &rn);
        let name = match m[2].checked_sub(names.len()) { None => names[m[2]].to_string(), Some(0) => "n".repeat(252) + ".md", _ => ["d".repeat(200).as_str(); 5].join("/") + "/a.md" };
        if m[1] == 2 && m[2] % 3 != 0 { r.skipped += 1; return }
        r.case(texts[m[0]], &format!("{name} {}", m[1]));
        named(r, texts[m[0]], &name, |s| match m[1] { 0 => name.clone(), 1 => format!("./{name}"), _ => s.path(&name).display().to_string() });
    }));
    let bits: &'static [u32] = &[0o644, 0o600, 0o444, 0o400, 0o666, 0o755, 0o555, 0o200, 0o000, 0o4755, 0o1644];
    let rp = [texts.len(), bits.len(), 2, 3];
    e.run(domain("permissions", "files with all kinds of permissions in directories with and without write permission, by their name and by symbolic and hard links, so far as the user may open them", volume(&rp), |i, r| {
        use std::os::unix::fs::PermissionsExt;
        let m = mixed(i, &rp);
        r.case(texts[m[0]], &format!("{:o} {} {}", bits[m[1]], m[2], m[3]));
        // what the user may not open is the business of C20
        let probe = Scratch::new();
        let p = probe.put("p", "");
        std::fs::set_permissions(&p, PermissionsExt::from_mode(bits[m[1]])).unwrap();
        if std::fs::OpenOptions::new().read(true).write(true).open(&p).is_err() { r.skipped += 1; return }
        named(r, texts[m[0]], "d/f.md", |s| {
            let file = s.path("d/f.md");
            match m[3] {
                1 => { let other = probe.put("f.md", texts[m[0]]); std::fs::remove_file(&file).unwrap(); std::os::unix::fs::symlink(other, &file).unwrap(); }
                2 => std::fs::hard_link(&file, probe.path("f.md")).unwrap(),
                _ => {}
            }
            std::fs::set_permissions(&file, PermissionsExt::from_mode(bits[m[1]])).unwrap();
            if m[2] == 1 { std::fs::set_permissions(s.path("d"), PermissionsExt::from_mode(0o555)).unwrap(); }
            "d/f.md".into()
        });
    }));
}

fn four(r: &mut Rec, t: &str) {
    r.case(t, "");
    named(r, t, "f.md", |_| "f.md".into());
}

/// All modes on a text in a file. Something may be done to it first; gives the argument.
fn named(r: &mut Rec, t: &str, path: &str, prepare: impl Fn(&Scratch) -> String) {
    let new = r.fmt(t, &opts::make(""));
    r.nontrivial = new != t;
    let s = Scratch::new();
    s.put(path, t);
    let arg = &prepare(&s);
    let times: Vec<(String, (i64, u64))> = vec![(arg.clone(), mtime(&s, path))];
    for mode in MODES.iter().filter(|m| **m != "--write").chain(&["--write"]) {
        let mut a = vec![arg.as_str()];
        if !mode.is_empty() { a.insert(0, mode); }
        let run = Call::new(&s.0, &a).run();
        r.calls += 1;
        r.traces += 1;
        let f = File { arg: arg.into(), path: arg.into(), old: t.as_bytes().to_vec(), new: Some(new.clone()) };
        judge(r, &s, mode, &[Some(vec![f])], &[arg.clone()], &times, &run);
    }
    // or its removal would fail
    let _ = std::fs::set_permissions(s.path("d"), std::os::unix::fs::PermissionsExt::from_mode(0o755));
}
