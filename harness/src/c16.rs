//! C16: configuration layers override each other in the documented order.
//!
//! The real command runs in a scratch tree with its own HOME, XDG directory, system
//! directory (redirected by the shim) and project directories. The reference is a map
//! from keys to the value of the last layer that sets it.
use crate::c15::{self, DOC};
use crate::cli::*;
use crate::core::*;
use crate::opts;
use std::collections::BTreeMap;

/// One setting: section, key, value in TOML, the option it stands for
type Set = (&'static str, &'static str, &'static str, &'static str);

/// What a layer's file holds
#[derive(Clone)]
enum Layer { Absent, Sets(Vec<Set>), Raw(&'static str) }
use Layer::*;

/// The layers from weakest to strongest: system, legacy, XDG, outer project, project
#[derive(Clone)]
struct World { layers: [Layer; 5], no_inherit: Option<bool>, config: Layer, width: Option<&'static str>, xdg_var: bool }

impl World {
    fn new() -> World { World { layers: [Absent, Absent, Absent, Absent, Absent], no_inherit: None, config: Absent, width: None, xdg_var: true } }
    fn text(l: &Layer, no_inherit: Option<bool>) -> Option<String> {
        let head = no_inherit.map_or(String::new(), |b| format!("no_inherit = {b}\n"));
        match l {
            Absent => None,
            Sets(s) => Some(head + &c15::file(&s.iter().map(|x| (x.0, x.1, x.2)).collect::<Vec<_>>())),
            Raw(t) => Some(head + t),
        }
    }
    /// The layers in force, or the one that is not valid
    fn model(&self) -> Result<String, usize> {
        let mut map: BTreeMap<(&str, &str), &str> = BTreeMap::new();
        let mut used: Vec<(usize, &Layer)> = vec![];
        if !matches!(self.config, Absent) { used.push((5, &self.config)); }
        else {
            // the nearest project file only
            let project = if matches!(self.layers[4], Absent) { 3 } else { 4 };
            let alone = self.no_inherit == Some(true) && project == 4;
            for i in 0..3 { if !alone { used.push((i, &self.layers[i])); } }
            used.push((project, &self.layers[project]));
        }
        let mut bad = None;
        for (i, l) in used {
            match l {
                Absent => {}
                Sets(s) => for x in s { map.insert((x.0, x.1), x.3); },
                Raw(_) => bad = Some(i),
            }
        }
        if let Some(b) = bad { return Err(b); }
        if let Some(w) = self.width { map.insert(("", "line_width"), w); }
        Ok(map.values().copied().collect::<Vec<_>>().join(" "))
    }
    fn describe(&self) -> String {
        let names = ["system", "legacy", "xdg", "outer", "project"];
        let mut s: Vec<String> = (0..5).filter_map(|i| World::text(&self.layers[i], if i == 4 { self.no_inherit } else { None }).map(|t| format!("{}: {}", names[i], t.replace('\n', "; ")))).collect();
        if let Some(t) = World::text(&self.config, None) { s.push(format!("--config: {}", t.replace('\n', "; "))); }
        if let Some(w) = self.width { s.push(format!("--line-width {w}")); }
        if !self.xdg_var { s.push("~/.config".into()); }
        s.join(" | ")
    }
    fn lay(&self, s: &Scratch) -> Call {
        let put = |p: &str, l: &Layer, n: Option<bool>| if let Some(t) = World::text(l, n) { s.put(p, t); };
        put("etc/config.toml", &self.layers[0], None);
        put("home/.hongdown.toml", &self.layers[1], None);
        put(if self.xdg_var { "xdg/hongdown/config.toml" } else { "home/.config/hongdown/config.toml" }, &self.layers[2], None);
        put("work/.hongdown.toml", &self.layers[3], None);
        put("work/in/.hongdown.toml", &self.layers[4], self.no_inherit);
        put("conf.toml", &self.config, None);
        std::fs::create_dir_all(s.path("work/in")).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        let mut c = Call::new(&s.path("work/in"), &["--stdin"]).stdin(DOC).env("HDMC_ETC", s.path("etc")).env("LD_PRELOAD", shim());
        c.home = Some(s.path("home"));
        if self.xdg_var { c = c.env("XDG_CONFIG_HOME", s.path("xdg")); }
        if !matches!(self.config, Absent) { c.args.extend(["--config".into(), s.path("conf.toml").to_string_lossy().into_owned()]); }
        if let Some(w) = self.width { c.args.extend(["--line-width".into(), w[2..].to_string()]); }
        c
    }
    fn check(&self, r: &mut Rec) {
        r.case("", &self.describe());
        let s = Scratch::new();
        let run = self.lay(&s).run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &self.model());
    }
}

fn judge(r: &mut Rec, run: &Run, model: &Result<String, usize>) {
    match model {
        Ok(spec) => {
            r.nontrivial |= !spec.is_empty();
            let want = hongdown::format(DOC, &opts::make(spec)).unwrap();
            if !run.ok() { r.fail("refused", &run.code.to_string(), format!("exit {}: {}", run.code, run.err)); }
            else if run.text() != want { r.fail("effective", &run.text(), format!("expected {spec:?}:\n{want}\ngot:\n{}", run.text())); }
        }
        Err(_) => {
            r.nontrivial = true;
            if !run.failed() || run.err.is_empty() { r.fail("accepted", &run.code.to_string(), format!("exit {} with an invalid file: {}", run.code, run.err)); }
            else if !run.out.is_empty() { r.fail("output", "", "output in spite of an error".into()); }
        }
    }
}

/// Contents of a layer with values of its own
fn kinds(layer: usize) -> Vec<Layer> {
    let style: Set = [("thematic_break", "style", "\"***\"", "tb=***"), ("thematic_break", "style", "\"---\"", "tb=---"), ("thematic_break", "style", "\"___\"", "tb=___"), ("thematic_break", "style", "\"* * *\"", "tb=*·*·*"), ("thematic_break", "style", "\"_ _ _\"", "tb=_·_·_"), ("thematic_break", "style", "\"- - -\"", "tb=-·-·-")][layer];
    let lead: Set = [("thematic_break", "leading_spaces", "0", "tbl=0"), ("thematic_break", "leading_spaces", "1", "tbl=1"), ("thematic_break", "leading_spaces", "2", "tbl=2"), ("thematic_break", "leading_spaces", "0", "tbl=0"), ("thematic_break", "leading_spaces", "3", "tbl=3"), ("thematic_break", "leading_spaces", "1", "tbl=1")][layer];
    let width: Set = [("", "line_width", "30", "w=30"), ("", "line_width", "40", "w=40"), ("", "line_width", "50", "w=50"), ("", "line_width", "60", "w=60"), ("", "line_width", "70", "w=70"), ("", "line_width", "80", "w=80")][layer];
    vec![Absent, Sets(vec![]), Sets(vec![style]), Sets(vec![lead]), Sets(vec![style, lead]), Sets(vec![width, style])]
}

pub fn run(e: &Engine) {
    let deep = e.tier == Tier::Thorough;
    // Layers × contents
    let n = if deep { 6 } else { 4 };
    let pick: &[usize] = if deep { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 3, 5] };
    e.run(domain("layers", "each of system, legacy, XDG, outer project and project file: absent or setting some of its own values (quick: 4 kinds of contents each, thorough: 6) × no_inherit of the project file", (n as u64).pow(5) * 2, |i, r| {
        let m = mixed(i, &[n, n, n, n, n, 2]);
        let mut w = World::new();
        for l in 0..5 { w.layers[l] = kinds(l)[pick[m[l]]].clone(); }
        if m[5] == 1 {
            if matches!(w.layers[4], Absent) { r.skipped += 1; return }
            w.no_inherit = Some(true);
        }
        w.check(r);
    }));
    e.run(domain("given", "--config with every kind of contents × --line-width or not × each layer absent or setting everything × no_inherit false or true", 6 * 2 * 32 * 2, |i, r| {
        let m = mixed(i, &[6, 2, 32, 2]);
        let mut w = World::new();
        w.config = kinds(5)[m[0]].clone();
        if m[1] == 1 { w.width = Some("w=20"); }
        for l in 0..5 { if m[2] >> l & 1 == 1 { let mut k = match &kinds(l)[5] { Sets(s) => s.clone(), _ => vec![] }; k.push(("punctuation", "ellipsis", "false", "el=0")); w.layers[l] = Sets(k); } }
        if !matches!(w.layers[4], Absent) { w.no_inherit = Some(m[3] == 1); } else if m[3] == 1 { r.skipped += 1; return }
        w.check(r);
    }));
    // Every key in every set of layers
    let keys: Vec<_> = c15::keys().into_iter().filter_map(|k| {
        if matches!(k.1, "git_aware" | "no_inherit" | "include" | "exclude" | "pad") { return None }
        let ok: Vec<(&'static str, &'static str)> = k.2.iter().filter_map(|v| v.1.map(|s| (v.0, s))).collect();
        Some((k.0, k.1, ok))
    }).collect();
    let keys = &keys;
    e.run(domain("keys", "every key × every set of layers that set it, with alternating values, the others setting a neighbour or nothing × no_inherit", keys.len() as u64 * 16 * 3 * 2, |i, r| {
        let m = mixed(i, &[keys.len(), 16, 3, 2]);
        let (sec, key, vals) = &keys[m[0]];
        // the neighbour: another key of the same section
        let near = keys.iter().find(|k| k.0 == *sec && k.1 != *key && !k.1.ends_with("dash") && !k.1.ends_with("nouns") && k.1 != "sentence_case");
        let mut w = World::new();
        let mut nth = 0;
        for (b, l) in [0usize, 1, 2, 4].into_iter().enumerate() {
            let mut s: Vec<Set> = vec![];
            if m[1] >> b & 1 == 1 {
                // the second value, then the first (a default), then the second, …
                nth += 1;
                let v = vals[nth % 2];
                s.push((sec, key, v.0, if v.1.is_empty() { "" } else { v.1 }));
                if *key == "en_dash" && v.0 == "\"---\"" { s.push(("punctuation", "em_dash", "false", "em=0")); }
            } else if m[2] == 1 {
                if let Some(k) = near { let v = k.2[1.min(k.2.len() - 1)]; s.push((k.0, k.1, v.0, v.1)); }
            } else if m[2] == 2 {
                s.push(if *sec == "punctuation" { ("code_block", "min_fence_length", "6", "fl=6") } else { ("punctuation", "ellipsis", "false", "el=0") });
            } else { continue }
            if key.ends_with("nouns") { s.push(("heading", "sentence_case", "true", "sc=1")); }
            w.layers[l] = Sets(s);
        }
        if m[3] == 1 { if matches!(w.layers[4], Absent) { r.skipped += 1; return } w.no_inherit = Some(true); }
        // a default value is "" in the option text: the map of the model drops what it overrides
        w.check(r);
    }));
    // Invalid files
    let bad = ["line_width = 5\n", "line_width = \"x\"\n", "[heading\n", "[punctuation]\nem_dash = \"\"\n"];
    let nb = if deep { 6 } else { 3 };
    e.run(domain("invalid", "each of the five files: absent, valid or invalid (thorough: in four ways) × no_inherit × with or without a valid --config", (nb as u64).pow(5) * 4, |i, r| {
        let m = mixed(i, &[nb, nb, nb, nb, nb, 2, 2]);
        let mut w = World::new();
        for l in 0..5 { w.layers[l] = match m[l] { 0 => Absent, 1 => kinds(l)[5].clone(), k => Raw(bad[if deep { k - 2 } else { l % 4 }]) }; }
        if m[5] == 1 { if !matches!(w.layers[4], Sets(_)) { r.skipped += 1; return } w.no_inherit = Some(true); }
        if m[6] == 1 { w.config = kinds(5)[4].clone(); }
        w.check(r);
    }));
    // Values that conflict only once they are merged
    let d: [Option<(&str, &str)>; 4] = [None, Some(("false", "0")), Some(("\"--\"", "--")), Some(("\"-\"", "-"))];
    e.run(domain("conflict", "en_dash and em_dash, each in one of two layers, with every pair of values: equal patterns of the merged result are an error", 4 * 4 * 4, |i, r| {
        let m = mixed(i, &[4, 4, 2, 2]);
        let mut w = World::new();
        let mut sets: [Vec<Set>; 2] = [vec![], vec![]];
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        if let Some(v) = d[m[0]] { sets[m[2]].push(("punctuation", "en_dash", v.0, leak(format!("en={}", v.1)))); }
        if let Some(v) = d[m[1]] { sets[m[3]].push(("punctuation", "em_dash", v.0, leak(format!("em={}", v.1)))); }
        w.layers[2] = Sets(sets[0].clone());
        w.layers[4] = Sets(sets[1].clone());
        let en = d[m[0]].map_or("0", |v| v.1);
        let em = d[m[1]].map_or("--", |v| v.1);
        r.case("", &w.describe());
        let s = Scratch::new();
        let run = w.lay(&s).run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &if en == em && en != "0" { Err(4) } else { w.model() });
    }));
    // Where the project file is found
    e.run(domain("places", "project files in every set of four nested directories × current directory at each depth × by standard input or a file elsewhere × the strongest of them with no_inherit or not × what else is in one of the directories (nothing, a repository, a worktree, manifests of other tools, a file of a similar name)", 16 * 4 * 3 * 2 * 17, |i, r| {
        let m = mixed(i, &[16, 4, 3, 2, 17]);
        let s = Scratch::new();
        let dirs = ["w", "w/a", "w/a/b", "w/a/b/c"];
        std::fs::create_dir_all(s.path(dirs[3])).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        let near = (0..=m[1]).rev().find(|d| m[0] >> d & 1 == 1);
        for d in 0..4 {
            if m[0] >> d & 1 == 0 { continue }
            let v = kinds(d)[5].clone();
            s.put(&format!("{}/.hongdown.toml", dirs[d]), World::text(&v, (m[3] == 1 && Some(d) == near).then_some(true)).unwrap());
        }
        s.put("xdg/hongdown/config.toml", "[punctuation]\nellipsis = false\n");
        if m[4] > 0 {
            let d = dirs[(m[4] - 1) % 4];
            match (m[4] - 1) / 4 {
                0 => std::fs::create_dir_all(s.path(&format!("{d}/.git"))).unwrap(),
                1 => { s.put(&format!("{d}/.git"), "gitdir: ../elsewhere\n"); }
                2 => for f in ["Cargo.toml", "package.json", ".editorconfig", ".gitignore"] { s.put(&format!("{d}/{f}"), if f == ".gitignore" { "*\n" } else { "" }); },
                _ => for f in ["hongdown.toml", ".hongdown.toml.bak", ".hongdown", "config.toml"] { s.put(&format!("{d}/{f}"), "line_width = 33\nno_inherit = true\n"); },
            }
        }
        let mut spec: Vec<&str> = vec![];
        if m[3] == 0 || near.is_none() { spec.push("el=0"); }
        if let Some(d) = near && let Sets(x) = &kinds(d)[5] { spec.extend(x.iter().map(|x| x.3)); }
        let mut c = Call::new(&s.path(dirs[m[1]]), &[]).env("XDG_CONFIG_HOME", s.path("xdg"));
        c.home = Some(s.path("home"));
        r.case("", &format!("project files {:04b} from {} {} no_inherit {}, beside {}", m[0], dirs[m[1]], ["stdin", "file in w/a/b/c", "file in w"][m[2]], m[3], m[4]));
        match m[2] {
            0 => { c.args.push("--stdin".into()); c.stdin = DOC.into(); }
            k => { let f = s.put(["", "w/a/b/c/t.md", "w/t.md"][k], DOC); c.args.push(f.to_string_lossy().into_owned()); }
        }
        let run = c.run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &Ok(spec.join(" ")));
    }));
    // Where the user's files are found
    e.run(domain("homes", "XDG_CONFIG_HOME set or not × files in the XDG directory, ~/.config and ~/.hongdown.toml in every combination × HOME set or not", 2 * 8, |i, r| {
        let m = mixed(i, &[2, 8]);
        let s = Scratch::new();
        std::fs::create_dir_all(s.path("w")).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        let mut spec: Vec<&str> = vec![];
        let places = [("home/.hongdown.toml", true), ("home/.config/hongdown/config.toml", m[0] == 0), ("xdg/hongdown/config.toml", m[0] == 1)];
        for (b, (p, used)) in places.iter().enumerate() {
            if m[1] >> b & 1 == 0 { continue }
            let k = kinds(b)[5].clone();
            s.put(p, World::text(&k, None).unwrap());
            if *used && let Sets(x) = k { spec.extend(x.iter().map(|x| x.3)); }
        }
        let mut c = Call::new(&s.path("w"), &["-"]).stdin(DOC);
        c.home = Some(s.path("home"));
        if m[0] == 1 { c = c.env("XDG_CONFIG_HOME", s.path("xdg")); }
        r.case("", &format!("XDG {} files {:03b}", m[0], m[1]));
        let run = c.run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &Ok(spec.join(" ")));
    }));
    // The keys that select files
    let inc = [None, Some("include = [\"a.md\"]\n"), Some("include = [\"b.md\"]\n"), Some("include = []\n")];
    let exc = [None, Some("exclude = [\"a.md\"]\n"), Some("exclude = []\n")];
    let git = [None, Some("git_aware = true\n"), Some("git_aware = false\n")];
    e.run(domain("selection", "include × exclude × git_aware in the user's and in the project's file: which files --check reports", 36 * 36 * 2, |i, r| {
        let m = mixed(i, &[4, 3, 3, 4, 3, 3, 2]);
        let s = Scratch::new();
        std::fs::create_dir_all(s.path("w/.git")).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        for f in ["a.md", "b.md"] { s.put(&format!("w/{f}"), "* x\n"); }
        s.put("w/.gitignore", "b.md\n");
        let text = |a: usize, b: usize, c: usize| [inc[a], exc[b], git[c]].iter().flatten().copied().collect::<String>();
        s.put("home/.hongdown.toml", text(m[0], m[1], m[2]));
        s.put("w/.hongdown.toml", format!("{}{}", if m[6] == 1 { "no_inherit = true\n" } else { "" }, text(m[3], m[4], m[5])));
        let last = |lo: usize, hi: usize| if hi > 0 { hi } else if m[6] == 1 { 0 } else { lo };
        let (a, b, c) = (last(m[0], m[3]), last(m[1], m[4]), last(m[2], m[5]));
        let mut want: Vec<&str> = vec![];
        if a == 1 && b != 1 { want.push("a.md"); }
        if a == 2 && c == 2 { want.push("b.md"); }
        let mut cl = Call::new(&s.path("w"), &["--check"]);
        cl.home = Some(s.path("home"));
        let run = cl.run();
        r.calls += 1;
        r.traces += 1;
        r.case("", &format!("user {:?} project {:?} no_inherit {}", text(m[0], m[1], m[2]), text(m[3], m[4], m[5]), m[6]));
        r.nontrivial = !want.is_empty();
        let got: Vec<&str> = ["a.md", "b.md"].into_iter().filter(|f| run.err.contains(f)).collect();
        if got != want || (run.code == 1) != (!want.is_empty() || a == 0 || a == 3) && !want.is_empty() { r.fail("files", &got.join(" "), format!("expected {want:?}, exit {}: {}", run.code, run.err)); }
    }));
    // A formatter of a language
    let f = ["", "[\"sed\", \"s/p/1/\"]", "[\"sed\", \"s/p/2/\"]"];
    e.run(domain("formatters", "the formatter of one language in each of four layers: none or one of two, beside a default_language that makes it apply", 81 * 2, |i, r| {
        let m = mixed(i, &[3, 3, 3, 3, 2]);
        let mut w = World::new();
        let mut last = 0;
        for (b, l) in [0usize, 1, 2, 4].into_iter().enumerate() {
            if m[b] == 0 { continue }
            w.layers[l] = Sets(vec![("code_block.formatters", "rust", f[m[b]], ["", "fmt=rust:5:sed|s/p/1/", "fmt=rust:5:sed|s/p/2/"][m[b]]), ("punctuation", "ellipsis", "true", "")]);
            if l != 4 && m[4] == 1 { continue }
            last = m[b];
        }
        if m[4] == 1 { if matches!(w.layers[4], Absent) { r.skipped += 1; return } w.no_inherit = Some(true); }
        r.nontrivial = last > 0;
        w.check(r);
    }));
    // Files that say nothing, and homes inside of projects
    let mute = ["", "\n", "# line_width = 10\n", "no_inherit = false\n", "[thematic_break]\n"];
    e.run(domain("nearest", "a project file and another one in a directory above: absent, empty, blank, with a comment, a setting that changes nothing or an empty section only, with settings, or a link to such a file × the home directory elsewhere, above both, at either of them, between or below × by standard input, a file there or a file elsewhere", 8 * 8 * 6 * 3, |i, r| {
        let m = mixed(i, &[8, 8, 6, 3]);
        let s = Scratch::new();
        let dirs = ["t", "t/w", "t/w/m", "t/w/m/a", "t/w/m/a/b"];
        std::fs::create_dir_all(s.path(dirs[4])).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        let home = if m[2] == 0 { "home" } else { dirs[m[2] - 1] };
        let mut map: BTreeMap<(&str, &str), &str> = BTreeMap::new();
        let put = |k: usize, at: &str, l: usize| -> Option<Vec<Set>> {
            let f = format!("{at}/.hongdown.toml");
            let Sets(x) = kinds(l)[5].clone() else { unreachable!() };
            match k {
                0 => return None,
                6 => { s.put(&f, World::text(&kinds(l)[5], None).unwrap()); }
                7 => { let t = s.put(&format!("real{l}.toml"), World::text(&kinds(l)[5], None).unwrap()); std::os::unix::fs::symlink(t, s.path(&f)).unwrap(); }
                _ => { s.put(&f, mute[k - 1]); return Some(vec![]) }
            }
            Some(x)
        };
        let (outer, inner) = (put(m[0], dirs[1], 3), put(m[1], dirs[3], 4));
        s.put("xdg/hongdown/config.toml", "[punctuation]\nellipsis = false\n[thematic_break]\nleading_spaces = 1\n");
        let mut add = |x: &Option<Vec<Set>>| for y in x.iter().flatten() { map.insert((y.0, y.1), y.3); };
        if m[2] == 2 { add(&outer) }
        if m[2] == 4 { add(&inner) }
        add(&Some(vec![("punctuation", "ellipsis", "", "el=0"), ("thematic_break", "leading_spaces", "", "tbl=1")]));
        add(if inner.is_some() { &inner } else { &outer });
        let spec = map.values().copied().collect::<Vec<_>>().join(" ");
        let mut c = Call::new(&s.path(dirs[4]), &[]).env("XDG_CONFIG_HOME", s.path("xdg"));
        c.home = Some(s.path(home));
        match m[3] {
            0 => { c.args.push("--stdin".into()); c.stdin = DOC.into(); }
            1 => { s.put(&format!("{}/t.md", dirs[4]), DOC); c.args.push("t.md".into()); }
            _ => { let f = s.put("t/t.md", DOC); c.args.push(f.to_string_lossy().into_owned()); }
        }
        r.case("", &format!("outer {} inner {} home {home} {}", m[0], m[1], ["stdin", "t.md", "file elsewhere"][m[3]]));
        let run = c.run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &Ok(spec));
    }));
    // Sizes
    e.run(domain("depth", "the project file 0 to 48 directories above the current one × by standard input or a file there × no_inherit or not × another project file above it or not", 49 * 2 * 2 * 2, |i, r| {
        let m = mixed(i, &[49, 2, 2, 2]);
        let s = Scratch::new();
        let low = format!("w/p{}", "/d".repeat(m[0]));
        std::fs::create_dir_all(s.path(&low)).unwrap();
        std::fs::create_dir_all(s.path("home")).unwrap();
        s.put("w/p/.hongdown.toml", World::text(&kinds(4)[5], (m[2] == 1).then_some(true)).unwrap());
        if m[3] == 1 { s.put("w/.hongdown.toml", World::text(&kinds(3)[4], None).unwrap()); }
        s.put("xdg/hongdown/config.toml", "[punctuation]\nellipsis = false\n");
        r.case("", &format!("{} directories below, {}, no_inherit {}, another above {}", m[0], ["stdin", "file"][m[1]], m[2], m[3]));
        let mut spec: Vec<&str> = if m[2] == 0 { vec!["el=0"] } else { vec![] };
        if let Sets(x) = &kinds(4)[5] { spec.extend(x.iter().map(|x| x.3)); }
        let mut c = Call::new(&s.path(&low), &[]).env("XDG_CONFIG_HOME", s.path("xdg"));
        c.home = Some(s.path("home"));
        if m[1] == 0 { c.args.push("--stdin".into()); c.stdin = DOC.into(); } else { s.put(&format!("{low}/t.md"), DOC); c.args.push("t.md".into()); }
        let run = c.run();
        r.calls += 1;
        r.traces += 1;
        judge(r, &run, &Ok(spec.join(" ")));
    }));
}
