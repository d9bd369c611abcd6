//! C15: every option value is accepted or refused as documented and has its effect.
//!
//! The reference is a table of the documented keys: which values each one takes, the
//! library option a value stands for, and what the formatted text looks like with it.
use crate::cli::*;
use crate::core::*;
use crate::opts;

/// A value in TOML, and the option it sets (`None`: it has to be refused).
pub type Value = (&'static str, Option<&'static str>);

const BOOLS: fn(&'static str, &'static str) -> Vec<Value> = |t, f| {
    let mut v = vec![("true", Some(t)), ("false", Some(f))];
    v.extend(["0", "1", "\"true\"", "\"\"", "[]", "{}", "1.0"].map(|x| (x, None)));
    v
};

fn numbers(ok: &[(&'static str, &'static str)], bad: &[&'static str]) -> Vec<Value> {
    let mut v: Vec<Value> = ok.iter().map(|(a, b)| (*a, Some(*b))).collect();
    v.extend(bad.iter().map(|x| (*x, None)));
    v.extend(["-1", "-9223372036854775808", "\"3\"", "3.0", "true", "[3]", "{}", "\"\""].map(|x| (x, None)));
    v
}

fn words(ok: &[(&'static str, &'static str)], bad: &[&'static str]) -> Vec<Value> {
    let mut v: Vec<Value> = ok.iter().map(|(a, b)| (*a, Some(*b))).collect();
    v.extend(bad.iter().map(|x| (*x, None)));
    v.extend(["true", "false", "1", "[]", "{}"].map(|x| (x, None)));
    v
}

/// All keys of the documentation: section, key, values. The default is the first value.
pub fn keys() -> Vec<(&'static str, &'static str, Vec<Value>)> {
    let list = |a: &'static str, b: &'static str, c: &'static str| words(&[("[]", ""), ("[\"LangFoo\"]", a), ("[\"LangFoo\", \"go\"]", b), ("[\"Foo Bar\"]", c)], &["\"LangFoo\"", "[1]", "[\"a\", 1]", "[[\"a\"]]"])
        .into_iter().filter(|v| v.1.is_some() || v.0 != "[]").collect::<Vec<_>>();
    let style = "\"- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -\"";
    vec![
        ("", "line_width", numbers(&[("80", ""), ("8", "w=8"), ("9", "w=9"), ("20", "w=20"), ("39", "w=39"), ("40", "w=40"), ("79", "w=79"), ("81", "w=81"), ("120", "w=120"), ("100000", "w=100000")], &["7", "0", "1", "5"])),
        ("", "git_aware", BOOLS("", "")),
        ("", "no_inherit", BOOLS("", "")),
        ("", "include", words(&[("[]", ""), ("[\"*.x\"]", "")], &["\"*.x\"", "[1]", "[true]"]).into_iter().filter(|v| v.1.is_some() || v.0 != "[]").collect()),
        ("", "exclude", words(&[("[]", ""), ("[\"*.x\"]", "")], &["\"*.x\"", "[1]", "[true]"]).into_iter().filter(|v| v.1.is_some() || v.0 != "[]").collect()),
        ("heading", "setext_h1", BOOLS("", "h1=0")),
        ("heading", "setext_h2", BOOLS("", "h2=0")),
        ("heading", "sentence_case", { let mut v = BOOLS("sc=1", ""); v.swap(0, 1); v }),
        ("heading", "proper_nouns", list("pn=LangFoo", "pn=LangFoo,go", "pn=Foo·Bar")),
        ("heading", "common_nouns", list("cn=LangFoo", "cn=LangFoo,go", "cn=Foo·Bar")),
        ("unordered_list", "unordered_marker", words(&[("\"-\"", ""), ("\"*\"", "um=*"), ("\"+\"", "um=+")], &["\"\"", "\"--\"", "\"- \"", "\"•\"", "\"x\"", "\" -\"", "\".\"", "\"hyphen\"", "\"Hyphen\""])),
        ("unordered_list", "leading_spaces", numbers(&[("1", ""), ("0", "ls=0"), ("2", "ls=2"), ("3", "ls=3")], &["4", "5", "100"])),
        ("unordered_list", "trailing_spaces", numbers(&[("2", ""), ("0", "ts=0"), ("1", "ts=1"), ("3", "ts=3")], &["4", "5", "100"])),
        ("unordered_list", "indent_width", numbers(&[("4", ""), ("1", "iw=1"), ("2", "iw=2"), ("3", "iw=3"), ("5", "iw=5"), ("8", "iw=8"), ("12", "iw=12")], &["0"])),
        ("ordered_list", "odd_level_marker", words(&[("\".\"", ""), ("\")\"", "odd=)")], &["\"\"", "\":\"", "\"-\"", "\"1.\"", "\". \"", "\"Period\""])),
        ("ordered_list", "even_level_marker", words(&[("\")\"", ""), ("\".\"", "even=.")], &["\"\"", "\":\"", "\"-\"", "\"1)\"", "\") \"", "\"Parenthesis\""])),
        ("ordered_list", "pad", words(&[("\"start\"", ""), ("\"end\"", "pad=end")], &["\"\"", "\"Start\"", "\"END\"", "\"left\"", "\"right\"", "\"start \""])),
        ("ordered_list", "indent_width", numbers(&[("4", ""), ("1", "oiw=1"), ("2", "oiw=2"), ("3", "oiw=3"), ("5", "oiw=5"), ("8", "oiw=8")], &["0"])),
        ("code_block", "fence_char", words(&[("\"~\"", ""), ("\"`\"", "fc=`")], &["\"\"", "\"~~\"", "\"```\"", "\"'\"", "\"-\"", "\" ~\"", "\"Tilde\""])),
        ("code_block", "min_fence_length", numbers(&[("4", ""), ("3", "fl=3"), ("5", "fl=5"), ("9", "fl=9"), ("40", "fl=40")], &["2", "1", "0"])),
        ("code_block", "space_after_fence", BOOLS("", "sf=0")),
        ("code_block", "default_language", words(&[("\"\"", ""), ("\"text\"", "dl=text"), ("\"rust\"", "dl=rust"), ("\"c++\"", "dl=c++")], &[]).into_iter().filter(|v| v.1.is_some() || v.0 != "\"\"").collect()),
        ("thematic_break", "style", words(&[(style, ""), ("\"***\"", "tb=***"), ("\"---\"", "tb=---"), ("\"___\"", "tb=___"), ("\"* * *\"", "tb=*·*·*"), ("\"_  _   _\"", "tb=_··_···_"), ("\"----------\"", "tb=----------"), ("\"** * **\"", "tb=**·*·**")],
            &["\"\"", "\" \"", "\"   \"", "\"--\"", "\"- -\"", "\"**\"", "\"-\"", "\"_ _\"", "\"===\"", "\"+++\"", "\"---x\"", "\"- a -\"", "\"***---\"", "\"***-\"", "\"-*-*-*\"", "\"* * * -\"", "\"___-\"", "\"--*\"", "\"---.\"", "\"–––\"", "\"---\\n---\"", "\"   \\t\"", "\"~~~\""])),
        ("thematic_break", "leading_spaces", numbers(&[("3", ""), ("0", "tbl=0"), ("1", "tbl=1"), ("2", "tbl=2")], &["4", "5", "100"])),
        ("punctuation", "curly_double_quotes", BOOLS("", "dq=0")),
        ("punctuation", "curly_single_quotes", BOOLS("", "sq=0")),
        ("punctuation", "curly_apostrophes", { let mut v = BOOLS("ap=1", ""); v.swap(0, 1); v }),
        ("punctuation", "ellipsis", BOOLS("", "el=0")),
        ("punctuation", "en_dash", { let mut v = dashes("en"); v[0] = ("false", Some("")); v.push(("\"--\"", None)); v }),
        ("punctuation", "em_dash", { let mut v = dashes("em"); v.insert(0, ("\"--\"", Some(""))); v }),
    ]
}

fn dashes(k: &str) -> Vec<Value> {
    let s = |x: &str| -> &'static str { Box::leak(format!("{k}={x}").into_boxed_str()) };
    let mut v: Vec<Value> = vec![("false", Some(s("0"))), ("\"---\"", Some(s("---"))), ("\"-\"", Some(s("-"))), ("\"~\"", Some(s("~"))), ("\"=>\"", Some(s("=>"))), ("\"a\"", Some(s("a")))];
    v.extend(["true", "\"\"", "\" \"", "\"- -\"", "\"-- \"", "\"—\"", "\"-\\t\"", "\"-\\n\"", "\"\\u007f\"", "\"한\"", "1", "[\"--\"]", "{}"].map(|x| (x, None)));
    v
}

/// Text in which every option shows.
pub const DOC: &str = "# A Title About LangFoo and Go

Some \"text\" that's 'quoted' and goes on... well past forty columns -- even further than eighty of them, up to a hundred and some more --- a - b ~ c => d.

## Second Level Heading In foo bar

- one
- two

  more of it

  1. inner
     - deep
  2. twice

1. first

   - nested
     1. deeper
        1. deepest
2. second

```
plain code
```

~~~ rust
fn main() {}
~~~

***

### Third
";

fn toml(section: &str, key: &str, value: &str) -> String {
    if section.is_empty() { format!("{key} = {value}\n") } else { format!("[{section}]\n{key} = {value}\n") }
}

/// A configuration file out of settings, each section once.
pub fn file(set: &[(&str, &str, &str)]) -> String {
    let mut out = String::new();
    for (s, k, v) in set.iter().filter(|x| x.0.is_empty()) { let _ = s; out += &format!("{k} = {v}\n"); }
    let mut done: Vec<&str> = vec![];
    for (s, ..) in set.iter().filter(|x| !x.0.is_empty()) {
        if done.contains(s) { continue }
        done.push(s);
        out += &format!("[{s}]\n");
        for (_, k, v) in set.iter().filter(|x| x.0 == *s) { out += &format!("{k} = {v}\n"); }
    }
    out
}

fn expect(r: &mut Rec, run: &Run, want: &str) {
    r.calls += 1;
    r.traces += 1;
    if !run.ok() { r.fail("refused", &run.code.to_string(), format!("exit {} with {}", run.code, run.err)); }
    else if run.text() != want { r.fail("effect", &run.text(), format!("expected:\n{want}\ngot:\n{}", run.text())); }
}

fn refuse(r: &mut Rec, run: &Run, names: &[&str]) {
    r.calls += 1;
    r.nontrivial = true;
    if !run.failed() { r.fail("accepted", &run.code.to_string(), format!("exit {}: {}\n{}", run.code, run.err, run.text())); }
    else if !run.out.is_empty() { r.fail("output", &run.text(), "output in spite of an error".into()); }
    else if !run.err.contains("Error") && !run.err.contains("error") || !names.iter().all(|n| run.err.contains(n)) {
        r.fail("message", &run.err, format!("no error that names {names:?}: {}", run.err));
    }
}

/// What single options change, written out: section, key, value, document, result.
const EFFECTS: &[(&str, &str, &str, &str, &str)] = &[
    ("", "line_width", "20", "aaaa bbbb cccc dddd eeee\n", "aaaa bbbb cccc dddd\neeee\n"),
    ("", "line_width", "8", "aaaa bbbb cccc\n", "aaaa\nbbbb\ncccc\n"),
    ("", "line_width", "40", "aaaa bbbb cccc dddd eeee ffff gggg hhhh iiii\n", "aaaa bbbb cccc dddd eeee ffff gggg hhhh\niiii\n"),
    ("heading", "setext_h1", "true", "# a b\n", "a b\n===\n"),
    ("heading", "setext_h1", "false", "# a b\n\n## c\n", "# a b\n\nc\n-\n"),
    ("heading", "setext_h2", "true", "## a b\n", "a b\n---\n"),
    ("heading", "setext_h2", "false", "# c\n\n## a b\n", "c\n=\n\n## a b\n"),
    ("heading", "sentence_case", "true", "### Some Title\n", "### Some title\n"),
    ("heading", "sentence_case", "false", "### Some Title\n", "### Some Title\n"),
    ("heading", "proper_nouns", "[\"LangFoo\"]\nsentence_case = true", "### The langfoo Thing\n", "### The LangFoo thing\n"),
    ("heading", "common_nouns", "[\"Python\"]\nsentence_case = true", "### The Python Thing\n", "### The python thing\n"),
    ("heading", "common_nouns", "[]\nsentence_case = true", "### The Python Thing\n", "### The Python thing\n"),
    ("unordered_list", "unordered_marker", "\"*\"", "- a\n", " *  a\n"),
    ("unordered_list", "unordered_marker", "\"+\"", "- a\n", " +  a\n"),
    ("unordered_list", "unordered_marker", "\"-\"", "* a\n", " -  a\n"),
    ("unordered_list", "leading_spaces", "0", "- a\n", "-  a\n"),
    ("unordered_list", "leading_spaces", "3", "- a\n", "   -  a\n"),
    ("unordered_list", "trailing_spaces", "1", "- a\n", " - a\n"),
    ("unordered_list", "trailing_spaces", "3", "- a\n", " -   a\n"),
    ("unordered_list", "indent_width", "6", "- a\n  - b\n", " -  a\n       -  b\n"),
    ("ordered_list", "odd_level_marker", "\")\"", "1. a\n", "1)  a\n"),
    ("ordered_list", "odd_level_marker", "\".\"", "1) a\n", "1.  a\n"),
    ("ordered_list", "even_level_marker", "\".\"", "1. a\n   1. b\n", "1.  a\n    1.  b\n"),
    ("ordered_list", "even_level_marker", "\")\"", "1. a\n   1. b\n", "1.  a\n    1)  b\n"),
    ("ordered_list", "indent_width", "6", "1. a\n", "1.    a\n"),
    ("ordered_list", "pad", "\"start\"", "1. a\n", "1.  a\n"),
    ("code_block", "fence_char", "\"`\"", "~~~ x\na\n~~~\n", "```` x\na\n````\n"),
    ("code_block", "fence_char", "\"~\"", "``` x\na\n```\n", "~~~~ x\na\n~~~~\n"),
    ("code_block", "min_fence_length", "3", "```` x\na\n````\n", "~~~ x\na\n~~~\n"),
    ("code_block", "min_fence_length", "7", "``` x\na\n```\n", "~~~~~~~ x\na\n~~~~~~~\n"),
    ("code_block", "space_after_fence", "false", "``` x\na\n```\n", "~~~~x\na\n~~~~\n"),
    ("code_block", "space_after_fence", "true", "```x\na\n```\n", "~~~~ x\na\n~~~~\n"),
    ("code_block", "default_language", "\"text\"", "```\na\n```\n", "~~~~ text\na\n~~~~\n"),
    ("code_block", "default_language", "\"\"", "```\na\n```\n", "~~~~\na\n~~~~\n"),
    ("thematic_break", "style", "\"***\"", "a\n\n---\n", "a\n\n   ***\n"),
    ("thematic_break", "style", "\"_ _ _\"", "a\n\n---\n", "a\n\n   _ _ _\n"),
    ("thematic_break", "leading_spaces", "0\nstyle = \"***\"", "a\n\n---\n", "a\n\n***\n"),
    ("thematic_break", "leading_spaces", "2\nstyle = \"***\"", "a\n\n---\n", "a\n\n  ***\n"),
    ("punctuation", "curly_double_quotes", "false", "a \"b\" c... 'd e'\n", "a \"b\" c… ‘d e’\n"),
    ("punctuation", "curly_double_quotes", "true", "a \"b\" c\n", "a “b” c\n"),
    ("punctuation", "curly_single_quotes", "false", "a \"b\" c... 'd e'\n", "a “b” c… 'd e'\n"),
    ("punctuation", "curly_single_quotes", "true", "a 'd e' it's\n", "a ‘d e’ it's\n"),
    ("punctuation", "curly_apostrophes", "true", "it's\n", "it’s\n"),
    ("punctuation", "curly_apostrophes", "false", "it's\n", "it's\n"),
    ("punctuation", "ellipsis", "false", "a... \"b\"\n", "a... “b”\n"),
    ("punctuation", "ellipsis", "true", "a...\n", "a…\n"),
    ("punctuation", "en_dash", "\"---\"\nem_dash = false", "a --- b -- c\n", "a – b -- c\n"),
    ("punctuation", "en_dash", "\"-\"", "a - b -- c\n", "a – b — c\n"),
    ("punctuation", "en_dash", "false", "a - b -- c\n", "a - b — c\n"),
    ("punctuation", "em_dash", "\"---\"", "a --- b -- c\n", "a — b -- c\n"),
    ("punctuation", "em_dash", "false", "a --- b -- c\n", "a --- b -- c\n"),
    ("punctuation", "em_dash", "\"=>\"", "a => b -- c\n", "a — b -- c\n"),
];

pub fn run(e: &Engine) {
    let keys = keys();
    let keys = &keys;
    let s = Scratch::new();
    let s = &s;
    // Every key alone
    let flat: Vec<(usize, usize)> = keys.iter().enumerate().flat_map(|(i, k)| (0..k.2.len()).map(move |j| (i, j))).collect();
    let flat = &flat;
    e.run(domain("values", "every key × every documented value and every kind of value it does not take, on a document in which all options show", flat.len() as u64, |i, r| {
        let (k, v) = flat[i as usize];
        let (sec, key, vals) = &keys[k];
        let (val, want) = vals[v];
        let t = toml(sec, key, val);
        let f = s.put(&format!("v{i}.toml"), &t);
        r.case(DOC, &t);
        let run = Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        match want {
            Some(spec) => {
                let want = hongdown::format(DOC, &opts::make(spec)).unwrap();
                r.nontrivial = !spec.is_empty();
                // A value that is no default has to show somewhere
                if !spec.is_empty() && want == hongdown::format(DOC, &opts::make(if key.ends_with("nouns") { "sc=1" } else { "" })).unwrap() && !key.ends_with("nouns") && !["w=81", "w=120", "w=100000", "iw=1", "iw=2", "iw=3", "en=---"].contains(&spec.as_ref()) {
                    r.fail("no-effect", spec, format!("{t} changes nothing"));
                }
                expect(r, &run, &want);
            }
            // Two equal dash patterns are a conflict of two keys
            None if *key == "en_dash" && val == "\"--\"" => refuse(r, &run, &["--"]),
            None => refuse(r, &run, &[key]),
        }
    }));
    // The documented defaults, all of them written out, and none at all
    e.run(domain("defaults", "no file, an empty file, all defaults written out, and each key left out of that", keys.len() as u64 + 3, |i, r| {
        let all: Vec<(&str, &str, &str)> = keys.iter().enumerate().filter(|(j, _)| *j as u64 != i).map(|(_, k)| (k.0, k.1, k.2[0].0)).collect();
        let n = keys.len() as u64;
        let t = match i - i.min(n) { 1 => String::new(), 2 => "[heading]\n[unordered_list]\n[ordered_list]\n[code_block]\n[thematic_break]\n[punctuation]\n[code_block.formatters]\n".into(), _ => file(&all) };
        let none = i == n;
        let f = s.put(&format!("d{i}.toml"), &t);
        r.case(DOC, if none { "none" } else { &t });
        let run = if none { Call::new(&s.0, &["--stdin"]) } else { Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]) }.stdin(DOC).run();
        r.nontrivial = true;
        expect(r, &run, &hongdown::format(DOC, &opts::make("w=80 h1=1 h2=1 sc=0 um=- ls=1 ts=2 iw=4 odd=. even=) pad=start oiw=4 fc=~ fl=4 sf=1 dl= tbl=3 dq=1 sq=1 ap=0 el=1 en=0 em=-- tb=-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-·-")).unwrap());
    }));
    e.run(domain("effects", "values and what they do to a text, written out, alone and beside every key's default", EFFECTS.len() as u64 * 2, |i, r| {
        let (sec, key, val, doc, want) = EFFECTS[i as usize / 2];
        let mut t = toml(sec, key, val);
        if i % 2 == 1 {
            let mut set: Vec<(&str, &str, &str)> = keys.iter().filter(|k| !(k.0 == sec && (k.1 == key || val.contains(&format!("\n{} =", k.1))))).map(|k| (k.0, k.1, k.2[0].0)).collect();
            set.push((sec, key, val));
            t = file(&set);
        }
        let f = s.put(&format!("e{i}.toml"), &t);
        r.case(doc, &t);
        r.nontrivial = true;
        let run = Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]).stdin(doc).run();
        expect(r, &run, want);
    }));
    // Every two accepted values of different keys
    let good: Vec<(usize, usize)> = flat.iter().copied().filter(|(k, v)| keys[*k].2[*v].1.is_some_and(|s| !s.is_empty())).collect();
    let good = &good;
    let n = good.len();
    e.run(domain("pairs", "every two accepted values that are no defaults, of different keys", (n * (n - 1) / 2) as u64, |i, r| {
        let (mut a, mut b) = (0, i as usize);
        while b >= n - 1 - a { b -= n - 1 - a; a += 1; }
        b += a + 1;
        let ((k1, v1), (k2, v2)) = (good[a], good[b]);
        if k1 == k2 { r.skipped += 1; return }
        let set = [(keys[k1].0, keys[k1].1, keys[k1].2[v1].0), (keys[k2].0, keys[k2].1, keys[k2].2[v2].0)];
        let spec = format!("{} {}", keys[k1].2[v1].1.unwrap(), keys[k2].2[v2].1.unwrap());
        let t = file(&set);
        let f = s.put(&format!("p{i}.toml"), &t);
        r.case(DOC, &t);
        r.nontrivial = true;
        let run = Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        let dash = |k: usize, v: usize| keys[k].1.ends_with("_dash").then(|| keys[k].2[v].0).filter(|x| *x != "false");
        if let (Some(x), Some(y)) = (dash(k1, v1), dash(k2, v2)) && x == y { refuse(r, &run, &[x.trim_matches('"')]); }
        else { expect(r, &run, &hongdown::format(DOC, &opts::make(&spec)).unwrap()); }
        let _ = std::fs::remove_file(f);
    }));
    // The command line's own option
    let widths = ["8", "9", "20", "40", "79", "80", "81", "200", "7", "0", "-1", "x", "", "8.5", "99999999999999999999999"];
    e.run(domain("line-width", "--line-width with every kind of value × none, default and other width in the file × standard input or a file", (widths.len() * 3 * 2) as u64, |i, r| {
        let m = mixed(i, &[widths.len(), 3, 2]);
        let w = widths[m[0]];
        let f = s.put(&format!("w{i}.toml"), ["", "line_width = 80\n", "line_width = 33\n[punctuation]\nellipsis = false\n"][m[1]]);
        let d = s.put(&format!("w{i}.md"), DOC);
        let lw = format!("--line-width={w}");
        r.case(DOC, &format!("{lw} {} {}", m[1], m[2]));
        let mut c = Call::new(&s.0, &["--config", f.to_str().unwrap(), &lw]).stdin(DOC);
        c.args.push(if m[2] == 0 { "-".into() } else { d.to_str().unwrap().into() });
        let run = c.run();
        r.nontrivial = true;
        match w.parse::<usize>() {
            Ok(n) if n >= 8 => expect(r, &run, &hongdown::format(DOC, &opts::make(&format!("w={n}{}", if m[1] == 2 { " el=0" } else { "" }))).unwrap()),
            Ok(_) => refuse(r, &run, &["line_width"]),
            Err(_) => refuse(r, &run, &["line-width"]),
        }
    }));
    // Formatters: only their syntax here, C21 is about what they do
    let f: &[(&str, bool)] = &[
        ("x = [\"cat\"]", true), ("x = [\"cat\", \"-\"]", true), ("x = { command = [\"cat\"] }", true), ("x = { command = [\"cat\"], timeout = 3 }", true), ("\"c++\" = [\"cat\"]", true),
        ("x = []", false), ("x = { command = [] }", false), ("x = { command = [], timeout = 3 }", false), ("x = \"cat\"", false), ("x = [1]", false), ("x = 1", false),
        ("x = { timeout = 3 }", false), ("x = {}", false), ("x = { command = \"cat\" }", false), ("x = { command = [\"cat\"], timeout = \"3\" }", false), ("x = { command = [\"cat\"], timeout = -1 }", false),
    ];
    e.run(domain("formatters", "every way to write a formatter", f.len() as u64, |i, r| {
        let (t, ok) = f[i as usize];
        let t = format!("[code_block.formatters]\n{t}\n");
        let c = s.put(&format!("f{i}.toml"), &t);
        r.case(DOC, &t);
        r.nontrivial = true;
        let run = Call::new(&s.0, &["--config", c.to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        if ok { expect(r, &run, &hongdown::format(DOC, &opts::make("")).unwrap()); } else { refuse(r, &run, &["x"]); }
    }));
    // Files that are no configuration at all
    let bad = ["line_width", "line_width =", "line_width = 80 80", "[heading", "= 3", "line_width = 80\nline_width = 90", "[heading]\n[heading]", "heading = 3", "\u{0}", "{}", "line_width: 80"];
    e.run(domain("no-toml", "every kind of file that is no TOML, and a file that is missing or not text", bad.len() as u64 + 3, |i, r| {
        let name = format!("b{i}.toml");
        if let Some(t) = bad.get(i as usize) { s.put(&name, t); }
        if i as usize == bad.len() { s.put(&name, [0xff, 0xfe, b'\n']); }
        if i as usize == bad.len() + 1 { std::fs::create_dir_all(s.path(&name)).unwrap(); }
        r.case(DOC, &format!("bad {i}"));
        let run = Call::new(&s.0, &["--config", s.path(&name).to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        refuse(r, &run, &[&name]);
    }));
    // Numbers
    let nums: &[(&str, &str, usize, usize, &str)] = &[
        ("", "line_width", 8, usize::MAX, "w"), ("unordered_list", "leading_spaces", 0, 3, "ls"), ("unordered_list", "trailing_spaces", 0, 3, "ts"), ("unordered_list", "indent_width", 1, usize::MAX, "iw"),
        ("ordered_list", "indent_width", 1, usize::MAX, "oiw"), ("code_block", "min_fence_length", 3, usize::MAX, "fl"), ("thematic_break", "leading_spaces", 0, 3, "tbl"),
    ];
    let most = if e.quick() { 300 } else { 2048 };
    let vals: Vec<usize> = (0..most).chain((11..=20).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).collect();
    let rx = [vals.len(), nums.len()];
    e.run(domain("numbers", "every numeric key × every number below 300 (thorough: 2048), and the powers of two to 2^20 with their neighbours", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let ((sec, key, low, high, o), n) = (nums[m[1]], vals[m[0]]);
        // Thousands of spaces or fence characters show nothing more
        if n > 5000 && o != "w" { r.skipped += 1; return }
        let t = toml(sec, key, &n.to_string());
        let f = s.put(&format!("n{i}.toml"), &t);
        r.case(DOC, &t);
        r.nontrivial = true;
        let run = Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        if (low..=high).contains(&n) { expect(r, &run, &hongdown::format(DOC, &opts::make(&format!("{o}={n}"))).unwrap()) } else { refuse(r, &run, &[key]) }
        let _ = std::fs::remove_file(f);
    }));
    // Every character
    let cs: Vec<char> = (0..0x180u32).filter_map(char::from_u32).chain(characters(e.quick()).into_iter().skip(if e.quick() { 7 } else { 0 }).step_by(if e.quick() { 64 } else { 8 })).collect();
    let cs = &cs;
    let ks: &'static [(&str, &str, &str, &str, &str)] = &[
        ("unordered_list", "unordered_marker", "%", "um", "-*+"), ("ordered_list", "odd_level_marker", "%", "odd", ".)"), ("ordered_list", "even_level_marker", "%", "even", ".)"), ("code_block", "fence_char", "%", "fc", "~`"),
        ("thematic_break", "style", "%%%", "tb", "-*_"), ("thematic_break", "style", "**%*", "tb", "* \t"), ("punctuation", "em_dash", "%", "em", "\0"), ("punctuation", "en_dash", "-%", "en", "\0"),
    ];
    let rx = [ks.len(), cs.len()];
    e.run(domain("characters", "every key that takes certain characters × every character below U+0180, control characters and ASCII among them, and selected others up to the last plane", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let ((sec, key, form, o, ok), c) = (ks[m[0]], cs[m[1]]);
        let v: String = form.replace('%', &c.to_string());
        // "--" is the dash of the other key, and no value of an option here
        if o == "em" && c == '0' || o == "en" && c == '-' { r.skipped += 1; return }
        let t = toml(sec, key, &format!("\"{}\"", v.chars().map(|c| format!("\\U{:08X}", c as u32)).collect::<String>()));
        let f = s.put(&format!("c{i}.toml"), &t);
        r.case(DOC, &t);
        r.nontrivial = true;
        let run = Call::new(&s.0, &["--config", f.to_str().unwrap(), "--stdin"]).stdin(DOC).run();
        if if ok == "\0" { c.is_ascii_graphic() } else { ok.contains(c) } { expect(r, &run, &hongdown::format(DOC, &opts::make(&format!("{o}={}", v.replace(' ', "·")))).unwrap()) } else { refuse(r, &run, &[key]) }
        let _ = std::fs::remove_file(f);
    }));
}
