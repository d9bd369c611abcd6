//! C10: sentence case changes only capitals, and only where allowed.
//!
//! The model knows how each heading was put together (words, quotations, code, markup)
//! and derives the expected heading from that; it shares no code with the formatter and
//! reads the list of built-in proper nouns itself.
use crate::core::*;
use crate::opts;

/// A piece of a heading, with where one may be written.
#[derive(Clone, Debug)]
enum P {
    /// Text, with emphasis delimiters and punctuation
    T(&'static str),
    /// Code: stays, and counts as a word
    C(&'static str),
    /// A link target, tag, footnote reference, entity: stays, and is no word
    M(&'static str),
    /// A quotation: source opening, content, closing, double
    Q(&'static str, &'static str, &'static str, bool),
}
use P::*;

struct Nouns {
    proper: Vec<(String, String)>,
    common: Vec<String>,
    multi: Vec<(String, String)>,
}

fn key(s: &str) -> String { s.to_lowercase().replace('’', "'") }

fn builtin() -> Vec<String> {
    std::fs::read_to_string("/repo/data/proper-nouns.tsv").expect("proper nouns").lines().map(str::trim)
        .filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| l.replace('\'', "’")).collect()
}

impl Nouns {
    fn new(user: &[&str], common: &[&str], base: &[String]) -> Nouns {
        let common: Vec<String> = common.iter().map(|c| c.to_lowercase()).collect();
        let all: Vec<(String, String)> = user.iter().map(|u| u.to_string()).chain(base.iter().cloned()).map(|n| (key(&n), n)).collect();
        let mut multi: Vec<(String, String)> = base.iter().cloned().chain(user.iter().map(|u| u.to_string()))
            .filter(|n| n.contains(' ') && !common.contains(&n.to_lowercase())).map(|n| (key(&n), n)).collect();
        multi.sort_by_key(|(_, n)| std::cmp::Reverse(n.len()));
        Nouns { proper: all, common, multi }
    }

    /// The canonical form of a word, kept between its punctuation and possessive 's.
    fn noun(&self, w: &str) -> Option<String> {
        let a = w.find(|c: char| c.is_alphanumeric() || c == '@')?;
        let (pre, body) = w.split_at(a);
        let poss = if body.ends_with("'s") { "'s" } else if body.ends_with("’s") { "’s" } else { "" };
        let body = &body[..body.len() - poss.len()];
        let z = body.char_indices().rev().find(|(_, c)| c.is_alphanumeric()).map(|(i, c)| i + c.len_utf8())?;
        let (core, post) = body.split_at(z);
        if !core.chars().any(char::is_alphabetic) || self.common.contains(&core.to_lowercase()) { return None; }
        let k = core.to_lowercase();
        self.proper.iter().find(|(p, _)| p.replace('\'', "’") == k.replace('\'', "’") && p.len() == key(core).len())
            .map(|(_, n)| format!("{pre}{n}{post}{poss}"))
    }

    fn simple(&self, w: &str, cap: bool) -> String {
        let letters: Vec<char> = w.chars().filter(|c| c.is_alphabetic()).collect();
        if letters.is_empty() || letters.iter().all(|c| c.is_uppercase()) { return w.to_string(); }
        let cs: Vec<char> = w.chars().collect();
        // Acronyms: two capitals at the start, or periods between letters, one a capital
        if cs.len() > 1 && cs[0].is_uppercase() && cs[1].is_uppercase() { return w.to_string(); }
        let dotted = cs.windows(3).any(|x| x[0].is_alphabetic() && x[1] == '.' && x[2].is_alphabetic());
        if dotted && letters.iter().any(|c| c.is_uppercase()) { return w.to_string(); }
        if matches!(cs[0], 'i' | 'I') && (cs.len() == 1 || matches!(cs[1], '\'' | '’')) {
            return format!("I{}", cs[1..].iter().map(|c| c.to_ascii_lowercase()).collect::<String>());
        }
        if let Some(n) = self.noun(w) { return n; }
        let low = w.to_lowercase();
        if !cap { return low; }
        let mut done = false;
        w.chars().flat_map(|c| -> Vec<char> {
            if !done && c.is_alphanumeric() { done = true; c.to_uppercase().collect() } else { c.to_lowercase().collect() }
        }).collect()
    }

    fn word(&self, w: &str, cap: bool) -> String {
        let sep = if w.contains('-') { '-' } else if w.contains('/') { '/' } else { return self.simple(w, cap) };
        if let Some(n) = self.noun(w) { return n; }
        w.split(sep).enumerate().map(|(i, x)| self.simple(x, cap && i == 0)).collect::<Vec<_>>().join(&sep.to_string())
    }

    /// Running text, first telling whether no word has come yet, after that a delimiter
    /// came last.
    fn text(&self, s: &str, first: &mut bool) -> String {
        // The places of multi-word nouns, longest first
        let cs: Vec<char> = s.chars().collect();
        let mut taken: Vec<Option<(usize, String)>> = vec![None; cs.len()];
        let mut used = vec![false; cs.len()];
        for (k, n) in &self.multi {
            let kl = k.chars().count();
            let mut i = 0;
            while i + kl <= cs.len() {
                let sub: String = cs[i..i + kl].iter().collect();
                let fits = key(&sub) == *k && !used[i..i + kl].iter().any(|u| *u)
                    && (i == 0 || !cs[i - 1].is_alphanumeric()) && cs.get(i + kl).is_none_or(|c| !c.is_alphanumeric());
                if !fits { i += 1; continue; }
                let mut e = i + kl;
                let mut n = n.clone();
                if e + 1 < cs.len() && matches!(cs[e], '\'' | '’') && cs[e + 1] == 's' { n.extend(&cs[e..e + 2]); e += 2; }
                for u in &mut used[i..e] { *u = true; }
                taken[i] = Some((e, n));
                i = e;
            }
        }
        let mut out = String::new();
        let mut w = String::new();
        let mut has_noun = false;
        let mut after = false;
        let mut i = 0;
        let mut names: Vec<String> = vec![];
        let flush = |w: &mut String, names: &mut Vec<String>, has: &mut bool, after: &mut bool, first: &mut bool, out: &mut String| {
            if w.is_empty() { return; }
            let up = w.chars().find(|c| c.is_alphanumeric()).is_some_and(|c| c.is_uppercase());
            let mut r = String::new();
            if *has {
                // Parts of the word beside the noun
                let sep = if w.contains('-') { Some('-') } else if w.contains('/') { Some('/') } else { None };
                let parts: Vec<&str> = match sep { Some(c) => w.split(c).collect(), None => vec![w.as_str()] };
                for (n, p) in parts.iter().enumerate() {
                    if n > 0 { r.push(sep.unwrap()); }
                    if p.contains('\u{1}') { r.push_str(p) } else { r.push_str(&self.simple(p, n == 0 && (*first || (*after && up)))) }
                }
                for n in names.drain(..) { r = r.replacen('\u{1}', &n, 1); }
            } else {
                r = self.word(w, *first || (*after && up));
            }
            out.push_str(&r);
            w.clear();
            (*has, *first, *after) = (false, false, false);
        };
        while i < cs.len() {
            if let Some((e, n)) = &taken[i] { w.push('\u{1}'); names.push(n.clone()); has_noun = true; i = *e; continue; }
            let c = cs[i];
            i += 1;
            if c.is_whitespace() {
                flush(&mut w, &mut names, &mut has_noun, &mut after, first, &mut out);
                out.push(c);
            } else if matches!(c, ':' | ';' | '—' | '–') {
                flush(&mut w, &mut names, &mut has_noun, &mut after, first, &mut out);
                out.push(c);
                after = true;
            } else {
                w.push(c);
            }
        }
        flush(&mut w, &mut names, &mut has_noun, &mut after, first, &mut out);
        out
    }

    fn heading(&self, ps: &[P]) -> String {
        let mut out = String::new();
        let mut first = true;
        let mut run = String::new();
        for p in ps {
            if let T(t) = p { run.push_str(t); continue; }
            out.push_str(&self.text(&std::mem::take(&mut run), &mut first));
            match p {
                C(c) => { out.push_str(c); first = false; }
                M(m) => out.push_str(m),
                Q(_, q, _, double) => {
                    let cap = q.chars().find(|c| c.is_alphabetic()).is_some_and(|c| c.is_uppercase());
                    let inner = if cap { self.text(q, &mut true) } else { q.to_string() };
                    let (a, b) = if *double { ('“', '”') } else { ('‘', '’') };
                    out.push_str(&format!("{a}{inner}{b}"));
                    first = false;
                }
                T(_) => {}
            }
        }
        out.push_str(&self.text(&run, &mut first));
        out
    }
}

fn source(ps: &[P]) -> String {
    ps.iter().map(|p| match p { T(s) | C(s) | M(s) => s.to_string(), Q(a, s, b, _) => format!("{a}{s}{b}") }).collect()
}

const WORDS: &[&[P]] = &[
    &[T("Plain")], &[T("lower")], &[T("LOUD")], &[T("API")], &[T("APIs")], &[T("github")], &[T("GitHub’s")], &[T("(DENO")], &[T("(deno")], &[T("Python,")],
    &[T("swift")], &[T("Foo")], &[T("foo bar")], &[T("My-Lib")], &[T("U.S.")], &[T("Ph.D.")], &[T("e.g.")], &[T("End.")], &[T("JSON-Rpc")], &[T("React-Based")],
    &[T("Html/css")], &[T("i")], &[T("I’M")], &[T("I")], &[C("`Code X`")], &[C("``A ` B``")], &[T("한글")], &[T("ÉA")], &[T("Élan")], &[T("*Emph*")], &[T("**Strong Text**")],
    &[T("[Link Text"), M("](./Path/To)")], &[T("[python"), M("](./X \"Ti T\")")], &[T("![Img"), M("](A.PNG)")], &[M("<B Id=\"X\">"), T("Tag"), M("</B>")], &[M("<http://A.B/C>")],
    &[T("3Rd")], &[T("iPhone")], &[T("@Foo/Javascript")], &[T("new zealand")], &[T("New")], &[T("GitHub actions’s")], &[T("Actions")], &[T("people’s Republic Of China")],
    &[Q("“", "Did You See", "”", true)], &[Q("“", "did You", "”", true)], &[Q("‘", "The Github", "’", false)], &[Q("“", "9", "”", true)],
    &[T("One:")], &[T("Two;Three")], &[T("—")], &[T("Four–Five")], &[M("&Eacute;"), T("a")], &[T("X")], &[T("\\`Q")], &[T("Semi-new zealand")], &[T("((Kotlin))")], &[T("O’Neil")], &[T("Ubuntu")],
    &[T("Link"), M("&amp;"), T("Co")], &[T("\\_Foo\\_Bar")], &[T("ǅungla")], &[T("straße")], &[T("i’ll")], &[T("I’d")], &[T("bar Baz")],
];

struct Setting { opts: &'static str, pre: &'static str, user: &'static [&'static str], common: &'static [&'static str] }
const SETTINGS: &[Setting] = &[
    Setting { opts: "sc=1", pre: "", user: &[], common: &[] },
    Setting { opts: "sc=1 pn=SwifT,Foo·Bar,my-lib,@foo/JAVAscript,API,LoweR,éLAN cn=python,GitHub·Actions", pre: "", user: &["SwifT", "Foo Bar", "my-lib", "@foo/JAVAscript", "API", "LoweR", "éLAN"], common: &["python", "GitHub Actions"] },
    Setting { opts: "sc=1 pn=Bar·BAZ cn=DENO", pre: "<!-- hongdown-proper-nouns: SwifT, Foo Bar,my-lib -->\n\n<!-- hongdown-common-nouns: Python , new zealand,Bar Baz -->\n\n", user: &["Bar BAZ", "SwifT", "Foo Bar", "my-lib"], common: &["DENO", "Python", "new zealand", "Bar Baz"] },
    Setting { opts: "sc=1 pn=Lower,New·Zealand·Actions,tWO cn=SWIFT,Foo,github,kotlin", pre: "<!-- hongdown-proper-nouns: SWIFT, Plain,zeaLand -->\n\n", user: &["Lower", "New Zealand Actions", "tWO", "SWIFT", "Plain", "zeaLand"], common: &["SWIFT", "Foo", "github", "kotlin"] },
];

fn check(r: &mut Rec, s: &Setting, n: &Nouns, ps: &[P]) {
    let src = source(ps);
    let doc = format!("{}### {src}\n", s.pre);
    r.case(&doc, s.opts);
    let f = r.fmt(&doc, &opts::make(s.opts));
    let want = n.heading(ps);
    r.traces += 1;
    r.nontrivial = want != src;
    if f != format!("{}### {want}\n", s.pre) { r.fail("sentence-case", &f, format!("model: ### {want}")); }
}

fn join(ix: &[usize], sep: &'static str) -> Vec<P> {
    let mut v = vec![];
    for (n, i) in ix.iter().enumerate() {
        if n > 0 { v.push(T(sep)); }
        v.extend(WORDS[*i].iter().cloned());
    }
    v
}

pub fn run(e: &Engine) {
    let base = builtin();
    let nouns: Vec<Nouns> = SETTINGS.iter().map(|s| Nouns::new(s.user, s.common, &base)).collect();
    let k = WORDS.len();
    let r2 = [SETTINGS.len(), 5, k, k];
    let seps: &'static [&'static str] = &[" ", ": ", "—", "-", "/"];
    e.run(domain("pairs", "every pair of words of all classes × what joins them × four assignments of the noun lists to options and directives", volume(&r2), |i, r| {
        let m = mixed(i, &r2);
        let sep = seps[m[1]];
        let ps = join(&m[2..4], sep);
        // A noun inside a longer word, or markup cut by a dash, is not part of the claim
        let src = source(&ps);
        if sep.len() < 2 && sep != " " && (src.contains('(') || ps.iter().any(|p| !matches!(p, T(_)))) { r.skipped += 1; return; }
        check(r, &SETTINGS[m[0]], &nouns[m[0]], &ps);
    }));
    let q = e.quick();
    let r3 = [if q { 1 } else { SETTINGS.len() }, k, k, k];
    e.run(domain("triples", "every triple of words of all classes (quick: under the defaults and the fullest lists alternately)", volume(&r3), |i, r| {
        let m = mixed(i, &r3);
        let s = if q { (i % 2) as usize } else { m[0] };
        check(r, &SETTINGS[s], &nouns[s], &join(&m[1..], " "));
    }));
    // Every built-in noun, in any spelling and place
    let none = Nouns::new(&[], &[], &base);
    let rb = [base.len(), 4, 5];
    e.run(domain("built-in", "every built-in proper noun × its spelling (as listed, lower case, upper case, capitalised) × its place", volume(&rb), |i, r| {
        let m = mixed(i, &rb);
        let b = &base[m[0]];
        let w = match m[1] { 0 => b.clone(), 1 => b.to_lowercase(), 2 => b.to_uppercase(), _ => b.split(' ').map(|p| { let l = p.to_lowercase(); let c = l.chars().next().unwrap(); format!("{}{}", c.to_uppercase(), &l[c.len_utf8()..]) }).collect::<Vec<_>>().join(" ") };
        let t: &'static str = Box::leak(match m[2] { 0 => format!("{w} Is Here"), 1 => format!("About {w}"), 2 => format!("About ({w}), Then"), 3 => format!("The {w}’s Age"), _ => format!("Half-{w}: {w}") }.into_boxed_str());
        let src = format!("### {t}\n");
        r.case(&src, "sc=1");
        let f = r.fmt(&src, &opts::make("sc=1"));
        r.traces += 1;
        r.nontrivial = true;
        let want = none.heading(&[T(t)]);
        if f != format!("### {want}\n") { r.fail("built-in", &f, format!("model: ### {want}")); }
        // Independently of the model: the listed spelling has to appear
        let loud = m[1] == 2 && !b.contains(' ');
        if !loud && m[2] < 4 && !f.contains(b.as_str()) { r.fail("built-in-spelling", &f, format!("the spelling {b} is lost")); }
        // As a common noun it is an ordinary word
        let cn = Nouns::new(&[], &[b], &base);
        let spec = format!("sc=1 cn={}", b.replace(' ', "·"));
        let f = r.fmt(&src, &opts::make(&spec));
        let want = cn.heading(&[T(t)]);
        if f != format!("### {want}\n") { r.fail("common", &f, format!("model with {spec}: ### {want}")); }
    }));
    // Straight quotation marks become typographic ones in headings
    let sq: &'static [(&'static str, P)] = &[
        ("\"Did You Mean?\"", Q("", "Did You Mean?", "", true)), ("'Hello World'", Q("", "Hello World", "", false)), ("\"did You\"", Q("", "did You", "", true)),
        ("Let's", T("Let's")), ("'80s", T("'80s")), ("Word", T("Word")), ("`\"A\" B`", C("`\"A\" B`")), ("GitHub's", T("GitHub's")), ("I'M", T("I'M")), ("Goin' On", T("Goin' On")),
    ];
    let sq: &'static [(&'static str, Vec<P>)] = Box::leak(sq.iter().map(|(s, p)| (*s, vec![p.clone()])).chain([
        ("('Hello World')", vec![T("("), Q("", "Hello World", "", false), T(")")]), ("(\"Hello World\")", vec![T("("), Q("", "Hello World", "", true), T(")")]),
        ("['Hello World']", vec![T("["), Q("", "Hello World", "", false), T("]")]), ("[\"Hello World\"]", vec![T("["), Q("", "Hello World", "", true), T("]")]),
    ]).collect());
    let rs = [3, sq.len(), sq.len(), sq.len()];
    e.run(domain("quotes", "every triple of quotations, contractions, code and words in straight quotation marks, with punctuation options on and off", volume(&rs), |i, r| {
        let m = mixed(i, &rs);
        let mut ps = vec![];
        let mut src = String::new();
        for (n, x) in m[1..].iter().enumerate() {
            if n > 0 { ps.push(T(" ")); src.push(' '); }
            ps.extend(sq[*x].1.iter().cloned());
            src.push_str(sq[*x].0);
        }
        let doc = format!("### {src}\n");
        let spec = ["sc=1", "sc=1 dq=0 sq=0", "sc=1 plain=1"][m[0]];
        r.case(&doc, spec);
        let f = r.fmt(&doc, &opts::make(spec));
        r.traces += 1;
        r.nontrivial = true;
        let mut want = format!("### {}\n", none.heading(&ps));
        // The decade abbreviation is the business of the punctuation rules
        if m[0] == 0 { want = want.replace("'80s", "’80s"); }
        if f != want { r.fail("quotes", &f, format!("model: {want}")); }
    }));
    // Text outside headings, and headings with the option off
    let places: &'static [&'static str] = &["{}\n", " -  {}\n", "> {}\n", "| {} |\n| --- |\n| {} |\n", "text[^n]\n\n[^n]: {}\n", "~~~~\n# {}\n~~~~\n", "<!-- # {} -->\n", "> [!NOTE]\n> {}\n", "term {}\n:   {}\n", "<div>{}</div>\n", "---\n# {}\n---\n", "<!-- hongdown-disable-next-line -->\n\n# {}\n"];
    let ro = [places.len() + 6, k, 2];
    e.run(domain("elsewhere", "every word after a capitalised one in every place that is no heading with the option on, and in headings of every level with it off", volume(&ro), |i, r| {
        let m = mixed(i, &ro);
        let w = source(WORDS[m[1]]);
        let w = if m[2] == 0 { format!("Some Words {w}") } else { format!("{w} And Words") };
        let (doc, spec) = match places.get(m[0]) { Some(p) => (p.replace("{}", &w), "sc=1"), None => (format!("{} {w}\n", "#".repeat(m[0] - places.len() + 1)), "h1=0 h2=0") };
        r.case(&doc, spec);
        let f = r.fmt(&doc, &opts::make(spec));
        r.traces += 1;
        let keep = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>();
        if keep(&doc) != keep(&f) { r.fail("elsewhere", &f, "letters changed outside a heading".into()); }
    }));
    // Every level, style and container of headings, and what else stands in the document
    let ctx: &'static [(&'static str, &'static str)] = &[("", ""), ("> ", ""), (" -  ", ""), ("Intro Text Here.\n\n", "\n\nMore Text Here.\n"), ("<!-- hongdown-proper-nouns: Zed -->\n\n", ""), ("Some Head\n---------\n\n", "\n\n[ref]: ./A/B\n")];
    let rl = [7, ctx.len(), 2, k];
    e.run(domain("levels", "every word in a heading of every level and style, in containers and after other headings and directives", volume(&rl), |i, r| {
        let m = mixed(i, &rl);
        let mut ps = vec![T("Some ")];
        ps.extend(WORDS[m[3]].iter().cloned());
        ps.push(T(" Zed Word"));
        let (a, b) = ctx[m[1]];
        let text = source(&ps);
        let doc = if m[0] == 6 { if m[1] == 1 || m[1] == 2 { r.skipped += 1; return; } format!("{a}{text}\n===\n{b}") } else { format!("{a}{} {text}{b}\n", "#".repeat(m[0] + 1)) };
        let spec = ["sc=1 h1=0 h2=0", "sc=1"][m[2]];
        r.case(&doc, spec);
        let f = r.fmt(&doc, &opts::make(spec));
        r.traces += 1;
        r.nontrivial = true;
        let n = Nouns::new(if m[1] == 4 { &["Zed"] } else { &[] }, &[], &base);
        let want = n.heading(&ps);
        if !f.lines().any(|l| l.trim_start_matches(['>', ' ', '-', '#']) == want) { r.fail("levels", &f, format!("model: {want}")); }
        if m[1] == 3 && !(f.contains("Intro Text Here.") && f.contains("More Text Here.")) { r.fail("levels", &f, "paragraphs changed".into()); }
        if m[1] == 5 && !f.contains("Some head\n---------") && m[2] == 1 { r.fail("levels", &f, "the earlier heading is wrong".into()); }
    }));
    // How directives and their lists are written
    let write: &'static [&'static str] = &["<!-- hongdown-proper-nouns: SwifT, Foo BAR -->", "<!-- hongdown-proper-nouns:SwifT,Foo BAR-->", "<!--hongdown-proper-nouns: SwifT,\nFoo BAR\n-->", "<!-- hongdown-proper-nouns:\n  SwifT,\n  Foo BAR,\n-->", "<!-- hongdown-proper-nouns: SwifT\t,\tFoo BAR\t-->", "<!--\nhongdown-proper-nouns: ,SwifT, ,Foo BAR, -->", "<!-- hongdown-proper-nouns: SwifT -->\n<!-- hongdown-proper-nouns: Foo BAR -->", "<!-- hongdown-common-nouns: Python,\nGitHub -->\n\n<!-- hongdown-proper-nouns:\nSwifT,\nFoo BAR -->"];
    let texts: &'static [&'static str] = &["Use Swift Now", "Use Foo Bar Now", "The FOO bar And swift", "Python And Github", "Foo bar"];
    let rw = [write.len(), texts.len(), 3];
    e.run(domain("lists", "every way to write the lists of directives: with spaces, tabs and line ends around the names, empty names, no spaces × headings", volume(&rw), |i, r| {
        let m = mixed(i, &rw);
        let d = write[m[0]];
        let pre = format!("{}{d}\n\n", ["", "Text.\n\n", "# Python\n\n"][m[2]]);
        let n = Nouns::new(&["SwifT", "Foo BAR"], if d.contains("common") { &["Python", "GitHub"] } else { &[] }, &base);
        let doc = format!("{pre}### {}\n", texts[m[1]]);
        r.case(&doc, "sc=1 h1=0");
        let f = r.fmt(&doc, &opts::make("sc=1 h1=0"));
        r.traces += 1;
        r.nontrivial = true;
        let want = n.heading(&[T(texts[m[1]])]);
        if !f.ends_with(&format!("-->\n\n### {want}\n")) { r.fail("lists", &f, format!("model: ### {want}")); }
    }));
    // A directive reaches every later heading of its document, and no other document
    let rd = [4, 4, 4];
    e.run(domain("directives", "every order of three directives or headings: each heading obeys exactly the directives before it, and the next document none", volume(&rd), |i, r| {
        let m = mixed(i, &rd);
        let parts = ["### Use Swift Now", "<!-- hongdown-proper-nouns: Swift -->", "<!-- hongdown-common-nouns: Swift -->", "Swift Text Here."];
        let doc = m.iter().map(|x| parts[*x]).collect::<Vec<_>>().join("\n\n") + "\n\n### Use Swift Now\n";
        let (mut p, mut c) = (vec![], vec![]);
        let mut want = vec![];
        for x in m.iter().chain(&[0]) {
            match x { 0 => want.push(format!("### {}", Nouns::new(&p, &c, &base).heading(&[T("Use Swift Now")]))), 1 => { p.push("Swift"); want.push(parts[1].into()) } 2 => { c.push("Swift"); want.push(parts[2].into()) } _ => want.push(parts[3].into()) }
        }
        r.case(&doc, "sc=1");
        let o = opts::make("sc=1");
        let f = r.fmt(&doc, &o);
        r.traces += 1;
        r.nontrivial = true;
        if f != want.join("\n\n") + "\n" { r.fail("directives", &f, want.join("\n\n")); }
        let g = r.fmt("### Use Swift Now\n", &o);
        if g != format!("### {}\n", none.heading(&[T("Use Swift Now")])) { r.fail("leak", &g, "a directive reached another document".into()); }
    }));
    // Every character
    let cs = &characters(q);
    let rx = [if q { 1 } else { 5 }, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others that has no case, but ASCII and white space, in one way (thorough: each) of five: at the start, within and at the end of words, as one, and around numbers", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (c, m) = (cs[m[1]], (m[0] + m[1]) % 5);
        if !letterlike(c) || c.is_control() || !c.to_lowercase().eq([c]) || !c.to_uppercase().eq([c]) { r.skipped += 1; return }
        let p = |t: String| T(Box::leak(t.into_boxed_str()));
        let ps = match m {
            0 => vec![T("Plain"), T(" "), p(format!("{c}Word")), T(" "), T("Word")],
            1 => vec![p(format!("Wo{c}Rd")), T(" "), p(format!("Wo{c}rd")), T(" "), p(format!("Word{c}"))],
            2 => vec![T("Plain"), T(" "), p(format!("{c}")), T(" "), T("Word"), T(" "), p(format!("{c}github"))],
            3 => vec![T("Plain"), T(" "), p(format!("{c}0{c}")), T(" "), T("new zealand"), T(" "), p(format!("{c}1{c}"))],
            _ => vec![p(format!("{c}Word")), T(" "), T("Plain"), T(" "), p(format!("github{c}"))],
        };
        check(r, &SETTINGS[0], &nouns[0], &ps);
    }));
    // Sizes
    let ns = &sizes(q);
    let rx = [ns.len(), 4, if q { 13 } else { WORDS.len() }];
    e.run(domain("sizes", "one quantity at a time (words of four kinds, or letters of a word, before a word of every class) from 1 to 70 (thorough: 150) and selected numbers up to 1025 × option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let (n, x) = (ns[m[0]], if q { m[2] * 5 % WORDS.len() } else { m[2] });
        if n > 130 && (q || x > 10) { r.skipped += 1; return }
        let mut ps = vec![];
        let s = n % 2;
        match m[1] {
            0 => for _ in 0..n { ps.extend([T("Plain"), T(" ")]) },
            1 => for _ in 0..n { ps.extend([T("github"), T(" ")]) },
            2 => for _ in 0..n { ps.extend([T("*Emph*"), T(" "), C("`Code X`"), T(" ")]) },
            _ => { ps.push(T("Plain ")); for _ in 0..n { ps.push(T("Word")) } ps.push(T(" ")); }
        }
        ps.extend(WORDS[x].iter().cloned());
        check(r, &SETTINGS[s], &nouns[s], &ps);
    }));
}
