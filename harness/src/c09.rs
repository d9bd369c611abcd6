//! C09: punctuation changes exactly what the options ask for.
use crate::core::*;
use crate::{docs, norm, opts, punct::Rules};

fn check(r: &mut Rec, doc: &str, spec: &str) {
    r.case(doc, spec);
    let o = opts::make(spec);
    let f = r.fmt(doc, &o);
    r.nontrivial = f != doc;
    let rules = Rules::of(&o);
    let want = norm::meaning_map(doc, &|t| rules.apply(t));
    let got = norm::meaning(&f);
    r.traces += 1;
    if want != got {
        r.fail("punctuation", &f, format!("model:\n{want}\nformatter:\n{got}"));
    }
}

pub fn run(e: &Engine) {
    let q = e.quick();
    // Every combination of the options, on short texts
    let dash: &'static [&'static str] = &["0", "-", "--", "---", "=>"];
    let alpha: &'static [&'static str] = &["\"", "'", ".", "-", "a", "s", "1", " ", "(", ")", "{", "]"];
    let k = alpha.len() as u64;
    let short = if q { 3 } else { 4 };
    let radix = [2, 2, 2, 2, dash.len(), dash.len()];
    let combos: Vec<String> = (0..volume(&radix)).filter_map(|i| {
        let m = mixed(i, &radix);
        if m[4] == m[5] && m[4] != 0 { return None; }
        Some(format!("dq={} sq={} ap={} el={} en={} em={}", m[0], m[1], m[2], m[3], dash[m[4]], dash[m[5]]))
    }).collect();
    let n = k.pow(short as u32);
    let combos = &combos;
    e.run(domain("options", "all texts of 3 (thorough: 4) characters from the quote alphabet, after a letter, under every combination of the six options",
        n * combos.len() as u64, |i, r| {
            let s: String = digits(i % n, k, short).into_iter().map(|x| alpha[x]).collect();
            check(r, &format!("x{s}\n"), &combos[(i / n) as usize]);
        }));
    // Longer texts under the option sets in which the rules meet
    let sets: &'static [&'static str] = &["", "ap=1", "ap=1 en=- em=---", "sq=0 ap=1", "dq=1 sq=0 el=0 em=0"];
    let len = if q { 5 } else { 6 };
    let n = k.pow(len as u32);
    e.run(domain("quotes", "all texts of 5 (thorough: 6) characters from the quote alphabet under five option sets", n * sets.len() as u64, |i, r| {
        let s: String = digits(i % n, k, len).into_iter().map(|x| alpha[x]).collect();
        if s.starts_with(' ') || s.ends_with(' ') || s.contains("  ") { r.skipped += 1; return; }
        check(r, &format!("{s}\n"), sets[(i / n) as usize]);
    }));
    let dots: &'static [&'static str] = &[".", "-", " ", "a", "…", "\"", "—"];
    let len = if q { 7 } else { 8 };
    let n = (dots.len() as u64).pow(len as u32);
    e.run(domain("dots-dashes", "all texts of 7 (thorough: 8) characters from dots, dashes, spaces, a letter, an ellipsis, a quote and a dash with the defaults", if q { n / 2 } else { n }, |i, r| {
        let s: String = digits(i, dots.len() as u64, len).into_iter().map(|x| dots[x]).collect();
        if s.ends_with(' ') || s.contains("  ") { r.skipped += 1; return; }
        check(r, &format!("x{s}\n"), "");
    }));
    // Words of all kinds
    let words: &'static [&'static str] = &["it's", "'twas", "goin'", "'80s", "2024's", "\"Hi,\"", "'a", "b'", "(\"c\")", "['d']", "O'Neil's", "e...", "....", "--", "f--g", "-", "\"'h'\"", "'\"i\"'", "한글's", "é'", "'", "\"", "“j”", "[k]'s", "{l}'S", "m'n'o", "\\\"", "&quot;", "'9", "p,'q", "'s", "'ss", "1'"];
    let k = words.len() as u64;
    let len = if q { 3 } else { 4 };
    let n = k.pow(len as u32);
    let sets: &'static [&'static str] = &["", "ap=1 en=- em=--", "ap=1 sq=0"];
    e.run(domain("words", "all sequences of 3 (thorough: 4) words of all kinds under three option sets", n * if q { 3 } else { 1 }, |i, r| {
        let s: Vec<&str> = digits(i % n, k, len).into_iter().map(|x| words[x]).collect();
        check(r, &(s.join(" ") + "\n"), sets[(i / n) as usize]);
    }));
    // The fifty characters within which a quote has to be closed
    e.run(domain("distance", "an opening quote and its closing one at every distance from 1 to 80, three ways, two option sets", 80 * 3 * 2, |i, r| {
        let m = mixed(i, &[2, 3, 80]);
        let gap = "b".repeat(m[2]);
        let s = match m[1] { 0 => format!("'a{gap}'"), 1 => format!("x 'a{gap}' z"), _ => format!("'a{gap}' 'z 'q'") };
        check(r, &format!("{s}\n"), ["w=200", "ap=1 w=200"][m[0]]);
    }));
    // Where text is and where it is not
    let inner: &'static [&'static str] = &["\"a\" -- b... 'c' it's - d", "`\"a\" -- b...`", "<b t=\"a -- b...\">", "[\"l\"](./\"u\"--...)", "[l](http://u/--... \"t -- ...\")", "![\"i\" -- ...](./i--.png \"t...\")", "<http://u/--...>", "*\"a\"* -- **b...**", "x[^\"--]", "&quot;a&quot; &#45;&#45;", "\\\"a\\\" \\-\\- \\.\\.\\.", "\"a\n\" b\n...", "\"`c`\" '`d`' ...`e`", "\"[l](./u)\" '*m*'s", "``a` \"--``", "<!-- \"a\" -- ... -->x"];
    let sets: &'static [&'static str] = &["", "ap=1 en=- em=--", "plain=1", "dq=0", "sq=0", "el=0", "em=0", "h1=0 h2=0"];
    let places = docs::PLACES.len();
    let radix = [sets.len(), places, inner.len(), inner.len()];
    e.run(domain("places", "every pair of texts, codes, links, images, HTML and escapes full of marks, in every place for text, under eight option sets", volume(&radix), |i, r| {
        let m = mixed(i, &radix);
        let (a, b) = (inner[m[2]], inner[m[3]]);
        let Some(d) = docs::place(m[1], &format!("{a} {b}")) else { r.skipped += 1; return; };
        check(r, &d, sets[m[0]]);
    }));
    let blocks: &'static [&'static str] = &["---\nt: \"a\" -- 'b'...\n---\n\n", "~~~~ \"--...\ncode \"a\" -- 'b'...\n~~~~\n\n", "    ind \"a\" -- 'b'...\n\n", "<div title=\"a -- b...\">\n\"x\" -- 'y'...\n</div>\n\n", "<!-- \"a\" -- ... -->\n\n", "<!-- hongdown-disable-next-line -->\n\"x\" -- 'y'...\n\n", "> \"x\" -- 'y'...\n\n", "- \"x\" -- 'y'...\n\n", "| \"x\" | -- ... |\n| --- | --- |\n| `\"--\"` | 'y' |\n\n"];
    let radix = [sets.len(), blocks.len(), blocks.len()];
    e.run(domain("blocks", "every pair of blocks full of marks, text and code alike, under eight option sets", volume(&radix), |i, r| {
        let m = mixed(i, &radix);
        if m[2] == 0 { r.skipped += 1; return; }
        let d = format!("{}{}\"p\" -- ...\n", blocks[m[1]], blocks[m[2]]);
        if d.contains("hongdown-disable") {
            r.case(&d, sets[m[0]]);
            let f = r.fmt(&d, &opts::make(sets[m[0]]));
            r.traces += 1;
            if !f.contains("-->\n\n\"x\" -- 'y'...\n") { r.fail("disabled", &f, "the disabled paragraph changed".into()); }
            return;
        }
        check(r, &d, sets[m[0]]);
    }));
    // The labels of references, and link texts that are labels, have to stay
    let refs: &'static [&'static str] = &["[\"r\"]", "[a -- b...][\"r\"]", "['r' -- ...][]", "![\"r\"]", "[\"l\"](http://u/)"];
    let radix = [sets.len(), refs.len(), refs.len()];
    e.run(domain("references", "every pair of references with marks in texts and labels under eight option sets", volume(&radix), |i, r| {
        let m = mixed(i, &radix);
        let d = format!("{} {}\n\n[\"r\"]: ./u \"t -- ...\"\n['r' -- ...]: ./v '...'\n", refs[m[1]], refs[m[2]]);
        r.case(&d, sets[m[0]]);
        let f = r.fmt(&d, &opts::make(sets[m[0]]));
        r.traces += 1;
        r.nontrivial = true;
        // Targets, titles and the number of links stay, whatever the texts become
        let keep = |s: &str| norm::meaning(s).split('⟨').skip(1).map(|l| l.split(":").take(2).collect::<Vec<_>>().join(":")).collect::<Vec<_>>();
        if keep(&d) != keep(&f) { r.fail("references", &f, format!("{:?}\n{:?}", keep(&d), keep(&f))); }
    }));
    // Front matter
    let fl: &'static [&'static str] = &["a: b", "text: |", "  a  ", "b: \"q\" 'r' -- s...", "\tt: u\t", "", "   ", "# c", "- d", "*   e", "f: [g]", "[h]: http://i/", "한: \u{a0}", "j: it's  k ", "<!-- hongdown-disable -->", "--", "----", "+++", "```", "w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w w"];
    let k = fl.len() as u64;
    let n = 3;
    let rm = [2, upto(k, n) as usize];
    e.run(domain("front-matter", "front matter of up to three lines of all kinds, with spaces at their ends, with all punctuation options on and off", volume(&rm), |i, r| {
        let m = mixed(i, &rm);
        let spec = ["ap=1 en=- em=-- sc=1 w=20", "plain=1"][m[0]];
        let l: Vec<&str> = upto_digits(m[1] as u64, k, n).into_iter().map(|x| fl[x]).collect();
        if l.is_empty() { r.skipped += 1; return }
        let head = format!("---\n{}\n---\n", l.join("\n"));
        let d = format!("{head}\nText\n");
        r.case(&d, spec);
        let f = r.fmt(&d, &opts::make(spec));
        r.traces += 1;
        r.nontrivial = true;
        if !f.starts_with(&head) { r.fail("front-matter", &f, format!("does not begin with {head:?}")); }
    }));
    // Every character
    let cs = &characters(q);
    let rx = [3, 2, cs.len()];
    e.run(domain("characters", "every character of the basic plane (quick: a 16th of Han, Hangul and private use) and selected others, but ASCII, white space, quotation marks and dashes, before, after and between marks of all kinds, under three option sets", volume(&rx), |i, r| {
        let m = mixed(i, &rx);
        let c = cs[m[2]];
        if !letterlike(c) { r.skipped += 1; return }
        let d = match m[1] { 0 => format!("\"{c}a\" '{c}b' x{c}'s ({c})... \"c{c}\" 'd{c}' {c} -- {c} e--{c}\n"), _ => format!("{c}\"a\" {c}'s {c}... \"{c}\" '{c}' '{c}'s {c}--{c}...\n") };
        check(r, &d, ["", "ap=1 en=- em=--", "dq=0 sq=0"][m[0]]);
    }));
}
