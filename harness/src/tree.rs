//! Block trees: container paths around leaf blocks, rendered to Markdown by the
//! obvious line-prefixing rules (independent of the formatter's own serializer).

pub const CONTAINERS: &[&str] = &["quote", "alert", "ul", "ol", "loose", "task", "dl", "note"];

pub fn leaf(k: usize) -> (&'static str, Vec<&'static str>) {
    let t: &[(&str, &[&str])] = &[
        ("para", &["alpha beta"]),
        ("para2", &["alpha", "beta gamma"]),
        ("brk", &["alpha  ", "beta"]),
        ("long", &["alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau"]),
        ("fence", &["~~~ rust", "fn a() {", "", "    x", "}", "~~~"]),
        ("fence2", &["```", "a", "~~~~~", "b", "```"]),
        ("indented", &["    code", "", "      more"]),
        ("h1", &["# Head one"]),
        ("h2", &["## Head two"]),
        ("h3", &["### Head three"]),
        ("hr", &["***"]),
        ("html", &["<div>", "x *y*", "</div>"]),
        ("table", &["| a | b |", "| --- | :-: |", "| 1 | 22222 |"]),
        ("ul", &["- x", "- y"]),
        ("ol", &["1. x", "2. y"]),
        ("quote", &["> q"]),
        ("link", &["see [site](http://e.x/) and [loc](./l.md)"]),
        ("code", &["use `a  b` here"]),
    ];
    (t[k].0, t[k].1.to_vec())
}
pub const LEAVES: usize = 18;

fn prefix(lines: Vec<String>, first: &str, rest: &str) -> Vec<String> {
    lines
        .into_iter()
        .enumerate()
        .map(|(i, l)| {
            let p = if i == 0 { first } else { rest };
            if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") }
        })
        .collect()
}

pub fn wrap(c: usize, inner: Vec<String>) -> Vec<String> {
    let pfx = |f: &str, r: &str| prefix(inner.clone(), f, r);
    match CONTAINERS[c] {
        "quote" => pfx("> ", "> "),
        "alert" => {
            let mut v = vec!["> [!NOTE]".to_string()];
            v.extend(pfx("> ", "> "));
            v
        }
        "ul" => pfx("-   ", "    "),
        "ol" => pfx("1.  ", "    "),
        "loose" => {
            let mut v = pfx("-   ", "    ");
            v.push(String::new());
            v.push("-   second".into());
            v
        }
        "task" => pfx("- [ ] ", "  "),
        "dl" => {
            let mut v = vec!["term".to_string()];
            v.extend(pfx(":   ", "    "));
            v
        }
        "note" => {
            let mut v = vec!["text[^n]".to_string(), String::new()];
            v.extend(pfx("[^n]: ", "    "));
            v
        }
        _ => unreachable!(),
    }
}

pub fn sl(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Paths of containers that make a well-formed document: a footnote definition only
/// stands at the top level.
pub fn allowed(path: &[usize]) -> bool {
    !path.iter().skip(1).any(|c| CONTAINERS[*c] == "note")
}

/// The document with leaf `k` inside `path`, with a paragraph before (pos & 1) and after (pos & 2).
pub fn build(path: &[usize], k: usize, pos: usize) -> String {
    let (_, l) = leaf(k);
    let mut v = sl(&l);
    if pos & 1 != 0 {
        let mut w = sl(&["before", ""]);
        w.extend(v);
        v = w;
    }
    if pos & 2 != 0 {
        v.extend(sl(&["", "after"]));
    }
    for c in path.iter().rev() {
        v = wrap(*c, v);
    }
    v.join("\n") + "\n"
}
