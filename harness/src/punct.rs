//! Reference model of the punctuation rules (README "Punctuation transformation",
//! STYLE.md "Punctuation"), written down independently of the implementation: one
//! decision table per kind of mark, over the neighbours of the mark.

#[derive(Clone, Debug, Default)]
pub struct Rules {
    pub dq: bool,
    pub sq: bool,
    pub ap: bool,
    pub el: bool,
    pub en: Option<String>,
    pub em: Option<String>,
}

impl Rules {
    pub fn of(o: &hongdown::Options) -> Rules {
        let dash = |d: &hongdown::DashSetting| match d {
            hongdown::DashSetting::Disabled => None,
            hongdown::DashSetting::Pattern(p) => Some(p.as_str().to_string()),
        };
        Rules { dq: o.curly_double_quotes, sq: o.curly_single_quotes, ap: o.curly_apostrophes, el: o.ellipsis,
            en: dash(&o.en_dash), em: dash(&o.em_dash) }
    }

    pub fn apply(&self, text: &str) -> String {
        let mut t: Vec<char> = text.chars().collect();
        for (pattern, dash) in [(&self.em, '—'), (&self.en, '–')] {
            if let Some(p) = pattern { t = dashes(&t, &p.chars().collect::<Vec<_>>(), dash); }
        }
        if self.el {
            // Three dots, of four the first three; longer runs stay (STYLE.md)
            let s: String = t.iter().collect();
            let mut out = String::new();
            let mut dots = 0;
            for c in s.chars().chain(['\0']) {
                if c == '.' { dots += 1; continue; }
                match dots { 3 => out.push('…'), 4 => out.push_str("…."), n => (0..n).for_each(|_| out.push('.')) }
                dots = 0;
                if c != '\0' { out.push(c); }
            }
            t = out.chars().collect();
        }
        if self.dq { t = double(&t); }
        if self.sq { t = single(&t); }
        if self.ap { t = apostrophes(&t); }
        t.into_iter().collect()
    }
}

fn dashes(t: &[char], p: &[char], dash: char) -> Vec<char> {
    let mut out = vec![];
    let mut rest = t;
    while let Some(&c) = rest.first() {
        let before = out_before(t, rest);
        if rest.starts_with(p) {
            let after = rest.get(p.len());
            let free = |n: Option<&char>| n.is_none_or(|c| c.is_whitespace());
            if p.len() > 1 || (free(before) && free(after)) {
                out.push(dash);
                rest = &rest[p.len()..];
                continue;
            }
        }
        out.push(c);
        rest = &rest[1..];
    }
    out
}

fn out_before<'a>(t: &'a [char], rest: &[char]) -> Option<&'a char> {
    (t.len() - rest.len()).checked_sub(1).map(|i| &t[i])
}

#[derive(PartialEq, Clone, Copy)]
enum Side { Open, Close }

/// The side of a quotation mark by what stands around it; alternating when that says nothing.
fn side(prev: Option<char>, next: Option<char>, alternate: Side) -> Side {
    let open = prev.is_none_or(|c| c.is_whitespace() || "([{“‘".contains(c));
    let close = next.is_none_or(|c| c.is_whitespace() || ".,;:!?)]}".contains(c));
    match (open, close) { (true, false) => Side::Open, (false, true) => Side::Close, _ => alternate }
}

fn double(t: &[char]) -> Vec<char> {
    let mut next_side = Side::Open;
    (0..t.len()).map(|i| {
        if t[i] != '"' { return t[i]; }
        let s = side(i.checked_sub(1).map(|j| t[j]), t.get(i + 1).copied(), next_side);
        next_side = if s == Side::Open { Side::Close } else { Side::Open };
        if s == Side::Open { '“' } else { '”' }
    }).collect()
}

/// A possessive: 's (or 'S) with no letter after it.
fn possessive(t: &[char], i: usize) -> bool {
    matches!(t.get(i + 1), Some('s' | 'S')) && t.get(i + 2).is_none_or(|c| !c.is_alphabetic())
}

fn single(t: &[char]) -> Vec<char> {
    let mut next_side = Side::Open;
    let mut out = vec![];
    for i in 0..t.len() {
        if t[i] != '\'' { out.push(t[i]); continue; }
        let prev = i.checked_sub(1).map(|j| t[j]);
        let next = t.get(i + 1).copied();
        let letter = |c: Option<char>| c.is_some_and(char::is_alphabetic);
        let apostrophe = letter(prev) && letter(next)
            || next_side == Side::Open && letter(prev) && next.is_none_or(|c| c.is_whitespace() || c.is_ascii_punctuation())
            || possessive(t, i) && prev.is_none_or(|c| ")]}".contains(c) || c.is_ascii_digit());
        if apostrophe { out.push('\''); continue; }
        if next.is_some_and(|c| c.is_ascii_digit()) { out.push('’'); continue; }
        if prev.is_none_or(char::is_whitespace) && letter(next) {
            // 'twas, unless it is closed soon
            if t[i + 1..].iter().take(50).any(|&c| c == '\'') { out.push('‘'); next_side = Side::Close; } else { out.push('’'); }
            continue;
        }
        let s = side(prev, next, next_side);
        next_side = if s == Side::Open { Side::Close } else { Side::Open };
        out.push(if s == Side::Open { '‘' } else { '’' });
    }
    out
}

fn apostrophes(t: &[char]) -> Vec<char> {
    let mut open = 0;
    let mut out = vec![];
    for i in 0..t.len() {
        if t[i] != '\'' { out.push(t[i]); continue; }
        let prev = i.checked_sub(1).map(|j| t[j]);
        let next = t.get(i + 1).copied();
        let alnum = |c: Option<char>| c.is_some_and(char::is_alphanumeric);
        let space = |c: Option<char>| c.is_none_or(char::is_whitespace);
        let curly = if alnum(prev) && alnum(next) { true }
            else if possessive(t, i) && prev.is_none_or(|c| ")]}".contains(c)) { true }
            else if space(prev) && alnum(next) { open += 1; false }
            else if alnum(prev) && space(next) { if open > 0 { open -= 1; false } else { true } }
            else { false };
        out.push(if curly { '’' } else { '\'' });
    }
    out
}
