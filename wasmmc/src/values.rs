//! The fields of the options object, by their documentation, and the library's options.
use hongdown::Options;
use hongdown::config::*;
use wasm_bindgen::JsValue;

pub type JsThunk = fn() -> JsValue;
type Set = Box<dyn Fn(&mut Options) + Send + Sync>;
pub struct Value { pub field: &'static str, pub js: Js, pub set: Set }
/// Values of JavaScript that threads can share
#[derive(Clone, Debug)]
pub enum Js { U, Z, B(bool), N(f64), S(String), A(Vec<String>) }
impl Js {
    pub fn clone(&self) -> JsValue {
        match self { Js::U => JsValue::Undefined, Js::Z => JsValue::Null, Js::B(b) => JsValue::Bool(*b), Js::N(n) => JsValue::Num(*n), Js::S(s) => JsValue::Str(s.clone()), Js::A(v) => JsValue::Array(v.iter().map(|s| JsValue::Str(s.clone())).collect()) }
    }
}

pub const DOCS: &[&str] = &[
    "# Getting Started With MYAPP And React\n\nText with \"double\" and 'single' quotes, it's an apostrophe... A dash -- here, one --- there, a-b and a==b; and so on until the line is long enough to be wrapped somewhere, at any width.\n\n## Second Level Heading For ZORK Things\n\n- one\n- two\n  - nested\n    - deeper\n- three\n\n1. first\n2. second\n   1. inner\n   2. inner two\n      1. innermost\n3. third\n\n- item\n\n  1. ordered in item\n\n```\nplain code\n```\n\n``` rust\nlet x = \"~~~~\";\n```\n\n    indented\n\n***\n\n### Third Level HEADING\n\n> quote with \"text\" and a long line that has to be wrapped at eighty columns, as everything else here is\n\n| a | b |\n|---|---|\n| 1 | 2 |\n\nTerm\n: Definition\n\nSee [the site](https://example.com/) and a note.[^1]\n\n[^1]: The note.\n",
    "| a | b |\n|---|---|\n| 1 |\n| 1 | 2 | 3 |\n\nSee [undefined][reference] here -- \"now\".\n\n* list\n+ other\n",
    "Title\n=====\n\nSub\n---\n\n~~~~ python hongdown-no-format\nx = 1\n~~~~\n\n<!-- hongdown-disable -->\n* kept   as is\n<!-- hongdown-enable -->\n\n* * *\n\n10. ten\n11. eleven\n\n- [ ] task\n",
    "",
    "\n",
    "one line",
];

pub fn sentence() -> Vec<Value> { vec![Value { field: "headingSentenceCase", js: Js::B(true), set: Box::new(|o| o.heading_sentence_case = true) }] }

pub fn fields() -> Vec<Value> {
    let mut v: Vec<Value> = vec![];
    let nothing = || -> Set { Box::new(|_| {}) };
    fn boolean(v: &mut Vec<Value>, field: &'static str, f: fn(&mut Options, bool)) { for b in [false, true] { v.push(Value { field, js: Js::B(b), set: Box::new(move |o| f(o, b)) }); } }
    // numbers: what is allowed, and what is out of range
    fn number(v: &mut Vec<Value>, field: &'static str, ok: &[usize], bad: &[usize], f: fn(&mut Options, usize)) {
        for n in ok { let n = *n; v.push(Value { field, js: Js::N(n as f64), set: Box::new(move |o| f(o, n)) }); }
        for n in bad { v.push(Value { field, js: Js::N(*n as f64), set: Box::new(|_| {}) }); }
    }
    fn string(v: &mut Vec<Value>, field: &'static str, ok: &[&'static str], bad: &[&'static str], f: fn(&mut Options, &str)) {
        for s in ok { let s = *s; v.push(Value { field, js: Js::S(s.into()), set: Box::new(move |o| f(o, s)) }); }
        for s in bad { v.push(Value { field, js: Js::S(s.to_string()), set: Box::new(|_| {}) }); }
    }
    fn words(v: &mut Vec<Value>, field: &'static str, f: fn(&mut Options, Vec<String>)) {
        for w in [&[][..], &["MyApp"], &["ZORK", "Heading"], &["react"], &["Third LEVEL"]] {
            let w: Vec<String> = w.iter().map(|s| s.to_string()).collect();
            let x = w.clone();
            v.push(Value { field, js: Js::A(w), set: Box::new(move |o| f(o, x.clone())) });
        }
    }
    number(&mut v, "lineWidth", &[8, 9, 20, 40, 79, 81, 100, 120, 100_000], &[0, 1, 7], |o, n| o.line_width = LineWidth::new(n).unwrap());
    boolean(&mut v, "setextH1", |o, b| o.setext_h1 = b);
    boolean(&mut v, "setextH2", |o, b| o.setext_h2 = b);
    boolean(&mut v, "headingSentenceCase", |o, b| o.heading_sentence_case = b);
    words(&mut v, "headingProperNouns", |o, w| o.heading_proper_nouns = w);
    words(&mut v, "headingCommonNouns", |o, w| o.heading_common_nouns = w);
    string(&mut v, "unorderedMarker", &["-", "*", "+"], &["", "x", "**", " *", "asterisk"], |o, s| o.unordered_marker = match s { "*" => UnorderedMarker::Asterisk, "+" => UnorderedMarker::Plus, _ => UnorderedMarker::Hyphen });
    number(&mut v, "leadingSpaces", &[0, 1, 2, 3], &[4, 5, 100], |o, n| o.leading_spaces = LeadingSpaces::new(n).unwrap());
    number(&mut v, "trailingSpaces", &[0, 1, 2, 3], &[4, 5, 100], |o, n| o.trailing_spaces = TrailingSpaces::new(n).unwrap());
    number(&mut v, "indentWidth", &[1, 2, 3, 4, 5, 8], &[0], |o, n| o.indent_width = IndentWidth::new(n).unwrap());
    string(&mut v, "oddLevelMarker", &[".", ")"], &["", "x", "))"], |o, s| o.odd_level_marker = if s == ")" { OrderedMarker::Parenthesis } else { OrderedMarker::Period });
    string(&mut v, "evenLevelMarker", &[".", ")"], &["", "x", ".."], |o, s| o.even_level_marker = if s == ")" { OrderedMarker::Parenthesis } else { OrderedMarker::Period });
    string(&mut v, "orderedListPad", &["start", "end"], &["", "x"], |o, s| o.ordered_list_pad = if s == "end" { OrderedListPad::End } else { OrderedListPad::Start });
    number(&mut v, "orderedListIndentWidth", &[1, 2, 3, 4, 5, 8], &[0], |o, n| o.ordered_list_indent_width = IndentWidth::new(n).unwrap());
    string(&mut v, "fenceChar", &["~", "`"], &["", "x", "``", "~~"], |o, s| o.fence_char = if s == "`" { FenceChar::Backtick } else { FenceChar::Tilde });
    number(&mut v, "minFenceLength", &[3, 4, 5, 10], &[0, 1, 2], |o, n| o.min_fence_length = MinFenceLength::new(n).unwrap());
    boolean(&mut v, "spaceAfterFence", |o, b| o.space_after_fence = b);
    string(&mut v, "defaultLanguage", &["", "text", "a b"], &[], |o, s| o.default_language = s.into());
    string(&mut v, "thematicBreakStyle", &["***", "* * *", "---", "- - -", "___", "_ _ _ _"], &["", "x", "--", "- -", "*-*x"], |o, s| o.thematic_break_style = ThematicBreakStyle::new(s.into()).unwrap());
    number(&mut v, "thematicBreakLeadingSpaces", &[0, 1, 2, 3], &[4, 100], |o, n| o.thematic_break_leading_spaces = LeadingSpaces::new(n).unwrap());
    boolean(&mut v, "curlyDoubleQuotes", |o, b| o.curly_double_quotes = b);
    boolean(&mut v, "curlySingleQuotes", |o, b| o.curly_single_quotes = b);
    boolean(&mut v, "curlyApostrophes", |o, b| o.curly_apostrophes = b);
    boolean(&mut v, "ellipsis", |o, b| o.ellipsis = b);
    string(&mut v, "enDash", &["--", "-", "---", "=="], &[], |o, s| o.en_dash = DashSetting::Pattern(DashPattern::new(s.into()).unwrap()));
    string(&mut v, "emDash", &["--", "-", "---", "=="], &[], |o, s| o.em_dash = DashSetting::Pattern(DashPattern::new(s.into()).unwrap()));
    v.push(Value { field: "enDash", js: Js::B(false), set: Box::new(|o| o.en_dash = DashSetting::Disabled) });
    v.push(Value { field: "emDash", js: Js::B(false), set: Box::new(|o| o.em_dash = DashSetting::Disabled) });
    let mut names: Vec<&'static str> = v.iter().map(|x| x.field).collect();
    names.dedup();
    for field in names { for js in [Js::U, Js::Z] { v.push(Value { field, js, set: nothing() }); } }
    v
}

/// Values of other types than the documented ones
pub fn wrong() -> Vec<(&'static str, JsThunk)> {
    let all: [JsThunk; 7] = [|| JsValue::Str("20".into()), || JsValue::Num(20.5), || JsValue::Num(-1.0), || JsValue::Bool(true), || JsValue::Array(vec![JsValue::Num(1.0)]), || JsValue::Object(vec![]), || JsValue::Num(f64::NAN)];
    let mut v: Vec<(&'static str, JsThunk)> = vec![];
    let mut names: Vec<&'static str> = fields().iter().map(|x| x.field).collect();
    names.sort();
    names.dedup();
    for f in names {
        for (i, x) in all.iter().enumerate() {
            let lower = f.to_lowercase();
            let fits = match i { 0 => ["marker", "char", "pad", "language", "style", "dash"].iter().any(|s| lower.ends_with(s)), 3 => lower.starts_with("setext") || lower.starts_with("curly") || ["ellipsis", "spaceafterfence", "headingsentencecase"].contains(&&*lower), _ => false };
            if !fits { v.push((f, *x)); }
        }
    }
    // strings that are no pattern
    for f in ["enDash", "emDash"] {
        let no: [JsThunk; 4] = [|| "".into(), || " -- ".into(), || "- -".into(), || "—".into()];
        for x in no { v.push((f, x)); }
    }
    v
}
