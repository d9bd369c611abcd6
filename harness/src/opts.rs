//! Option sets as readable text: "w=20 um=* ls=0 …" on top of the defaults.
use hongdown::config::*;
use hongdown::{CodeFormatter, Options};

pub fn make(spec: &str) -> Options {
    let mut o = Options::default();
    for kv in spec.split(' ').filter(|s| !s.is_empty()) {
        let (k, v) = kv.split_once('=').unwrap_or((kv, "1"));
        let b = v == "1";
        let n = || v.parse::<usize>().unwrap();
        let dash = || if v == "0" { DashSetting::Disabled } else { DashSetting::Pattern(DashPattern::new(v.into()).unwrap()) };
        let om = || if v == ")" { OrderedMarker::Parenthesis } else { OrderedMarker::Period };
        match k {
            "plain" => {
                o.curly_double_quotes = false;
                o.curly_single_quotes = false;
                o.ellipsis = false;
                o.em_dash = DashSetting::Disabled;
            }
            "w" => o.line_width = LineWidth::new(n()).unwrap(),
            "h1" => o.setext_h1 = b,
            "h2" => o.setext_h2 = b,
            "sc" => o.heading_sentence_case = b,
            "pn" => o.heading_proper_nouns = list(v),
            "cn" => o.heading_common_nouns = list(v),
            "um" => o.unordered_marker = match v { "*" => UnorderedMarker::Asterisk, "+" => UnorderedMarker::Plus, _ => UnorderedMarker::Hyphen },
            "ls" => o.leading_spaces = LeadingSpaces::new(n()).unwrap(),
            "ts" => o.trailing_spaces = TrailingSpaces::new(n()).unwrap(),
            "iw" => o.indent_width = IndentWidth::new(n()).unwrap(),
            "odd" => o.odd_level_marker = om(),
            "even" => o.even_level_marker = om(),
            "pad" => o.ordered_list_pad = if v == "end" { OrderedListPad::End } else { OrderedListPad::Start },
            "oiw" => o.ordered_list_indent_width = IndentWidth::new(n()).unwrap(),
            "fc" => o.fence_char = if v == "`" { FenceChar::Backtick } else { FenceChar::Tilde },
            "fl" => o.min_fence_length = MinFenceLength::new(n()).unwrap(),
            "sf" => o.space_after_fence = b,
            "dl" => o.default_language = v.into(),
            "tb" => o.thematic_break_style = ThematicBreakStyle::new(v.replace('·', " ")).unwrap(),
            "tbl" => o.thematic_break_leading_spaces = LeadingSpaces::new(n()).unwrap(),
            "dq" => o.curly_double_quotes = b,
            "sq" => o.curly_single_quotes = b,
            "ap" => o.curly_apostrophes = b,
            "el" => o.ellipsis = b,
            "en" => o.en_dash = dash(),
            "em" => o.em_dash = dash(),
            // fmt=lang:timeout:arg|arg|…   (· for a space)
            "fmt" => {
                let mut p = v.splitn(3, ':');
                let (l, t, c) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
                o.code_formatters.insert(l.into(), CodeFormatter {
                    command: c.split('|').map(|s| s.replace('·', " ")).collect(),
                    timeout_secs: t.parse().unwrap(),
                });
            }
            _ => panic!("unknown option {k}"),
        }
    }
    o
}

fn list(v: &str) -> Vec<String> {
    v.split(',').filter(|s| !s.is_empty()).map(|s| s.replace('·', " ")).collect()
}
