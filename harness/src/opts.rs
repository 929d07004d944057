//! JSON -> hongdown::Options (field names are those of `Options`).
use hongdown::*;
use serde_json::Value;

fn us(v: &Value) -> Result<usize, String> {
    v.as_u64().map(|x| x as usize).ok_or_else(|| format!("not a number: {v}"))
}
fn st(v: &Value) -> Result<String, String> {
    v.as_str().map(|s| s.to_string()).ok_or_else(|| format!("not a string: {v}"))
}
fn bo(v: &Value) -> Result<bool, String> {
    v.as_bool().ok_or_else(|| format!("not a bool: {v}"))
}
fn dash(v: &Value) -> Result<DashSetting, String> {
    if v == &Value::Bool(false) || v.is_null() || v == "off" {
        return Ok(DashSetting::Disabled);
    }
    Ok(DashSetting::Pattern(DashPattern::new(st(v)?)?))
}
fn strs(v: &Value) -> Result<Vec<String>, String> {
    v.as_array().ok_or("not an array")?.iter().map(st).collect()
}

pub fn parse(v: &Value) -> Result<Options, String> {
    let mut o = Options::default();
    let Some(map) = v.as_object() else { return Ok(o) };
    for (k, v) in map {
        match k.as_str() {
            "line_width" => o.line_width = LineWidth::new(us(v)?)?,
            "setext_h1" => o.setext_h1 = bo(v)?,
            "setext_h2" => o.setext_h2 = bo(v)?,
            "heading_sentence_case" => o.heading_sentence_case = bo(v)?,
            "heading_proper_nouns" => o.heading_proper_nouns = strs(v)?,
            "heading_common_nouns" => o.heading_common_nouns = strs(v)?,
            "unordered_marker" => {
                o.unordered_marker = match st(v)?.as_str() {
                    "-" => UnorderedMarker::Hyphen,
                    "*" => UnorderedMarker::Asterisk,
                    "+" => UnorderedMarker::Plus,
                    x => return Err(format!("marker {x}")),
                }
            }
            "leading_spaces" => o.leading_spaces = LeadingSpaces::new(us(v)?)?,
            "trailing_spaces" => o.trailing_spaces = TrailingSpaces::new(us(v)?)?,
            "indent_width" => o.indent_width = IndentWidth::new(us(v)?)?,
            "odd_level_marker" => o.odd_level_marker = om(v)?,
            "even_level_marker" => o.even_level_marker = om(v)?,
            "ordered_list_pad" => {
                o.ordered_list_pad = match st(v)?.as_str() {
                    "start" => OrderedListPad::Start,
                    "end" => OrderedListPad::End,
                    x => return Err(format!("pad {x}")),
                }
            }
            "ordered_list_indent_width" => o.ordered_list_indent_width = IndentWidth::new(us(v)?)?,
            "fence_char" => {
                o.fence_char = match st(v)?.as_str() {
                    "~" => FenceChar::Tilde,
                    "`" => FenceChar::Backtick,
                    x => return Err(format!("fence {x}")),
                }
            }
            "min_fence_length" => o.min_fence_length = MinFenceLength::new(us(v)?)?,
            "space_after_fence" => o.space_after_fence = bo(v)?,
            "default_language" => o.default_language = st(v)?,
            "thematic_break_style" => o.thematic_break_style = ThematicBreakStyle::new(st(v)?)?,
            "thematic_break_leading_spaces" => {
                o.thematic_break_leading_spaces = LeadingSpaces::new(us(v)?)?
            }
            "curly_double_quotes" => o.curly_double_quotes = bo(v)?,
            "curly_single_quotes" => o.curly_single_quotes = bo(v)?,
            "curly_apostrophes" => o.curly_apostrophes = bo(v)?,
            "ellipsis" => o.ellipsis = bo(v)?,
            "en_dash" => o.en_dash = dash(v)?,
            "em_dash" => o.em_dash = dash(v)?,
            "code_formatters" => {
                for (lang, f) in v.as_object().ok_or("code_formatters")? {
                    o.code_formatters.insert(
                        lang.clone(),
                        CodeFormatter {
                            command: strs(&f["command"])?,
                            timeout_secs: us(&f["timeout"])? as u64,
                        },
                    );
                }
            }
            x => return Err(format!("unknown option {x}")),
        }
    }
    Ok(o)
}
fn om(v: &Value) -> Result<OrderedMarker, String> {
    Ok(match st(v)?.as_str() {
        "." => OrderedMarker::Period,
        ")" => OrderedMarker::Parenthesis,
        x => return Err(format!("ordered marker {x}")),
    })
}

/// Options -> JSON (the inverse; used to observe what a front end produced).
pub fn dump(o: &Options) -> Value {
    let d = |s: &DashSetting| match s {
        DashSetting::Disabled => Value::Bool(false),
        DashSetting::Pattern(p) => Value::String(p.as_str().to_string()),
    };
    serde_json::json!({
        "line_width": o.line_width.get(),
        "setext_h1": o.setext_h1, "setext_h2": o.setext_h2,
        "heading_sentence_case": o.heading_sentence_case,
        "heading_proper_nouns": o.heading_proper_nouns,
        "heading_common_nouns": o.heading_common_nouns,
        "unordered_marker": o.unordered_marker.as_char().to_string(),
        "leading_spaces": o.leading_spaces.get(),
        "trailing_spaces": o.trailing_spaces.get(),
        "indent_width": o.indent_width.get(),
        "odd_level_marker": o.odd_level_marker.as_char().to_string(),
        "even_level_marker": o.even_level_marker.as_char().to_string(),
        "ordered_list_pad": match o.ordered_list_pad { OrderedListPad::Start => "start", OrderedListPad::End => "end" },
        "ordered_list_indent_width": o.ordered_list_indent_width.get(),
        "fence_char": o.fence_char.as_char().to_string(),
        "min_fence_length": o.min_fence_length.get(),
        "space_after_fence": o.space_after_fence,
        "default_language": o.default_language,
        "thematic_break_style": o.thematic_break_style.as_str(),
        "thematic_break_leading_spaces": o.thematic_break_leading_spaces.get(),
        "curly_double_quotes": o.curly_double_quotes,
        "curly_single_quotes": o.curly_single_quotes,
        "curly_apostrophes": o.curly_apostrophes,
        "ellipsis": o.ellipsis,
        "en_dash": d(&o.en_dash), "em_dash": d(&o.em_dash),
    })
}
