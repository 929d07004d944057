//! Projection of Markdown text onto the observable structure a reader sees.
use comrak::nodes::{AstNode, ListType, NodeValue, TableAlignment};
use comrak::{Arena, Options, parse_document};
use serde_json::{Value, json};

pub fn comrak_options() -> Options<'static> {
    let mut o = Options::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}

/// A flat token stream: ["<tag", attrs...] / [">tag"] / ["t", text] / ...
/// Adjacent text-like tokens are merged; soft breaks become a space.
pub fn tokens(src: &str) -> Value {
    let arena = Arena::new();
    let opts = comrak_options();
    let root = parse_document(&arena, src, &opts);
    let mut out: Vec<Value> = Vec::new();
    walk(root, &mut out, false);
    Value::Array(out)
}

fn push_text(out: &mut Vec<Value>, s: &str) {
    if let Some(Value::Array(a)) = out.last_mut() {
        if a[0] == "t" {
            let prev = a[1].as_str().unwrap().to_string();
            a[1] = Value::String(prev + s);
            return;
        }
    }
    out.push(json!(["t", s]));
}

fn walk<'a>(node: &'a AstNode<'a>, out: &mut Vec<Value>, tight: bool) {
    let v = node.data.borrow().value.clone();
    let mut close: Option<&'static str> = None;
    let mut child_tight = false;
    match &v {
        NodeValue::Document => {}
        NodeValue::FrontMatter(s) => out.push(json!(["front", s.trim_end()])),
        NodeValue::BlockQuote => { out.push(json!(["<bq"])); close = Some("bq"); }
        NodeValue::List(l) => {
            let ord = l.list_type == ListType::Ordered;
            out.push(json!(["<list", if ord { "ol" } else { "ul" }, l.tight]));
            child_tight = l.tight;
            close = Some("list");
        }
        NodeValue::Item(_) => { out.push(json!(["<li"])); close = Some("li"); child_tight = tight; }
        NodeValue::TaskItem(t) => {
            out.push(json!(["<task", t.symbol.map(|c| c.to_string()).unwrap_or_default()]));
            close = Some("task");
            child_tight = tight;
        }
        NodeValue::DescriptionList => { out.push(json!(["<dl"])); close = Some("dl"); }
        NodeValue::DescriptionItem(_) => { out.push(json!(["<di"])); close = Some("di"); }
        NodeValue::DescriptionTerm => { out.push(json!(["<dt"])); close = Some("dt"); }
        NodeValue::DescriptionDetails => { out.push(json!(["<dd"])); close = Some("dd"); }
        NodeValue::CodeBlock(c) => {
            out.push(json!(["code", c.info, c.literal, c.fenced]));
        }
        NodeValue::HtmlBlock(h) => out.push(json!(["html", h.literal])),
        NodeValue::Paragraph => { out.push(json!(["<p"])); close = Some("p"); }
        NodeValue::Heading(h) => { out.push(json!(["<h", h.level])); close = Some("h"); }
        NodeValue::ThematicBreak => out.push(json!(["hr"])),
        NodeValue::FootnoteDefinition(d) => { out.push(json!(["<fn", d.name])); close = Some("fn"); }
        NodeValue::FootnoteReference(r) => out.push(json!(["fnref", r.name])),
        NodeValue::Table(t) => {
            let al: Vec<&str> = t.alignments.iter().map(|a| match a {
                TableAlignment::None => "n", TableAlignment::Left => "l",
                TableAlignment::Center => "c", TableAlignment::Right => "r" }).collect();
            out.push(json!(["<table", al.concat()]));
            close = Some("table");
        }
        NodeValue::TableRow(h) => { out.push(json!(["<tr", h])); close = Some("tr"); }
        NodeValue::TableCell => { out.push(json!(["<td"])); close = Some("td"); }
        NodeValue::Text(t) => push_text(out, t),
        NodeValue::SoftBreak => push_text(out, " "),
        NodeValue::LineBreak => out.push(json!(["br"])),
        NodeValue::Code(c) => out.push(json!(["codespan", c.literal])),
        NodeValue::HtmlInline(h) => out.push(json!(["htmlinline", h])),
        NodeValue::Emph => { out.push(json!(["<em"])); close = Some("em"); }
        NodeValue::Strong => { out.push(json!(["<strong"])); close = Some("strong"); }
        NodeValue::Link(l) => { out.push(json!(["<a", l.url, l.title])); close = Some("a"); }
        NodeValue::Image(l) => { out.push(json!(["<img", l.url, l.title])); close = Some("img"); }
        NodeValue::Alert(a) => {
            out.push(json!(["<alert", format!("{:?}", a.alert_type), a.title.clone().unwrap_or_default()]));
            close = Some("alert");
        }
        other => { out.push(json!(["<other", format!("{:?}", other).chars().take(40).collect::<String>()])); close = Some("other"); }
    }
    for c in node.children() {
        walk(c, out, child_tight);
    }
    if let Some(c) = close {
        out.push(json!([format!(">{c}")]));
    }
}

pub fn html(src: &str) -> String {
    let mut o = comrak_options();
    o.render.r#unsafe = true;
    comrak::markdown_to_html(src, &o)
}
