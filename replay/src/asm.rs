//! What the output formats should be, written from the property statements.
use crate::gen::PN;
use seam::parse::parser::{Node, ParseNode};
use seam::parse::tokens::Token;

pub type R = Option<String>;

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '<' => o += "&lt;", '>' => o += "&gt;", '"' => o += "&quot;", '\'' => o += "&apos;", '&' => o += "&amp;", c => o.push(c) }
    }
    o
}
pub fn ws<'x>(n: &'x ParseNode<'_>) -> &'x str {
    match n {
        ParseNode::Symbol(x) | ParseNode::Number(x) | ParseNode::String(x) | ParseNode::Raw(x) => &x.leading_whitespace,
        ParseNode::List { leading_whitespace, .. } | ParseNode::Attribute { leading_whitespace, .. } => leading_whitespace,
    }
}
pub fn atom<'x, 'a>(n: &'x ParseNode<'a>) -> Option<&'x Node<'a>> {
    match n { ParseNode::Symbol(x) | ParseNode::Number(x) | ParseNode::String(x) | ParseNode::Raw(x) => Some(x), _ => None }
}
fn first_ws<'x>(n: &'x ParseNode<'_>) -> &'x str { if ws(n).contains('\n') { ws(n) } else { "" } }

pub fn text(o: &mut String, n: &ParseNode, w: &str) {
    *o += w;
    match n {
        ParseNode::List { nodes, end_token, .. } => { o.push('('); for k in nodes.iter() { text(o, k, ws(k)) } *o += end_token.leading_whitespace; o.push(')'); },
        ParseNode::Attribute { keyword, node, .. } => { o.push(':'); *o += keyword; text(o, node, ws(node)); },
        n => *o += &atom(n).unwrap().value,
    }
}
pub fn sexp(o: &mut String, n: &ParseNode, w: &str) {
    *o += w;
    match n {
        ParseNode::List { nodes, end_token, .. } => { o.push('('); for k in nodes.iter() { sexp(o, k, ws(k)) } *o += end_token.leading_whitespace; o.push(')'); },
        ParseNode::Attribute { keyword, node, .. } => { o.push(':'); *o += keyword; sexp(o, node, ws(node)); },
        ParseNode::String(x) => *o += &format!("{:?}", x.value),
        ParseNode::Raw(x) => *o += &format!("(%raw {:?})", x.value),
        n => *o += &atom(n).unwrap().value,
    }
}
fn kids(o: &mut String, ks: &[ParseNode], f: &mut dyn FnMut(&mut String, &ParseNode, &str) -> Option<()>) -> Option<()> {
    for (i, k) in ks.iter().enumerate() { f(o, k, if i == 0 { first_ws(k) } else { ws(k) })?; }
    Some(())
}
fn close(o: &mut String, tag: &str, w: &str, end: &str, ks: &[ParseNode]) {
    if end.is_empty() { if tag == "style" || ks.first().map_or(false, |k| ws(k).contains('\n')) { *o += w } } else { *o += end }
    *o += &format!("</{tag}>");
}
fn leaf(o: &mut String, n: &ParseNode, w: &str) -> Option<()> {
    *o += w;
    match n { ParseNode::Raw(x) => *o += &x.value, n => *o += &esc(&atom(n)?.value) }
    Some(())
}
fn attr(keyword: &str, node: &ParseNode) -> R {
    let x = atom(node)?;
    Some(format!("{}=\"{}\"", keyword, if let ParseNode::Raw(_) = node { x.value.clone() } else { esc(&x.value) }))
}
fn split_attrs<'x, 'a>(s: &'x [ParseNode<'a>]) -> (&'x [ParseNode<'a>], &'x [ParseNode<'a>]) {
    let n = s.iter().take_while(|k| matches!(k, ParseNode::Attribute { .. })).count();
    s.split_at(n)
}
fn name<'x>(nodes: &'x [ParseNode]) -> Option<&'x str> {
    match nodes.first()? { ParseNode::Symbol(x) if !x.value.is_empty() => Some(&x.value), _ => None }
}
pub fn xml(o: &mut String, n: &ParseNode, w: &str) -> Option<()> {
    match n {
        ParseNode::Attribute { .. } => None,
        ParseNode::List { nodes, end_token, .. } => {
            let tag = name(nodes)?;
            *o += &format!("{w}<{tag}");
            let front = tag.chars().next().unwrap();
            if front == '!' || front == '?' {
                for k in &nodes[1..] {
                    match k {
                        ParseNode::Attribute { keyword, node, .. } => *o += &format!(" {}", attr(keyword, node)?),
                        ParseNode::Symbol(x) | ParseNode::Number(x) => *o += &format!(" {}", x.value),
                        _ => return None,
                    }
                }
                *o += if front == '?' { " ?>" } else { ">" };
                return Some(());
            }
            let (attrs, rest) = split_attrs(&nodes[1..]);
            for k in attrs { if let ParseNode::Attribute { keyword, node, .. } = k { *o += &format!(" {}", attr(keyword, node)?) } }
            o.push('>');
            kids(o, rest, &mut xml)?;
            close(o, tag, w, end_token.leading_whitespace, rest);
            Some(())
        },
        n => leaf(o, n, w),
    }
}
pub const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
fn raw_text(start: Option<&ParseNode>, end: &Token) -> String {
    match start {
        None => end.leading_whitespace.to_string(),
        Some(n) => {
            let site = match n { ParseNode::List { site, .. } | ParseNode::Attribute { site, .. } => site, n => &atom(n).unwrap().site };
            let from = site.bytes_from_start - ws(n).len() + if ws(n).starts_with(' ') { 1 } else { 0 };
            end.site.source_code[from..end.site.bytes_from_start].to_string()
        },
    }
}
pub fn html(o: &mut String, n: &ParseNode, w: &str) -> Option<()> {
    match n {
        ParseNode::Attribute { .. } => None,
        ParseNode::List { nodes, end_token, .. } => {
            let nm = name(nodes)?;
            let tag = nm.to_ascii_lowercase();
            *o += &format!("{w}<{nm}");
            if nm.starts_with('!') {
                for k in &nodes[1..] { match k { ParseNode::Symbol(x) | ParseNode::Number(x) => *o += &format!(" {}", x.value), _ => return None } }
                o.push('>');
                return Some(());
            }
            let (attrs, rest) = split_attrs(&nodes[1..]);
            for k in attrs {
                if let ParseNode::Attribute { keyword, node, .. } = k { *o += &format!("{}{}", if ws(k).is_empty() { " " } else { ws(k) }, attr(keyword, node)?) }
            }
            o.push('>');
            if VOID.contains(&tag.as_str()) { return if rest.is_empty() { Some(()) } else { None } }
            match tag.as_str() {
                "pre" => *o += &raw_text(rest.first(), end_token),
                "textarea" | "title" => { kids(o, rest, &mut |o, n, w| Some(text(o, n, w)))?; },
                "style" => if let Some(ParseNode::String(x)) = rest.first() { if rest.len() > 1 { return None } *o += &x.value } else {
                    o.push('\n');
                    if !rest.is_empty() {
                        // As a stylesheet of its own, whose first rule is stripped likewise.
                        let mut first = true;
                        for k in rest { css_top(o, k, if first { first_ws(k) } else { ws(k) })?; first = false; }
                    }
                },
                "script" => { kids(o, rest, &mut |o, n, w| Some(sexp(o, n, w)))?; },
                "math" | "svg" => { kids(o, rest, &mut xml)?; },
                _ => { kids(o, rest, &mut html)?; },
            }
            close(o, &tag, w, end_token.leading_whitespace, rest);
            Some(())
        },
        n => leaf(o, n, w),
    }
}
const FUNCTIONS: [&str; 58] = ["attr", "blur", "brightness", "calc", "circle", "color", "contrast", "counter", "counters", "cubic-bezier", "drop-shadow", "ellipse", "format",
    "grayscale", "hsl", "hsla", "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch", "linear-gradient", "matrix", "matrix3d", "opacity", "perspective", "polygon",
    "radial-gradient", "repeating-linear-gradient", "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d", "rotateX", "rotateY", "rotateZ", "saturate", "sepia",
    "scale", "scale3d", "scaleX", "scaleY", "scaleZ", "skew", "skewX", "skewY", "symbols", "translate", "translate3d", "translateX", "translateY", "translateZ", "url", "var", "supports"];
fn css_value(n: &ParseNode) -> R {
    match n {
        ParseNode::Attribute { .. } => None,
        ParseNode::List { nodes, .. } => {
            if nodes.is_empty() { return Some(String::new()) }
            let mut vs = vec![];
            for k in nodes.iter() { vs.push(css_value(k)?) }
            let h = vs.remove(0);
            let delim = if h == "rgba" || h == "hsla" { ", " } else { " " };
            Some(if FUNCTIONS.contains(&h.as_str()) { format!("{}({})", h, vs.join(delim).trim()) }
                else if ["+", "-", "*", "/"].contains(&h.as_str()) { format!("({})", vs.join(&format!(" {h} "))) }
                else { format!("{} {}", h, vs.join(delim).trim()) })
        },
        ParseNode::Raw(x) => Some(x.value.clone()),
        n => { let v = &atom(n).unwrap().value; Some(if v.chars().any(char::is_whitespace) { format!("{v:?}") } else { v.clone() }) },
    }
}
fn css_arg(n: &ParseNode) -> R {
    Some(match n { ParseNode::Attribute { keyword, node, .. } => format!("({}: {}) ", keyword, css_value(node)?), n => format!("{} ", css_value(n)?) })
}
fn css_rule(o: &mut String, nodes: &[ParseNode]) -> Option<()> {
    let head = atom(nodes.first()?)?.value.as_str();
    match head {
        "@charset" | "@import" | "@namespace" => { *o += head; o.push(' '); for k in &nodes[1..] { *o += &css_arg(k)? } *o += ";\n"; },
        "@media" | "@supports" | "@keyframes" | "@document" | "@counter-style" | "@font-feature-values" => {
            *o += head; o.push(' ');
            let mut rules = false;
            for k in &nodes[1..] {
                if let ParseNode::List { nodes, leading_whitespace, .. } = k {
                    if !rules { *o += "{\n" }
                    rules = true;
                    *o += leading_whitespace;
                    css_rule(o, nodes)?;
                } else if rules { return None } else { *o += &css_arg(k)? }
            }
            o.push(if rules { '}' } else { ';' });
        },
        _ => {
            let n = nodes.iter().take_while(|k| atom(k).is_some()).count();
            for k in &nodes[..n] { *o += &atom(k).unwrap().value; o.push(' '); }
            *o += "{\n";
            for k in &nodes[n..] { if let ParseNode::Attribute { keyword, node, .. } = k { *o += &format!("  {}: {};\n", keyword, css_value(node)?) } else { return None } }
            o.push('}');
        },
    }
    Some(())
}
fn css_top(o: &mut String, n: &ParseNode, w: &str) -> Option<()> {
    match n { ParseNode::List { nodes, .. } => { *o += w; css_rule(o, nodes) }, _ => None }
}
pub fn css(o: &mut String, n: &ParseNode, w: &str) -> Option<()> { css_top(o, n, w) }

pub fn all(s: &[ParseNode], f: fn(&mut String, &ParseNode, &str) -> Option<()>) -> R {
    let mut o = String::new();
    for k in s { f(&mut o, k, ws(k))? }
    Some(o)
}
pub fn text_all(s: &[ParseNode]) -> R { let mut o = String::new(); for k in s { text(&mut o, k, ws(k)) } Some(o) }
pub fn sexp_all(s: &[ParseNode]) -> R { let mut o = String::new(); for k in s { sexp(&mut o, k, ws(k)) } Some(o) }

fn has_tag(s: &[ParseNode], name: &str, level: usize) -> bool {
    level > 0 && s.iter().any(|n| match n {
        ParseNode::List { nodes, .. } => nodes.first().and_then(atom).map_or(false, |x| x.value.to_lowercase() == name) || has_tag(nodes, name, level - 1),
        ParseNode::Attribute { node, .. } => level > 1 && has_tag(std::slice::from_ref(&**node), name, level - 1),
        _ => false,
    })
}
pub fn html_doc(s: &[PN], x: R) -> R {
    if s.is_empty() { return Some("<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n".into()) }
    let x = x?;
    let wrap = !has_tag(s, "!doctype", 1);
    let html = wrap && !has_tag(s, "html", 1);
    let (head, body) = (html && !has_tag(s, "head", 2), html && !has_tag(s, "body", 2));
    Some(format!("{}{}{}{}{}{}{}", if wrap { "<!DOCTYPE html>\n" } else { "" }, if html { "<html>\n" } else { "" }, if head { "<head></head>\n" } else { "" },
        if body { "<body>\n" } else { "" }, x, if body { "\n</body>" } else { "" }, if html { "\n</html>" } else { "" }))
}
pub fn xml_doc(s: &[PN], x: R) -> R {
    let decl = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";
    if s.is_empty() { return Some(decl.into()) }
    let x = x?;
    let declared = matches!(&s[0], ParseNode::List { nodes, .. } if matches!(nodes.first(), Some(ParseNode::Symbol(t)) if t.value.to_lowercase() == "?xml"));
    Some(if declared { x } else { decl.to_string() + &x })
}
