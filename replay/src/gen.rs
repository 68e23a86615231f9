//! Random trees and source texts.
use crate::rng::Rng;
use seam::parse::parser::{Node, ParseNode};
use seam::parse::tokens::{Kind, Site, Token};

pub type PN = ParseNode<'static>;

pub fn site(r: &mut Rng) -> Site<'static> {
    Site::new("<t>", "source", r.below(5) + 1, r.below(3), 0, r.below(3))
}
pub const WS: [&str; 14] = ["", " ", "", " ", "", " ", "\n", "\n  ", "\t", "\r\n", "  ", " \n", "\t ", "\n\n\t"];
pub fn ws(r: &mut Rng) -> String { r.pick(&WS).to_string() }

pub const TAGS: [&str; 44] = ["p", "div", "a", "span", "br", "BR", "hr", "img", "Input", "link", "meta", "title", "Title", "textarea", "style", "Style",
    "script", "SCRIPT", "svg", "math", "html", "HTML", "head", "Head", "body", "!doctype", "!DOCTYPE", "!x", "?xml", "?XML", "?php", "b\u{e9}", "x:y",
    "area", "base", "col", "embed", "param", "source", "track", "wbr", "command", "keygen", "menuitem"];
pub const CSSH: [&str; 30] = ["@media", "@charset", "@import", "@namespace", "@font-face", "@page", "@property", "@supports", "@keyframes", "@document",
    "@counter-style", "@font-feature-values", "@viewport", "rgba", "hsla", "rgb", "hsl", "calc", "url", "translateY", "attr", "blur", "supports", "+", "-", "*", "/", "div", ".x", "var"];
pub const TEXTS: [&str; 30] = ["", "a", "x", "word", "two words", "<", ">", "&", "\"", "'", "&amp;", "</p>", "a\nb", "tab\tx", "\u{e9}", "\u{130}", "\u{df}", "\u{1f980}", "\\", "a\\b", "\u{0}", " lead", "trail ",
    "\u{a0}x", "10px", "1", "-3", "a=b", "a\"b'c", "\u{2003}y"];

pub fn text(r: &mut Rng) -> String {
    if let Some(w) = crate::words::word(r) { return w }
    if r.chance(1, 80) {
        // A long one, plain but for one place.
        let n = match crate::words::number(r) { Some(n) if r.chance(2, 3) => n, _ => 5 + r.below(120) };
        let (a, b) = (r.pick(&["x", "ab", "x y", "\u{e9}"]), r.pick(&TEXTS));
        return match r.below(3) { 0 => a.repeat(n) + b, 1 => b.to_string() + &a.repeat(n), _ => a.repeat(n / 2) + b + &a.repeat(n / 2 + 1) };
    }
    if r.chance(3, 4) { r.pick(&TEXTS).to_string() } else { let n = r.below(4); (0..n).map(|_| r.pick(&TEXTS)).collect() }
}
/// Something close to a text, but different from it.
pub fn near(r: &mut Rng, v: &str) -> String {
    let mut c: Vec<char> = v.chars().collect();
    let at = r.below(c.len() + 1);
    match r.below(8) {
        0..=2 if at < c.len() => { let x = c[at]; let y: String = if x.is_uppercase() { x.to_lowercase().collect() } else { x.to_uppercase().collect() }; c.splice(at..at + 1, y.chars().collect::<Vec<_>>()); },
        3 if at < c.len() => { c.remove(at); },
        4 if at < c.len() => { let x = c[at]; c.insert(at, x); },
        5 => c.push(' '),
        6 => c.insert(0, [' ', '+', '0', '-', ':'][r.below(5)]),
        _ => c.extend(r.pick(&[".0", "0", "\n", "x", "\u{301}"]).chars()),
    }
    c.into_iter().collect()
}
#[derive(Clone, Copy, PartialEq)]
pub enum Flavour { Any, Html, Css }

pub fn node(r: &mut Rng, value: String) -> Node<'static> { Node { value, site: site(r), leading_whitespace: ws(r) } }
pub fn tok(r: &mut Rng) -> Token<'static> { let w: &'static str = Box::leak(ws(r).into_boxed_str()); Token::new(Kind::RParen, ")", w, site(r)) }

pub fn atom(r: &mut Rng, value: String) -> PN {
    let n = node(r, value);
    match r.below(8) { 0..=2 => ParseNode::Symbol(n), 3 => ParseNode::Number(n), 4..=6 => ParseNode::String(n), _ => ParseNode::Raw(n) }
}
pub fn list(r: &mut Rng, nodes: Vec<PN>) -> PN {
    ParseNode::List { nodes: nodes.into_boxed_slice(), site: site(r), end_token: tok(r), leading_whitespace: ws(r) }
}
pub fn attribute(r: &mut Rng, node: PN) -> PN {
    let keyword = if let Some(w) = crate::words::word(r) { w } else if r.chance(1, 2) { r.pick(&["id", "class", "href", "style", "width", "color", "id", "x"]).to_string() } else { text(r) };
    ParseNode::Attribute { keyword, node: Box::new(node), site: site(r), leading_whitespace: ws(r) }
}
pub fn head(r: &mut Rng, fl: Flavour) -> PN {
    let w = crate::words::word(r);
    let v = match r.below(10) {
        0..=2 if w.is_some() => w.unwrap(),
        0 => text(r),
        1..=3 if fl != Flavour::Html => r.pick(&CSSH).to_string(),
        _ => if fl == Flavour::Css { r.pick(&CSSH).to_string() } else { r.pick(&TAGS).to_string() },
    };
    if r.chance(14, 15) { ParseNode::Symbol(node(r, v)) } else { atom(r, v) }
}
pub fn tree(r: &mut Rng, depth: usize, fl: Flavour) -> PN {
    if depth == 0 || r.chance(1, 3) { let t = text(r); return if fl == Flavour::Css && r.chance(1, 2) { css_value(r, 0) } else { atom(r, t) } }
    if r.chance(1, 20) { let x = tree(r, depth - 1, fl); return attribute(r, x); }
    let mut kids = vec![];
    if r.chance(19, 20) { kids.push(head(r, fl)); }
    let na = if let Some(k) = crate::words::count(r) { k } else if r.chance(1, 2) { 0 } else { r.below(4) };
    for _ in 0..na { let v = if r.chance(29, 30) { let t = text(r); atom(r, t) } else { tree(r, depth - 1, fl) }; kids.push(attribute(r, v)); }
    let n = if let Some(k) = crate::words::count(r) { for _ in 0..k { kids.push(tree(r, 0, fl)); } 0 } else { r.below(4) };
    for _ in 0..n { kids.push(tree(r, depth - 1, fl)); }
    list(r, kids)
}
pub fn css_value(r: &mut Rng, depth: usize) -> PN {
    if depth == 0 || r.chance(1, 2) { let t = text(r); return atom(r, t); }
    let mut kids = vec![];
    if r.chance(15, 16) { let h = r.pick(&CSSH[7..]).to_string(); kids.push(ParseNode::Symbol(node(r, h))); }
    let n = r.below(4);
    for _ in 0..n { kids.push(css_value(r, depth - 1)); }
    if r.chance(1, 40) { let v = css_value(r, depth - 1); kids.push(attribute(r, v)); }
    list(r, kids)
}
pub fn css_rule(r: &mut Rng, depth: usize) -> PN {
    let mut kids = vec![];
    if depth > 0 && r.chance(2, 5) {
        let h = r.pick(&CSSH[..13]).to_string();
        kids.push(atom(r, h));
        let n = r.below(3);
        for _ in 0..n { let v = css_value(r, 1); let k = if v.is_list() || r.chance(1, 2) { attribute(r, v) } else { v }; kids.push(k); }
        let n = r.below(4);
        for _ in 0..n { kids.push(css_rule(r, depth - 1)); }
    } else {
        let n = if r.chance(15, 16) { 1 + r.below(3) } else { 0 };
        for _ in 0..n { let t = text(r); let a = atom(r, t); kids.push(a); }
        let n = r.below(4);
        for _ in 0..n { let v = css_value(r, 2); kids.push(attribute(r, v)); }
    }
    if r.chance(1, 20) { let x = tree(r, 1, Flavour::Css); kids.push(x); }
    list(r, kids)
}
pub fn forest(r: &mut Rng, size: usize, fl: Flavour) -> Vec<PN> {
    let n = crate::words::count(r).unwrap_or(r.below(1 + size.min(4)));
    let d = 1 + size.min(3);
    (0..n).map(|_| if fl == Flavour::Css && r.chance(9, 10) { css_rule(r, d) } else { tree(r, d, fl) }).collect()
}

/// Random source text, mostly well formed.
pub fn source(r: &mut Rng, size: usize) -> String {
    let mut s = String::new();
    let mut open = 0usize;
    let n = r.below(4 + size * 2);
    for _ in 0..n {
        s.push_str(&gap(r));
        // Much of the same.
        if r.chance(1, 60) {
            let k = match crate::words::number(r) { Some(k) if r.chance(2, 3) => k, _ => { let m = if r.chance(1, 4) { 70 } else { 15 }; 3 + r.below(m) } };
            match r.below(8) {
                0 => { s += &"(".repeat(k); open += k; },
                1 => { s += &"(a ".repeat(k); open += k; },
                2 => { s += &":k ".repeat(k); s += "v"; },
                3 => s += &"\n".repeat(k),
                4 => { let i = ident(r); s += &i.repeat(k); },
                5 => { let i = r.pick(&["a ", "() ", "\"\" ", "1 ", "; c\n", "\u{e9} ", "\\ ", "\"\\n\" "]); s += &i.repeat(k); },
                6 => { let i = r.pick(&["a", " ", "\\n", "\u{e9}", "\\\"", "\n", "\u{1f980}"]); s += &format!("\"{}\"", i.repeat(k)); },
                _ => { s += &" ".repeat(k); },
            }
        }
        match r.below(30) {
            0..=5 => { s.push('('); open += 1; },
            6..=9 => if open > 0 || r.chance(1, 40) { s.push(')'); open = open.saturating_sub(1); },
            10..=13 => { s.push_str(r.pick(&["\"str\"", "\"\"", "\"a\\\"b\"", "\"\"\"tri \"q\" \\\"\"\"ple\"\"\"", "\"line\nbreak\"", "\"\\\\\"", "\"\"\"\"\"\"", "\"\\n\\t\"", "\"\u{1f980}\"", "\"\"\"a\n\n b\\\\\"\"\"", "\"\"\"a\"b\"\"c\"\"\"", "\"\\\n\""])); },
            14..=16 => { s.push(':'); s.push_str(&ident(r)); s.push_str(&gap1(r)); s.push_str(&ident(r)); },
            17 => { s.push_str(r.pick(&["1", "-2", "+3.5", "0x1f", "1e9", "+", "-", "7\\ 8", "5\"x\""])); },
            18 => { s.push_str(r.pick(&["\"", "\\", ";", "\"\"\"", ":", "\"\\q\"", "\"\\x\"", ")", ":k", "(:k)", "\u{0}", "\u{a0}", "\r", "\u{85}", "\"\"\"x\\\"\"\""])); },
            _ => s.push_str(&ident(r)),
        }
    }
    while open > 0 && r.chance(30, 31) { s.push_str(&gap(r)); s.push(')'); open -= 1; }
    s.push_str(&gap(r));
    crate::words::into(r, s)
}
pub fn gap(r: &mut Rng) -> String {
    match r.below(12) { 0 => "; note ( \" \n".into(), 1 => " ;a;b\n\n  ".into(), 2 => "\n".into(), 3 => "  \t".into(), 4 => "\r\n ".into(), 5 => "".into(), 6 => "; last".to_string() + if r.chance(9, 10) { "\n" } else { "" }, _ => " ".into() }
}
fn gap1(r: &mut Rng) -> String { if r.chance(1, 10) { gap(r) } else { " ".into() } }
pub fn ident(r: &mut Rng) -> String {
    const P: [&str; 22] = ["a", "b", "foo", "x1", "-", "+", "7", ":", "\\ ", "\\\\", "\\(", "\\\n", "\\\"", "\u{e9}", "\u{1f980}", "%", ";", "/", "\\n", "\\;", "'", "\\\u{e9}"];
    let n = 1 + r.below(3);
    let mut s = String::new();
    for i in 0..n { s.push_str(if i == 0 && r.chance(3, 4) { r.pick(&P[..4]) } else { r.pick(&P) }); }
    s
}
/// Source text whose expressions are HTML elements (no macros), `pre` among them.
pub fn html_source(r: &mut Rng, depth: usize) -> String {
    if depth == 0 || r.chance(1, 3) { return r.pick(&["word", "\"a < b\"", "x&y", "\"two words\"", "3", "\"\u{e9}\"", "a\\ b"]).to_string(); }
    let g = |r: &mut Rng| r.pick(&[" ", " ", "\n", "  ", "\n  ", " ; c\n", "\t", "\r\n", " \t", "\t "]).to_string();
    let mut s = String::from("(");
    s.push_str(if r.chance(1, 3) { r.pick(&["pre", "PRE", "Pre"]) } else { r.pick(&TAGS) });
    let n = r.below(3);
    for _ in 0..n { s.push_str(&g(r)); s.push_str(r.pick(&[":id x", ":class \"a b\"", ":href \"?a=1&b\"", ":n 1"])); }
    let n = r.below(4);
    for _ in 0..n { s.push_str(&g(r)); s.push_str(&html_source(r, depth - 1)); }
    if r.chance(1, 2) { s.push_str(&g(r)); }
    s.push(')');
    if depth >= 2 || r.chance(1, 3) { s = crate::words::into(r, s) }
    s
}
