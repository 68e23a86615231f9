//! What reading a source text should give, written from the property statements.
use descape::UnescapeExt;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum K { L, R, Sym, Str, Num, Key }
#[derive(Debug, Clone, PartialEq)]
pub struct T { pub k: K, pub value: String, pub ws: String, pub start: usize, pub span: usize, pub line: usize, pub col: usize }

fn space(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r') }
/// Tokens of the text; the flag tells whether it ends in an unclosed string.
pub fn tokens(s: &str) -> (Vec<T>, bool) {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let at = |i: usize| c.get(i).map(|x| x.1);
    let off = |i: usize| c.get(i).map_or(s.len(), |x| x.0);
    let mut i = 0;
    let mut out = vec![];
    loop {
        let mut from = i;
        loop {
            match at(i) {
                Some(';') => { while at(i).is_some() && at(i) != Some('\n') { i += 1 } from = i; },
                Some(x) if space(x) => i += 1,
                _ => break,
            }
        }
        let Some(x) = at(i) else { return (out, false) };
        let start = i;
        let (k, a, b) = match x {
            '(' => { i += 1; (K::L, start, i) },
            ')' => { i += 1; (K::R, start, i) },
            '"' => {
                let q = if at(i + 1) == Some('"') && at(i + 2) == Some('"') { 3 } else { 1 };
                i += q;
                let a = i;
                loop {
                    match at(i) {
                        None => return (out, true),
                        Some('\\') => i += 2,
                        Some('"') if (0..q).all(|j| at(i + j) == Some('"')) => break,
                        _ => i += 1,
                    }
                    if i > c.len() { return (out, true) }
                }
                i += q;
                (K::Str, a, i - q)
            },
            _ => {
                let k = match x { ':' => K::Key, '0'..='9' | '+' | '-' => K::Num, _ => K::Sym };
                if k == K::Key { i += 1 }
                let a = i;
                while let Some(x) = at(i) {
                    if space(x) || x == '(' || x == ')' || x == '"' { break }
                    i += if x == '\\' { 2 } else { 1 };
                }
                i = i.min(c.len());
                (k, a, i)
            },
        };
        let st = off(start);
        let before = &s[..st];
        out.push(T { k, value: s[off(a)..off(b)].into(), ws: s[off(from)..st].into(), start: st, span: off(i) - st,
            line: 1 + before.matches('\n').count(), col: st - before.rfind('\n').map_or(0, |p| p + 1) });
    }
}
pub fn unslash(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { if let Some(d) = it.next() { o.push(d) } } else { o.push(c) } }
    o
}
fn show_t(t: &T) -> String { format!("{:?}@{}+{} line {}:{}", t.ws, t.start, t.span, t.line, t.col) }
/// Description of an expression, or nothing if it is malformed.
fn expr(t: &[T], i: &mut usize) -> Option<String> {
    let x = t.get(*i)?;
    *i += 1;
    Some(match x.k {
        K::R => return None,
        K::Sym => format!("sym {:?} {}", unslash(&x.value), show_t(x)),
        K::Num => format!("num {:?} {}", unslash(&x.value), show_t(x)),
        K::Str => format!("str {:?} {}", x.value.to_unescaped().ok()?, show_t(x)),
        K::Key => { let v = expr(t, i)?; format!("attr {:?} {} [{}]", x.value, show_t(x), v) },
        K::L => {
            let mut o = format!("list {} [", show_t(x));
            loop {
                let y = t.get(*i)?;
                if y.k == K::R { *i += 1; return Some(o + "] " + &show_t(y)) }
                o += &expr(t, i)?;
                o += ", ";
            }
        },
    })
}
pub fn parse(s: &str) -> Option<Vec<String>> {
    let (t, unclosed) = tokens(s);
    let (mut i, mut out) = (0, vec![]);
    if unclosed { return None }
    while i < t.len() { out.push(expr(&t, &mut i)?) }
    Some(out)
}
use seam::parse::parser::{Node, ParseNode};
use seam::parse::tokens::Site;
fn show_s(ws: &str, s: &Site) -> String { format!("{:?}@{}+{} line {}:{}", ws, s.bytes_from_start, s.bytes_span, s.line, s.bytes_from_start_of_line) }
fn show_n(k: &str, n: &Node) -> String { format!("{k} {:?} {}", n.value, show_s(&n.leading_whitespace, &n.site)) }
/// Description of what was read.
pub fn show(n: &ParseNode) -> String {
    match n {
        ParseNode::Symbol(x) => show_n("sym", x),
        ParseNode::Number(x) => show_n("num", x),
        ParseNode::String(x) => show_n("str", x),
        ParseNode::Raw(x) => show_n("raw", x),
        ParseNode::Attribute { keyword, node, site, leading_whitespace } => format!("attr {:?} {} [{}]", keyword, show_s(leading_whitespace, site), show(node)),
        ParseNode::List { nodes, site, end_token, leading_whitespace } => {
            let mut o = format!("list {} [", show_s(leading_whitespace, site));
            for n in nodes.iter() { o += &show(n); o += ", " }
            o + "] " + &show_s(end_token.leading_whitespace, &end_token.site)
        },
    }
}
/// The same without locations.
pub fn brief(n: &ParseNode) -> String {
    let f = |k: &str, x: &Node| format!("{}{k}{:?}", x.leading_whitespace.escape_debug(), x.value);
    match n {
        ParseNode::Symbol(x) => f("s", x),
        ParseNode::Number(x) => f("n", x),
        ParseNode::String(x) => f("", x),
        ParseNode::Raw(x) => f("r", x),
        ParseNode::Attribute { keyword, node, leading_whitespace, .. } => format!("{}:{:?}{}", leading_whitespace.escape_debug(), keyword, brief(node)),
        ParseNode::List { nodes, end_token, leading_whitespace, .. } =>
            format!("{}({}{})", leading_whitespace.escape_debug(), nodes.iter().map(brief).collect::<Vec<_>>().join(""), end_token.leading_whitespace.escape_debug()),
    }
}
