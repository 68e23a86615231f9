//! One random check per property.
use crate::gen::{self, Flavour, PN};
use crate::rng::Rng;
use crate::{asm, read, run, same, trying, Fail};
use seam::assemble::{self, css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::lexer::Lexer;
use seam::parse::parser::{ParseNode, Parser, SearchTree, SearchType};
use seam::parse::tokens::Kind;

pub fn known(p: &str) -> bool { PROPS.contains(&p) || run::focus(p).is_some() }
const PROPS: [&str; 19] = ["X01", "X03", "E20", "E15", "L01", "L02", "L03", "L04", "L05", "L06", "L07", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08"];

pub fn check(p: &str, r: &mut Rng, size: usize) -> Result<(), Fail> {
    match p {
        "L01" | "L04" | "L05" => { let s = gen::source(r, size); trying(&s); parse(&s, p) },
        "L02" | "L03" => { let s = gen::source(r, size); trying(&s); tokens(&s, p) },
        "L06" => search(r, size),
        "L07" => equality(r, size),
        "M01" => { let s: String = (0..r.below(size + 2)).map(|_| if r.chance(1, 2) { gen::text(r) } else { r.pick(&["<", ">", "'", "\"", "&", "&lt;", "\u{e9}", "ab"]).to_string() }).collect(); trying(&s); same(&s, &asm::esc(&s), &assemble::escape_xml(&s)) },
        "M02" => { let t = gen::forest(r, size, Flavour::Any); let i = show(&t); trying(&i); out(&i, asm::text_all(&t), PlainTextFormatter::new(bx(&t)).display().ok()) },
        "M03" => { let t = gen::forest(r, size, Flavour::Any); let i = show(&t); trying(&i); out(&i, asm::sexp_all(&t), SExpFormatter::new(bx(&t)).display().ok()) },
        "M04" => { let t = gen::forest(r, size, Flavour::Html); let i = show(&t); trying(&i); out(&i, asm::all(&t, asm::xml), XMLFormatter::new(bx(&t)).display().ok()) },
        "E20" => crate::globs::check(r, size),
        "E15" => crate::files::check(r, size),
        "X01" => crate::safe::check(r, size),
        "X03" => crate::cli::check(r, size),
        "X02" => crate::same::check(r, size),
        "M05" => html(r, size),
        "M06" => if r.chance(1, 2) { html(r, size) } else { let t = gen::forest(r, size, Flavour::Html); let i = show(&t); trying(&i); out(&i, asm::all(&t, asm::xml), XMLFormatter::new(bx(&t)).display().ok()) },
        "M07" => docs(r, size),
        "M08" => { let t = gen::forest(r, size, Flavour::Css); let i = show(&t); trying(&i); out(&i, asm::all(&t, asm::css), CSSFormatter::new(bx(&t)).display().ok()) },
        p if run::focus(p).is_some() => run::check(p, r, size),
        _ => Ok(()),
    }
}
fn bx(t: &[PN]) -> Box<[PN]> { t.to_vec().into_boxed_slice() }
pub fn show(t: &[PN]) -> String { t.iter().map(read::brief).collect::<Vec<_>>().join("\n") }
fn out(i: &str, e: asm::R, g: asm::R) -> Result<(), Fail> { same(i, &format!("{e:?}"), &format!("{g:?}")) }

fn no_pre(t: &[PN]) -> bool {
    t.iter().all(|n| match n {
        ParseNode::List { nodes, .. } => no_pre(nodes) && !matches!(nodes.first(), Some(ParseNode::Symbol(x)) if x.value.eq_ignore_ascii_case("pre")),
        ParseNode::Attribute { node, .. } => no_pre(std::slice::from_ref(&**node)),
        _ => true,
    })
}
fn html(r: &mut Rng, size: usize) -> Result<(), Fail> {
    if r.chance(1, 3) {
        let s = gen::html_source(r, 1 + size.min(3));
        trying(&s);
        let p = Box::leak(Box::new(Parser::new(Lexer::new("<t>".into(), s.clone()))));
        let Ok(t) = p.parse() else { return Ok(()) };
        return out(&s, asm::all(&t, asm::html), HTMLFormatter::new(t.clone()).display().ok());
    }
    let t = gen::forest(r, size, Flavour::Html);
    if !no_pre(&t) { return Ok(()) }
    let i = show(&t);
    trying(&i);
    out(&i, asm::all(&t, asm::html), HTMLFormatter::new(bx(&t)).display().ok())
}
fn docs(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let k = r.below(5);
    let fl = [Flavour::Html, Flavour::Html, Flavour::Css, Flavour::Any, Flavour::Any][k];
    let mut t = gen::forest(r, size, fl);
    if k < 2 {
        // Elements which matter to the wrappers.
        for _ in 0..r.below(4) {
            let names = ["!DOCTYPE", "!doctype", "html", "HTML", "head", "body", "Body", "?xml", "?XML", "p"];
            let mut kids = vec![];
            let n = r.pick(&names).to_string();
            kids.push(ParseNode::Symbol(gen::node(r, n)));
            if r.chance(1, 3) { let n = r.pick(&names).to_string(); let h = ParseNode::Symbol(gen::node(r, n)); let l = gen::list(r, vec![h]); kids.push(l); }
            let at = r.below(t.len() + 1);
            let l = gen::list(r, kids);
            t.insert(at, l);
        }
    }
    if !no_pre(&t) { return Ok(()) }
    let i = format!("format {}: {}", ["html", "xml", "css", "text", "sexp"][k], show(&t));
    trying(&i);
    match k {
        // The contents are other properties' business.
        0 => { let f = HTMLFormatter::new(bx(&t)); out(&i, asm::html_doc(&t, f.display().ok()), f.document().ok()) },
        1 => { let f = XMLFormatter::new(bx(&t)); out(&i, asm::xml_doc(&t, f.display().ok()), f.document().ok()) },
        2 => { let f = CSSFormatter::new(bx(&t)); out(&i, if t.is_empty() { Some("\n".into()) } else { f.display().ok() }, f.document().ok()) },
        3 => { let f = PlainTextFormatter::new(bx(&t)); out(&i, f.display().ok(), f.document().ok()) },
        _ => { let f = SExpFormatter::new(bx(&t)); out(&i, f.display().ok(), f.document().ok()) },
    }
}
fn parse(s: &str, p: &str) -> Result<(), Fail> {
    let want = read::parse(s);
    let parser = Parser::new(Lexer::new("<t>".into(), s.into()));
    let got = parser.parse().ok().map(|t| t.iter().map(read::show).collect::<Vec<_>>());
    if p == "L01" { return Ok(()) }
    same(s, &format!("{want:#?}"), &format!("{got:#?}"))
}
fn tokens(s: &str, p: &str) -> Result<(), Fail> {
    let (want, _) = read::tokens(s);
    let lexer = Lexer::new("<t>".into(), s.into());
    let mut got = vec![];
    while !lexer.eof() {
        let ahead = lexer.peek().is_ok();
        let Ok(t) = lexer.consume() else { break };
        if !ahead { return same(s, "peek to succeed", "an error"); }
        let k = match t.kind { Kind::LParen => read::K::L, Kind::RParen => read::K::R, Kind::Symbol => read::K::Sym, Kind::String => read::K::Str, Kind::Number => read::K::Num, Kind::Keyword => read::K::Key };
        if p == "L03" {
            let (a, n) = (t.site.bytes_from_start, t.site.bytes_span);
            let (b, e) = (s[..a].rfind('\n').map_or(0, |x| x + 1), s[a..].find('\n').map_or(s.len(), |x| a + x));
            same(s, &s[a..a + n], t.site.view())?;
            same(s, &s[b..e], t.site.line_slice())?;
            same(s, &format!("{b} {e}"), &format!("{} {}", t.site.start_of_line(), t.site.end_of_line()))?;
            if let Some(w) = columns(&s[b..a]) { same(s, &format!("column {}", w + 1), &format!("column {}", t.site.line_column()))? }
            if let Some(w) = columns(&s[a..a + n]) { same(s, &format!("width {w}"), &format!("width {}", t.site.width()))? }
        }
        got.push(read::T { k, value: t.value.into(), ws: t.leading_whitespace.into(), start: t.site.bytes_from_start, span: t.site.bytes_span, line: t.site.line, col: t.site.bytes_from_start_of_line });
    }
    let keep = |t: &read::T| if p == "L02" { format!("{:?} {:?} {:?}", t.ws, t.k, t.value) } else { format!("{:?} {}+{} line {} {}", t.value, t.start, t.span, t.line, t.col) };
    same(s, &format!("{:#?}", want.iter().map(keep).collect::<Vec<_>>()), &format!("{:#?}", got.iter().map(keep).collect::<Vec<_>>()))
}
/// The columns a terminal shows a text in, where characters by themselves say so.
fn columns(t: &str) -> Option<usize> {
    use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
    if t.chars().any(|c| c.is_control()) { return None }
    let w: usize = t.chars().map(|c| c.width().unwrap_or(0)).sum();
    if w == t.width() { Some(w) } else { None }
}
fn found<'x>(n: &'x PN, kind: SearchType, v: &str, ins: bool, level: usize) -> Option<&'x PN> {
    if level == 0 { return None }
    let eq = |s: &str| if ins { s.to_lowercase() == v.to_lowercase() } else { s == v };
    let is = |k: SearchType| kind == SearchType::Any || kind == k;
    match n {
        ParseNode::Symbol(x) if is(SearchType::Symbol) && eq(&x.value) => Some(n),
        ParseNode::Number(x) if is(SearchType::Number) && eq(&x.value) => Some(n),
        ParseNode::String(x) | ParseNode::Raw(x) if is(SearchType::String) && eq(&x.value) => Some(n),
        ParseNode::List { nodes, .. } => {
            if is(SearchType::ListHead) && nodes.first().and_then(asm::atom).map_or(false, |x| eq(&x.value)) { return Some(n) }
            nodes.iter().find_map(|k| found(k, kind, v, ins, level - 1))
        },
        ParseNode::Attribute { keyword, node, .. } => if is(SearchType::Attribute) && eq(keyword) { Some(node) } else { found(node, kind, v, ins, level - 1) },
        _ => None,
    }
}
fn names(n: &PN, all: &mut Vec<String>) {
    match n {
        ParseNode::Attribute { keyword, node, .. } => { all.push(keyword.clone()); names(node, all) },
        ParseNode::List { nodes, .. } => nodes.iter().for_each(|n| names(n, all)),
        n => all.extend(asm::atom(n).map(|x| x.value.clone())),
    }
}
fn search(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let t = gen::forest(r, size + 1, Flavour::Html);
    let kinds = [SearchType::ListHead, SearchType::ListMember, SearchType::Symbol, SearchType::Number, SearchType::String, SearchType::Attribute, SearchType::Any];
    let ki = r.below(7);
    let (kind, ins, level) = (kinds[ki], r.chance(1, 2), r.below(5));
    let v = match r.below(4) { 0 => gen::text(r), 1 => r.pick(&["id", "class", "HREF", "style"]).to_string(), _ => r.pick(&gen::TAGS).to_string() };
    let v = if r.chance(1, 4) { let mut all = vec![]; t.iter().for_each(|n| names(n, &mut all)); if all.is_empty() { v } else { all.swap_remove(r.below(all.len())) } } else { v };
    let v = match r.below(8) { 0 => v.to_uppercase(), 1 => v.to_lowercase(), 2 => gen::near(r, &v), _ => v };
    let i = format!("kind {ki} value {v:?} insensitive {ins} level {level} in\n{}", show(&t));
    trying(&i);
    let ptr = |x: Option<&PN>| x.map(|n| (n as *const PN as usize, read::brief(n)));
    let b = bx(&t);
    let (want, got) = if r.chance(1, 2) || b.is_empty() {
        (ptr(b.iter().find_map(|n| found(n, kind, &v, ins, level))), ptr(leak(&b).search_node(kind, &v, ins, level)))
    } else { (ptr(found(&b[0], kind, &v, ins, level)), ptr(leak(&b)[0].search_node(kind, &v, ins, level))) };
    same(&i, &format!("{want:?}"), &format!("{got:?}"))
}
fn leak<'x>(b: &'x Box<[PN]>) -> &'static Box<[PN]> { unsafe { &*(b as *const Box<[PN]>) } }
fn equal(a: &PN, b: &PN) -> bool {
    match (a, b) {
        (ParseNode::Symbol(x), ParseNode::Symbol(y)) | (ParseNode::Number(x), ParseNode::Number(y)) | (ParseNode::String(x), ParseNode::String(y)) | (ParseNode::Raw(x), ParseNode::Raw(y)) => x.value == y.value,
        (ParseNode::List { nodes: x, .. }, ParseNode::List { nodes: y, .. }) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| equal(a, b)),
        (ParseNode::Attribute { keyword: k, node: x, .. }, ParseNode::Attribute { keyword: l, node: y, .. }) => k == l && equal(x, y),
        _ => false,
    }
}
/// A copy of a tree, with other whitespace and places, and rarely another difference.
fn vary(r: &mut Rng, n: &PN) -> PN {
    if r.chance(1, 25) { return gen::tree(r, 1, Flavour::Any) }
    let rd = |r: &mut Rng, v: &String| { let v = if r.chance(1, 25) { gen::text(r) } else if r.chance(1, 25) { gen::near(r, v) } else { v.clone() }; gen::node(r, v) };
    match n {
        ParseNode::Symbol(x) => { let x = rd(r, &x.value); if r.chance(1, 30) { ParseNode::String(x) } else { ParseNode::Symbol(x) } },
        ParseNode::Number(x) => { let x = rd(r, &x.value); if r.chance(1, 30) { ParseNode::Symbol(x) } else { ParseNode::Number(x) } },
        ParseNode::String(x) => { let x = rd(r, &x.value); if r.chance(1, 30) { ParseNode::Raw(x) } else { ParseNode::String(x) } },
        ParseNode::Raw(x) => { let x = rd(r, &x.value); if r.chance(1, 30) { ParseNode::String(x) } else { ParseNode::Raw(x) } },
        ParseNode::List { nodes, .. } => {
            let mut k: Vec<PN> = nodes.iter().map(|n| vary(r, n)).collect();
            if r.chance(1, 25) { k.pop(); }
            if r.chance(1, 25) { k.push(gen::tree(r, 0, Flavour::Any)); }
            if r.chance(1, 25) && k.len() > 1 { k.swap(0, 1); }
            gen::list(r, k)
        },
        ParseNode::Attribute { keyword, node, .. } => {
            let node = vary(r, node);
            let mut a = gen::attribute(r, node);
            if !r.chance(1, 25) { if let ParseNode::Attribute { keyword: k, .. } = &mut a { *k = if r.chance(1, 25) { gen::near(r, keyword) } else { keyword.clone() } } }
            a
        },
    }
}
fn equality(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let a = gen::tree(r, 1 + size.min(3), Flavour::Any);
    let b = vary(r, &a);
    let i = format!("{}\n== {}", read::brief(&a), read::brief(&b));
    trying(&i);
    same(&i, &equal(&a, &b).to_string(), &(a == b).to_string())?;
    same(&i, &equal(&a, &b).to_string(), &(b == a).to_string())?;
    same(&i, "true", &(a == a.clone()).to_string())
}
