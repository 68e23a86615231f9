//! What programs mean: an evaluator of the macro language, written from the properties.
use crate::asm::{atom, ws};
use crate::gen::PN;
use seam::parse::parser::{Node, ParseNode, Parser};
use seam::parse::tokens::Site;
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Clone, Default)]
pub struct Env { pub defs: BTreeMap<String, (Vec<PN>, Vec<PN>)>, pub inc: Vec<PathBuf> }
/// An error, or that it is not known what should happen (too long, or not specified).
#[derive(Debug, PartialEq)]
pub enum Stop { Error, Unknown }
pub type E = Result<Vec<PN>, Stop>;
pub struct Eval { pub fuel: usize, pub read: Vec<*mut Parser>, pub depth: usize }
fn error<T>() -> Result<T, Stop> { Err(Stop::Error) }

pub fn sym<'x>(n: &'x PN) -> Option<&'x str> { if let ParseNode::Symbol(x) = n { Some(&x.value) } else { None } }
fn list<'x>(n: &'x PN) -> Option<&'x [PN]> { if let ParseNode::List { nodes, .. } = n { Some(nodes) } else { None } }
fn attr<'x>(n: &'x PN) -> Option<(&'x str, &'x PN)> { if let ParseNode::Attribute { keyword, node, .. } = n { Some((keyword, node)) } else { None } }
pub fn with_ws(n: &PN, w: &str) -> PN {
    let w = w.to_string();
    match n.clone() {
        ParseNode::Symbol(x) => ParseNode::Symbol(Node { leading_whitespace: w, ..x }),
        ParseNode::Number(x) => ParseNode::Number(Node { leading_whitespace: w, ..x }),
        ParseNode::String(x) => ParseNode::String(Node { leading_whitespace: w, ..x }),
        ParseNode::Raw(x) => ParseNode::Raw(Node { leading_whitespace: w, ..x }),
        ParseNode::List { nodes, site, end_token, .. } => ParseNode::List { nodes, site, end_token, leading_whitespace: w },
        ParseNode::Attribute { keyword, node, site, .. } => ParseNode::Attribute { keyword, node, site, leading_whitespace: w },
    }
}
fn lead(mut t: Vec<PN>, w: &str) -> Vec<PN> { if let Some(x) = t.first_mut() { *x = with_ws(x, w) } t }
pub fn site_of(n: &PN) -> Site<'static> {
    match n { ParseNode::Symbol(x) | ParseNode::Number(x) | ParseNode::String(x) | ParseNode::Raw(x) => x.site, ParseNode::List { site, .. } | ParseNode::Attribute { site, .. } => *site }
}
fn text(call: &PN, value: String) -> Node<'static> { Node { value, site: site_of(call), leading_whitespace: ws(call).to_string() } }
fn relist(l: &PN, nodes: Vec<PN>, w: &str) -> PN {
    let ParseNode::List { site, end_token, .. } = l else { panic!() };
    ParseNode::List { nodes: nodes.into_boxed_slice(), site: *site, end_token: end_token.clone(), leading_whitespace: w.to_string() }
}

// ---- arguments ------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum K { Literal, Str, Sym, Num, List, Any }
fn fits(k: K, of: &[&str], n: &PN) -> bool {
    (match (k, n) {
        (K::Any, _) => true,
        (K::List, ParseNode::List { .. }) => true,
        (K::Sym, ParseNode::Symbol(_)) | (K::Num, ParseNode::Number(_)) | (K::Str, ParseNode::String(_) | ParseNode::Raw(_)) => true,
        (K::Literal, n) => atom(n).is_some(),
        _ => false,
    }) && (of.is_empty() || atom(n).map_or(false, |a| of.contains(&a.value.as_str())))
}
pub struct Rule<'x> { pub at: usize, pub name: &'x str, pub must: bool, pub k: K, pub of: &'x [&'x str] }
pub struct Args { pub pos: Vec<PN>, pub named: BTreeMap<String, PN>, pub rest: Vec<PN> }
/// Rules for a position (from 1) or, with position 0, for a name.
pub fn args(rules: &[Rule], rest: Option<K>, given: &[PN]) -> Result<Args, Stop> {
    let mut a = Args { pos: vec![], named: BTreeMap::new(), rest: vec![] };
    let mut i = 0;
    for n in given {
        let (rule, v) = match attr(n) {
            Some((k, v)) => (rules.iter().find(|r| r.at == 0 && r.name == k), v),
            None => { i += 1; (rules.iter().find(|r| r.at == i), n) },
        };
        match rule {
            Some(r) => {
                if !fits(r.k, r.of, v) { return error() }
                if let Some((k, _)) = attr(n) { a.named.insert(k.into(), v.clone()); } else { a.pos.push(n.clone()) }
            },
            None => match rest { Some(k) if fits(k, &[], n) => a.rest.push(n.clone()), _ => return error() },
        }
    }
    for r in rules { if r.must && (r.at > i || r.at == 0 && !a.named.contains_key(r.name)) { return error() } }
    Ok(a)
}
const fn pos(at: usize, k: K) -> Rule<'static> { Rule { at, name: "", must: true, k, of: &[] } }
const fn opt(name: &'static str, k: K, of: &'static [&'static str]) -> Rule<'static> { Rule { at: 0, name, must: false, k, of } }

// ---- binding --------------------------------------------------------------------
fn kw_rest(n: &PN) -> Option<&str> { sym(n).and_then(|s| s.strip_prefix("&&")) }
fn rest(n: &PN) -> Option<&str> { if kw_rest(n).is_some() { None } else { sym(n).and_then(|s| s.strip_prefix('&')) } }
type D = BTreeMap<String, (Vec<PN>, Vec<PN>)>;
pub fn bind(d: &mut D, p: &PN, v: &PN) -> bool {
    match (p, v) {
        (ParseNode::Attribute { keyword: k, node: m, .. }, ParseNode::Attribute { keyword: l, node: n, .. }) => k == l && bind(d, m, n),
        (ParseNode::List { nodes: a, .. }, ParseNode::List { nodes: b, .. }) => bind_all(d, a, b),
        (ParseNode::Symbol(x), _) => { d.insert(x.value.clone(), (vec![], vec![v.clone()])); true },
        (ParseNode::Number(x), ParseNode::Number(y)) => x.value == y.value,
        (ParseNode::String(x) | ParseNode::Raw(x), ParseNode::String(y) | ParseNode::Raw(y)) => x.value == y.value,
        _ => false,
    }
}
pub fn bind_all(d: &mut D, a: &[PN], b: &[PN]) -> bool {
    let rests: Vec<&str> = a.iter().filter_map(rest).collect();
    let kws: Vec<&str> = a.iter().filter_map(kw_rest).collect();
    if rests.len() > 1 || kws.len() > 1 { return false }
    let mut values = b.iter().filter(|n| attr(n).is_none());
    for p in a.iter().filter(|n| attr(n).is_none() && rest(n).is_none() && kw_rest(n).is_none()) {
        let Some(v) = values.next() else { return false };
        if !bind(d, p, v) { return false }
    }
    let more: Vec<PN> = values.cloned().collect();
    match rests.first() { Some(r) => { d.insert(r.to_string(), (vec![], more)); }, None => if !more.is_empty() { return false } }
    let last = |k: &str| b.iter().filter(|n| attr(n).map_or(false, |x| x.0 == k)).last();
    for (k, default) in a.iter().filter_map(attr) {
        let v = last(k).map_or(default, |n| attr(n).unwrap().1);
        d.insert(k.to_string(), (vec![], vec![v.clone()]));
    }
    let mut extra: Vec<PN> = vec![];
    for (i, n) in b.iter().enumerate() {
        let Some((k, _)) = attr(n) else { continue };
        if a.iter().filter_map(attr).any(|x| x.0 == k) || b[..i].iter().filter_map(attr).any(|x| x.0 == k) { continue }
        extra.push(last(k).unwrap().clone());
    }
    match kws.first() { Some(r) => { d.insert(r.to_string(), (vec![], extra)); true }, None => extra.is_empty() }
}

// ---- evaluation -----------------------------------------------------------------
impl Eval {
    pub fn new() -> Self { Eval { fuel: 6_000, read: vec![], depth: 0 } }
    pub fn nodes(&mut self, e: &mut Env, t: &[PN]) -> E {
        let mut o = vec![];
        for n in t { o.extend(self.node(e, n)?) }
        if o.len() > 2000 { return Err(Stop::Unknown) }
        Ok(o)
    }
    pub fn node(&mut self, e: &mut Env, n: &PN) -> E {
        if self.fuel == 0 || self.depth > 1200 { return Err(Stop::Unknown) }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.node1(e, n);
        self.depth -= 1;
        r
    }
    fn node1(&mut self, e: &mut Env, n: &PN) -> E {
        match n {
            ParseNode::Symbol(x) => match x.value.strip_prefix('%') {
                None => Ok(vec![n.clone()]),
                Some(name) => match e.defs.get(name).cloned() {
                    Some((p, body)) if p.is_empty() => Ok(lead(self.nodes(e, &body)?, ws(n))),
                    _ => error(),
                },
            },
            ParseNode::List { nodes, .. } => {
                if nodes.is_empty() { return Ok(vec![n.clone()]) }
                if let Some(name) = sym(&nodes[0]).and_then(|s| s.strip_prefix('%')) {
                    let mut p = nodes[1..].to_vec();
                    if p.first().map_or(false, |x| !ws(x).contains('\n')) { p = lead(p, "") }
                    return self.call(e, name, n, p);
                }
                Ok(vec![relist(n, self.nodes(e, nodes)?, ws(n))])
            },
            ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                let mut t = self.node(e, node)?;
                if t.is_empty() { return error() }
                t[0] = ParseNode::Attribute { keyword: keyword.clone(), node: Box::new(t[0].clone()), site: *site, leading_whitespace: leading_whitespace.clone() };
                Ok(t)
            },
            _ => Ok(vec![n.clone()]),
        }
    }
    fn literals(&mut self, e: &mut Env, p: &[PN]) -> E {
        let t = self.nodes(e, p)?;
        if t.iter().all(|n| atom(n).is_some()) { Ok(t) } else { error() }
    }
    pub fn call(&mut self, e: &mut Env, name: &str, node: &PN, p: Vec<PN>) -> E {
        if self.fuel == 0 || self.depth > 1200 { return Err(Stop::Unknown) }
        self.fuel -= 1;
        self.depth += 1;
        let r = self.call1(e, name, node, p);
        self.depth -= 1;
        if let Ok(t) = &r { if t.iter().any(|n| atom(n).map_or(false, |x| x.value.len() > 50_000)) { return Err(Stop::Unknown) } }
        r
    }
    fn call1(&mut self, e: &mut Env, name: &str, node: &PN, p: Vec<PN>) -> E {
        match name {
            "do" => self.nodes(e, &p),
            "define" => {
                let Some(head) = p.first() else { return error() };
                let (name, params, body) = match head {
                    ParseNode::Symbol(x) => { let b = self.nodes(e, &p[1..])?; (x.value.clone(), vec![], b) },
                    ParseNode::List { nodes, .. } => { let Some(name) = nodes.first().and_then(sym) else { return error() }; (name.to_string(), nodes[1..].to_vec(), p[1..].to_vec()) },
                    _ => return error(),
                };
                self.create(e, name, params, body)?;
                Ok(vec![])
            },
            "lambda" => {
                let a = args(&[pos(1, K::Any)], Some(K::Any), &p)?;
                let params = match &a.pos[0] { ParseNode::List { nodes, .. } => nodes.to_vec(), n @ ParseNode::Symbol(_) => vec![n.clone()], _ => return error() };
                let name = format!("__lambda{}", site_of(node).uuid());
                self.create(e, name.clone(), params, a.rest)?;
                Ok(vec![ParseNode::Symbol(text(node, name))])
            },
            "ifdef" => {
                if p.len() < 2 || p.len() > 3 { return error() }
                let Some(x) = atom(&p[0]) else { return error() };
                let t = if e.defs.contains_key(&x.value) { self.node(e, &p[1])? } else if p.len() == 3 { self.node(e, &p[2])? } else { vec![] };
                Ok(lead(t, ws(node)))
            },
            "match" => {
                if p.is_empty() { return error() }
                let v = self.node(e, &p[0])?;
                let [v] = &v[..] else { return error() };
                for arm in &p[1..] {
                    let Some([pat, body @ ..]) = list(arm) else { return error() };
                    let pat = self.node(e, pat)?;
                    let [pat] = &pat[..] else { return error() };
                    let mut sub = e.clone();
                    if bind(&mut sub.defs, pat, v) { return self.nodes(&mut sub, body) }
                }
                Ok(vec![])
            },
            "raw" | "string" => {
                let v: String = self.literals(e, &p)?.iter().map(|n| format!("{}{}", ws(n), atom(n).unwrap().value)).collect();
                Ok(vec![if name == "raw" { ParseNode::Raw(text(node, v)) } else { ParseNode::String(text(node, v)) }])
            },
            "concat" => { let v: String = self.literals(e, &p)?.iter().map(|n| atom(n).unwrap().value.clone()).collect(); Ok(vec![ParseNode::String(text(node, v))]) },
            "number" => Ok(self.literals(e, &p)?.iter().map(|n| ParseNode::Number(atom(n).unwrap().clone())).collect()),
            "symbol" => Ok(self.literals(e, &p)?.iter().map(|n| ParseNode::Symbol(atom(n).unwrap().clone())).collect()),
            "log" => { self.literals(e, &p)?; Ok(vec![]) },
            "join" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Literal), opt("trailing", K::Literal, &["true", "false"])], Some(K::Literal), &t)?;
                let sep = &atom(&a.pos[0]).unwrap().value;
                let mut v = String::new();
                for (i, n) in a.rest.iter().enumerate() { if i > 0 { v += sep } v += &atom(n).unwrap().value }
                if a.named.get("trailing").map_or(false, |n| atom(n).unwrap().value == "true") { v += sep }
                Ok(vec![ParseNode::String(text(node, v))])
            },
            "list" => { let t = self.nodes(e, &p)?; Ok(vec![relist(node, t, ws(node))]) },
            "strip" => { let t = self.nodes(e, &p)?; Ok(lead(t, "")) },
            "splat" => {
                let mut o = vec![];
                for n in self.nodes(e, &p)? { match list(&n) { Some(l) => o.extend(lead(l.to_vec(), ws(&n))), None => o.push(n) } }
                Ok(o)
            },
            "reverse" => {
                let t = self.nodes(e, &p)?;
                args(&[pos(1, K::List)], None, &t)?;
                let l = list(&t[0]).unwrap();
                let r = (0..l.len()).map(|i| with_ws(&l[l.len() - 1 - i], ws(&l[i]))).collect();
                Ok(vec![relist(&t[0], r, ws(&t[0]))])
            },
            "sort" => self.sort(e, node, &p),
            "for" => {
                let a = args(&[pos(1, K::Any), Rule { at: 2, name: "", must: true, k: K::Sym, of: &["in"] }, pos(3, K::List)], Some(K::Any), &p)?;
                let items = self.nodes(e, list(&a.pos[2]).unwrap())?;
                let mut sub = e.clone();
                let mut o = vec![];
                for i in &items {
                    if !bind(&mut sub.defs, &a.pos[0], i) { return error() }
                    o.extend(self.nodes(&mut sub, &a.rest)?);
                }
                Ok(o)
            },
            "map" | "filter" | "apply" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Sym)], Some(K::Any), &t)?;
                let f = sym(&a.pos[0]).unwrap().to_string();
                if name == "apply" { return self.call(e, &f, node, a.rest) }
                let mut o = vec![];
                for n in a.rest {
                    let r = self.call(e, &f, node, vec![n])?;
                    if name == "map" || !matches!(&r[..], [x] if list(x).map_or(false, |l| l.is_empty())) { o.extend(r) }
                }
                Ok(o)
            },
            "get" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Literal), pos(2, K::Any), opt("separator", K::Literal, &[])], None, &t)?;
                let sep = a.named.get("separator").map_or("/".to_string(), |n| atom(n).unwrap().value.clone());
                let mut at = a.pos[1].clone();
                for part in atom(&a.pos[0]).unwrap().value.split(&sep) {
                    let Some(l) = list(&at) else { return error() };
                    let by_index = part.parse::<usize>().ok().and_then(|i| l.get(i));
                    let by_name = || l.iter().filter_map(attr).find(|x| x.0 == part).map(|x| x.1);
                    let Some(n) = by_index.or_else(by_name) else { return error() };
                    at = n.clone();
                }
                Ok(vec![at])
            },
            "namespace" => {
                let mut sub = e.clone();
                let t = self.nodes(&mut sub, &p)?;
                let Some(ns) = t.first().and_then(atom) else { return error() };
                let mut sep = "/".to_string();
                let mut i = 1;
                while let Some((k, v)) = t.get(i).and_then(attr) {
                    if k != "separator" { return error() }
                    let Some(s) = atom(v) else { return error() };
                    sep = s.value.clone();
                    i += 1;
                }
                if sub.defs.len() > 150 { return Err(Stop::Unknown) }
                for (k, d) in &sub.defs { e.defs.insert(format!("{}{sep}{k}", ns.value), d.clone()); }
                Ok(t[i..].to_vec())
            },
            "include" | "embed" => {
                let t = self.nodes(e, &p)?;
                let [n] = &t[..] else { return error() };
                let Some(file) = atom(n).map(|a| a.value.clone()) else { return error() };
                for dir in e.inc.clone() {
                    let path = dir.join(&file);
                    if name == "embed" {
                        if let Ok(s) = std::fs::read_to_string(&path) { return Ok(vec![ParseNode::String(text(node, s))]) }
                        continue;
                    }
                    let mut tries = vec![path.clone()];
                    if let Some(f) = path.file_name() { let mut f = f.to_os_string(); f.push(".sex"); let mut q = path.clone(); q.pop(); q.push(f); tries.push(q); }
                    for q in tries {
                        let Ok(s) = std::fs::read_to_string(&q) else { continue };
                        let Ok(t) = self.parse(q.to_string_lossy().to_string(), s) else { return error() };
                        return Ok(lead(self.nodes(e, &t)?, ws(node)));
                    }
                }
                error()
            },
            "date" | "timestamp" => {
                let t = self.nodes(e, &p)?;
                let two = if name == "date" { Rule { at: 2, name: "", must: false, k: K::Num, of: &[] } } else { pos(2, K::Literal) };
                let a = args(&[pos(1, K::Literal), two, opt("timezone", K::Num, &[])], None, &t)?;
                let at = |i: usize| a.pos.get(i).and_then(atom).map(|n| n.value.as_str());
                let zone = a.named.get("timezone").and_then(atom).map(|n| n.value.as_str());
                if name == "date" { Ok(vec![ParseNode::String(text(node, crate::dates::date(at(0).unwrap(), at(1), zone)?))]) }
                else { Ok(vec![ParseNode::Number(text(node, crate::dates::timestamp(at(0).unwrap(), at(1).unwrap(), zone)?))]) }
            },
            "os/env" => {
                let t = self.nodes(e, &p)?;
                let [n] = &t[..] else { return error() };
                match atom(n).and_then(|a| std::env::var(&a.value).ok()) { Some(v) => Ok(vec![ParseNode::String(text(n, v))]), None => error() }
            },
            "format" => {
                let t = self.nodes(e, &p)?;
                let Some(ParseNode::String(f)) = t.first() else { return error() };
                let mut by = vec![];
                for n in &t[1..] {
                    let (k, v) = match attr(n) { Some((k, v)) => (Some(k), v), None => (None, n) };
                    match atom(v) { Some(v) => by.push((k, v.value.as_str())), None => return error() }
                }
                Ok(vec![ParseNode::String(text(node, crate::dates::fill(&f.value, &by)?))])
            },
            "yaml" | "json" | "toml" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Str), opt("separator", K::Literal, &[])], None, &t)?;
                let sep = a.named.get("separator").and_then(atom).map_or("/".to_string(), |n| n.value.clone());
                let lang = if name == "toml" { crate::data::Lang::Toml } else { crate::data::Lang::Yaml };
                crate::data::expand(self, e, lang, node, &atom(&a.pos[0]).unwrap().value, &sep)
            },
            "markdown" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Str), opt("only", K::Literal, &["frontmatter", "content"]), opt("separator", K::Literal, &[])], None, &t)?;
                let sep = a.named.get("separator").and_then(atom).map_or("/".to_string(), |n| n.value.clone());
                let only = a.named.get("only").and_then(atom).map(|n| n.value.clone());
                crate::data::page(self, e, node, &atom(&a.pos[0]).unwrap().value, only.as_deref(), &sep)
            },
            "glob" => {
                let t = self.nodes(e, &p)?;
                let a = args(&[pos(1, K::Literal), opt("type", K::Literal, &["file", "directory", "any"]), opt("sort", K::Literal, &["modified", "created", "name", "type", "none"]), opt("order", K::Literal, &["ascending", "descending"])], None, &t)?;
                let of = |k: &str, d: &str| a.named.get(k).and_then(atom).map_or(d.to_string(), |n| n.value.clone());
                let l = crate::globs::listing(&atom(&a.pos[0]).unwrap().value, &of("type", "any"), &of("sort", "none"), &of("order", "ascending"))?;
                Ok(l.into_iter().enumerate().map(|(k, value)| ParseNode::String(Node { value, site: site_of(&a.pos[0]), leading_whitespace: if k == 0 { "" } else { " " }.to_string() })).collect())
            },
            _ => {
                let t = self.nodes(e, &p)?;
                let Some((params, body)) = e.defs.get(name).cloned() else { return error() };
                let mut sub = e.clone();
                if !bind_all(&mut sub.defs, &params, &t) { return error() }
                self.nodes(&mut sub, &body)
            },
        }
    }
    pub fn create(&mut self, e: &mut Env, name: String, params: Vec<PN>, body: Vec<PN>) -> Result<(), Stop> {
        if params.iter().filter_map(rest).count() > 1 || params.iter().filter_map(kw_rest).count() > 1 { return error() }
        e.defs.insert(name, (params, body));
        Ok(())
    }
    fn sort(&mut self, e: &mut Env, node: &PN, p: &[PN]) -> E {
        let t = self.nodes(e, p)?;
        let a = args(&[pos(1, K::Any), opt("order", K::Literal, &["ascending", "descending"]), opt("key", K::Sym, &[])], None, &t)?;
        let f = a.named.get("key").map_or("do".to_string(), |n| sym(n).unwrap().to_string());
        let down = a.named.get("order").map_or(false, |n| atom(n).unwrap().value == "descending");
        let Some(l) = list(&a.pos[0]) else { return error() };
        let mut keyed = vec![];
        for n in l {
            let k = self.call(e, &f, node, vec![n.clone()])?;
            let [k] = &k[..] else { return error() };
            let Some(k) = atom(k) else { return error() };
            keyed.push((k.value.clone(), n.clone()));
        }
        // Insertion, behind those that are not greater.
        let mut sorted: Vec<(String, PN)> = vec![];
        for x in keyed {
            let at = sorted.iter().rposition(|y| if down { !less(&y.0, &x.0) } else { !less(&x.0, &y.0) }).map_or(0, |i| i + 1);
            sorted.insert(at, x);
        }
        let r = sorted.iter().zip(l).map(|((_, n), w)| with_ws(n, ws(w))).collect();
        Ok(vec![relist(&a.pos[0], r, ws(node))])
    }
    pub fn parse(&mut self, name: String, s: String) -> Result<Vec<PN>, ()> {
        let p = Box::into_raw(Box::new(Parser::new(seam::parse::lexer::Lexer::new(name, s))));
        self.read.push(p);
        // SAFETY: freed in `done`, when nothing refers to it any more.
        let p: &'static Parser = unsafe { &*p };
        let r = p.parse().map(|t| t.to_vec()).map_err(|_| ());
        r
    }
    /// Frees what was parsed.
    pub fn done(self) { for p in self.read { drop(unsafe { Box::from_raw(p) }) } }
}
/// Numbers by value come first, then text.
fn less(a: &str, b: &str) -> bool {
    let num = |s: &str| s.parse::<f64>().ok().filter(|x| x.is_finite());
    match (num(a), num(b)) {
        (Some(x), Some(y)) => match (a.parse::<i64>(), b.parse::<i64>()) { (Ok(x), Ok(y)) => x < y, _ => x < y },
        (Some(_), None) => true,
        (None, Some(_)) => false,
        (None, None) => a < b,
    }
}
