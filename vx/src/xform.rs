//! The mechanical rewriting of function bodies from Rust to the subset that Verus reads.
use crate::contracts::FnContract;
use crate::Config;
use proc_macro2::{Ident, Span, TokenStream, TokenTree, Delimiter};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser as _;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn marker_stmt(kind: &str, id: usize) -> Stmt {
    let k = format_ident!("{}", kind);
    let i = proc_macro2::Literal::usize_unsuffixed(id);
    parse_quote! { #k! { #i } }
}

/// Pass A: number the loops, closures and calls of the original body, and leave
/// markers where the contract has ghost text.
pub struct Mark<'x> {
    pub c: &'x FnContract,
    pub markers: &'x mut Vec<String>,
    pub used: BTreeSet<String>,
    pub loops: usize,
    pub closures: usize,
    pub calls: BTreeMap<String, usize>,
    pub stack: Vec<Vec<String>>,
}

impl<'x> Mark<'x> {
    fn sec(&mut self, key: &str) -> Option<usize> {
        let t = self.c.sections.get(key)?;
        self.used.insert(key.to_string());
        self.markers.push(t.clone());
        Some(self.markers.len() - 1)
    }
    fn call(&mut self, name: String) {
        let n = self.calls.entry(name.clone()).or_insert(0);
        *n += 1;
        let key = format!("{} {}", name, n);
        if let Some(top) = self.stack.last_mut() { top.push(key); }
    }
    fn loop_body(&mut self, body: &mut Block, n: usize) {
        self.visit_block_mut(body);
        if let Some(id) = self.sec(&format!("loop {n} start")) { body.stmts.insert(0, marker_stmt("__vx_m", id)); }
        if let Some(id) = self.sec(&format!("loop {n} end")) {
            if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() { *semi = Some(Default::default()); }
            body.stmts.push(marker_stmt("__vx_m", id));
        }
        if let Some(id) = self.sec(&format!("loop {n}")) { body.stmts.insert(0, marker_stmt("__vx_inv", id)); }
    }
    pub fn function(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        if let Some(id) = self.sec("start") { b.stmts.insert(0, marker_stmt("__vx_m", id)); }
        if let Some(id) = self.sec("end") {
            let m = marker_stmt("__vx_m", id);
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) if matches!(e, Expr::Path(_)) || matches!(&e, Expr::Call(c) if c.args.iter().all(|a| matches!(a, Expr::Path(_) | Expr::Tuple(_))))
                    => { b.stmts.push(m); b.stmts.push(Stmt::Expr(e, None)); },
                Some(Stmt::Expr(e, None)) => {
                    b.stmts.push(parse_quote! { let __vx_ret = #e; });
                    b.stmts.push(m);
                    b.stmts.push(Stmt::Expr(parse_quote!(__vx_ret), None));
                },
                Some(s) => { b.stmts.push(s); b.stmts.push(m); },
                None => b.stmts.push(m),
            }
        }
    }
}

impl<'x> VisitMut for Mark<'x> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            self.stack.push(vec![]);
            self.visit_stmt_mut(&mut s);
            let names = self.stack.pop().unwrap();
            let mut after = vec![];
            for k in names {
                if let Some(id) = self.sec(&format!("before {k}")) { b.stmts.push(marker_stmt("__vx_m", id)); }
                if let Some(id) = self.sec(&format!("after {k}")) { after.push(marker_stmt("__vx_m", id)); }
            }
            if after.is_empty() { b.stmts.push(s); continue; }
            match s {
                Stmt::Expr(e, None) if !matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) => {
                    b.stmts.push(parse_quote! { let __vx_tail = #e; });
                    b.stmts.extend(after);
                    b.stmts.push(Stmt::Expr(parse_quote!(__vx_tail), None));
                },
                s => { b.stmts.push(s); b.stmts.extend(after); }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                self.loops += 1; let n = self.loops;
                if let Some(top) = self.stack.last_mut() { top.push(format!("loop {n}")); }
                self.visit_expr_mut(&mut w.cond);
                self.loop_body(&mut w.body, n);
            },
            Expr::ForLoop(w) => {
                self.loops += 1; let n = self.loops;
                if let Some(top) = self.stack.last_mut() { top.push(format!("loop {n}")); }
                self.visit_expr_mut(&mut w.expr);
                self.loop_body(&mut w.body, n);
                w.label = Some(Label { name: Lifetime::new(&format!("'vxl{n}"), Span::call_site()), colon_token: Default::default() });
            },
            Expr::Loop(w) => {
                self.loops += 1; let n = self.loops;
                if let Some(top) = self.stack.last_mut() { top.push(format!("loop {n}")); }
                self.loop_body(&mut w.body, n);
            },
            Expr::Closure(c) => {
                self.closures += 1; let n = self.closures;
                visit_mut::visit_expr_closure_mut(self, c);
                if let Some(id) = self.sec(&format!("closure {n}")) {
                    let id = proc_macro2::Literal::usize_unsuffixed(id);
                    let body = &c.body;
                    c.body = Box::new(parse_quote! {{ __vx_clo! { #id } #body }});
                }
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func { self.call(p.path.segments.last().unwrap().ident.to_string()); }
                visit_mut::visit_expr_mut(self, e);
            },
            Expr::MethodCall(c) => {
                self.call(c.method.to_string());
                visit_mut::visit_expr_mut(self, e);
            },
            Expr::Macro(m) => { self.call(m.mac.path.segments.last().unwrap().ident.to_string()); },
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { self.call(m.mac.path.segments.last().unwrap().ident.to_string()); }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// Types.
pub struct Types<'x> { pub cfg: &'x Config }
impl<'x> VisitMut for Types<'x> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string().replace(' ', "");
        if let Some(r) = self.cfg.types.get(&s) { *t = parse_str(r).unwrap(); return; }
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap();
            let name = seg.ident.to_string();
            let arg = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }),
                _ => None,
            };
            match (name.as_str(), arg) {
                ("Box", Some(Type::Slice(sl))) => { let e = &sl.elem; *t = parse_quote!(Vec<#e>); return; },
                ("Box", Some(Type::TraitObject(o))) if o.to_token_stream().to_string().contains("Error") => { *t = parse_quote!(VxErr); return; },
                ("Rc", Some(a)) if !self.cfg.arenas.is_empty() && a.to_token_stream().to_string().starts_with("Vec") => { *t = parse_quote!(VxShared<#a>); return; },
                ("Cell", Some(a)) | ("RefCell", Some(a)) => { *t = a; return; },
                ("Peekable", Some(a)) => { *t = a; return; },
                ("Iter", Some(a)) => { *t = parse_quote!(SIter<'a, #a>); return; },
                _ => {}
            }
            if let Some(r) = self.cfg.types.get(&name) {
                if matches!(seg.arguments, PathArguments::None) || self.cfg.types_any.contains(&name) { *t = parse_str(r).unwrap(); return; }
            }
            self.path(&mut p.path);
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) { visit_mut::visit_path_mut(self, p); self.path(p); }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        let name = b.path.segments.last().unwrap().ident.to_string();
        if let Some(r) = self.cfg.types.get(&name) {
            let args = b.path.segments.last().unwrap().arguments.clone();
            b.path = parse_str(r).unwrap();
            if b.path.segments.len() == 1 && b.path.segments[0].arguments.is_none() && matches!(args, PathArguments::AngleBracketed(_)) { b.path.segments[0].arguments = args; }
        }
    }
}
impl<'x> Types<'x> {
    fn path(&mut self, p: &mut Path) {
        for s in p.segments.iter_mut() { if let Some(n) = self.cfg.type_names.get(&s.ident.to_string()) { s.ident = format_ident!("{}", n); } }
        // std::collections::HashMap -> VxMap
        if p.segments.len() > 1 && p.segments[0].ident == "std" {
            let names: Vec<&String> = self.cfg.type_names.values().collect();
            if let Some(k) = p.segments.iter().position(|s| names.iter().any(|n| s.ident == n.as_str())) { p.segments = p.segments.iter().skip(k).cloned().collect(); }
        }
        // crate::parse::tokens::Kind -> tokens::Kind; super::x::Y -> x::Y
        p.leading_colon = None;
        while p.segments.len() > 1 && matches!(p.segments[0].ident.to_string().as_str(), "crate" | "super" | "self" | "parse" | "assemble") {
            p.segments = p.segments.iter().skip(1).cloned().collect();
        }
    }
}

/// Pass B: expressions.
pub struct Rewrite<'x> {
    pub cfg: &'x Config,
    pub c: Option<&'x FnContract>,
    pub n: usize,
    pub err_boxed: bool,
    pub cell_fields: &'x BTreeSet<String>,
    pub unsupported: Vec<String>,
    pub callees: BTreeSet<String>,
    pub schemas: BTreeMap<String, String>,
    /// The variables bound by patterns.
    pub bound: BTreeSet<String>,
}

fn parse_args(ts: TokenStream) -> Option<Vec<Expr>> {
    Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).ok().map(|p| p.into_iter().collect())
}

fn lit_str(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Macro(m) if m.mac.path.is_ident("concat") => {
            let mut r = String::new();
            for a in parse_args(m.mac.tokens.clone())? { r.push_str(&lit_str(&a)?); }
            Some(r)
        },
        Expr::Group(g) => lit_str(&g.expr),
        _ => None,
    }
}

enum Piece { Lit(String), Arg(Expr, String) }

fn format_pieces(args: &[Expr]) -> Option<Vec<Piece>> {
    let fmt = lit_str(args.first()?)?;
    let mut pos: Vec<Expr> = vec![]; let mut named: BTreeMap<String, Expr> = BTreeMap::new();
    for a in &args[1..] {
        match a {
            Expr::Assign(x) => { named.insert(x.left.to_token_stream().to_string(), (*x.right).clone()); },
            e => pos.push(e.clone()),
        }
    }
    let mut out = vec![]; let mut lit = String::new(); let mut next = 0;
    let cs: Vec<char> = fmt.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; },
            '}' if cs.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; },
            '{' => {
                let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (inner.clone(), String::new()) };
                let e = if name.is_empty() { next += 1; pos.get(next - 1)?.clone() }
                    else if let Ok(k) = name.parse::<usize>() { pos.get(k)?.clone() }
                    else if let Some(e) = named.get(&name) { e.clone() }
                    else { parse_str::<Expr>(&name).ok()? };
                if !lit.is_empty() { out.push(Piece::Lit(std::mem::take(&mut lit))); }
                out.push(Piece::Arg(e, spec));
                i = j + 1;
            },
            c => { lit.push(c); i += 1; }
        }
    }
    if !lit.is_empty() { out.push(Piece::Lit(lit)); }
    Some(out)
}

fn strip_ref(e: &Expr) -> (&Expr, bool) {
    // strips leading & and * (and parentheses); tells whether anything was stripped
    match e {
        Expr::Reference(r) => (strip_ref(&r.expr).0, true),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => (strip_ref(expr).0, true),
        Expr::Paren(p) => strip_ref(&p.expr),
        _ => (e, false),
    }
}

fn is_place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr), _ => false }
}

fn pat_has_str(p: &Pat) -> bool {
    match p {
        Pat::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Pat::Or(o) => o.cases.iter().any(pat_has_str),
        Pat::Paren(p) => pat_has_str(&p.pat),
        _ => false,
    }
}
fn pat_has_slice(p: &Pat) -> bool {
    match p { Pat::Slice(_) => true, Pat::Or(o) => o.cases.iter().any(pat_has_slice), Pat::Reference(r) => pat_has_slice(&r.pat), _ => false }
}
pub fn bound_names(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl VisitMut for V { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.insert(p.ident.to_string()); } }
    let mut v = V(BTreeSet::new()); v.visit_block_mut(&mut b.clone()); v.0
}
fn pat_ref_mut(p: &Pat) -> bool { p.to_token_stream().to_string().contains("ref mut") }

impl<'x> Rewrite<'x> {
    fn id(&mut self, base: &str) -> Ident { self.n += 1; format_ident!("__vx_{}{}", base, self.n) }
    fn opt(&self, o: &str) -> bool { self.c.map_or(false, |c| c.opts.contains(o)) }

    fn push_lit(&self, f: &TokenStream, s: &str) -> TokenStream {
        let mut ts = TokenStream::new();
        if s.chars().count() <= 24 && s.is_ascii() {
            for c in s.chars() { let l = proc_macro2::Literal::character(c); ts.extend(quote! { #f.push(#l); }); }
        } else {
            let l = proc_macro2::Literal::string(s); ts.extend(quote! { #f.push_str(#l); });
        }
        ts
    }
    fn fmt_into(&mut self, f: TokenStream, args: &[Expr], nl: bool) -> Option<TokenStream> {
        let pieces = if args.is_empty() { vec![] } else { format_pieces(args)? };
        let mut lets = TokenStream::new(); let mut body = TokenStream::new();
        for p in pieces {
            match p {
                Piece::Lit(s) => body.extend(self.push_lit(&f, &s)),
                Piece::Arg(e, spec) => {
                    let id = self.id("a");
                    // A call's value, or a reference to a place.
                    lets.extend(quote! { let #id = &(#e); });
                    match spec.as_str() {
                        "" => body.extend(quote! { #f.vx_put(#id); }),
                        "?" => body.extend(quote! { #f.vx_put_debug(#id); }),
                        _ => body.extend(quote! { #f.vx_put_other(#id); }),
                    }
                }
            }
        }
        if nl { body.extend(self.push_lit(&f, "\n")); }
        Some(quote! { #lets #body })
    }

    /// Macros in expression position. `tried`: directly under `?`.
    fn mac(&mut self, m: &Macro, tried: bool) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if name.starts_with("__vx") { return None; }
        match name.as_str() {
            "write" | "writeln" => {
                let args = parse_args(m.tokens.clone())?;
                let f = args[0].to_token_stream();
                let f = match &args[0] { Expr::Path(_) => f, Expr::Reference(r) => r.expr.to_token_stream(), _ => quote!((#f)) };
                let b = self.fmt_into(f, &args[1..], name == "writeln")?;
                Some(if tried { parse_quote!({ #b }) } else { parse_quote!({ #b Ok::<(), VxFmtError>(()) }) })
            },
            "format" => {
                let args = parse_args(m.tokens.clone())?;
                let s = self.id("s");
                let b = self.fmt_into(s.to_token_stream(), &args, false)?;
                Some(parse_quote!({ let mut #s = String::new(); #b #s }))
            },
            "vec" => {
                let src = m.tokens.to_string();
                if src.trim().is_empty() { return Some(parse_quote!(Vec::new())); }
                if let Ok(r) = parse2::<ExprRepeat>({ let t = &m.tokens; quote!([#t]) }) {
                    let (e, n) = (r.expr, r.len);
                    return Some(parse_quote!(vx_vec_repeat(#e, #n)));
                }
                let args = parse_args(m.tokens.clone())?;
                Some(self.vec_of(args))
            },
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
            "assert" | "debug_assert" => { let a = parse_args(m.tokens.clone())?; let c = &a[0]; Some(parse_quote!(vx_assert(#c))) },
            "assert_eq" | "debug_assert_eq" => { let a = parse_args(m.tokens.clone())?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(vx_assert(#x == #y))) },
            "assert_ne" | "debug_assert_ne" => { let a = parse_args(m.tokens.clone())?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(vx_assert(#x != #y))) },
            "eprintln" | "println" | "eprint" | "print" | "dbg" => Some(parse_quote!(())),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = parse2::<M>(m.tokens.clone()).ok()?;
                let g = g.map(|g| quote!(if #g));
                Some(parse_quote!(match #e { #p #g => true, _ => false }))
            },
            "concat" => { let s = lit_str(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() }))?; let l = proc_macro2::Literal::string(&s); Some(parse_quote!(#l)) },
            "arguments" => self.arguments(m),
            _ => { self.unsupported.push(format!("macro {name}!")); None }
        }
    }

    fn vec_of(&mut self, args: Vec<Expr>) -> Expr {
        if args.is_empty() { return parse_quote!(Vec::new()); }
        if args.len() == 1 { let a = &args[0]; return parse_quote!(vx_vec1(#a)); }
        let v = self.id("v");
        parse_quote!({ let mut #v = Vec::new(); #( #v.push(#args); )* #v })
    }

    /// `arguments! { [params] mandatory(1): literal, optional("x"): .., rest: any, }`:
    /// a call of the schema's parse function (generated, see main.rs), as the
    /// procedural macro expands to.
    fn arguments(&mut self, m: &Macro) -> Option<Expr> {
        let tts: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        let TokenTree::Group(g) = tts.first()? else { return None };
        if g.delimiter() != Delimiter::Bracket { return None; }
        let params = g.stream();
        let rest: TokenStream = tts[1..].iter().cloned().collect();
        let key = crate::schema_name(&rest.to_string());
        let f = format_ident!("{}", key);
        self.schemas.insert(key, rest.to_string());
        Some(parse_quote!(#f(node, #params)))
    }

    fn slice_of(&mut self, e: &Expr, lets: &mut Vec<Stmt>) -> Ident {
        let (inner, _) = strip_ref(e);
        let s = self.id("s");
        let mut inner = inner.clone();
        // x.as_slice()
        if let Expr::MethodCall(mc) = &inner { if mc.method == "as_slice" || mc.method == "as_ref" { inner = (*mc.receiver).clone(); } }
        if is_place(&inner) {
            lets.push(parse_quote! { let #s = (#inner).vx_as_sl(); });
        } else {
            let t = self.id("t");
            lets.push(parse_quote! { let #t = #inner; });
            lets.push(parse_quote! { let #s = #t.vx_as_sl(); });
        }
        s
    }
    /// Condition and bindings of a slice pattern against slice `s`.
    fn slice_pat(&mut self, p: &Pat, s: &Ident) -> Option<(Expr, Vec<Stmt>)> {
        let Pat::Slice(sp) = p else {
            if let Pat::Wild(_) = p { return Some((parse_quote!(true), vec![])); }
            return None
        };
        let n = sp.elems.len();
        let rest_at = sp.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(PatIdent { subpat: Some((_, sub)), .. }) if matches!(**sub, Pat::Rest(_))));
        let mut lets: Vec<Stmt> = vec![];
        let mut cond: Expr = match rest_at {
            None => parse_quote!(#s.len() == #n),
            Some(_) => { let k = n - 1; if k == 0 { parse_quote!(true) } else { parse_quote!(#s.len() >= #k) } },
        };
        for (i, e) in sp.elems.iter().enumerate() {
            if Some(i) == rest_at {
                if let Pat::Ident(pi) = e {
                    let id = &pi.ident; let after = n - 1 - i;
                    if after == 0 { lets.push(parse_quote! { let #id = #s.vx_slice_from(#i); }); }
                    else { lets.push(parse_quote! { let #id = #s.vx_slice(#i, #s.len() - #after); }); }
                }
                continue;
            }
            let idx: Expr = match rest_at { Some(r) if i > r => { let back = n - i; parse_quote!(#s.len() - #back) }, _ => parse_quote!(#i) };
            match e {
                Pat::Wild(_) => {},
                Pat::Ident(pi) if pi.subpat.is_none() => { let id = &pi.ident; lets.push(parse_quote! { let #id = &#s[#idx]; }); },
                Pat::Lit(l) if matches!(l.lit, Lit::Byte(_) | Lit::Char(_) | Lit::Int(_)) => { let l = &l.lit; cond = parse_quote!(#cond && #s[#idx] == #l); },
                Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Path(_) => {
                    cond = parse_quote!(#cond && (match &#s[#idx] { #e => true, _ => false }));
                    lets.push(parse_quote! { let #e = &#s[#idx] else { vx_unreachable() }; });
                },
                _ => return None,
            }
        }
        Some((cond, lets))
    }

    fn block_of(e: &Expr) -> Expr { match e { Expr::Block(b) if b.label.is_none() => e.clone(), _ => parse_quote!({ #e }) } }

    fn match_expr(&mut self, m: &ExprMatch) -> Option<Expr> {
        // String literals.
        if m.arms.iter().any(|a| pat_has_str(&a.pat)) {
            let v = self.id("m");
            let scrut = &m.expr;
            let mut chain: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = Self::block_of(&a.body);
                let mut cond: Option<Expr> = None; let mut bind: Option<Stmt> = None;
                fn lits(p: &Pat, out: &mut Vec<Lit>) -> bool {
                    match p { Pat::Lit(l) => { out.push(l.lit.clone()); true }, Pat::Or(o) => o.cases.iter().all(|p| lits(p, out)), Pat::Paren(p) => lits(&p.pat, out), _ => false }
                }
                let mut ls = vec![];
                match &a.pat {
                    Pat::Wild(_) => {},
                    Pat::Ident(i) => { let id = &i.ident; bind = Some(parse_quote! { let #id = #v; }); },
                    p if lits(p, &mut ls) => {
                        for l in ls.iter() {
                            let t: Expr = parse_quote!(vx_str_eq(#v, #l));
                            cond = Some(match cond { None => t, Some(c) => parse_quote!(#c || #t) });
                        }
                    },
                    _ => return None,
                }
                if let Some((_, g)) = &a.guard {
                    if bind.is_some() { return None; }
                    cond = Some(match cond { None => parse_quote!(#g), Some(c) => parse_quote!((#c) && (#g)) });
                }
                let body: Expr = match bind { Some(b) => parse_quote!({ #b #body }), None => body };
                chain = Some(match (cond, chain) {
                    (None, _) => body,
                    (Some(c), None) => parse_quote!(if #c #body else { vx_unreachable() }),
                    (Some(c), Some(e)) => match e {
                        Expr::If(_) | Expr::Block(_) => parse_quote!(if #c #body else #e),
                        e => parse_quote!(if #c #body else { #e }),
                    },
                });
            }
            let chain = chain?;
            return Some(parse_quote!({ let #v = vx_str_of(#scrut); #chain }));
        }
        // Slice patterns.
        if m.arms.iter().any(|a| pat_has_slice(&a.pat)) {
            let mut lets = vec![];
            let s = self.slice_of(&m.expr, &mut lets);
            let mut chain: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = Self::block_of(&a.body);
                let (cond, binds) = self.slice_pat(&a.pat, &s)?;
                let cond: Expr = match &a.guard {
                    Some((_, g)) => parse_quote!(#cond && { #(#binds)* #g }),
                    None => cond,
                };
                let body: Expr = if binds.is_empty() { body } else { parse_quote!({ #(#binds)* #body }) };
                chain = Some(match chain {
                    None => if matches!(a.pat, Pat::Wild(_)) || cond == parse_quote!(true) { body } else { parse_quote!(if #cond #body else { vx_unreachable() }) },
                    Some(e) => parse_quote!(if #cond #body else #e),
                });
            }
            let chain = chain?;
            return Some(parse_quote!({ #(#lets)* #chain }));
        }
        // Or-patterns that bind mutably, or have a guard: one arm each.
        let split = |a: &Arm| matches!(a.pat, Pat::Or(_)) && (pat_ref_mut(&a.pat) || a.guard.is_some() || self.opt("split"));
        if m.arms.iter().any(|a| split(a)) {
            let mut r = m.clone(); r.arms.clear();
            for a in &m.arms {
                match &a.pat {
                    Pat::Or(o) if split(a) => for p in &o.cases {
                        let mut b = a.clone(); b.pat = p.clone();
                        if b.comma.is_none() { b.comma = Some(Default::default()); }
                        r.arms.push(b);
                    },
                    _ => r.arms.push(a.clone()),
                }
            }
            return Some(Expr::Match(r));
        }
        None
    }
}

impl<'x> VisitMut for Rewrite<'x> {
    fn visit_type_mut(&mut self, t: &mut Type) { Types { cfg: self.cfg }.visit_type_mut(t); }
    fn visit_path_mut(&mut self, p: &mut Path) { Types { cfg: self.cfg }.visit_path_mut(p); }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            // cfg'd-out (debug) statements are dropped.
            let attrs = match &s { Stmt::Local(l) => &l.attrs[..], Stmt::Macro(m) => &m.attrs[..], Stmt::Expr(Expr::Block(b), _) => &b.attrs[..], Stmt::Expr(Expr::Macro(m), _) => &m.attrs[..], _ => &[] };
            if attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("debug")) { continue; }
            match s {
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Item(_) => continue, // hoisted
                Stmt::Macro(m) => {
                    match self.mac(&m.mac, false) {
                        Some(mut e) => {
                            self.visit_expr_mut(&mut e);
                            if e == parse_quote!(()) { continue; }
                            let semi = m.semi_token.or(Some(Default::default()));
                            let is_tail_never = matches!(&e, Expr::Call(_));
                            b.stmts.push(Stmt::Expr(e, if m.semi_token.is_none() && is_tail_never { None } else { semi }));
                        },
                        None => b.stmts.push(Stmt::Macro(m)),
                    }
                    continue;
                },
                Stmt::Local(mut l) => {
                    // let [a, b@..] = e else { .. };
                    if pat_has_slice(&l.pat) {
                        if let Some(init) = &mut l.init {
                            let mut lets = vec![];
                            let e = (*init.expr).clone();
                            let s = self.slice_of(&e, &mut lets);
                            let pat = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            if let Some((cond, binds)) = self.slice_pat(&pat, &s) {
                                for mut s in lets { self.visit_stmt_mut(&mut s); b.stmts.push(s); }
                                if let Some((_, els)) = &init.diverge {
                                    let els = Self::block_of(els);
                                    let mut st: Stmt = parse_quote! { if !(#cond) #els };
                                    self.visit_stmt_mut(&mut st);
                                    b.stmts.push(st);
                                }
                                b.stmts.extend(binds);
                                continue;
                            }
                            self.unsupported.push("slice pattern".into());
                        }
                    }
                    // let s: &[T] = v.as_ref();
                    if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
                        if matches!(&*t.ty, Type::Reference(r) if matches!(&*r.elem, Type::Slice(_))) {
                            if let Expr::MethodCall(m) = &mut *i.expr { if m.method == "as_ref" && m.args.is_empty() { m.method = format_ident!("vx_as_sl"); } }
                        }
                    }
                    if let Pat::Ident(pi) = &mut l.pat { if self.cfg.mut_locals && pi.by_ref.is_none() && l.init.is_some() { pi.mutability = Some(Default::default()); } }
                    if let Pat::Wild(_) = &l.pat {
                        // `let _ = e;`
                        if let Some(init) = &l.init { if init.diverge.is_none() {
                            let v = self.id("w");
                            l.pat = parse_quote!(#v);
                        } }
                    }
                    let mut s = Stmt::Local(l);
                    self.visit_stmt_mut(&mut s);
                    b.stmts.push(s);
                },
                Stmt::Expr(mut e, semi) => {
                    self.visit_expr_mut(&mut e);
                    b.stmts.push(Stmt::Expr(e, semi));
                },
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- pre-order rewrites ----
        match e {
            Expr::Try(t) => if let Expr::Macro(m) = &*t.expr {
                if let Some(mut r) = self.mac(&m.mac, m.mac.path.segments.last().map_or(false, |s| s.ident == "write" || s.ident == "writeln")) {
                    let wr = m.mac.path.segments.last().map_or(false, |s| s.ident == "write" || s.ident == "writeln");
                    self.visit_expr_mut(&mut r);
                    if wr { *e = r; } else { t.expr = Box::new(r); self.post_try(e); }
                    return;
                }
            },
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(mut r) = self.mac(&mac, false) { self.visit_expr_mut(&mut r); *e = r; }
                return;
            },
            Expr::Match(m) => {
                if let Some(mut r) = self.match_expr(m) { self.visit_expr_mut(&mut r); *e = r; return; }
            },
            Expr::If(i) => if let Expr::Let(l) = &*i.cond {
                if pat_has_slice(&l.pat) {
                    // `if let [first, ..] = x.as_mut_slice()`
                    if let (Pat::Slice(sp), Expr::MethodCall(mc)) = (&*l.pat, &*l.expr) {
                        if mc.method == "as_mut_slice" && sp.elems.len() == 2 && matches!(sp.elems[1], Pat::Rest(_)) {
                            let (p, r) = (&sp.elems[0], &mc.receiver);
                            i.cond = parse_quote!(let Some(#p) = #r.get_mut(0));
                            return self.visit_expr_mut(e);
                        }
                    }
                    let mut lets = vec![];
                    let sexpr = (*l.expr).clone();
                    let s = self.slice_of(&sexpr, &mut lets);
                    if let Some((cond, binds)) = self.slice_pat(&l.pat, &s) {
                        let th = &i.then_branch; let el = i.else_branch.as_ref().map(|(_, e)| quote!(else #e));
                        let mut r: Expr = parse_quote!({ #(#lets)* if #cond { #(#binds)* #th } #el });
                        self.visit_expr_mut(&mut r); *e = r; return;
                    }
                    self.unsupported.push("slice pattern".into());
                }
            },
            Expr::ForLoop(f) => {
                let n = f.label.as_ref().map(|l| l.name.ident.to_string()).filter(|l| l.starts_with("vxl")).map(|l| l[3..].to_string());
                let it = match n { Some(n) => format_ident!("__vx_it{}", n), None => self.id("itx") };
                let (p, x, b) = (&f.pat, &f.expr, &f.body);
                let mut r: Expr = if matches!(**x, Expr::Reference(_) | Expr::Unary(_) | Expr::Binary(_) | Expr::Cast(_)) { parse_quote!({ let mut #it = (#x).into_iter(); while let Some(#p) = #it.next() #b }) } else { parse_quote!({ let mut #it = #x.into_iter(); while let Some(#p) = #it.next() #b }) };
                if let Expr::Range(_) = **x { r = parse_quote!({ let mut #it = vx_range(#x); while let Some(#p) = #it.next() #b }); }
                self.visit_expr_mut(&mut r);
                *e = r; return;
            },
            Expr::Closure(c) => {
                if let Expr::Block(b) = &*c.body {
                    let mac = match b.block.stmts.first() {
                        Some(Stmt::Macro(m)) => Some(m.mac.clone()),
                        Some(Stmt::Expr(Expr::Macro(m), _)) => Some(m.mac.clone()),
                        _ => None,
                    };
                    if let Some(m) = mac { if m.path.is_ident("__vx_clo") {
                        let toks = m.tokens.clone();
                        let mut body: Expr = { let ss = &b.block.stmts[1..]; parse_quote!({ #(#ss)* }) };
                        // { __vx_clo!{k} { body } } -> avoid double braces
                        if let Expr::Block(bb) = &body { if let [Stmt::Expr(inner @ Expr::Block(_), None)] = &bb.block.stmts[..] { body = inner.clone(); } }
                        self.visit_expr_mut(&mut body);
                        *e = Expr::Verbatim(quote! { __vx_text! { #toks } #body });
                        return;
                    } }
                }
            },
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return self.visit_expr_mut(e);
            },
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let bs: Vec<TokenStream> = b.value().iter().map(|b| { let l = proc_macro2::Literal::u8_suffixed(*b); quote!(#l) }).collect();
                *e = parse_quote!((&[#(#bs),*]));
                return;
            },
            Expr::Lit(_) | Expr::Verbatim(_) => return,
            // A function kept in a field or a variable.
            Expr::Call(c) if self.cfg.fn_pointers && matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_))) => {
                let Expr::Paren(p) = &*c.func else { unreachable!() };
                let (f, a) = (&p.expr, &c.args);
                *e = parse_quote!(#f.vx_call(#a));
                return self.visit_expr_mut(e);
            },
            Expr::Call(c) if self.cfg.fn_pointers && matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.bound.contains(&i.to_string()))) => {
                let (f, a) = (&c.func, &c.args);
                *e = parse_quote!(#f.vx_call(#a));
                return self.visit_expr_mut(e);
            },
            // `Box::new([..])` of a boxed slice.
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                let name = p.path.to_token_stream().to_string().replace(' ', "");
                if name == "Box::new" && c.args.len() == 1 { if let Expr::Array(a) = &c.args[0] {
                    let mut r = self.vec_of(a.elems.iter().cloned().collect());
                    self.visit_expr_mut(&mut r); *e = r; return;
                } }
                // A value whose formatting may fail.
                if name.ends_with("Write::write_fmt") && c.args.len() == 2 {
                    if let Expr::Macro(m) = &c.args[1] { if m.mac.path.is_ident("format_args") {
                        let pieces = parse_args(m.mac.tokens.clone()).and_then(|a| format_pieces(&a));
                        if let Some([Piece::Arg(x, spec)]) = pieces.as_deref() { if spec.is_empty() {
                            let f = &c.args[0];
                            *e = parse_quote!((#x).vx_try_put(#f));
                            return self.visit_expr_mut(e);
                        } }
                    } }
                }
                self.callees.insert(p.path.segments.last().unwrap().ident.to_string());
            },
            Expr::MethodCall(c) => {
                let m = c.method.to_string();
                self.callees.insert(m.clone());
                // restore(closure): the function's body, with the closure's in place of the call.
                if self.cfg.inline_hof.contains_key(&m) && c.args.len() == 1 {
                    if let Expr::Closure(cl) = &c.args[0] { if cl.inputs.len() == 1 {
                        let id = match &cl.inputs[0] { Pat::Ident(i) => Some(i.ident.clone()), Pat::Type(t) => if let Pat::Ident(i) = &*t.pat { Some(i.ident.clone()) } else { None }, _ => None };
                        if let Some(id) = id {
                            let recv = (*c.receiver).clone();
                            let mut body = (*cl.body).clone();
                            SubstIdent { from: id, to: recv.clone() }.visit_expr_mut(&mut body);
                            let (param, mut blk) = self.cfg.inline_hof[&m].clone();
                            SubstCall { f: param, with: body }.visit_block_mut(&mut blk);
                            SubstIdent { from: format_ident!("self"), to: recv }.visit_block_mut(&mut blk);
                            let mut r: Expr = parse_quote!(#blk);
                            self.visit_expr_mut(&mut r); *e = r; return;
                        }
                    } }
                }
                if self.cfg.identity.contains(&m) && c.args.len() == 1 { let a = c.args[0].clone(); *e = parse_quote!(vx_arena(#a)); return self.visit_expr_mut(e); }
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- post-order rewrites ----
        match e {
            Expr::Try(_) => self.post_try(e),
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                let int = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Char(_) | Lit::Byte(_) | Lit::Bool(_), .. }) | Expr::Cast(_));
                match b.op {
                    BinOp::Eq(_) if !(int(l) || int(r)) => *e = parse_quote!(vx_eq(&(#l), &(#r))),
                    BinOp::Ne(_) if !(int(l) || int(r)) => *e = parse_quote!(!vx_eq(&(#l), &(#r))),
                    BinOp::AddAssign(_) if !int(r) => *e = parse_quote!((#l).vx_add_assign(#r)),
                    BinOp::Add(_) if self.opt("stradd") => *e = parse_quote!(vx_str_add(#l, #r)),
                    _ => {}
                }
            },
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let base = &ix.expr;
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    let ne: Expr = match (&r.start, &r.end) {
                        (Some(a), None) => parse_quote!((#base).vx_slice_from(#a)),
                        (None, Some(z)) if !incl => parse_quote!((#base).vx_slice(0, #z)),
                        (Some(a), Some(z)) if !incl => parse_quote!((#base).vx_slice(#a, #z)),
                        (None, None) => parse_quote!((#base).vx_slice_from(0)),
                        _ => { self.unsupported.push("inclusive range".into()); return },
                    };
                    *e = parse_quote!((*#ne));
                }
            },
            Expr::Reference(r) => {
                // &(*x) -> x for the slices produced above
                let mut inner = &*r.expr;
                while let Expr::Paren(p) = inner { inner = &p.expr; }
                if r.mutability.is_none() { if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = inner {
                    if let Expr::MethodCall(m) = &**expr { if m.method.to_string().starts_with("vx_slice") { let x = (**expr).clone(); *e = x; } }
                } }
            },
            Expr::MethodCall(c) => {
                let m = c.method.to_string();
                // Cell / RefCell fields.
                let field = match &*c.receiver { Expr::Field(f) => Some(f.member.to_token_stream().to_string()), _ => None };
                if field.as_ref().map_or(false, |f| self.cell_fields.contains(f)) {
                    let recv = &c.receiver;
                    let r: Option<Expr> = match m.as_str() {
                        "get" => Some(parse_quote!(#recv)),
                        "set" => { let a = &c.args[0]; Some(parse_quote!(#recv = #a)) },
                        "borrow" => Some(parse_quote!((&#recv))),
                        "borrow_mut" | "as_ptr" => Some(parse_quote!((&mut #recv))),
                        _ => None,
                    };
                    if let Some(r) = r { *e = r; return; }
                }
                if let Some(new) = self.cfg.methods.get(&m) {
                    if new == "-" { let r = (*c.receiver).clone(); *e = r; return; }
                    c.method = format_ident!("{}", new);
                }
            },
            Expr::Call(c) => if let Expr::Path(p) = &mut *c.func {
                let name = p.path.to_token_stream().to_string().replace(' ', "");
                if name == "Cell::new" || name == "RefCell::new" { let a = c.args[0].clone(); *e = a; return; }
                if let Some(new) = self.cfg.paths.get(&name) {
                    p.path = parse_str(new).unwrap();
                }
            },
            Expr::Cast(c) => if let Some(m) = self.cfg.casts.get(&c.ty.to_token_stream().to_string()) {
                let (x, m) = (&c.expr, format_ident!("{}", m));
                *e = parse_quote!((#x).#m());
            },
            Expr::Path(p) => {
                let name = p.path.to_token_stream().to_string().replace(' ', "");
                if let Some(new) = self.cfg.paths.get(&name) { p.path = parse_str(new).unwrap(); }
            },
            Expr::Struct(s) => {
                let drop = &self.cfg.drop_fields;
                s.fields = s.fields.iter().filter(|f| !drop.contains(&f.member.to_token_stream().to_string())).cloned().collect();
                if s.rest.is_some() && !s.fields.empty_or_trailing() { s.fields.push_punct(Default::default()); }
            },
            _ => {}
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
    }
}

impl<'x> Rewrite<'x> {
    fn post_try(&mut self, e: &mut Expr) {
        if !self.err_boxed { return; }
        if let Expr::Try(t) = e { let x = &t.expr; *t.expr = parse_quote!(vx_q(#x)); }
    }
}

pub struct SubstIdent { pub from: Ident, pub to: Expr }
impl VisitMut for SubstIdent {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(&self.from) { *e = self.to.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct SubstCall { f: String, with: Expr }
impl VisitMut for SubstCall {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if p.path.is_ident(&self.f) { *e = self.with.clone(); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
