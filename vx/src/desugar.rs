//! Closures passed to iterator and Option adapters, written out as the loops and
//! matches they stand for (before loops are numbered). Opt-in per configuration.
use quote::{format_ident, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar { pub n: usize }

fn leaves(e: &Expr) -> bool {
    // `return` and `?` would leave the closure, not the function.
    struct V(bool);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => {}, _ => visit_mut::visit_expr_mut(self, e) }
        }
    }
    let mut v = V(false); v.visit_expr_mut(&mut e.clone()); v.0
}
fn closure(e: &Expr, params: usize) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == params && !leaves(&c.body) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}
/// The closure's body as an expression of its own: `let x = e?;` becomes a match on `e`
/// whose error is the value of the whole.
fn cps(e: &Expr) -> Option<Expr> {
    if !leaves(e) { return Some(e.clone()); }
    let Expr::Block(b) = e else { return None };
    let i = b.block.stmts.iter().position(|s| leaves(&parse_quote!({ #s })))?;
    let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &b.block.stmts[i] else { return None };
    let Expr::Try(ExprTry { expr: inner, .. }) = &**expr else { return None };
    if leaves(inner) { return None; }
    let (pre, post) = (&b.block.stmts[..i], &b.block.stmts[i + 1..]);
    let rest = cps(&parse_quote!({ #(#post)* }))?;
    Some(parse_quote!({ #(#pre)* match #inner { Ok(#pat) => #rest, Err(__vx_e) => Err(__vx_e) } }))
}
fn returned(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Return(r) => { let v = r.expr.as_ref()?; if leaves(v) { None } else { Some((**v).clone()) } },
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.as_slice() { [Stmt::Expr(e, _)] => returned(e), _ => None },
        _ => None,
    }
}
/// A closure's body, which may leave by `return` and `?`, as an expression without either:
/// what follows such a statement moves into the branch that goes on.
fn untail(e: &Expr) -> Option<Expr> {
    if !leaves(e) { return Some(e.clone()); }
    match e {
        Expr::Return(_) => returned(e),
        Expr::Match(m) if !leaves(&m.expr) && m.arms.iter().all(|a| a.guard.is_none()) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() { *a.body = untail(&a.body)?; if a.comma.is_none() { a.comma = Some(Default::default()); } }
            Some(Expr::Match(m))
        },
        Expr::If(i) if !leaves(&i.cond) => {
            let (_, other) = i.else_branch.as_ref()?;
            let (c, a, b) = (&i.cond, untail(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }))?, untail(other)?);
            Some(parse_quote!(if #c { #a } else { #b }))
        },
        Expr::Block(b) if b.label.is_none() => {
            let stmts = &b.block.stmts;
            let i = stmts.iter().position(|s| leaves(&parse_quote!({ #s })))?;
            let (pre, post) = (&stmts[..i], &stmts[i + 1..]);
            let rest = || untail(&parse_quote!({ #(#post)* }));
            let on: Expr = match &stmts[i] {
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                    Expr::Try(t) if !leaves(&t.expr) => { let (x, rest) = (&t.expr, rest()?); parse_quote!(match #x { Ok(#pat) => #rest, Err(__vx_e) => Err(__vx_e) }) },
                    Expr::Match(m) if !leaves(&m.expr) && m.arms.iter().all(|a| a.guard.is_none()) && m.arms.iter().filter(|a| leaves(&a.body)).count() + 1 == m.arms.len() => {
                        let mut m = m.clone();
                        let rest = rest()?;
                        for a in m.arms.iter_mut() {
                            *a.body = if leaves(&a.body) { returned(&a.body)? } else { let v = &a.body; parse_quote!({ let #pat = #v; #rest }) };
                            if a.comma.is_none() { a.comma = Some(Default::default()); }
                        }
                        Expr::Match(m)
                    },
                    _ => return None,
                },
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if !leaves(expr) => { let (x, rest) = (returned(d)?, rest()?); parse_quote!(match #expr { #pat => #rest, _ => #x }) },
                Stmt::Expr(Expr::If(c), _) if c.else_branch.is_none() && !leaves(&c.cond) => {
                    let (k, x, rest) = (&c.cond, returned(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: c.then_branch.clone() }))?, rest()?);
                    parse_quote!(if #k { #x } else #rest)
                },
                Stmt::Expr(Expr::Try(t), Some(_)) if !leaves(&t.expr) => { let (x, rest) = (&t.expr, rest()?); parse_quote!(match #x { Ok(_) => #rest, Err(__vx_e) => Err(__vx_e) }) },
                Stmt::Expr(e, None) if post.is_empty() => untail(e)?,
                Stmt::Expr(e @ Expr::Return(_), _) if post.is_empty() => untail(e)?,
                _ => return None,
            };
            Some(parse_quote!({ #(#pre)* #on }))
        },
        _ => None,
    }
}
fn closure_try(e: &Expr) -> Option<(Pat, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 => Some((c.inputs[0].clone(), cps(&c.body)?)),
        _ => None,
    }
}

fn idents(ts: proc_macro2::TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts { match t {
        proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); },
        proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
        _ => {},
    } }
}
/// Calls of a closure kept in a variable, with its body in place of the call.
pub struct Beta;
struct Uses { name: String, calls: usize, all: usize, bound: std::collections::BTreeSet<String> }
impl VisitMut for Uses {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) { self.calls += 1; } }
        if let Expr::Macro(m) = e { if m.mac.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.name) { self.all += 1000; } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) { if p.is_ident(&self.name) { self.all += 1; } visit_mut::visit_path_mut(self, p); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.bound.insert(p.ident.to_string()); visit_mut::visit_pat_ident_mut(self, p); }
}
/// Names which a body binds itself before it mentions them.
struct First<'x> { seen: std::collections::BTreeSet<String>, own: &'x mut std::collections::BTreeSet<String> }
impl<'x> VisitMut for First<'x> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init { self.visit_expr_mut(&mut i.expr); if let Some((_, d)) = &mut i.diverge { self.visit_expr_mut(d); } }
        self.visit_pat_mut(&mut l.pat);
    }
    fn visit_path_mut(&mut self, p: &mut Path) { if let Some(i) = p.get_ident() { self.seen.insert(i.to_string()); } visit_mut::visit_path_mut(self, p); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { idents(m.tokens.clone(), &mut self.seen); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if !self.seen.contains(&n) { self.own.insert(n); } visit_mut::visit_pat_ident_mut(self, p); }
}
struct Inline { name: String, params: Vec<Pat>, body: Expr }
impl VisitMut for Inline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.params.len() {
            let (ps, b, xs) = (&self.params, &self.body, c.args.iter());
            let lets: Vec<Stmt> = ps.iter().zip(xs).map(|(p, x)| parse_quote!(let #p = #x;)).collect();
            *e = parse_quote!({ #(#lets)* #b });
        } }
    }
}
impl VisitMut for Beta {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(PatIdent { ident, .. }), init: Some(LocalInit { expr, diverge: None, .. }), .. }) => match &**expr {
                    Expr::Closure(c) => untail(&c.body).map(|b| (ident.to_string(), ExprClosure { body: Box::new(b), ..c.clone() })),
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = found {
                let mut u = Uses { name: name.clone(), calls: 0, all: 0, bound: Default::default() };
                for s in b.stmts[i + 1..].iter_mut() { u.visit_stmt_mut(s); }
                let params: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                let mut own = Default::default();
                for p in &params { idents(p.to_token_stream(), &mut own); }
                let mut free = Default::default();
                idents(c.body.to_token_stream(), &mut free);
                let mut f = First { seen: Default::default(), own: &mut own };
                f.visit_expr_mut(&mut c.body.clone());
                if u.calls > 0 && u.calls == u.all && free.iter().all(|f| own.contains(f) || !u.bound.contains(f)) && !u.bound.contains(&name) {
                    let mut inl = Inline { name, params, body: (*c.body).clone() };
                    for s in b.stmts[i + 1..].iter_mut() { inl.visit_stmt_mut(s); }
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

enum Ad { Map(Pat, Expr), Filter(Pat, Expr), FilterMap(Pat, Expr) }

/// The source of an iterator chain, and the closure adapters applied to it.
fn chain(e: &Expr) -> Option<(Expr, Vec<Ad>)> {
    if let Expr::MethodCall(m) = e {
        let name = m.method.to_string();
        if m.args.len() == 1 && matches!(name.as_str(), "map" | "filter" | "filter_map") {
            let (p, b) = closure(&m.args[0], 1)?;
            let (src, mut ads) = chain(&m.receiver).unwrap_or(((*m.receiver).clone(), vec![]));
            ads.push(match name.as_str() { "map" => Ad::Map(p[0].clone(), b), "filter" => Ad::Filter(p[0].clone(), b), _ => Ad::FilterMap(p[0].clone(), b) });
            return Some((src, ads));
        }
    }
    None
}

impl Desugar {
    fn adapters(&mut self, ads: Vec<Ad>) -> (Vec<Stmt>, Expr) {
        let mut x = format_ident!("__vx_x{}", self.n);
        let first = x.clone();
        let mut out: Vec<Stmt> = vec![];
        for (k, a) in ads.into_iter().enumerate() {
            let y = format_ident!("__vx_x{}_{}", self.n, k);
            match a {
                Ad::Map(p, b) => { out.push(parse_quote! { let #y = { let #p = #x; #b }; }); x = y; },
                Ad::Filter(p, b) => out.push(parse_quote! { if !({ let #p = &#x; #b }) { continue; } }),
                Ad::FilterMap(p, b) => { out.push(parse_quote! { let Some(#y) = ({ let #p = #x; #b }) else { continue }; }); x = y; },
            }
        }
        let _ = first;
        (out, parse_quote!(#x))
    }
}

impl VisitMut for Desugar {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::MethodCall(m) = &*e else { return };
        let name = m.method.to_string();
        let new: Option<Expr> = match (name.as_str(), m.args.len()) {
            ("collect", 0) => chain(&m.receiver).map(|(src, ads)| {
                self.n += 1;
                let (it, x, out) = (format_ident!("__vx_i{}", self.n), format_ident!("__vx_x{}", self.n), format_ident!("__vx_c{}", self.n));
                let (stmts, last) = self.adapters(ads);
                parse_quote!({ let mut #it = #src; let mut #out = Vec::new(); while let Some(#x) = #it.next() { #(#stmts)* #out.push(#last); } #out })
            }),
            ("fold", 2) => closure(&m.args[1], 2).and_then(|(ps, b)| {
                let acc = match &ps[0] { Pat::Ident(i) => i.ident.clone(), _ => return None };
                self.n += 1;
                let (src, ads) = chain(&m.receiver).unwrap_or(((*m.receiver).clone(), vec![]));
                let (it, x, init) = (format_ident!("__vx_i{}", self.n), format_ident!("__vx_x{}", self.n), &m.args[0]);
                let (stmts, last) = self.adapters(ads);
                let p = &ps[1];
                Some(parse_quote!({ let mut #it = #src; let mut #acc = #init; while let Some(#x) = #it.next() { #(#stmts)* let #p = #last; #acc = #b; } #acc }))
            }),
            ("map", 1) if matches!(&*m.receiver, Expr::MethodCall(c) if c.method == "get_optional" || c.method == "partial_cmp") => closure(&m.args[0], 1).map(|(p, b)| { let (r, p) = (&m.receiver, &p[0]); parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }),
            ("map_or", 2) => closure(&m.args[1], 1).map(|(p, b)| { let (r, d, p) = (&m.receiver, &m.args[0], &p[0]); parse_quote!(match #r { Some(#p) => #b, None => #d }) }),
            ("is_some_and", 1) => closure(&m.args[0], 1).map(|(p, b)| { let (r, p) = (&m.receiver, &p[0]); parse_quote!(match #r { Some(#p) => #b, None => false }) }),
            ("filter", 1) if matches!(&*m.receiver, Expr::MethodCall(c) if c.method == "ok" && c.args.is_empty()) => closure(&m.args[0], 1).map(|(p, b)| { let (r, p) = (&m.receiver, &p[0]); parse_quote!(match #r { Some(__vx_v) => if { let #p = &__vx_v; #b } { Some(__vx_v) } else { None }, None => None }) }),
            ("unwrap_or_else", 1) => closure(&m.args[0], 0).map(|(_, b)| { let r = &m.receiver; parse_quote!(match #r { Some(__vx_v) => __vx_v, None => #b }) }),
            ("ok_or_else", 1) => closure(&m.args[0], 0).map(|(_, b)| { let r = &m.receiver; parse_quote!(match #r { Some(__vx_v) => Ok(__vx_v), None => Err(#b) }) }),
            ("unwrap_or", 1) => match &*m.receiver {
                Expr::MethodCall(c) if c.method == "map" && c.args.len() == 1 => closure(&c.args[0], 1).map(|(p, b)| { let (r, d, p) = (&c.receiver, &m.args[0], &p[0]); parse_quote!(match #r { Some(#p) => #b, None => #d }) }),
                Expr::MethodCall(c) if c.method == "and_then" && c.args.len() == 1 => closure(&c.args[0], 1).map(|(p, b)| { let (r, d, p) = (&c.receiver, &m.args[0], &p[0]); parse_quote!(match (match #r { Some(#p) => #b, None => None }) { Some(__vx_v) => __vx_v, None => #d }) }),
                _ => None,
            },
            ("or_else", 1) => closure_try(&m.args[0]).map(|(p, b)| { let r = &m.receiver; parse_quote!(match #r { Ok(__vx_v) => Ok(__vx_v), Err(#p) => #b }) }),
            ("map_err", 1) => closure(&m.args[0], 1).map(|(p, b)| { let (r, p) = (&m.receiver, &p[0]); parse_quote!(match #r { Ok(__vx_v) => Ok(__vx_v), Err(#p) => Err(#b) }) }),
            ("and_then", 1) if matches!(m.args[0], Expr::Path(_)) => { let (r, f) = (&m.receiver, &m.args[0]); Some(parse_quote!(match #r { Some(__vx_v) => #f(__vx_v), None => None })) },
            ("and_then", 1) => closure(&m.args[0], 1).map(|(p, b)| { let (r, p) = (&m.receiver, &p[0]); parse_quote!(match #r { Some(#p) => #b, None => None }) }),
            _ => None,
        };
        if let Some(n) = new { *e = n; let _ = e.to_token_stream(); }
    }
}
