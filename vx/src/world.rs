//! The world made explicit: functions of a program that print, exit or read their arguments
//! get a parameter `vx_w: &mut VxWorld` in front, and pass it on.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct World<'x> { pub calls: &'x BTreeMap<String, String>, pub fns: &'x BTreeSet<String>, pub methods: &'x BTreeSet<String>, pub used: bool }
fn says(m: &Macro) -> Option<(&'static str, bool)> {
    match m.path.segments.last()?.ident.to_string().as_str() { "println" => Some(("vx_out", true)), "print" => Some(("vx_out", false)), "eprintln" => Some(("vx_err", true)), "eprint" => Some(("vx_err", false)), _ => None }
}
impl<'x> World<'x> {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let (f, nl) = says(m)?;
        self.used = true;
        let f = format_ident!("{}", f);
        let t: TokenStream = m.tokens.clone();
        let mut args: TokenStream = if t.is_empty() { quote!("") } else { t };
        // The arguments may themselves use the world.
        if let Ok(p) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, args.clone()) {
            let mut p = p; for e in p.iter_mut() { self.visit_expr_mut(e); } args = p.to_token_stream();
        }
        let s: Expr = if nl { parse_quote!({ let mut vx_s = format!(#args); vx_s.push('\n'); vx_s }) } else { parse_quote!(format!(#args)) };
        Some(parse_quote!({ let vx_t = #s; vx_w.#f(&vx_t) }))
    }
}
impl<'x> VisitMut for World<'x> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s { if let Some(e) = self.mac(&m.mac) { *s = if m.semi_token.is_some() { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) }; return; } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(r) = self.mac(&m.mac) { *e = r; return; }
            // What is formatted.
            if let Ok(mut p) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.mac.tokens.clone()) {
                let before = self.used; self.used = false;
                for x in p.iter_mut() { self.visit_expr_mut(x); }
                if self.used { m.mac.tokens = p.to_token_stream(); }
                self.used |= before;
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => if let Expr::Path(p) = &mut *c.func {
                let name = p.path.to_token_stream().to_string().replace(' ', "");
                let name = name.strip_prefix("std::").unwrap_or(&name).to_string();
                if let Some(to) = self.calls.get(&name) { p.path = format_ident!("{}", to).into(); c.args.insert(0, parse_quote!(vx_w)); self.used = true; }
                else if self.fns.contains(&name) || name.strip_prefix("Self::").map_or(false, |n| self.fns.contains(n)) { c.args.insert(0, parse_quote!(vx_w)); self.used = true; }
            },
            Expr::MethodCall(m) => if self.methods.contains(&m.method.to_string()) { m.args.insert(0, parse_quote!(vx_w)); self.used = true; },
            _ => {}
        }
    }
}
/// `fns`: name, whether it has a receiver, signature and body.
pub fn thread(calls: &BTreeMap<String, String>, fns: &mut Vec<(&mut Signature, &mut Block)>) {
    let (mut free, mut methods) = (BTreeSet::new(), BTreeSet::new());
    loop {
        let n = free.len() + methods.len();
        for (s, b) in fns.iter() {
            let mut b: Block = (**b).clone();
            let mut w = World { calls, fns: &free, methods: &methods, used: false };
            w.visit_block_mut(&mut b);
            if w.used { let id = s.ident.to_string(); if s.receiver().is_some() { methods.insert(id); } else { free.insert(id); } }
        }
        if free.len() + methods.len() == n { break; }
    }
    for (s, b) in fns.iter_mut() {
        World { calls, fns: &free, methods: &methods, used: false }.visit_block_mut(b);
        let at = if s.receiver().is_some() { 1 } else { 0 };
        if (if at == 1 { &methods } else { &free }).contains(&s.ident.to_string()) { s.inputs.insert(at, parse_quote!(vx_w: &mut VxWorld)); }
    }
}
