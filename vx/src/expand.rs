//! The expansions of `arguments!`: taken from the compiler's own output
//! (`rustc -Zunpretty=expanded`) and made into functions of the schemas.
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Expansion { pub key: String, pub matchers: Vec<ItemFn>, pub block: Block, pub rules: usize, pub before_new: usize }

/// The texts of the `arguments!` calls in a function, in order.
pub fn calls(b: &Block) -> Vec<proc_macro2::TokenStream> {
    struct V(Vec<proc_macro2::TokenStream>);
    impl<'x> Visit<'x> for V {
        fn visit_macro(&mut self, m: &'x Macro) { if m.path.is_ident("arguments") { self.0.push(m.tokens.clone().into_iter().skip(1).collect()); } }
    }
    let mut v = V(vec![]); v.visit_block(b); v.0
}

/// The expanded blocks of each function, by its key.
pub fn expanded(file: &File) -> BTreeMap<String, Vec<Block>> {
    struct V { ty: String, f: Option<String>, out: BTreeMap<String, Vec<Block>> }
    impl<'x> Visit<'x> for V {
        fn visit_item_impl(&mut self, i: &'x ItemImpl) { let old = std::mem::replace(&mut self.ty, crate::ty_name(&i.self_ty)); visit::visit_item_impl(self, i); self.ty = old; }
        fn visit_impl_item_fn(&mut self, f: &'x ImplItemFn) { let old = self.f.replace(format!("{}::{}", self.ty, f.sig.ident)); visit::visit_impl_item_fn(self, f); self.f = old; }
        fn visit_item_fn(&mut self, f: &'x ItemFn) { let old = self.f.clone(); if old.is_none() { self.f = Some(f.sig.ident.to_string()); } visit::visit_item_fn(self, f); self.f = old; }
        fn visit_block(&mut self, b: &'x Block) {
            let s = b.stmts.first().map(|s| s.to_token_stream().to_string()).unwrap_or_default();
            if s.starts_with("let mut rules =") && s.contains("ArgRules :: new") { if let Some(f) = &self.f { self.out.entry(f.clone()).or_default().push(b.clone()); } return; }
            visit::visit_block(self, b);
        }
    }
    let mut v = V { ty: String::new(), f: None, out: BTreeMap::new() }; v.visit_file(file); v.out
}

/// `vec![..]` as the compiler expands it, folded back.
struct Vecs;
impl VisitMut for Vecs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("box_assume_init_into_vec_unsafe") {
                if let Some(Expr::Call(inner)) = c.args.first() { if let Some(Expr::Array(a)) = inner.args.iter().last() { let el = a.elems.iter(); *e = parse_quote!(vec![#(#el),*]); } }
            } else if f.ends_with("vec::Vec::new") { *e = parse_quote!(Vec::new()); }
        }
    }
}

pub fn make(key: &str, block: &Block, n: usize) -> Option<Expansion> {
    let mut b = block.clone();
    Vecs.visit_block_mut(&mut b);
    let schema = key.replacen("vx_args", "schema", 1); let st = format_ident!("{}", key.replacen("vx_args", "VxArgs", 1));
    let mut matchers = vec![]; let mut rules = 0;
    let mut stmts = vec![];
    for s in std::mem::take(&mut b.stmts) {
        match s {
            Stmt::Item(_) => {},
            Stmt::Expr(Expr::Block(mut blk), semi) => {
                let mut inner = vec![];
                for s in std::mem::take(&mut blk.block.stmts) {
                    match s {
                        Stmt::Item(Item::Fn(mut f)) => {
                            f.sig.ident = format_ident!("{}_m{}_{}", key, n, rules);
                            Matcher { key: key.into() }.visit_block_mut(&mut f.block);
                            matchers.push(f);
                        },
                        Stmt::Expr(Expr::MethodCall(mut c), semi) if c.method == "register" && c.args.len() == 2 => {
                            if matchers.len() != rules + 1 || c.args[0].to_token_stream().to_string() != "position_matcher" { return None; }
                            let m = &matchers[rules].sig.ident;
                            let ghost: proc_macro2::TokenStream = format!("Ghost(|p: Pos| rule_hits({schema}().rules[{rules}], p))").parse().ok()?;
                            let ghost = Expr::Verbatim(ghost);
                            c.args[0] = parse_quote!(VxPattern::vx_fn(#m, #ghost));
                            rules += 1;
                            inner.push(Stmt::Expr(Expr::MethodCall(c), semi));
                        },
                        s => inner.push(s),
                    }
                }
                blk.block.stmts = inner;
                stmts.push(Stmt::Expr(Expr::Block(blk), semi));
            },
            s => stmts.push(s),
        }
    }
    b.stmts = stmts;
    // The struct of the arguments; the parser itself is not handed on.
    struct Out(Ident);
    impl VisitMut for Out {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Struct(s) if s.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with("MyArgs_")) => {
                    let id = &self.0; s.path = parse_quote!(#id);
                    s.fields.push(parse_quote!(ph: core::marker::PhantomData));
                },
                Expr::Tuple(t) if t.elems.len() == 2 && t.elems[0].to_token_stream().to_string() == "parser" => t.elems[0] = parse_quote!(()),
                _ => {}
            }
        }
    }
    Out(st).visit_block_mut(&mut b);
    crate::Locals.visit_block_mut(&mut b);
    struct News { n: usize, at: usize }
    impl<'x> Visit<'x> for News {
        fn visit_expr_call(&mut self, c: &'x ExprCall) {
            if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == "new" {
                self.n += 1;
                if p.path.segments.iter().any(|s| s.ident == "ArgParser") { self.at = self.n; }
            } }
            visit::visit_expr_call(self, c);
        }
    }
    let mut v = News { n: 0, at: 0 }; v.visit_block(&b);
    Some(Expansion { key: key.into(), matchers, block: b, rules, before_new: v.at })
}

/// `match pattern.into() { Some("a" | "b") => x, _ => y }`.
struct Matcher { #[allow(dead_code)] key: String }
impl VisitMut for Matcher {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Match(m) = &*e else { return };
        let Expr::MethodCall(c) = &*m.expr else { return };
        if c.method != "into" || m.arms.len() != 2 { return; }
        let Pat::TupleStruct(ts) = &m.arms[0].pat else { return };
        let (p, x, y, recv) = (&ts.elems[0], &m.arms[0].body, &m.arms[1].body, &c.receiver);
        let is_str = p.to_token_stream().to_string().contains('"');
        *e = if is_str { parse_quote!(match vx_from_Box_dyn_ArgMatcher_for_Option_str(#recv) { Some(__vx_p) => match __vx_p { #p => #x, _ => #y }, None => #y }) }
            else { parse_quote!(match vx_from_Box_dyn_ArgMatcher_for_Option_usize(#recv) { Some(#p) => #x, _ => #y }) };
    }
}
