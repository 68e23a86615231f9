//! vx: extracts functions of /repo's current source, mechanically rewrites them into the
//! subset of Rust that Verus reads, and places the contracts around them.
//! Usage: vx CONFIG.json SRC_DIR OUT.rs OUT.json [--stub FN]...
mod args;
mod contracts;
mod desugar;
mod expand;
mod print;
mod world;
mod xform;
use contracts::*;
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;
use xform::*;

#[derive(Default)]
pub struct Config {
    pub files: Vec<(String, String)>,
    pub prelude: Vec<String>,
    pub types: BTreeMap<String, String>,
    pub types_any: BTreeSet<String>,
    pub elide: BTreeMap<String, String>,
    pub methods: BTreeMap<String, String>,
    /// Casts to a type: the method that stands for them.
    pub casts: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
    pub drop_fields: BTreeSet<String>,
    /// Structs whose derived `clone` is under contract.
    pub derived_clone: BTreeSet<String>,
    /// Fields that keep what references were handed out to: nothing else may mention them.
    pub arenas: BTreeSet<String>,
    pub identity: BTreeSet<String>,
    pub inherent: BTreeSet<String>,
    pub user_traits: BTreeSet<String>,
    pub add_lifetime: BTreeSet<String>,
    pub field_types: BTreeMap<String, String>,
    pub mut_locals: bool,
    pub desugar: bool,
    pub reveal: usize,
    /// Local variables may be functions.
    pub fn_pointers: bool,
    pub type_names: BTreeMap<String, String>,
    /// Files whose functions get the world they act on, and what acts on it.
    pub world: BTreeSet<String>,
    pub world_calls: BTreeMap<String, String>,
    pub inline_hof: BTreeMap<String, (String, Block)>,
}

fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn map(v: &Value) -> BTreeMap<String, String> { v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default() }

/// A name for an `arguments!` schema that depends only on its text.
pub fn schema_name(src: &str) -> String {
    let mut out = String::from("vx_args");
    let mut last = '_';
    for c in src.chars() {
        let c = if c.is_alphanumeric() { c } else { '_' };
        if c == '_' && last == '_' { continue; }
        out.push(c); last = c;
    }
    out.trim_end_matches('_').to_string()
}

struct F {
    key: String,
    module: String,
    self_ty: Option<Type>,
    generics: Generics,
    trait_: Option<String>,
    sig: Signature,
    block: Block,
    src_line: usize,
    #[allow(dead_code)]
    file: String,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { s.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
        }
    }
    s
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

/// Moves items nested in function bodies to module level.
struct Hoist { items: Vec<Item> }
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            match s {
                Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Macro(_)) => {},
                Stmt::Item(i) => self.items.push(i),
                _ => { self.visit_stmt_mut(&mut s); b.stmts.push(s); }
            }
        }
    }
}

/// A name for a type: its identifiers, without lifetimes.
fn plain_name(t: proc_macro2::TokenStream) -> String {
    let mut out: Vec<String> = vec![]; let mut skip = false;
    fn go(t: proc_macro2::TokenStream, out: &mut Vec<String>, skip: &mut bool) {
        for t in t { match t {
            proc_macro2::TokenTree::Ident(i) => { if !*skip { out.push(i.to_string()); } *skip = false; },
            proc_macro2::TokenTree::Punct(p) => { *skip = p.as_char() == '\''; },
            proc_macro2::TokenTree::Group(g) => go(g.stream(), out, skip),
            _ => {}
        } }
    }
    go(t, &mut out, &mut skip);
    out.join("_")
}
struct SelfType { ty: Type, assoc: Option<Type> }
impl VisitMut for SelfType {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t.to_token_stream().to_string().as_str() {
            "Self" => *t = self.ty.clone(),
            "Self :: Error" => if let Some(a) = &self.assoc { *t = a.clone(); },
            _ => {}
        }
    }
}
/// `use Enum::*` inside a function: its variants, written out.
struct Qualify<'x> { variants: &'x BTreeMap<String, BTreeSet<String>>, open: Vec<String> }
impl<'x> Qualify<'x> {
    fn path(&self, p: &mut Path) {
        if p.segments.len() != 1 || p.leading_colon.is_some() { return; }
        let id = p.segments[0].ident.to_string();
        for e in self.open.iter().rev() { if self.variants.get(e).map_or(false, |v| v.contains(&id)) { let e = format_ident!("{}", e); let s = p.segments[0].clone(); *p = parse_quote!(#e::#s); return; } }
    }
}
impl<'x> VisitMut for Qualify<'x> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.open.len();
        for s in &b.stmts { if let Stmt::Item(Item::Use(u)) = s {
            let t = u.tree.to_token_stream().to_string().replace(' ', "");
            if let Some(e) = t.strip_suffix("::*") { self.open.push(e.rsplit("::").next().unwrap().to_string()); }
        } }
        visit_mut::visit_block_mut(self, b);
        self.open.truncate(n);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p {
            Pat::TupleStruct(t) => self.path(&mut t.path),
            Pat::Struct(t) => self.path(&mut t.path),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => { let mut q: Path = i.ident.clone().into(); self.path(&mut q); if q.segments.len() > 1 { *p = Pat::Path(PatPath { attrs: vec![], qself: None, path: q }); } },
            _ => {}
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { self.path(&mut p.path); }
}

/// `let x: Result<T, _> = e.try_into()` in a conversion from S names the conversion from S to T.
struct Typed { src: String }
impl VisitMut for Typed {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let Pat::Type(t) = &l.pat else { return };
        let Type::Path(p) = &*t.ty else { return };
        let seg = p.path.segments.last().unwrap();
        let PathArguments::AngleBracketed(a) = &seg.arguments else { return };
        if seg.ident != "Result" { return; }
        let (Some(GenericArgument::Type(to)), Some(init)) = (a.args.first(), l.init.as_mut()) else { return };
        if let Expr::MethodCall(m) = &*init.expr { if m.method == "try_into" && m.args.is_empty() {
            let f = format_ident!("vx_try_from_{}_for_{}", self.src, plain_name(to.to_token_stream())); let r = &m.receiver;
            *init.expr = parse_quote!(#f(#r));
        } }
    }
}

/// Locals named like the verifier's own types, or like keywords.
pub struct Locals;
impl Locals { fn name(i: &mut Ident) { let t = i.to_string(); if t == "int" || t == "nat" || t == "real" || t.starts_with("r#") { *i = Ident::new(&format!("{}_", t.trim_start_matches("r#")), i.span()); } } }
impl VisitMut for Locals {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { let old = f.expr.clone(); visit_mut::visit_field_value_mut(self, f); if f.colon_token.is_none() && f.expr != old { f.colon_token = Some(Default::default()); } }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { let old = f.pat.clone(); visit_mut::visit_field_pat_mut(self, f); if f.colon_token.is_none() && f.pat != old { f.colon_token = Some(Default::default()); } }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            let mut out: Vec<proc_macro2::TokenTree> = vec![]; let mut after = ' ';
            for t in t { match t {
                proc_macro2::TokenTree::Ident(mut i) => { if after != '.' && after != ':' { Locals::name(&mut i); } after = ' '; out.push(i.into()); },
                proc_macro2::TokenTree::Group(g) => { after = ' '; let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream())); n.set_span(g.span()); out.push(n.into()); },
                proc_macro2::TokenTree::Punct(p) => { after = p.as_char(); out.push(p.into()); },
                t => { after = ' '; out.push(t); }
            } }
            out.into_iter().collect()
        }
        if !m.path.is_ident("arguments") { m.tokens = go(m.tokens.clone()); }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { Self::name(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.segments.len() == 1 { Self::name(&mut p.path.segments[0].ident); } visit_mut::visit_expr_path_mut(self, p); }
}

struct Elide<'x> { cfg: &'x Config }
impl<'x> VisitMut for Elide<'x> {
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        if let (Some(lt), PathArguments::None) = (self.cfg.elide.get(&s.ident.to_string()), &s.arguments) {
            let lt: GenericArgument = parse_str(lt).unwrap();
            s.arguments = PathArguments::AngleBracketed(parse_quote!(<#lt>));
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) { visit_mut::visit_type_path_mut(self, t); }
}

/// Elided lifetimes only in types (not in expression paths such as `Parser::new`).
struct ElideTypes<'x> { cfg: &'x Config }
impl<'x> VisitMut for ElideTypes<'x> {
    fn visit_type_mut(&mut self, t: &mut Type) { Elide { cfg: self.cfg }.visit_type_mut(t); }
}

fn const_fold(consts: &BTreeMap<String, Vec<Expr>>, e: &mut Expr) {
    struct V<'x>(&'x BTreeMap<String, Vec<Expr>>);
    impl<'x> VisitMut for V<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Index(ix) = e {
                if let (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Int(n), .. })) = (&*ix.expr, &*ix.index) {
                    if let Some(v) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                        if let Some(x) = n.base10_parse::<usize>().ok().and_then(|n| v.get(n)) { *e = x.clone(); }
                    }
                }
            }
        }
    }
    V(consts).visit_expr_mut(e);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg_path = &args[1]; let src_dir = &args[2]; let out_rs = &args[3]; let out_json = &args[4];
    let mut stubs: BTreeSet<String> = BTreeSet::new(); let mut broadcast = String::from("vx_min"); let mut bare: BTreeSet<String> = BTreeSet::new(); let mut dropped: BTreeSet<String> = BTreeSet::new();
    let mut expansions: Option<String> = None;
    let mut i = 5;
    while i < args.len() { if args[i] == "--expanded" { expansions = Some(args[i + 1].clone()); i += 2; } else if args[i] == "--broadcast" { broadcast = args[i + 1].clone(); i += 2; } else if args[i] == "--bare" { stubs.insert(args[i + 1].clone()); bare.insert(args[i + 1].clone()); i += 2; } else if args[i] == "--drop" { dropped.insert(args[i + 1].clone()); i += 2; } else if args[i] == "--stub" { stubs.insert(args[i + 1].clone()); i += 2; } else { i += 1; } }
    let base = std::path::Path::new(cfg_path).parent().unwrap().to_path_buf();
    let read = |p: &str| -> Value { serde_json::from_str(&std::fs::read_to_string(base.join(p)).unwrap()).unwrap_or_else(|e| panic!("{p}: {e}")) };
    let v: Value = serde_json::from_str(&std::fs::read_to_string(cfg_path).unwrap()).unwrap();
    let mut cfg = Config::default();
    let mut layers = vec![];
    if let Some(inc) = v["include"].as_array() { for p in inc { layers.push(read(p.as_str().unwrap())); } }
    layers.push(v.clone());
    let mut contract_files = vec![];
    for v in &layers {
        for f in v["files"].as_array().unwrap_or(&vec![]) { cfg.files.push((f["path"].as_str().unwrap().into(), f["module"].as_str().unwrap().into())); }
        cfg.prelude.extend(strs(&v["prelude"]));
        contract_files.extend(strs(&v["contracts"]));
        cfg.types.extend(map(&v["types"]));
        cfg.types_any.extend(strs(&v["types_any"]));
        cfg.elide.extend(map(&v["elide"]));
        cfg.methods.extend(map(&v["methods"]));
        cfg.casts.extend(map(&v["casts"]));
        cfg.paths.extend(map(&v["paths"]));
        cfg.drop_fields.extend(strs(&v["drop_fields"]));
        cfg.identity.extend(strs(&v["identity"]));
        cfg.derived_clone.extend(strs(&v["derived_clone"]));
        cfg.arenas.extend(strs(&v["arenas"]));
        cfg.inherent.extend(strs(&v["inherent"]));
        cfg.user_traits.extend(strs(&v["user_traits"]));
        cfg.add_lifetime.extend(strs(&v["add_lifetime"]));
        cfg.field_types.extend(map(&v["field_types"]));
        if v["mut_locals"].as_bool() == Some(true) { cfg.mut_locals = true; }
        if v["fn_pointers"].as_bool() == Some(true) { cfg.fn_pointers = true; }
        if v["desugar"].as_bool() == Some(true) { cfg.desugar = true; }
        for b in strs(&v["broadcast"]) { broadcast.push_str(", "); broadcast.push_str(&b); }
        if let Some(n) = v["reveal"].as_u64() { cfg.reveal = n as usize; }
        cfg.type_names.extend(map(&v["type_names"]));
        cfg.world.extend(strs(&v["world"]));
        cfg.world_calls.extend(map(&v["world_calls"]));
    }
    let hofs: Vec<String> = layers.iter().flat_map(|v| strs(&v["inline_hof"])).collect();
    let mut con = Contracts::default();
    for f in &contract_files { con.load(base.join(f).to_str().unwrap()); }

    // ---- collect ----
    let mut fns: Vec<F> = vec![];
    let mut type_items: Vec<(String, Item)> = vec![];
    let mut trait_defaults: BTreeMap<String, Vec<TraitItemFn>> = BTreeMap::new();
    let mut trait_items: Vec<(String, ItemTrait)> = vec![];
    let mut consts: BTreeMap<String, Vec<Expr>> = BTreeMap::new();
    let mut cell_fields: BTreeSet<String> = BTreeSet::new();
    let mut source_lines: BTreeMap<String, usize> = BTreeMap::new();
    let mut parse_errors = vec![];
    for (path, module) in &cfg.files {
        let text = std::fs::read_to_string(format!("{src_dir}/{path}")).unwrap_or_else(|e| { parse_errors.push(format!("{path}: {e}")); String::new() });
        source_lines.insert(path.clone(), text.lines().count());
        let file = match parse_file(&text) { Ok(f) => f, Err(e) => { parse_errors.push(format!("{path}: {e}")); continue; } };
        let mut variants: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for i in &file.items { if let Item::Enum(e) = i { variants.insert(e.ident.to_string(), e.variants.iter().map(|v| v.ident.to_string()).collect()); } }
        let mut todo: Vec<Item> = file.items;
        todo.reverse();
        while let Some(item) = todo.pop() {
            let mut push_fn = |key: String, self_ty: Option<Type>, generics: Generics, trait_: Option<String>, sig: Signature, mut block: Block, todo: &mut Vec<Item>| {
                Locals.visit_block_mut(&mut block);
                if !variants.is_empty() { Qualify { variants: &variants, open: vec![] }.visit_block_mut(&mut block); }
                let mut h = Hoist { items: vec![] };
                h.visit_block_mut(&mut block);
                todo.extend(h.items.into_iter().rev());
                let src_line = sig.ident.span().start().line;
                fns.push(F { key, module: module.clone(), self_ty, generics, trait_, sig, block, src_line, file: path.clone() });
            };
            match item {
                Item::Fn(f) if !is_test(&f.attrs) => push_fn(f.sig.ident.to_string(), None, Generics::default(), None, f.sig, *f.block, &mut todo),
                Item::Impl(im) => {
                    let tn = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    // Conversions become functions named after the types.
                    if let Some((_, p, _)) = im.trait_.as_ref().filter(|_| matches!(tr.as_deref(), Some("From" | "TryFrom"))) {
                        let PathArguments::AngleBracketed(arg) = &p.segments.last().unwrap().arguments else { continue };
                        let name = |t: proc_macro2::TokenStream| plain_name(t);
                        let assoc: Option<Type> = im.items.iter().find_map(|i| if let ImplItem::Type(t) = i { Some(t.ty.clone()) } else { None });
                        for it in &im.items {
                            if let ImplItem::Fn(f) = it {
                                let mut f = f.clone();
                                let key = format!("vx_{}_{}_for_{}", f.sig.ident, name(arg.args.to_token_stream()), name(im.self_ty.to_token_stream()));
                                SelfType { ty: (*im.self_ty).clone(), assoc: assoc.clone() }.visit_impl_item_fn_mut(&mut f);
                                if tr.as_deref() == Some("TryFrom") { Typed { src: name(arg.args.to_token_stream()) }.visit_block_mut(&mut f.block); }
                                let mut g = im.generics.clone(); g.params.extend(f.sig.generics.params.clone());
                                f.sig.generics = g; f.sig.ident = format_ident!("{}", key);
                                push_fn(key, None, Generics::default(), None, f.sig, f.block, &mut todo);
                            }
                        }
                        continue;
                    }
                    for it in im.items {
                        if let ImplItem::Fn(f) = it {
                            let key = format!("{}::{}", tn, f.sig.ident);
                            push_fn(key, Some((*im.self_ty).clone()), im.generics.clone(), tr.clone(), f.sig, f.block, &mut todo);
                        }
                    }
                },
                Item::Trait(t) => {
                    let name = t.ident.to_string();
                    for it in &t.items { if let TraitItem::Fn(f) = it { if f.default.is_some() { trait_defaults.entry(name.clone()).or_default().push(f.clone()); } } }
                    trait_items.push((module.clone(), t));
                },
                Item::Const(c) => {
                    if let Expr::Array(a) = &*c.expr { consts.insert(c.ident.to_string(), a.elems.iter().cloned().collect()); }
                    type_items.push((module.clone(), Item::Const(c)));
                },
                Item::Struct(s) => {
                    // A derived `clone` is the one of every field.
                    if cfg.derived_clone.contains(&s.ident.to_string()) && s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Clone")) {
                        let (n, g) = (&s.ident, s.generics.clone());
                        let (_, args, _) = g.split_for_impl();
                        let ids: Vec<_> = s.fields.iter().filter_map(|f| f.ident.clone()).collect();
                        let f: ItemFn = parse_quote!(fn vx_copy(&self) -> #n #args { #n { #(#ids: (&self.#ids).clone()),* } });
                        push_fn(format!("{n}::clone"), Some(parse_quote!(#n #args)), g.clone(), None, f.sig, *f.block, &mut todo);
                    }
                    for f in s.fields.iter() {
                        let ty = f.ty.to_token_stream().to_string();
                        if let Some(id) = &f.ident { if ty.starts_with("Cell") || ty.starts_with("RefCell") || ty.starts_with("Scope") || ty.starts_with("Rc < RefCell") { cell_fields.insert(id.to_string()); } }
                    }
                    type_items.push((module.clone(), Item::Struct(s)));
                },
                i @ (Item::Enum(_) | Item::Type(_)) => type_items.push((module.clone(), i)),
                _ => {}
            }
        }
    }
    for path in &cfg.world { world::thread(&cfg.world_calls, &mut fns.iter_mut().filter(|f| f.file == *path).map(|f| (&mut f.sig, &mut f.block)).collect()); }
    // The schemas, as the compiler expands them.
    let mut schemas: BTreeMap<String, String> = BTreeMap::new();
    let mut proven: BTreeSet<String> = BTreeSet::new();
    if let Some(path) = &expansions {
        match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| parse_file(&t).map_err(|e| e.to_string())) {
            Err(e) => parse_errors.push(format!("expansion: {e}")),
            Ok(file) => {
                let blocks = expand::expanded(&file);
                let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
                let mut new = vec![];
                for f in &fns {
                    let calls = expand::calls(&f.block);
                    if calls.is_empty() { continue; }
                    let bs = blocks.get(&f.key).cloned().unwrap_or_default();
                    if bs.len() != calls.len() { parse_errors.push(format!("expansion of {}: {} blocks for {} calls", f.key, bs.len(), calls.len())); continue; }
                    for (c, b) in calls.iter().zip(&bs) {
                        let name = schema_name(&c.to_string());
                        let bt = { let t = b.to_token_stream().to_string(); let l: String = t.split("MyArgs_").nth(1).map(|t| t.chars().take_while(|c| c.is_ascii_digit()).collect()).unwrap_or_default(); t.replace(&format!("MyArgs_{l}"), "MyArgs") };
                        let v = seen.entry(name.clone()).or_default();
                        if v.contains(&bt) { continue; }
                        v.push(bt);
                        let n = v.len() - 1;
                        let key = if n == 0 { name.clone() } else { format!("{name}__{n}") };
                        let Some(x) = expand::make(&name, b, n) else { parse_errors.push(format!("expansion of {} not understood", f.key)); continue };
                        let Some((spec, loop1, facts)) = args::contract(&name, &c.to_string(), n) else { parse_errors.push(format!("schema {name} not understood")); continue };
                        schemas.insert(name.clone(), c.to_string()); proven.insert(name.clone());
                        let mut con1 = FnContract { name: key.clone(), ret: Some("r".into()), props: vec!["E13".into()], ..Default::default() };
                        con1.sections.insert("spec".into(), spec);
                        if let Some((l, b)) = loop1 { con1.sections.insert("loop 1".into(), l); con1.sections.insert("before loop 1".into(), b); }
                        con1.sections.insert(format!("before new {}", x.before_new), facts);
                        con.fns.insert(key.clone(), con1);
                        for (k, m) in x.matchers.into_iter().enumerate() {
                            let mk = m.sig.ident.to_string();
                            let mut c1 = FnContract { name: mk.clone(), ret: Some("r".into()), props: vec!["E13".into()], ..Default::default() };
                            c1.sections.insert("spec".into(), format!("    ensures r == rule_hits({}().rules[{k}], pattern.pos())\n", name.replacen("vx_args", "schema", 1)));
                            if let Some(t) = args::matcher_facts(&name, &c.to_string(), k) { c1.sections.insert("start".into(), t); }
                            con.fns.insert(mk.clone(), c1);
                            new.push((mk, m.sig, *m.block, f.file.clone(), f.src_line));
                        }
                        let out = format_ident!("{}", name.replacen("vx_args", "VxArgs", 1)); let id = format_ident!("{}", key);
                        let sig: Signature = parse_quote!(fn #id<'a, 'n>(node: &'n ParseNode<'a>, params: &'n Box<[ParseNode<'a>]>) -> Result<((), #out<'a>), ExpansionError<'a>>);
                        new.push((key, sig, x.block, f.file.clone(), f.src_line));
                    }
                }
                for (key, sig, block, file, src_line) in new {
                    fns.push(F { key, module: "schemas".into(), self_ty: None, generics: Generics::default(), trait_: None, sig, block, src_line, file });
                }
            }
        }
    }
    // Default methods of inherent-ised traits.
    let impls: BTreeSet<(String, String, String)> = fns.iter().filter_map(|f| f.trait_.clone().filter(|t| cfg.inherent.contains(t)).map(|t| (t, f.key.split("::").next().unwrap().to_string(), f.module.clone()))).collect();
    for (t, ty, module) in impls {
        for d in trait_defaults.get(&t).cloned().unwrap_or_default() {
            let key = format!("{}::{}", ty, d.sig.ident);
            if fns.iter().any(|f| f.key == key) { continue; }
            let src = fns.iter().find(|f| f.key.starts_with(&format!("{ty}::")) && f.trait_.as_deref() == Some(&t)).unwrap();
            let (self_ty, generics, file) = (src.self_ty.clone(), src.generics.clone(), src.file.clone());
            fns.push(F { key, module: module.clone(), self_ty, generics, trait_: Some(t.clone()), src_line: d.sig.ident.span().start().line, sig: d.sig, block: d.default.unwrap(), file });
        }
    }
    for h in hofs {
        if let Some(f) = fns.iter().find(|f| f.sig.ident == h) {
            if let Some(FnArg::Typed(pt)) = f.sig.inputs.iter().nth(1) { if let Pat::Ident(pi) = &*pt.pat {
                cfg.inline_hof.insert(h.clone(), (pi.ident.to_string(), f.block.clone()));
            } }
        }
    }
    // ---- &self methods that change Cell or RefCell fields take &mut self ----
    let mut mutating: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut grew = false;
        for f in &fns {
            if mutating.contains(&f.sig.ident.to_string()) || f.sig.receiver().is_none() { continue; }
            let s = f.block.to_token_stream().to_string();
            let direct = cell_fields.iter().any(|c| s.contains(&format!(". {c} . set (")) || s.contains(&format!(". {c} . borrow_mut (")) || s.contains(&format!(". {c} . as_ptr (")));
            let hof = cfg.inline_hof.keys().any(|h| s.contains(&format!(". {h} (")));
            let trans = mutating.iter().any(|m| s.contains(&format!("self . {m} (")) || s.contains(&format!("self . lexer . {m} (")) || s.contains(&format!("parser . {m} (")) || s.contains(&format!("context . {m} (")) || s.contains(&format!("this . {m} (")));
            if (direct || hof || trans) && !con.skip.contains(&f.key) { mutating.insert(f.sig.ident.to_string()); grew = true; }
        }
        if !grew { break; }
    }
    for k in con.attrs.keys() { if let Some(n) = k.strip_prefix("immut:") { mutating.remove(n); } }

    fns.retain(|f| !dropped.contains(&f.key));
    for b in &bare { if let Some(c) = con.fns.get_mut(b) { c.sections.remove("spec"); } }
    // ---- transform, by reachability from the contracts ----
    let by_name: BTreeMap<String, Vec<usize>> = { let mut m: BTreeMap<String, Vec<usize>> = BTreeMap::new(); for (i, f) in fns.iter().enumerate() { m.entry(f.sig.ident.to_string()).or_default().push(i); } m };
    let mut wanted: BTreeSet<usize> = fns.iter().enumerate().filter(|(_, f)| con.fns.contains_key(&f.key)).map(|(i, _)| i).collect();
    let mut emitted: BTreeMap<usize, (String, Value)> = BTreeMap::new();
    loop {
        let Some(&k) = wanted.iter().find(|k| !emitted.contains_key(k)) else { break };
        let f = &fns[k];
        let (text, meta, callees) = emit_fn(f, &cfg, &con, &cell_fields, &mutating, stubs.contains(&f.key));
        for (k, v) in meta["schemas"].as_object().unwrap() { schemas.insert(k.clone(), v.as_str().unwrap().to_string()); }
        for c in callees {
            for &j in by_name.get(&c).unwrap_or(&vec![]) {
                let g = &fns[j];
                if con.skip.contains(&g.key) || con.skip.contains(g.key.split("::").next().unwrap()) || con.skip.contains(&g.sig.ident.to_string()) || cfg.identity.contains(&c) || cfg.inline_hof.contains_key(&c) { continue; }
                if g.trait_.is_some() && !cfg.inherent.contains(g.trait_.as_ref().unwrap()) && !con.fns.contains_key(&g.key) { continue; }
                wanted.insert(j);
            }
        }
        emitted.insert(k, (text, meta));
    }

    // ---- output ----
    let mut out = String::new();
    let mut metas: Vec<Value> = vec![];
    out.push_str("#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\n#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unused_mut)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    for p in &cfg.prelude { out.push_str(&std::fs::read_to_string(base.join(p)).unwrap()); out.push('\n'); }
    let mut modules: Vec<String> = vec![];
    for (_, m) in &cfg.files { if !modules.contains(m) { modules.push(m.clone()); } }
    for m in con.ghost.keys() { if !m.contains(':') && !modules.contains(m) { modules.push(m.clone()); } }
    if !schemas.is_empty() && !modules.contains(&"schemas".to_string()) { modules.push("schemas".into()); }
    for m in &modules {
        // A module does not use its own axioms before it states them.
        let broadcast = broadcast.split(", ").filter(|b| !b.starts_with(&format!("crate::{m}::"))).collect::<Vec<_>>().join(", ");
        out.push_str(&format!("pub mod {m} {{\nuse vstd::prelude::*;\nuse vstd::utf8::*;\nuse crate::prelude::*;\nbroadcast use {{{broadcast}}};\n"));
        for o in &modules { if o != m { out.push_str(&format!("#[allow(unused_imports)] use crate::{o}; #[allow(unused_imports)] use crate::{o}::*;\n")); } }
        for (im, item) in &type_items {
            if im != m { continue; }
            let mut item = item.clone();
            let name = match &item { Item::Struct(s) => s.ident.to_string(), Item::Enum(s) => s.ident.to_string(), Item::Const(c) => c.ident.to_string(), Item::Type(t) => t.ident.to_string(), _ => unreachable!() };
            if con.skip.contains(&name) || con.skip.contains(&format!("{m}::{name}")) { continue; }
            out.push_str(&emit_type(&mut item, &cfg, &consts, &con));
        }
        for (tm, t) in &trait_items {
            if tm != m || !cfg.user_traits.contains(&t.ident.to_string()) { continue; }
            let mut t = t.clone();
            t.attrs.clear(); t.vis = parse_quote!(pub);
            Types { cfg: &cfg }.visit_item_trait_mut(&mut t);
            ElideTypes { cfg: &cfg }.visit_item_trait_mut(&mut t);
            for it in &mut t.items { if let TraitItem::Fn(f) = it { f.attrs.clear(); f.default = None; f.semi_token = Some(Default::default()); for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(_) = a {} } } }
            let text = con.fns.get(&format!("{}::*", t.ident)).and_then(|c| c.sections.get("spec").cloned());
            match text { Some(t) => out.push_str(&t), None => { let mut p = print::Printer::new(&[]); p.stream(t.to_token_stream()); out.push_str(&p.finish()); } }
        }
        if m == "schemas" { for (k, v) in &schemas { match args::emit(k, v, proven.contains(k)) { Some(t) => out.push_str(&t), None => parse_errors.push(format!("schema {k} not understood")) } } }
        if let Some(g) = con.ghost.get(m) {
            let l0 = out.lines().count() + 1;
            out.push_str(g);
            metas.push(json!({"ghost": m, "lines": [l0, out.lines().count()]}));
        }
        let mut done: BTreeSet<usize> = BTreeSet::new();
        for (k, (text, meta)) in &emitted {
            if fns[*k].module != *m || done.contains(k) { continue; }
            let f = &fns[*k];
            let user_trait = f.trait_.as_ref().filter(|t| cfg.user_traits.contains(*t));
            let group: Vec<usize> = if user_trait.is_some() {
                emitted.keys().cloned().filter(|j| fns[*j].module == *m && fns[*j].trait_ == f.trait_ && fns[*j].key.split("::").next() == f.key.split("::").next()).collect()
            } else { vec![*k] };
            let _ = (text, meta);
            if let Some(st) = &f.self_ty {
                let mut st = st.clone(); let mut g = f.generics.clone();
                Types { cfg: &cfg }.visit_type_mut(&mut st);
                Elide { cfg: &cfg }.visit_type_mut(&mut st);
                if g.params.iter().all(|p| !matches!(p, GenericParam::Lifetime(_))) && st.to_token_stream().to_string().contains("'a") { g.params.insert(0, parse_quote!('a)); }
                let (gi, _, gw) = g.split_for_impl();
                let tr = user_trait.map(|t| { let tt = trait_items.iter().find(|(_, x)| x.ident == t).unwrap(); let (_, tg, _) = tt.1.generics.split_for_impl(); let id = &tt.1.ident; quote!(#id #tg for) });
                let mut p = print::Printer::new(&[]);
                p.stream(quote!(impl #gi #tr #st #gw));
                out.push_str(p.finish().trim_end()); out.push_str(" {\n");
                if let Some(extra) = user_trait.and_then(|t| con.ghost.get(&format!("impl:{}:{}", t, f.key.split("::").next().unwrap()))) { out.push_str(extra); }
            }
            for j in group {
                let (text, meta) = &emitted[&j];
                let l0 = out.lines().count() + 1;
                out.push_str(text);
                let mut meta = meta.clone();
                meta["lines"] = json!([l0, out.lines().count()]);
                metas.push(meta);
                done.insert(j);
            }
            if f.self_ty.is_some() { out.push_str("}\n"); }
        }
        out.push_str("}\n");
    }
    out.push_str("} // verus!\nfn main() {}\n");
    let mut missing: Vec<String> = vec![];
    for (k, c) in &con.fns { if !k.ends_with("::*") && !fns.iter().any(|f| f.key == *k) && !c.opts.contains("optional") { missing.push(k.clone()); } }
    std::fs::write(out_rs, out).unwrap();
    std::fs::write(out_json, serde_json::to_string_pretty(&json!({
        "functions": metas, "missing": missing, "parse_errors": parse_errors, "sources": source_lines,
        "arena_mentions": fns.iter().filter(|f| !con.fns.contains_key(&f.key)).filter(|f| { let t = f.block.to_token_stream().to_string(); cfg.arenas.iter().any(|a| t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == a)) }).map(|f| format!("{}::{}", f.module, f.key)).collect::<Vec<_>>(),
        "all_functions": fns.iter().map(|f| format!("{}::{}", f.module, f.key)).collect::<Vec<_>>(),
    })).unwrap()).unwrap();
}

fn emit_type(item: &mut Item, cfg: &Config, consts: &BTreeMap<String, Vec<Expr>>, con: &Contracts) -> String {
    Types { cfg }.visit_item_mut(item);
    let mut extra = String::new();
    let mut attrs_for = |name: &str, generics: &Generics, attrs: &mut Vec<Attribute>, fieldless: bool| {
        let d = derives(attrs);
        attrs.clear();
        if let Some(a) = con.attrs.get(name) { let t: proc_macro2::TokenStream = a.parse().unwrap(); let parsed: ItemStruct = parse_quote!(#t struct X;); attrs.extend(parsed.attrs); }
        if con.attrs.contains_key(&format!("noclone:{name}")) { return; }
        let (gi, gt, gw) = generics.split_for_impl();
        let id = format_ident!("{}", name);
        if d.contains("Copy") {
            if fieldless && d.contains("PartialEq") {
                attrs.push(parse_quote!(#[derive(Clone, Copy)]));
                extra += &quote!(impl #gi VxEq<#id #gt> for #id #gt #gw { open spec fn eqv(&self, other: &#id #gt) -> bool { *self == *other } #[verifier::external_body] fn vx_eq_(&self, other: &#id #gt) -> (r: bool) { unimplemented!() } }).to_string();
                extra.push('\n');
            } else { attrs.push(parse_quote!(#[derive(Clone, Copy)])); }
        }
        if d.contains("Clone") {
            extra += &quote!(impl #gi VxClone for #id #gt #gw { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }).to_string();
            extra.push('\n');
            extra += &quote!(impl #gi VxToOwned for #id #gt #gw { type Owned = #id #gt; open spec fn owned_ok(&self, r: &#id #gt) -> bool { *r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: #id #gt) { unimplemented!() } }).to_string();
            extra.push('\n');
        }
    };
    match item {
        Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            let name = s.ident.to_string();
            if cfg.add_lifetime.contains(&name) { s.generics = parse_quote!(<'a>); }
            if let Fields::Named(n) = &mut s.fields {
                n.named = n.named.iter().filter(|f| !cfg.drop_fields.contains(&f.ident.as_ref().unwrap().to_string())).cloned().collect();
            }
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub); f.attrs.clear();
                let fname = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                if let Some(t) = cfg.field_types.get(&format!("{name}.{fname}")) { f.ty = parse_str(t).unwrap(); }
                Elide { cfg }.visit_type_mut(&mut f.ty);
            }
            let g = s.generics.clone();
            attrs_for(&name, &g, &mut s.attrs, false);
        },
        Item::Enum(s) => {
            s.vis = parse_quote!(pub);
            let name = s.ident.to_string(); let g = s.generics.clone();
            let fieldless = s.variants.iter().all(|v| v.fields.is_empty());
            for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); Elide { cfg }.visit_type_mut(&mut f.ty); } }
            attrs_for(&name, &g, &mut s.attrs, fieldless);
        },
        Item::Const(c) => {
            c.vis = parse_quote!(pub); c.attrs.clear();
            const_fold(consts, &mut c.expr);
            let s = c.ty.to_token_stream().to_string().replace("& str", "& 'static str");
            c.ty = parse_str(&s).unwrap();
        },
        Item::Type(t) => { t.vis = parse_quote!(pub); t.attrs.clear(); },
        _ => {}
    }
    let mut p = print::Printer::new(&[]);
    p.stream(item.to_token_stream());
    p.finish() + &extra
}

fn has_empty_lit(ts: proc_macro2::TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Group(g) => has_empty_lit(g.stream()),
        proc_macro2::TokenTree::Literal(l) => l.to_string() == "\"\"",
        _ => false,
    })
}

fn short_lits(ts: proc_macro2::TokenStream, max: usize, out: &mut BTreeSet<String>) {
    for t in ts { match t {
        proc_macro2::TokenTree::Group(g) => short_lits(g.stream(), max, out),
        proc_macro2::TokenTree::Literal(l) => if let Ok(s) = parse_str::<LitStr>(&l.to_string()) { let s = s.value(); if !s.is_empty() && s.chars().count() <= max { out.insert(s); } },
        _ => {}
    } }
}

fn emit_fn(f: &F, cfg: &Config, con: &Contracts, cell_fields: &BTreeSet<String>, mutating: &BTreeSet<String>, stub: bool) -> (String, Value, BTreeSet<String>) {
    let c = con.fns.get(&f.key);
    let empty = FnContract::default();
    let mut markers: Vec<String> = vec![];
    let mut block = f.block.clone();
    if cfg.desugar { desugar::Beta.visit_block_mut(&mut block); desugar::Desugar { n: 0 }.visit_block_mut(&mut block); }
    // Pass A
    let mut mark = Mark { c: c.unwrap_or(&empty), markers: &mut markers, used: BTreeSet::new(), loops: 0, closures: 0, calls: BTreeMap::new(), stack: vec![vec![]] };
    mark.function(&mut block);
    let (used, loops, closures) = (mark.used, mark.loops, mark.closures);
    // Pass B
    let rt = f.sig.output.to_token_stream().to_string();
    let err_boxed = rt.contains("dyn Error") || rt.contains("dyn 'a + std :: error") || c.map_or(false, |c| c.opts.contains("errq"));
    let mut rw = Rewrite { cfg, c, n: 0, err_boxed, cell_fields, unsupported: vec![], callees: BTreeSet::new(), schemas: BTreeMap::new(), bound: if cfg.fn_pointers { bound_names(&block) } else { BTreeSet::new() } };
    rw.visit_block_mut(&mut block);
    ElideTypes { cfg }.visit_block_mut(&mut block);
    let (unsupported, callees, schemas) = (rw.unsupported, rw.callees, rw.schemas);
    // Signature
    let mut sig = f.sig.clone();
    Types { cfg }.visit_signature_mut(&mut sig);
    ElideTypes { cfg }.visit_signature_mut(&mut sig);
    sig.unsafety = None; sig.constness = None;
    let is_user_trait = f.trait_.as_ref().map_or(false, |t| cfg.user_traits.contains(t));
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_some() && !is_user_trait && f.self_ty.as_ref().map_or(false, |t| cfg.add_lifetime.contains(&ty_name(t)) || con.attrs.contains_key(&format!("mutself:{}", ty_name(t)))) {
                    if mutating.contains(&f.sig.ident.to_string()) { *r = parse_quote!(&mut self); } else { *r = parse_quote!(&self); }
                }
            },
            FnArg::Typed(t) => {
                if let Pat::Ident(pi) = &mut *t.pat {
                    if let Some(ty) = cfg.field_types.get(&format!("{}({})", f.key, pi.ident)) { t.ty = Box::new(parse_str(ty).unwrap()); }
                }
            }
        }
    }
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() { r.attrs.clear(); }
    let rename = match f.trait_.as_deref() { Some("PartialEq") => Some("user_eq"), _ => None };
    let name = rename.map(|s| s.to_string()).unwrap_or_else(|| { let n = f.sig.ident.to_string(); if f.self_ty.is_none() { n } else { cfg.methods.get(&n).filter(|m| *m != "-" ).cloned().unwrap_or(n) } });
    let id = format_ident!("{}", name);
    let inputs = &sig.inputs;
    let (gi, _, gw) = sig.generics.split_for_impl();
    let vis = if is_user_trait { quote!() } else { quote!(pub) };
    let trusted = c.map_or(false, |c| c.trusted);
    let mut text = String::new();
    let body_external = trusted || stub;
    text.push_str(&format!("// {}::{} (line {})\n", f.module, f.key, f.src_line));
    if body_external { text.push_str("#[verifier::external_body]\n"); }
    if let Some(c) = c {
        if let Some(a) = c.sections.get("attr") { text.push_str(a); }
        if !c.sections.values().any(|t| t.contains("decreases")) && !body_external { text.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    } else if !body_external { text.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); }
    if let Some(s) = c.and_then(|c| c.sections.get("sig")) {
        text.push_str(s);
    } else {
        let mut p = print::Printer::new(&[]);
        p.stream(quote!(#vis fn #id #gi (#inputs)));
        text.push_str(p.finish().trim_end());
        if let ReturnType::Type(_, t) = &sig.output {
            let mut p = print::Printer::new(&[]);
            let r = c.and_then(|c| c.ret.clone()).unwrap_or("r".into());
            let rid = format_ident!("{}", r);
            p.stream(quote!(-> (#rid: #t)));
            text.push(' '); text.push_str(p.finish().trim_end());
        }
        if let Some(w) = gw { let mut p = print::Printer::new(&[]); p.stream(quote!(#w)); text.push(' '); text.push_str(p.finish().trim_end()); }
        text.push('\n');
    }
    // `+graph`: callers see the function's graph; its body is verified, as a function of
    // its own, against the one-step rule.
    if c.map_or(false, |c| c.opts.contains("graph")) && !body_external {
        let head = text.clone().replace("#[verifier::exec_allows_no_decreases_clause]\n", "");
        let spec = c.and_then(|c| c.sections.get("spec").cloned()).unwrap_or_default();
        let rule = c.and_then(|c| c.sections.get("rule").cloned()).unwrap_or_default();
        let a = head.find("fn ").unwrap();
        let callee = format!("{}#[verifier::external_body]\n{}{}{{ unimplemented!() }}\n", &head[..head[..a].rfind('\n').map_or(0, |x| x + 1)], &head[head[..a].rfind('\n').map_or(0, |x| x + 1)..], spec);
        let nm = format!("fn {} ", id);
        text = format!("{callee}{}{rule}", text.replacen(&nm, &format!("fn {id}__rule "), 1).replacen(&format!("fn {id}<"), &format!("fn {id}__rule<"), 1).replacen(&format!("fn {id}("), &format!("fn {id}__rule("), 1));
    }
    let graph = c.map_or(false, |c| c.opts.contains("graph")) && !body_external;
    let has_spec = c.map_or(false, |c| c.sections.get("spec").map_or(false, |s| !s.trim().is_empty()));
    if !graph { if let Some(s) = c.and_then(|c| c.sections.get("spec")) { text.push_str(s); } }
    if body_external { text.push_str("{ unimplemented!() }\n"); }
    else {
        // The empty literal is known to be empty.
        if block.to_token_stream().into_iter().any(|_| true) && has_empty_lit(block.to_token_stream()) {
            markers.push("proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }\n".into());
            block.stmts.insert(0, marker_stmt("__vx_m", markers.len() - 1));
        }
        if cfg.reveal > 0 {
            let mut ls = BTreeSet::new(); short_lits(block.to_token_stream(), cfg.reveal, &mut ls);
            if !ls.is_empty() {
                markers.push(format!("proof {{ {} }}\n", ls.iter().map(|l| format!("reveal_strlit({l:?}); assert({l:?}@ =~= seq![{}]);", l.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ")));
                block.stmts.insert(0, marker_stmt("__vx_m", markers.len() - 1));
            }
        }
        if let Some(h) = c.and_then(|c| c.sections.get("hide")) {
            markers.push(h.split_whitespace().map(|x| format!("hide({x});\n")).collect());
            block.stmts.insert(0, marker_stmt("__vx_m", markers.len() - 1));
        }
        let mut p = print::Printer::new(&markers);
        p.stream(block.to_token_stream());
        text.push_str(&p.finish());
    }
    let drift: Vec<String> = c.map(|c| c.sections.keys().filter(|k| !used.contains(*k) && !matches!(k.as_str(), "spec" | "sig" | "attr" | "rule" | "hide")).cloned().collect()).unwrap_or_default();
    let contract_loops = c.map(|c| c.sections.keys().filter(|k| k.starts_with("loop ") && k.split(' ').count() == 2).count()).unwrap_or(0);
    let meta = json!({
        "key": f.key, "module": f.module, "file": f.file, "src_line": f.src_line, "contract": c.is_some(), "has_spec": has_spec, "trusted": trusted, "stub": stub,
        "drift": if trusted { vec![] } else { drift }, "loops": loops, "contract_loops": contract_loops, "closures": closures, "unsupported": unsupported, "schemas": schemas,
        "props": c.map(|c| c.props.clone()).unwrap_or_default(), "callees": callees.iter().collect::<Vec<_>>(),
    });
    (text, meta, if body_external { BTreeSet::new() } else { callees })
}
