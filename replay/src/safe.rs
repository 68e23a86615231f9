//! What is referred to stays alive and in its place (X01): uses of everything handed out, for a build that checks every access.
use crate::{files, gen, prog, rng::Rng, run, trying, Fail};
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::parser::ParseNode;
use std::path::{Path, PathBuf};

/// Reads all of the nodes.
fn read(t: &[ParseNode]) -> usize {
    t.iter().map(|n| crate::read::show(n).len() + n.site().source.len() + n.site().view().len() + match n { ParseNode::List { nodes, .. } => read(nodes), ParseNode::Attribute { node, .. } => read(std::slice::from_ref(&**node)), _ => 0 }).sum()
}
/// Generates, and generates again from copies, of which the first may be gone.
fn formats<F: MarkupFormatter + Clone>(r: &mut Rng, f: F) {
    let uses = |r: &mut Rng, f: &F| for _ in 0..1 + r.below(3) { let _ = if r.chance(1, 2) { f.display() } else { f.document() }; };
    if r.chance(1, 2) { uses(r, &f) }
    let g = f.clone();
    if r.chance(1, 2) { uses(r, &f) }
    if r.chance(1, 2) { drop(f) }
    uses(r, &g);
    let h = g.clone();
    drop(g);
    uses(r, &h);
}
fn quietly(f: impl FnOnce()) { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)); }
fn all(r: &mut Rng, t: &[ParseNode]) {
    let b = || -> Box<[ParseNode]> { t.to_vec().into() };
    // Whether they should have panicked is for other properties.
    quietly(|| formats(r, HTMLFormatter::new(b())));
    match r.below(5) {
        0 => quietly(|| formats(r, XMLFormatter::new(b()))),
        1 => quietly(|| formats(r, CSSFormatter::new(b()))),
        2 => quietly(|| formats(r, SExpFormatter::new(b()))),
        3 => quietly(|| formats(r, PlainTextFormatter::new(b()))),
        _ => {},
    }
}
pub fn check(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let (_s, src, inc): (Option<files::Scratch>, String, Vec<PathBuf>) = match r.below(6) {
        0 | 1 | 2 => { let (s, src, inc, i) = files::make(r, size, true); trying(&i); (Some(s), src, inc) },
        3 => { let s = gen::html_source(r, 1 + size.min(3)); trying(&s); (None, s, vec![]) },
        _ => { let s = prog::new(r, &["call", "lambda", "map", "for", "apply", "sort"]).program(size); trying(&s); (None, s, vec![]) },
    };
    let src = crate::words::into(r, src);
    if std::env::var("DBG").is_ok() { println!("{src}\n"); }
    // Programs that do not end, or of which that is not known.
    if run::meaning(&src, &inc).is_none() { return Ok(()) }
    let mut e = Box::new(seam::tree_builder(None::<&Path>, src.clone()));
    e.add_includes(inc.iter());
    let e = Box::into_raw(e);
    // SAFETY: dropped below, when nothing refers to it any more.
    let x = unsafe { &*e };
    quietly(|| {
        // A copy of an expander works, before and after the first has.
        let before = if r.chance(1, 3) { Some(Box::into_raw(Box::new(x.clone()))) } else { None };
        let first = x.expand();
        if std::env::var("DBG").is_ok() { println!("--- {:?}", first.as_ref().map(|_| ()).map_err(|e| e.to_string())); }
        let after = if r.chance(1, 3) { Some(Box::into_raw(Box::new(x.clone()))) } else { None };
        let again = if r.chance(1, 3) { Some(x.expand()) } else { None };
        for c in [before, after].into_iter().flatten() {
            match unsafe { &*c }.expand() { Ok(t) => { let _ = read(&t); all(r, &t) }, Err(x) => { let _ = x.to_string(); } }
            // SAFETY: what it gave is not used any more.
            drop(unsafe { Box::from_raw(c) });
        }
        match first { Ok(t) => { let _ = read(&t); let _ = format!("{t:?}"); all(r, &t) }, Err(x) => { let _ = x.to_string(); } }
        if let Some(Err(x)) = again { let _ = x.to_string(); }
    });
    drop(unsafe { Box::from_raw(e) });
    Ok(())
}
