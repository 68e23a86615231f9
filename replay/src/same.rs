//! Running the same program again makes no difference (X02).
use crate::{prog, rng::Rng, same, trying, Fail};
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::{parser::ParseNode, tokens::Site};
use std::path::Path;

const KEYS: [&str; 9] = ["a", "b", "c", "d", "key", "x", "y", "zed", "ab"];
/// A call with named arguments nothing is for, and what is said of it: names, by first appearance, and the place.
fn excess(r: &mut Rng) -> (String, String) {
    let known: Vec<&str> = (0..r.below(4)).map(|_| r.pick(&KEYS[..5])).collect();
    let given: Vec<&str> = (0..1 + r.below(7)).map(|_| r.pick(&KEYS)).collect();
    let n = r.below(3);
    let params: Vec<String> = known.iter().map(|k| format!(":{k} 0")).chain((0..n).map(|i| format!("p{i}"))).collect();
    let mut args: Vec<String> = (0..n).map(|i| format!("{i}")).collect();
    for k in &given { let at = r.below(args.len() + 1); args.insert(at, format!(":{k} 1")) }
    let src = format!("(%define (f {}) x)\n(%f {})", params.join(" "), args.join(" "));
    let once = |v: Vec<String>| { let mut o: Vec<String> = vec![]; for x in v { if !o.contains(&x) { o.push(x) } } o };
    let order: Vec<String> = args.iter().filter(|a| a.starts_with(':')).map(|a| a[1..a.len() - 2].to_string()).collect();
    let over = once(order.into_iter().filter(|k| !known.contains(&k.as_str())).collect());
    let show = |v: &[String]| v.iter().map(|k| format!("`:{k}`")).collect::<Vec<_>>().join(", ");
    let known = once(known.iter().map(|k| k.to_string()).collect());
    let want = if over.is_empty() { String::new() } else { format!("{}|{}", show(&over), show(&known)) };
    (src, want)
}
/// A call of a macro that takes options, with some of them.
fn options(r: &mut Rng) -> String {
    let all: [(&str, &[&str]); 6] = [("sort", &["order ascending", "order descending", "key f", "key up", "separator \",\""]), ("glob", &["order ascending", "sort name", "type file", "type any"]),
        ("markdown", &["separator \"--\"", "only frontmatter"]), ("format", &["a 1", "b 2", "c 3"]), ("embed", &["trailing true", "trailing false"]), ("timestamp", &["timezone 1", "x 2"])];
    let (m, o) = all[r.below(6)];
    let mut o: Vec<String> = o.iter().filter(|_| r.chance(2, 3)).map(|x| format!(":{x}")).collect();
    for _ in 0..r.below(3) { let w = r.pick(&["(3 1 2)", "\"t\"", "4", "x"]).to_string(); let at = r.below(o.len() + 1); o.insert(at, w) }
    format!("(%{m} {})", o.join(" "))
}
fn place(s: &Site) -> String { format!("{} {} {} {} {}", s.source, s.line, s.bytes_from_start, s.bytes_from_start_of_line, s.bytes_span) }
fn node(n: &ParseNode, o: &mut String) { o.push_str(&crate::read::show(n)); o.push_str(&place(n.site())); o.push('\n') }
/// Everything there is to be seen of a program.
fn seen(src: &str) -> (Result<(), String>, String) {
    let e = Box::into_raw(Box::new(seam::tree_builder(None::<&Path>, src.to_string())));
    // SAFETY: dropped below, when nothing refers to it any more.
    let mut o = String::new();
    let r = match unsafe { &*e }.expand() {
        Err(x) => { let x = x.to_string(); o.push_str(&format!("error: {x}\n")); Err(x) },
        Ok(t) => {
            for n in t.iter() { node(n, &mut o) }
            let t: Box<[ParseNode]> = t.to_vec().into();
            macro_rules! all { ($($F:ident),*) => { $( { let f = $F::new(t.clone()); o.push_str(&format!("{:?}\n{:?}\n", f.display(), f.document())); } )* } }
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { all!(HTMLFormatter, XMLFormatter, CSSFormatter, SExpFormatter, PlainTextFormatter); })).is_err() { o.push_str("panic\n") }
            Ok(())
        },
    };
    drop(unsafe { Box::from_raw(e) });
    (r, o)
}
pub fn check(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let (src, want) = if r.chance(1, 4) { excess(r) } else if r.chance(1, 8) { (options(r), String::new()) } else if r.chance(1, 6) { (crate::gen::html_source(r, 1 + size.min(3)), String::new()) } else { (prog::new(r, crate::run::focus("X02").unwrap()).program(size), String::new()) };
    let src = if want.is_empty() { crate::words::into(r, src) } else { src };
    trying(&src);
    if std::env::var("DBG").is_ok() { println!("{src}"); }
    // Programs that do not end, or of which that is not known.
    if crate::run::meaning(&src, &[]).is_none() { return Ok(()) }
    let (first, o) = seen(&src);
    if !want.is_empty() {
        let names = |s: &str| { let mut k = vec![]; for x in s.split("provided: ").last().unwrap().split('`').skip(1).step_by(2) { k.push(x.to_string()) } k.join(" ") };
        same(&src, &format!("an error naming {}", names(&want)), &match first { Ok(()) => "no error".into(), Err(m) => format!("an error naming {}", names(&m)) })?;
    }
    for i in 0..4 {
        let (_, p) = seen(&src);
        if o != p { return Err(Fail { input: src, expected: format!("what it gave the first time:\n{o}"), got: format!("run {}:\n{p}", i + 2) }) }
    }
    Ok(())
}
