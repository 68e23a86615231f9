//! Programs run by the real code against what they mean.
use crate::eval::{Env, Eval, Stop};
use crate::rng::Rng;
use crate::{prog, read, same, trying, Fail};
use std::path::{Path, PathBuf};

pub fn focus(p: &str) -> Option<&'static [&'static str]> {
    Some(match p {
        "E01" => &["call", "define", "match", "lambda", "apply"],
        "E02" => &["call", "match", "for", "namespace", "define"],
        "E03" => &[],
        "E04" => &["do", "define", "call", "list"],
        "E05" => &["sort"],
        "E06" => &["reverse"],
        "E07" => &["string", "raw", "concat", "join"],
        "E08" => &["list", "splat", "strip", "number", "symbol"],
        "E09" => &["get"],
        "E10" => &["ifdef", "match"],
        "E11" => &["define", "lambda", "call"],
        "E12" => &["for", "map", "filter", "apply"],
        "E13" => &["join", "sort", "get", "reverse", "for"],
        "E14" => &["namespace", "define"],
        "E16" | "E17" | "E18" | "E19" => &[],
        "X02" => &["call", "namespace", "match", "define"],
        _ => return None,
    })
}
/// What the real code makes of a program.
pub fn real(src: &str, inc: &[PathBuf]) -> Option<Vec<String>> {
    let mut e = Box::new(seam::tree_builder(None::<&Path>, src.to_string()));
    e.add_includes(inc.iter());
    let e = Box::into_raw(e);
    // SAFETY: dropped below, when nothing refers to it any more.
    let r = unsafe { &*e }.expand().ok().map(|t| t.iter().map(read::show).collect());
    drop(unsafe { Box::from_raw(e) });
    r
}
/// What it means; nothing if that is not known.
pub fn meaning(src: &str, inc: &[PathBuf]) -> Option<(Option<Vec<String>>, Env)> {
    let mut ev = Eval::new();
    let mut env = Env::default();
    env.inc.push(PathBuf::from("."));
    for i in inc { if !env.inc.contains(i) { env.inc.push(i.clone()) } }
    let r = match ev.parse("<stdin>".into(), src.to_string()) {
        Err(()) => Some(None),
        Ok(t) => match ev.nodes(&mut env, &t) {
            Ok(t) => Some(Some(t.iter().map(read::show).collect())),
            Err(Stop::Error) => Some(None),
            Err(Stop::Unknown) => None,
        },
    };
    // The definitions refer to the text which is freed: keep only their shape.
    let defs = env.defs.iter().map(|(k, v)| (k.clone(), (v.0.iter().map(|_| eval_dummy()).collect(), vec![]))).collect();
    ev.done();
    r.map(|r| (r, Env { defs, inc: vec![] }))
}
fn eval_dummy() -> crate::gen::PN { seam::parse::parser::ParseNode::List { nodes: Box::new([]), site: seam::parse::tokens::Site::unknown(), end_token: seam::parse::tokens::Token::new(seam::parse::tokens::Kind::RParen, ")", "", seam::parse::tokens::Site::unknown()), leading_whitespace: String::new() } }

fn compare(src: &str, want: &Option<Vec<String>>, got: &Option<Vec<String>>) -> Result<(), Fail> {
    let s = |x: &Option<Vec<String>>| match x { None => "an error".to_string(), Some(v) => v.join("\n") };
    same(src, &s(want), &s(got))
}
pub fn check(p: &str, r: &mut Rng, size: usize) -> Result<(), Fail> {
    let focus = focus(p).unwrap();
    let mut src = if p == "E16" || p == "E18" { crate::dates::settle(); crate::dates::program(r, p) } else if p == "E17" || p == "E19" { crate::data::program(r, p == "E19") } else if p == "E03" { { let s = crate::gen::source(r, size).replace('%', "a"); if r.chance(1, 2) { let w = r.pick(&["\"%do\"", "\"%list\"", "\"%a\"", "\"%\"", "\"%define\""]); s.replace("\"str\"", w).replace("\"\\\\\"", w) } else { s } } } else { prog::new(r, focus).program(size) };
    src = crate::words::into(r, src);
    trying(&src);
    let Some((want, env)) = meaning(&src, &[]) else { if std::env::var("DBG").is_ok() { println!("UNKNOWN {src}"); } return Ok(()) };
    if std::env::var("DBG").is_ok() { println!("{} {src}", want.is_some()); }
    if want.is_some() {
        // What is defined afterwards.
        let mut probes = vec![];
        for n in prog::NAMES.iter().chain(&prog::MACROS).map(|n| n.to_string()).chain(env.defs.keys().cloned()) {
            if probes.len() > 40 { break }
            if n.is_empty() || n.contains(['"', '\\']) { continue }
            probes.push(format!("(%ifdef \"{n}\" 1 0)"));
            match env.defs.get(&n) {
                Some(d) if !n.contains(char::is_whitespace) && !n.contains(['(', ')']) && d.0.is_empty() => probes.push(format!("%{n}")),
                Some(d) if !n.contains(char::is_whitespace) && !n.contains(['(', ')']) => { let a: Vec<String> = d.0.iter().map(|_| r.pick(&["1", "a", "(1 2)", "\"t\""]).to_string()).collect(); probes.push(format!("(%{n} {})", a.join(" "))) },
                _ => {},
            }
        }
        // Those which are errors would hide the others.
        let mut text = src.clone() + "\n";
        for q in probes {
            let t = format!("{text}{q} ");
            match meaning(&t, &[]) { Some((Some(_), _)) => text = t, _ => {} }
            if text.len() > 8 * src.len() + 400 { break }
        }
        src = text;
        trying(&src);
        let Some((want, _)) = meaning(&src, &[]) else { return Ok(()) };
        return compare(&src, &want, &real(&src, &[]));
    }
    compare(&src, &want, &real(&src, &[]))
}
