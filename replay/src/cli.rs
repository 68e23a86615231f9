//! The command line tool itself, run in a scratch directory (X03); VX_SEAM names it.
use crate::rng::Rng;
use crate::{files::Scratch, prog, trying, Fail};
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::{expander::Expander, lexer::Lexer, parser::Parser};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// What is produced from a program of that name; nothing if that fails.
fn produced(name: &str, text: &str, dirs: &[PathBuf], target: &str, doc: bool) -> Option<String> {
    let mut e = Box::new(Expander::new(Parser::new(Lexer::new(name.to_string(), text.to_string()))));
    e.add_includes(dirs.iter());
    let e = Box::into_raw(e);
    // SAFETY: dropped below, when nothing refers to it any more.
    let r = unsafe { &*e }.expand().ok().and_then(|t| {
        macro_rules! form { ($F:ident) => { { let f = $F::new(t); let x = if doc { f.document() } else { f.display() }; x.ok() } } }
        match target { "text" => form!(PlainTextFormatter), "sexp" => form!(SExpFormatter), "html" => form!(HTMLFormatter), "xml" => form!(XMLFormatter), _ => form!(CSSFormatter) }
    });
    drop(unsafe { Box::from_raw(e) });
    r
}
/// `reads`: may read other files, which do not.
fn program(r: &mut Rng, size: usize, reads: bool) -> String {
    match if reads { r.below(13) } else { 3 + r.below(9) } {
        0 => "(p \"open".into(),
        1 => "(%nosuchmacro)".into(),
        12 => "(%include u)".into(),
        2 => "a (%include \"v.sex\") (%ifdef a yes no)".into(),
        3 => "(%define a b) x".into(),
        4 => String::new(),
        5 => crate::words::into(r, "(p (:style (: \"color\" red)) text) (br)\n(!doctype html)".into()),
        6 => crate::words::into(r, "(html (:lang en) (head (title T)) (body (p 1 < 2) (pre \"x\ny\")))".into()),
        7 => crate::words::into(r, "p (: color red) (@media (: a b))".into()),
        8 if reads => "(%embed u)  (%log x)  ".into(),
        9 => crate::gen::html_source(r, 1 + size.min(3)),
        _ => { let n = r.below(size + 1); let p = prog::new(r, &["define", "call", "do"]).program(n); let p = crate::words::into(r, p); if crate::run::meaning(&p, &[]).is_some() { p } else { "x".into() } },
    }
}
fn name(r: &mut Rng) -> String { r.pick(&["a", "a.sex", "b.sex", "sub/c.sex", "no", "u", "lib", "v.sex", "a--b.sex", " ", "caf\u{e9}.sex", "in", "html", "text", "sub", "v"]).into() }
const TARGETS: [&str; 5] = ["text", "sexp", "html", "xml", "css"];
fn arg(r: &mut Rng) -> String {
    if let Some(w) = crate::words::word(r) { if !w.contains('\0') && r.chance(1, 2) { return w } }
    match r.below(40) {
        0..=13 => format!("--{}", r.pick(&TARGETS)),
        14..=19 => name(r),
        20..=23 => format!("-I{}", r.pick(&["lib", "more", "lib/deep", "", ".", "nowhere", "a--b", "-", "v"])),
        24..=26 => "--nodoc".into(),
        27..=28 => "--nodocument".into(),
        29..=31 => "-".into(),
        32 => "-v".into(),
        33 => r.pick(&["--", "---", "--html ", "--HTML", "--doc", "--nodo", "--nodocs", "--text,sexp", "---html", "--v", "--I", "--htmlx"]).into(),
        34 => r.pick(&["-vv", "-i", "-Vx", "-x", "-html", "-nodoc", "-\u{e9}", "- ", "-v ", "-iI", "-0"]).into(),
        35 => String::new(),
        _ => name(r),
    }
}
pub fn check(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let Ok(seam) = std::env::var("VX_SEAM") else { return Ok(()) };
    let s = Scratch::new();
    let mut shown = String::new();
    for d in ["sub", "lib/deep", "more", "a--b"] { fs::create_dir_all(s.0.join(d)).unwrap() }
    for f in ["a", "a.sex", "b.sex", "sub/c.sex", "sub/v", "v", "u", "v.sex", "lib/u", "lib/v.sex", "more/u", "lib/deep/u", "a--b/u", "a--b.sex", " ", "caf\u{e9}.sex", "html", "in"] {
        if !r.chance(5, 9) { continue }
        if r.chance(1, 30) { fs::write(s.0.join(f), b"a\xff").unwrap(); shown += &format!("{f} is not UTF-8\n"); continue }
        let t = { let reads = !f.ends_with('u') && !f.ends_with("v.sex"); program(r, size, reads) };
        fs::write(s.0.join(f), &t).unwrap();
        shown += &format!("{f} holds {t:?}\n");
    }
    // Several files that read others, and where to look for those.
    let several = r.chance(1, 3);
    if several {
        for f in ["a", "b.sex", "sub/c.sex"] { if r.chance(3, 4) { let t = r.pick(&["(%include u)", "(p (%include \"v.sex\"))", "(%embed u)", "(%define u (%include u)) %u"]); fs::write(s.0.join(f), t).unwrap(); shown += &format!("{f} holds {t:?}\n") } }
        for f in ["lib/u", "more/u", "lib/v.sex"] { if r.chance(2, 3) { let t = format!("({f} x)"); fs::write(s.0.join(f), &t).unwrap(); shown += &format!("{f} holds {t:?}\n") } }
    }
    let mut given = program(r, size, true).into_bytes();
    if r.chance(1, 30) { given.push(0xff) }
    let n = if r.chance(1, 3) { 7 } else { 4 }; let n = 1 + r.below(n);
    let mut args: Vec<String> = (0..n).map(|_| arg(r)).collect();
    if several {
        if r.chance(4, 5) { args.clear() }
        for _ in 0..1 + r.below(3) { let at = r.below(args.len() + 1); args.insert(at, r.pick(&["a", "b.sex", "sub/c.sex", "a"]).into()) }
        for _ in 0..1 + r.below(2) { let at = r.below(args.len() + 1); args.insert(at, r.pick(&["-Ilib", "-Imore", "-Ilib", "-Isub"]).into()) }
        if r.chance(1, 4) { args.push("-".into()) }
    }
    if r.chance(if several { 19 } else { 15 }, 20) { let at = r.below(args.len() + 1); args.insert(at, format!("--{}", r.pick(&TARGETS))) }
    let shown = format!("{shown}standard input holds {:?}\nseam {args:?}", String::from_utf8_lossy(&given));
    trying(&shown);
    if std::env::var("DBG").is_ok() { println!("{shown}") }
    // What is asked for.
    let (mut files, mut dirs, mut target, mut doc, mut input, mut stop) = (vec![], vec![], None, true, false, None);
    for a in &args {
        if TARGETS.iter().any(|t| *a == format!("--{t}")) { target = Some(a[2..].to_string()) }
        else if a == "--nodoc" || a == "--nodocument" { doc = false }
        else if a == "-" { input = true }
        else if a == "-v" { stop = Some(0); break }
        else if a.starts_with("-I") { dirs.push(PathBuf::from(&a[2..])) }
        else if a.starts_with('-') || !Path::new(a).exists() { stop = Some(1); break }
        else { files.push(a.clone()) }
    }
    if stop.is_none() && target.is_none() { stop = Some(1) }
    let mut out = String::new();
    let code = match stop {
        Some(c) => c,
        None => {
            let mut all = vec![];
            if input || files.is_empty() { all.push(("<stdin>".to_string(), String::from_utf8(given.clone()).ok())) }
            for f in files { let t = fs::read(&f).ok().and_then(|t| String::from_utf8(t).ok()); all.push((f, t)) }
            let mut c = 0;
            for (n, t) in all { match t.and_then(|t| produced(&n, &t, &dirs, target.as_ref().unwrap(), doc)) { None => { c = 1; break }, Some(t) => { out += &t; out.push('\n') } } }
            c
        },
    };
    // What is done.
    let stdin = s.0.join(".stdin");
    fs::write(&stdin, &given).unwrap();
    let Ok(p) = Command::new(&seam).args(&args).current_dir(&s.0).env("RUST_BACKTRACE", "0").stdin(fs::File::open(&stdin).unwrap()).stdout(Stdio::piped()).stderr(Stdio::piped()).output() else { return Ok(()) };
    let said = !String::from_utf8_lossy(&p.stderr).trim().is_empty();
    let show = |out: &str, code: Option<i32>, said: bool| format!("exit code {code:?}{}\nstandard output:\n{out}", if code != Some(0) && !said { ", and nothing on standard error" } else { "" });
    crate::same(&shown, &show(&out, Some(code), true), &show(&String::from_utf8_lossy(&p.stdout), p.status.code(), said))
}
