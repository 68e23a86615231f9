//! Programs which read other files (E15), in a scratch directory of their own.
use crate::rng::Rng;
use crate::{prog, run, trying, Fail};
use std::fs;
use std::path::PathBuf;

pub struct Scratch(pub PathBuf, PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let old = std::env::current_dir().unwrap_or("/".into());
        let d = std::env::temp_dir().join(format!("seam-replay-{}", std::process::id()));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(&d).unwrap();
        Scratch(d, old)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::env::set_current_dir(&self.1); let _ = fs::remove_dir_all(&self.0); }
}
const DIRS: [&str; 4] = [".", "lib", "more", "lib/deep"];
const FILES: [&str; 7] = ["u", "u.sex", "v", "v.sex", "deep/u", "w.x", "w.x.sex"];

/// Files, a program, the include directories, and what all of that looks like.
pub fn make(r: &mut Rng, size: usize, wrapped: bool) -> (Scratch, String, Vec<PathBuf>, String) {
    let s = Scratch::new();
    let mut shown = String::new();
    for d in DIRS { fs::create_dir_all(s.0.join(d).join("deep")).unwrap() }
    let asked = ["u", "v", "w.x", "u.sex", "deep/u", "../u", "w", "", "lib/u", "none"];
    let reads = |r: &mut Rng| format!("({} {}{})", r.pick(&["%include", "%include", "%embed"]), if r.chance(1, 8) { "\n " } else { "" }, { let f = if wrapped { r.pick(&asked[..4]) } else { r.pick(&asked) }; if r.chance(1, 3) { format!("(%concat \"{f}\" \"\")") } else { format!("\"{f}\"") } });
    for d in DIRS { for f in FILES {
        if !(r.chance(1, 4) || wrapped && r.chance(2, 3)) { continue }
        let path = s.0.join(d).join(f);
        if r.chance(1, if wrapped { 200 } else { 25 }) { let _ = fs::create_dir_all(&path); shown += &format!("{d}/{f} is a directory\n"); continue }
        let text = match r.below(8) {
            0 => String::new(),
            1 if !wrapped || r.chance(1, 6) => "(p \"open".into(),
            2 => reads(r),
            1 => format!("(%define (from x) (q %x {d})) (%define v ({} (a \"b\")))", r.pick(&["s", "%from", "t"])),
            3 | 4 => { let n = r.below(size + 1); prog::new(r, &["define", "call", "do"]).program(n) },
            _ => format!(" ({} {d}/{f})\n(%define a {})", r.pick(&["p", "in"]), r.below(9)),
        };
        if r.chance(1, if wrapped { 200 } else { 25 }) { if fs::write(&path, b"a\xff\xfe").is_ok() { shown += &format!("{d}/{f} is not UTF-8\n") } continue }
        let mut text = crate::words::into(r, text);
        // Files as other tools leave them.
        if r.chance(1, 10) { text = match r.below(9) { 0 => format!("\u{feff}{text}"), 1 => text.replace('\n', "\r\n"), 2 => format!("#!/bin/seam\n{text}"), 3 => format!("{text}\n\n \t"), 4 => format!("\u{a0}{text}\u{3000}"), 5 => format!("{text} ;end"), 6 => format!("{text}\u{1a}"), 7 => format!("\0{text}"), _ => format!("---\na: b\n---\n{text}") } }
        if fs::write(&path, &text).is_ok() { shown += &format!("{d}/{f} holds {text:?}\n") }
    } }
    let mut inc: Vec<PathBuf> = vec![];
    for _ in 0..r.below(5) { inc.push(r.pick(&["lib", "more", "lib/deep", ".", "nowhere", "lib/"]).into()) }
    let mut src = String::new();
    for _ in 0..1 + r.below(3) {
        src += r.pick(&["", " ", "\n", "  "]);
        src += &match r.below(7) {
            0 => format!("(%define a {})", r.below(9)),
            1 => format!("(%namespace n {})", reads(r)),
            2 => "(%include)".to_string(),
            3 => "(%embed u v)".to_string(),
            4 => "%a".to_string(),
            _ => reads(r),
        };
        if wrapped { src += " "; src += &within(r, 2, &reads) }
        // Very many files, now and then.
        if wrapped && r.chance(1, 25) { src += " "; let n = r.below(120); for _ in 0..n { src += &reads(r) } }
        if r.chance(3, 4) { src = src.replace("(%include)", "(p)").replace("(%embed u v)", "(q)") }
    }
    if r.chance(1, 2) { src += " (%ifdef a %a none)" }
    src = crate::words::into(r, src);
    let i = format!("include directories {inc:?}\n{shown}{src}");
    (s, src, inc, i)
}
/// Reading within macros, and uses of what was read after it.
fn within(r: &mut Rng, depth: usize, reads: &dyn Fn(&mut Rng) -> String) -> String {
    if depth == 0 { return match r.below(5) { 0 => "(%ifdef v %v no)".into(), 1 => "(%ifdef from (%from (z)) no)".into(), 2 => "(b c)".into(), _ => reads(r) } }
    let mut w = |r: &mut Rng| within(r, depth - 1, reads);
    match r.below(10) {
        0 => { let (a, b) = (w(r), w(r)); format!("(%define (f x y) {a} (in %x {b} %y)) (%f (1 (2)) {}) (%f {} 3)", w(r), w(r)) },
        1 => format!("(%for x in (1 2 (3)) (%do %x {} %x))", w(r)),
        2 => format!("(%namespace m :separator \".\" {}) (%ifdef m.v %m.v none)", w(r)),
        3 => format!("(%match {} ({} {}) (_ {}))", w(r), r.pick(&["x", "(p _)", "(& xs)"]), w(r), w(r)),
        4 => format!("(%do {} {})", w(r), w(r)),
        5 => format!("(%map (%lambda (x) (%do %x {})) ({} 2 3))", w(r), w(r)),
        6 => format!("(%define kept {}) %kept %kept {}", w(r), w(r)),
        7 => format!("(%reverse ({} {})) (%join \"\" {} x)", w(r), w(r), w(r)),
        8 => format!("(%splat ({} {} 2))", w(r), w(r)),
        _ => format!("(p {} {})", w(r), w(r)),
    }
}
pub fn check(r: &mut Rng, size: usize) -> Result<(), Fail> {
    let (_s, src, inc, i) = make(r, size, false);
    trying(&i);
    let Some((want, _)) = run::meaning(&src, &inc) else { return Ok(()) };
    let s = |x: &Option<Vec<String>>| match x { None => "an error".to_string(), Some(v) => v.join("\n") };
    crate::same(&i, &s(&want), &s(&run::real(&src, &inc)))
}
