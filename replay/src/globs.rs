//! Listing files (E20): programs about a scratch directory.
use crate::eval::Stop;
use crate::files::Scratch;
use crate::rng::Rng;
use crate::{run, trying, Fail};
use std::cmp::Ordering;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};

// ---- what it means --------------------------------------------------------------
/// Does the name match: `*`, `?`, `[abc]`, `[!abc]` and plain characters; nothing if that is no pattern.
fn valid(p: &[char]) -> bool {
    match p {
        [] => true,
        ['*', '*', ..] => false,
        ['[', rest @ ..] => {
            let r = if rest.first() == Some(&'!') { &rest[1..] } else { rest };
            // A `]` at the start stands for itself.
            match r.iter().skip(1).position(|c| *c == ']') { Some(k) => valid(&r[k + 2..]), None => false }
        },
        [_, rest @ ..] => valid(rest),
    }
}
fn matches(p: &[char], s: &[char]) -> bool {
    match (p, s) {
        ([], []) => true,
        (['*', rest @ ..], _) => (0..=s.len()).any(|k| matches(rest, &s[k..])),
        (['?', rest @ ..], [_, t @ ..]) => matches(rest, t),
        (['[', rest @ ..], [c, t @ ..]) => {
            let (not, r) = if rest.first() == Some(&'!') { (true, &rest[1..]) } else { (false, rest) };
            let k = 1 + r.iter().skip(1).position(|c| *c == ']').unwrap();
            (r[..k].contains(c) != not) && matches(&r[k + 1..], t)
        },
        ([a, rest @ ..], [b, t @ ..]) => a == b && matches(rest, t),
        _ => false,
    }
}
/// The matching paths, in the order of their names.
fn find(at: &Path, parts: &[&str], out: &mut Vec<PathBuf>) {
    let [p, rest @ ..] = parts else { out.push(at.to_path_buf()); return };
    let dir = if at.as_os_str().is_empty() { Path::new(".") } else { at };
    let Ok(d) = fs::read_dir(dir) else { return };
    let mut names: Vec<String> = d.filter_map(|e| e.ok()?.file_name().into_string().ok()).collect();
    names.sort();
    let p: Vec<char> = p.chars().collect();
    for n in names { if matches(&p, &n.chars().collect::<Vec<_>>()) { find(&at.join(n), rest, out) } }
}
fn rank(p: &Path) -> (bool, bool, String, PathBuf) {
    let e = p.extension().map(|e| e.to_string_lossy().to_string());
    (!fs::metadata(p).unwrap().is_dir(), e.is_some(), e.unwrap_or_default(), p.to_path_buf())
}
/// The paths in the order asked for.
pub fn listing(pattern: &str, kind: &str, sort: &str, order: &str) -> Result<Vec<String>, Stop> {
    let (root, rel) = match pattern.strip_prefix('/') { Some(r) => ("/", r), None => ("", pattern) };
    let parts: Vec<&str> = rel.split('/').collect();
    if parts.iter().any(|p| !valid(&p.chars().collect::<Vec<_>>())) { return Err(Stop::Error) }
    let mut l = vec![];
    if parts.iter().any(|p| p.is_empty() || *p == "." || *p == "..") {
        // What the library finds, in the order of names.
        let Ok(g) = glob::glob(pattern) else { return Err(Stop::Error) };
        for p in g { match p { Ok(p) => l.push(p), Err(_) => return Err(Stop::Unknown) } }
    } else {
        find(Path::new(root), &parts, &mut l);
    }
    l.retain(|p| match fs::metadata(p) { Err(_) => false, Ok(m) => match kind { "file" => m.is_file(), "directory" => m.is_dir(), _ => true } });
    let time = |p: &PathBuf| -> Option<SystemTime> { let m = fs::metadata(p).ok()?; if sort == "created" { m.created().ok() } else { m.modified().ok() } };
    match sort {
        "name" => l.sort(),
        "type" => { if l.iter().any(|p| !p.is_dir() && !p.is_file()) { return Err(Stop::Unknown) } l.sort_by_key(|p| rank(p)) },
        "modified" | "created" => {
            if l.iter().any(|p| time(p).is_none()) { return Err(Stop::Unknown) }
            l.sort_by(|a, b| match time(b).cmp(&time(a)) { Ordering::Equal => a.cmp(b), o => o });
        },
        _ => l.reverse(),
    }
    if order == "descending" { l.reverse() }
    Ok(l.iter().map(|p| p.to_string_lossy().to_string()).collect())
}

// ---- programs ---------------------------------------------------------------------
const NAMES: [&str; 30] = ["[ab]", "[!a]", "*", "?", "*.txt", "[a]", "d", "e.d", "b.c.txt", "z", "a", "b", "a.txt", "b.txt", "a.md", "z.md", ".hid", "A", "a b", "é.txt", "c.tar.gz", "x.", "10", "9", "a-b", "b!", "A.TXT", "z.TXT", "c.Md", "a.TXT"];
fn call(r: &mut Rng, root: &Path) -> String {
    let part = |r: &mut Rng| r.pick(&["*", "*", "*", "*", "*", "*", "*.*", "*.txt", "*.md", "?", "a*", "[ab]*", "[!a]*", "*.*", "a", "sub", "a.txt", "none", "[ab]", "[!a]", "[[]ab]", "[*]", "[a]", "[?]*"]).to_string();
    let mut pat = if r.chance(1, 3) { format!("sub/{}", part(r)) } else { part(r) };
    if r.chance(1, 4) { pat = format!("{pat}/{}", part(r)) }
    if r.chance(1, 12) { pat = format!("{}/{pat}", root.display()) }
    if r.chance(1, 20) { pat = r.pick(&["[", "a[b", "***", "a**b", "sub/[!", "**a"]).to_string() }
    if r.chance(1, 10) { pat = match r.below(9) { 0 => "./".into(), 1 => ".".into(), 2 => "../*".into(), 3 => format!("./{pat}"), 4 => format!("{pat}/"), 5 => pat.replace('/', "//"), 6 => format!("sub/../{pat}"), 7 => String::new(), _ => format!("././{pat}") } }
    let pat = if r.chance(1, 8) && !pat.is_empty() && !pat.contains(['[', ']', '!', '?', '*']) { pat } else { format!("\"{pat}\"") };
    let mut opts = vec![];
    if r.chance(1, 2) { opts.push(format!(":type {}", r.pick(&["file", "directory", "any", "file", "directory", "\"file\""]))) }
    if r.chance(4, 5) { opts.push(format!(":sort {}", r.pick(&["name", "type", "modified", "created", "modified", "type", "name", "none"]))) }
    if r.chance(1, 2) { opts.push(format!(":order {}", r.pick(&["ascending", "descending", "descending"]))) }
    if r.chance(1, 25) { opts.push(r.pick(&[":type folder", ":sort size", ":order up", ":x 1", "b", ":type (file)"]).to_string()) }
    if r.chance(1, 40) { return format!("(%glob {})", opts.join(" ")) }
    let k = r.below(opts.len() + 1);
    opts.insert(k, pat);
    format!("(%glob {})", opts.join(r.pick(&[" ", " ", "\n  "])))
}
fn grow(r: &mut Rng, dir: &Path, deep: bool, shown: &mut String) {
    let _ = fs::create_dir_all(dir);
    let base = SystemTime::UNIX_EPOCH + Duration::from_secs(1_500_000_000);
    let n = r.below(14);
    for _ in 0..n {
        let name = r.of(&NAMES);
        let p = dir.join(name);
        if p.symlink_metadata().is_ok() { continue }
        let what = match r.below(14) {
            0..=7 => { let _ = fs::write(&p, "x"); "a file" },
            8..=10 => { if deep { grow(r, &p, false, shown) } else { let _ = fs::create_dir(&p); } "a directory" },
            11 => { let _ = symlink(r.pick(&["nowhere", "sub/nowhere", "."]), &p); "a link" },
            12 => { let _ = symlink(r.pick(&["a", "a.txt", "sub"]), &p); "a link" },
            _ => { let _ = std::os::unix::net::UnixListener::bind(&p); "a socket" },
        };
        // (Milliseconds: apart by less than a second, by more, and before the epoch.)
        let t = r.of(&[0i64, 100_000, 200_000, 200_200, 200_900, 201_100, -1_600_000_000_000]);
        if !what.contains("link") && r.chance(3, 4) { if let Ok(f) = fs::File::open(&p) { let _ = f.set_modified(if t < 0 { base - Duration::from_millis(t.unsigned_abs()) } else { base + Duration::from_millis(t as u64) }); } }
        *shown += &format!("{} is {what}, of time {t}\n", p.display());
    }
}
pub fn check(r: &mut Rng, _size: usize) -> Result<(), Fail> {
    let s = Scratch::new();
    let mut shown = String::new();
    grow(r, Path::new("sub"), false, &mut shown);
    grow(r, Path::new(""), true, &mut shown);
    let mut src = String::new();
    let n = if r.chance(1, 4) { 2 } else { 1 };
    for _ in 0..n {
        src += r.pick(&["", " ", "\n", "  "]);
        let c = call(r, &s.0);
        src += &match r.below(8) {
            0 => format!("(p {c})"),
            1 => format!("(%define d {c}) %d"),
            2 => format!("(p a {c} b)"),
            3 => format!("(%for f in (%list {c}) (p %f))"),
            4 => format!("(%sort (%list {c}))"),
            _ => c,
        };
    }
    let i = format!("in a directory where\n{shown}{src}");
    trying(&i);
    let Some((want, _)) = run::meaning(&src, &[]) else { if std::env::var("DBG").is_ok() { println!("UNKNOWN {src}"); } return Ok(()) };
    if std::env::var("DBG").is_ok() { println!("{:?} {src}", want.as_ref().map(|w| w.len())); }
    let s = |x: &Option<Vec<String>>| match x { None => "an error".to_string(), Some(v) => v.join("\n") };
    crate::same(&i, &s(&want), &s(&run::real(&src, &[])))
}
