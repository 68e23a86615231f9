//! Words and numbers that the source under test mentions more often than the unchanged one: they may matter to what changed.
use crate::rng::Rng;
use std::sync::OnceLock;

static WORDS: OnceLock<(Vec<String>, Vec<usize>)> = OnceLock::new();
fn known() -> &'static (Vec<String>, Vec<usize>) {
    WORDS.get_or_init(|| {
        let get = |k: &str| std::env::var(k).unwrap_or_default();
        (get("VX_WORDS").split('\u{1f}').filter(|w| !w.is_empty()).map(String::from).collect(), get("VX_NUMBERS").split(' ').filter_map(|n| n.parse().ok()).collect())
    })
}
fn any() -> bool { let k = known(); !k.0.is_empty() || !k.1.is_empty() }
fn one(r: &mut Rng) -> String {
    let (w, n) = known();
    let i = r.below(w.len() + n.len());
    if i < w.len() { return match r.below(8) { 0 => w[i].to_uppercase(), 1 => w[i].to_lowercase(), _ => w[i].clone() } }
    let k = n[i - w.len()];
    match r.below(5) { 0 => (k + 1).to_string(), 1 => k.saturating_sub(1).to_string(), 2 if k <= 3000 || k <= 70000 && r.chance(1, 30) => "x".repeat(k + r.below(3).saturating_sub(1)), 3 => format!("-{k}"), _ => k.to_string() }
}
/// One of them, perhaps with something around it; now and then, if there are any.
pub fn word(r: &mut Rng) -> Option<String> {
    if !any() || !r.chance(1, 5) { return None }
    let w = one(r);
    Some(match r.below(6) { 0 => format!("{w}x"), 1 => format!("x{w}"), 2 => format!("{w}a{}", one(r)), 3 => format!("{w}{}", one(r)), _ => w })
}
fn quoted(w: &str) -> String { w.chars().map(|c| match c { '"' => "\\\"".to_string(), '\\' => "\\\\".into(), c => c.to_string() }).collect() }
/// How many there might have to be of something.
pub fn count(r: &mut Rng) -> Option<usize> {
    if r.chance(1, 12) { number(r) } else { None }
}
/// One of the numbers, or nearly.
pub fn number(r: &mut Rng) -> Option<usize> {
    let (_, n) = known();
    if n.is_empty() { return None }
    let k = n[r.below(n.len())];
    if k <= 300 { Some(k + r.below(4).saturating_sub(1)) } else { None }
}
/// A source text, with some of them in place of words of its own.
pub fn into(r: &mut Rng, s: String) -> String {
    if !any() || r.chance(1, 2) { return s }
    let mut s = s;
    for _ in 0..1 + r.below(3) {
        let mut at = vec![];
        let (mut inside, mut word) = (false, false);
        let mut before = ' ';
        for (i, c) in s.char_indices() {
            if c == '"' && before != '\\' { inside = !inside }
            let w = c.is_ascii_alphanumeric();
            if w && !word && before != '\\' { at.push((i, inside, before)) }
            word = w;
            before = c;
        }
        // Not into templates, of which malformed ones break the library that fills them in.
        if s.contains("%format") { at.retain(|x| !x.1) }
        if at.is_empty() { return s }
        let (i, inside, before) = at[r.below(at.len())];
        let end = s[i..].find(|c: char| !c.is_ascii_alphanumeric()).map_or(s.len(), |n| i + n);
        let old = s[i..end].to_string();
        let (_, n) = known();
        if !inside && !n.is_empty() && r.chance(1, 6) {
            let k = n[r.below(n.len())];
            if k <= 300 { let k = k + r.below(3).saturating_sub(1); let more = match r.below(4) { 0 if k <= 100 => format!("{}{old}{}", "(p ".repeat(k), ")".repeat(k)), 1 => format!("{old} {}", (0..k).map(|i| i.to_string()).collect::<Vec<_>>().join(" ")), 2 => old.repeat(k), _ => vec![old; k].join(" ") }; s.replace_range(i..end, &more); continue }
        }
        let w = one(r);
        let w = match r.below(6) { 0 => format!("{w}{old}"), 1 => format!("{old}{w}"), 2 => format!("{w}{old}{}", one(r)), _ => w };
        let w = if s.contains("%format") && w.contains(['{', '}']) { old.clone() } else { w };
        let plain = !w.is_empty() && !w.contains(|c: char| c.is_whitespace() || "()\";\\".contains(c));
        let new = if inside { quoted(&w) } else if before == '%' || before == ':' || plain && r.chance(1, 2) { if plain { w } else { old } } else { format!("\"{}\"", quoted(&w)) };
        s.replace_range(i..end, &new);
    }
    s
}
