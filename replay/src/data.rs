//! Documents in TOML and YAML, written from what they mean; programs that read them (E17).
use crate::eval::{site_of, with_ws, Env, Eval, Stop, E};
use crate::gen::PN;
use crate::rng::Rng;
use seam::parse::parser::{Node, ParseNode};
use seam::parse::tokens::{Kind, Token};
use std::cell::RefCell;
use std::collections::HashMap;

/// A document; scalars that are no strings have the text that they are shown as.
#[derive(Clone, Debug)]
pub enum D { Str(String), Num(String, String), Sym(String), List(Vec<D>), Map(Vec<(String, D)>), Alias, Lists(Vec<(D, D)>) }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Lang { Toml, Yaml }
thread_local! { static KNOWN: RefCell<HashMap<(Lang, String), Option<D>>> = Default::default(); }

// ---- what they mean -------------------------------------------------------------
fn fine(d: &D) -> bool { match d { D::Alias | D::Lists(_) => false, D::List(x) => x.iter().all(fine), D::Map(x) => x.iter().all(|x| fine(&x.1)), _ => true } }
fn build(d: &D, call: &PN, w: &str) -> PN {
    let site = site_of(call);
    let n = |v: &str| Node { value: v.to_string(), site, leading_whitespace: w.to_string() };
    let mut kids = vec![];
    match d {
        D::Str(v) => return ParseNode::String(n(v)),
        D::Num(_, v) => return ParseNode::Number(n(v)),
        D::Sym(v) => return ParseNode::Symbol(n(v)),
        D::List(x) => for (i, d) in x.iter().enumerate() { kids.push(build(d, call, if i == 0 { "" } else { " " })) },
        D::Map(x) => for (i, (k, d)) in x.iter().enumerate() {
            kids.push(ParseNode::Attribute { keyword: k.clone(), node: Box::new(build(d, call, " ")), site, leading_whitespace: if i == 0 { "" } else { " " }.to_string() })
        },
        D::Alias | D::Lists(_) => unreachable!(),
    }
    ParseNode::List { nodes: kids.into_boxed_slice(), site, end_token: Token::new(Kind::RParen, ")", "", site), leading_whitespace: w.to_string() }
}
/// Each value under its path, what is inside of it before it.
fn paths(d: &D, at: Option<&str>, sep: &str, call: &PN, out: &mut Vec<(String, PN)>) {
    let inside = |k: &str| match at { None => k.to_string(), Some(p) => format!("{p}{sep}{k}") };
    match d {
        D::List(x) => for (i, d) in x.iter().enumerate() { paths(d, Some(&inside(&i.to_string())), sep, call, out) },
        D::Map(x) => for (k, d) in x { paths(d, Some(&inside(k)), sep, call, out) },
        _ => {},
    }
    if let Some(p) = at { out.push((p.to_string(), with_ws(&build(d, call, ""), " "))) }
}
pub fn expand(ev: &mut Eval, e: &mut Env, lang: Lang, call: &PN, text: &str, sep: &str) -> E {
    let Some(d) = KNOWN.with(|k| k.borrow().get(&(lang, text.to_string())).cloned()) else { return Err(Stop::Unknown) };
    let Some(d) = d else { return Err(Stop::Error) };
    if !fine(&d) { return Err(Stop::Error) }
    let mut o = vec![];
    paths(&d, None, sep, call, &mut o);
    for (k, n) in o { ev.create(e, k, vec![], vec![n])? }
    Ok(vec![build(&d, call, "")])
}

// ---- random documents -------------------------------------------------------------
const KEYS: [&str; 14] = ["a", "b", "c", "A", "z", "k", "key", "a/b", "0", "1", "a b", "\u{e9}", "a.b", ""];
const TEXTS: [&str; 16] = ["", "t", "two words", "10", "a/b", "\u{1f980}", "'", "a\"b", "\\", "l\nm", " s ", "x: y", "# no", "%a", "true", "\t"];
fn key(r: &mut Rng) -> String { if r.chance(2, 3) { KEYS[r.below(7)].into() } else { r.pick(&KEYS).into() } }
fn scalar(r: &mut Rng, lang: Lang) -> D {
    if lang == Lang::Yaml || r.chance(1, 3) {
        if let Some(w) = crate::words::word(r) { if !w.chars().any(|c| c.is_control() || c == '\u{feff}') { return D::Str(w) } }
        if r.chance(1, 6) { return D::Str(r.pick(&ODD).into()) }
        return D::Str(if r.chance(1, 2) { r.pick(&["v", "w", "1", "1.5", "yes"]).into() } else { r.pick(&TEXTS).into() })
    }
    match r.below(6) {
        0 => D::Sym(r.pick(&["true", "false"]).into()),
        1 => D::Sym(r.pick(&["1979-05-27", "07:32:00", "1979-05-27T07:32:00Z", "1979-05-27T07:32:00-07:00", "1979-05-27T07:32:00"]).into()),
        2 if r.chance(1, 2) => { let f = match r.below(4) { 0 => f64::from_bits(r.below(usize::MAX) as u64), 1 => r.below(1 << 53) as f64 / r.of(&[2.0, 8.0, 3.0, 10.0, 1e9, 1e15]), 2 => -(r.below(100000) as f64) / 1000.0, _ => r.of(&[16777217.5, 1.1, 1e16, 1e300, 5e-324, 0.1, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 1e15, 123456789.125]) }; D::Num(format!("{f:?}").replace("NaN", "nan"), format!("{f}")) },
        2 => { let (a, b) = r.of(&[("1.5", "1.5"), ("-0.25", "-0.25"), ("1.0", "1"), ("2e3", "2000"), ("1_0.5", "10.5")]); D::Num(a.into(), b.into()) },
        3 => { let (a, b) = r.of(&[("0x1f", "31"), ("+7", "7"), ("1_000", "1000"), ("0b101", "5"), ("-9223372036854775808", "-9223372036854775808"), ("9223372036854775807", "9223372036854775807"), ("0o17", "15")]); D::Num(a.into(), b.into()) },
        _ => { let n = (r.below(4000) as i64 - 2000).to_string(); D::Num(n.clone(), n) },
    }
}
fn doc(r: &mut Rng, lang: Lang, depth: usize) -> D {
    if depth == 0 || r.chance(1, 3) { return scalar(r, lang) }
    let n = if r.chance(1, 12) { 10 + r.below(3) } else { r.below(4) };
    if n > 4 { return D::List((0..n).map(|_| scalar(r, lang)).collect()) }
    if r.chance(1, 2) { D::List((0..n).map(|_| doc(r, lang, depth - 1)).collect()) } else { D::Map(entries(r, lang, depth - 1, n)) }
}
fn entries(r: &mut Rng, lang: Lang, depth: usize, n: usize) -> Vec<(String, D)> {
    let mut m: Vec<(String, D)> = vec![];
    for _ in 0..n { let k = key(r); if !m.iter().any(|x| x.0 == k) { m.push((k, doc(r, lang, depth))) } }
    m
}

// ---- in TOML ----------------------------------------------------------------------
fn basic(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c => o.push(c) } }
    o + "\""
}
fn toml_key(r: &mut Rng, k: &str) -> String {
    if !k.is_empty() && k.bytes().all(|c| c.is_ascii_alphanumeric()) && r.chance(4, 5) { k.into() } else if r.chance(1, 3) { format!("'{k}'") } else { basic(k) }
}
fn toml_value(r: &mut Rng, d: &D) -> String {
    match d {
        D::Str(s) if !s.contains(['\'', '\n', '\t']) && r.chance(1, 3) => format!("'{s}'"),
        D::Str(s) if r.chance(1, 8) => format!("\"\"\"\n{}\"\"\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
        D::Str(s) => basic(s),
        D::Num(s, _) | D::Sym(s) => s.clone(),
        D::List(x) => { let nl = if r.chance(1, 4) { "\n " } else { "" }; let mut v: Vec<String> = x.iter().map(|d| toml_value(r, d)).collect(); if !v.is_empty() && r.chance(1, 4) { v.last_mut().unwrap().push(',') } format!("[{nl}{}{nl}]", v.join(&format!(",{nl} "))) },
        D::Map(x) => { let v: Vec<String> = x.iter().map(|(k, d)| format!("{} = {}", toml_key(r, k), toml_value(r, d))).collect(); format!("{{ {} }}", v.join(", ")) },
        _ => unreachable!(),
    }
}
fn toml_table(r: &mut Rng, at: &str, m: &[(String, D)]) -> String {
    let (mut o, mut later) = (String::new(), vec![]);
    for (k, d) in m {
        if r.chance(1, 8) { o += "# remark\n" }
        match d {
            D::Map(_) if r.chance(1, 2) => later.push((k, d)),
            D::List(x) if !x.is_empty() && x.iter().all(|d| matches!(d, D::Map(_))) && r.chance(2, 3) => later.push((k, d)),
            D::Map(x) if !x.is_empty() && r.chance(1, 2) => { let k = toml_key(r, k); for (l, d) in x { o += &format!("{k}.{} = {}\n", toml_key(r, l), toml_value(r, d)) } },
            d => o += &format!("{} = {}\n", toml_key(r, k), toml_value(r, d)),
        }
    }
    for (k, d) in later {
        let path = format!("{at}{}", toml_key(r, k));
        match d {
            D::Map(x) => { o += &format!("[{path}]\n"); o += &toml_table(r, &format!("{path}."), x) },
            D::List(x) => for d in x { let D::Map(y) = d else { unreachable!() }; o += &format!("[[{path}]]\n"); o += &toml_table(r, &format!("{path}."), y) },
            _ => unreachable!(),
        }
    }
    o
}
/// The tables of TOML are kept in the order of their keys.
fn sorted(d: &D) -> D {
    match d {
        D::List(x) => D::List(x.iter().map(sorted).collect()),
        D::Map(x) => { let mut v: Vec<(String, D)> = x.iter().map(|(k, d)| (k.clone(), sorted(d))).collect(); v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes())); D::Map(v) },
        d => d.clone(),
    }
}

// ---- in YAML ----------------------------------------------------------------------
const ODD: [&str; 14] = ["~", "null", "-1", "0x1f", "1e3", "2001-01-01", "No", "-.inf", "+1", "12:30", "True", "0o7", "1_000", "a b"];
fn plain(s: &str) -> bool { ODD.contains(&s) || !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '.') }
fn yaml_scalar(r: &mut Rng, s: &str) -> String {
    let mark = if r.chance(1, 14) { r.pick(&["!!str ", "&n ", "!t "]) } else { "" };
    let v = if plain(s) && r.chance(2, 3) { s.to_string() } else if !s.contains(['\n', '\t']) && r.chance(1, 3) { format!("'{}'", s.replace('\'', "''")) } else { basic(s) };
    format!("{mark}{v}")
}
fn yaml_flow(r: &mut Rng, d: &D) -> String {
    match d {
        D::Str(s) => yaml_scalar(r, s),
        D::List(x) => { let v: Vec<String> = x.iter().map(|d| yaml_flow(r, d)).collect(); format!("[{}]", v.join(", ")) },
        D::Map(x) => { let v: Vec<String> = x.iter().map(|(k, d)| format!("{}: {}", yaml_scalar(r, k), yaml_flow(r, d))).collect(); format!("{{{}}}", v.join(", ")) },
        D::Alias => "*n".into(),
        D::Lists(x) => { let v: Vec<String> = x.iter().map(|(k, d)| format!("{}: {}", yaml_flow(r, k), yaml_flow(r, d))).collect(); format!("{{{}}}", v.join(", ")) },
        _ => unreachable!(),
    }
}
/// Lines without the indentation of the first.
fn yaml_block(r: &mut Rng, d: &D, deep: usize) -> String {
    let pad = " ".repeat(deep);
    let mut o = String::new();
    match d {
        D::List(x) if !x.is_empty() => for (i, d) in x.iter().enumerate() {
            if i > 0 { o += &pad }
            let whole = matches!(d, D::List(x) if !x.is_empty()) || matches!(d, D::Map(x) if !x.is_empty());
            if whole && r.chance(2, 3) { o += "- "; o += &yaml_block(r, d, deep + 2) } else if matches!(d, D::Str(s) if s.is_empty()) && r.chance(1, 2) { o += "-\n" }
            else { o += &format!("- {}\n", yaml_flow(r, d)) }
        },
        D::Map(x) if !x.is_empty() => for (i, (k, d)) in x.iter().enumerate() {
            if i > 0 { if r.chance(1, 10) { o += &format!("{pad}# remark\n") } o += &pad }
            let whole = matches!(d, D::List(x) if !x.is_empty()) || matches!(d, D::Map(x) if !x.is_empty());
            let k = yaml_scalar(r, k);
            if whole && r.chance(2, 3) { let by = 1 + r.below(3); o += &format!("{k}:\n{pad}{}", " ".repeat(by)); o += &yaml_block(r, d, deep + by) }
            else if matches!(d, D::Str(s) if s.is_empty()) && r.chance(1, 2) { o += &format!("{k}:\n") }
            else if let (D::Str(s), true) = (d, r.chance(1, 10)) { if plain(s) { o += &format!("{k}: |-\n{pad}  {s}\n") } else { o += &format!("{k}: {}\n", yaml_scalar(r, s)) } }
            else { o += &format!("{k}: {}\n", yaml_flow(r, d)) }
        },
        d => { o += &yaml_flow(r, d); o.push('\n') },
    }
    o
}
/// Puts what cannot be represented somewhere.
fn spoil(r: &mut Rng, d: &mut D, depth: usize) {
    match d {
        D::List(x) if !x.is_empty() && r.chance(2, 3) => { let i = r.below(x.len()); spoil(r, &mut x[i], depth + 1) },
        D::Map(x) if !x.is_empty() && r.chance(2, 3) => { let i = r.below(x.len()); spoil(r, &mut x[i].1, depth + 1) },
        d => *d = if r.chance(1, 2) { D::List(vec![D::Str("&".into()), D::Alias]) } else { D::Lists(vec![(D::List(vec![D::Str("a".into())]), D::Str("b".into())), (D::Str("c".into()), D::Str("d".into()))]) },
    }
}

// ---- pages of Markdown --------------------------------------------------------------
/// Blocks, and what they are in HTML. (None is a paragraph of several lines: the library loses the
/// line break if such a paragraph follows the frontmatter.)
const BLOCKS: [(&str, &str); 16] = [
    ("# T *x*", "<h1>T <em>x</em></h1>"), ("para `c` & \"q\"", "<p>para <code>c</code> &amp; &quot;q&quot;</p>"),
    ("| a | b |\n| - | - |\n| 1 | 2 |", "<table>\n<thead>\n<tr>\n<th>a</th>\n<th>b</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>1</td>\n<td>2</td>\n</tr>\n</tbody>\n</table>"),
    ("* [x] done\n* [ ] not", "<ul>\n<li><input type=\"checkbox\" disabled=\"\" checked=\"\" /> done</li>\n<li><input type=\"checkbox\" disabled=\"\" /> not</li>\n</ul>"),
    ("<div>raw</div>", "<div>raw</div>"), ("[l](javascript:alert) <b>b</b>", "<p><a href=\"javascript:alert\">l</a> <b>b</b></p>"),
    ("~s~ ~~t~~ $m$ www.example.com", "<p>~s~ ~~t~~ $m$ www.example.com</p>"), ("1. one\n2. two", "<ol>\n<li>one</li>\n<li>two</li>\n</ol>"),
    ("> quote", "<blockquote>\n<p>quote</p>\n</blockquote>"), ("***", "<hr />"), ("```js\ncode < 1\n```", "<pre><code class=\"language-js\">code &lt; 1\n</code></pre>"),
    ("one line", "<p>one line</p>"), ("under\n-----", "<h2>under</h2>"), ("<script>x</script>", "<script>x</script>"), ("%a", "<p>%a</p>"), ("\u{1f980} \u{e9}", "<p>\u{1f980} \u{e9}</p>"),
];
/// Blocks where line ends, blanks and odd characters matter. (Not used after frontmatter, see above.)
const MORE: [(&str, &str); 18] = [
    ("cr\r\nlf", "<p>cr\r\nlf</p>"), ("a\rb", "<p>a\rb</p>"), ("two  \nlines", "<p>two<br />\nlines</p>"), ("back\\\nslash", "<p>back<br />\nslash</p>"),
    ("nb\u{a0}sp", "<p>nb\u{a0}sp</p>"), ("a&b &copy; &amp; <b>x</b>", "<p>a&amp;b \u{a9} &amp; <b>x</b></p>"),
    ("![i](u \"t\")", "<p><img src=\"u\" alt=\"i\" title=\"t\" /></p>"), ("a\0b", "<p>a\u{fffd}b</p>"), ("trail  ", "<p>trail</p>"), ("`a  b`", "<p><code>a  b</code></p>"),
    ("<div>\r\nx\r\n</div>", "<div>\r\nx\r\n</div>"), ("x\u{2028}y", "<p>x\u{2028}y</p>"), ("a\tb", "<p>a\tb</p>"), ("```\r\nx\r\n```", "<pre><code>x\r\n</code></pre>"),
    ("line one\r\nline two\r\n\r\nanother", "<p>line one\r\nline two</p>\r\n<p>another</p>"), ("\\*a\\* &#65; 'q'", "<p>*a* A 'q'</p>"), ("a -- b ... c", "<p>a -- b ... c</p>"), ("\u{a0}lead", "<p>\u{a0}lead</p>"),
];
/// A page's frontmatter, and what it comes to.
#[derive(Clone)]
struct Page { front: Option<(Lang, String)>, html: String }
thread_local! { static PAGES: RefCell<HashMap<String, Page>> = Default::default(); }
pub fn page(ev: &mut Eval, e: &mut Env, call: &PN, text: &str, only: Option<&str>, sep: &str) -> E {
    let Some(p) = PAGES.with(|k| k.borrow().get(text).cloned()) else { return Err(Stop::Unknown) };
    if only != Some("content") {
        match &p.front {
            None => if only.is_some() { return Err(Stop::Error) },
            Some((lang, t)) => match expand(ev, e, *lang, call, t, sep) {
                Ok(_) => {},
                // Part of a document in YAML may have been read.
                Err(Stop::Error) if only.is_none() => if *lang == Lang::Yaml { return Err(Stop::Unknown) },
                Err(x) => return Err(x),
            },
        }
        if only.is_some() { return Ok(vec![]) }
    }
    Ok(vec![ParseNode::Raw(Node { value: p.html, site: site_of(call), leading_whitespace: crate::asm::ws(call).to_string() })])
}
fn page_call(r: &mut Rng) -> String {
    let front = if r.chance(1, 4) { None } else {
        let lang = if r.chance(1, 2) { Lang::Toml } else { Lang::Yaml };
        let n = r.below(4);
        let m = entries(r, lang, 2, n);
        let (t, d) = if lang == Lang::Toml { let t = toml_table(r, "", &m); if r.chance(1, 15) { (t + "x =", None) } else { (t, Some(sorted(&D::Map(m)))) } }
        else { let mut d = if m.is_empty() || r.chance(1, 6) { D::List((0..2).map(|_| doc(r, lang, 2)).collect()) } else { D::Map(m) };
            if r.chance(1, 12) { spoil(r, &mut d, 0) }
            if r.chance(1, 15) { (yaml_block(r, &d, 0) + "u: [", None) } else { (yaml_block(r, &d, 0).replace("'&'", "&n 1").replace("\"&\"", "&n 1"), Some(d)) } };
        let t = t.strip_suffix('\n').unwrap_or(&t).to_string();
        let fence = if lang == Lang::Toml { "+++" } else { "---" };
        if t.lines().any(|l| l.starts_with(fence)) { None } else {
            KNOWN.with(|k| k.borrow_mut().insert((lang, t.clone()), d));
            Some((lang, t))
        }
    };
    let (mut text, mut html) = (String::new(), String::new());
    if let Some((lang, t)) = &front { let f = if *lang == Lang::Toml { "+++" } else { "---" }; text += &format!("{f}\n{t}{}{f}\n", if t.is_empty() { "" } else { "\n" }); }
    let n = r.below(4);
    // What looks like frontmatter, but does not come first.
    if front.is_none() && r.chance(1, 4) {
        let (a, b) = r.of(&[("\n---\na: 1\n---", "<hr />\n<h2>a: 1</h2>"), (" ---\na: 1\n---", "<hr />\n<h2>a: 1</h2>"), ("\n\n+++\na = 1\n+++", "<p>+++\na = 1\n+++</p>"), (" +++\na = 1\n+++", "<p>+++\na = 1\n+++</p>"), ("b\n\n---\na: 1\n---", "<p>b</p>\n<hr />\n<h2>a: 1</h2>"), ("----\na: 1\n---", "<hr />\n<h2>a: 1</h2>"), ("--\na\n--", "<h2>--\na</h2>"), ("+++ a\n+++", "<p>+++ a\n+++</p>")]);
        text += a; html += b;
        if n > 0 { text += "\n\n"; html += "\n" }
    }
    for i in 0..n {
        let (mut a, mut b) = if front.is_none() && r.chance(1, 3) { r.of(&MORE) } else { r.of(&BLOCKS) };
        // The first end of a line decides how the lines the library adds will end.
        if i == 0 && n > 1 && a.contains('\r') { (a, b) = BLOCKS[0] }
        text += if i > 0 { "\n\n" } else if r.chance(1, 4) && front.is_some() { "\n" } else { "" };
        if i > 0 { html += "\n" }
        text += a; html += b;
        // Two lists would be one.
        if text.contains("* [x]") || text.contains("1. one") || text.contains("> quote") { break }
    }
    PAGES.with(|k| k.borrow_mut().insert(text.clone(), Page { front, html }));
    let only = match r.below(8) { 0 | 1 => " :only frontmatter", 2 | 3 => " :only content", 4 if r.chance(1, 6) => r.pick(&[" :only both", " :only (x)", " 1", " :x 1"]), 5 => " :only \"content\"", _ => "" };
    let sep = match r.below(7) { 0 => " :separator .", 1 => " :separator \"\"", 2 => " :separator \"::\"", _ => "" };
    if r.chance(1, 40) { return format!("(%markdown {}{only})", r.pick(&["", "a", "(\"# a\")", "1"])) }
    if r.chance(1, 6) { format!("(%markdown{sep}{only} \"{}\")", quoted(&text)) } else { format!("(%markdown \"{}\"{only}{sep})", quoted(&text)) }
}
// ---- programs -------------------------------------------------------------------
fn quoted(s: &str) -> String { s.chars().map(|c| match c { '"' => "\\\"".to_string(), '\\' => "\\\\".into(), '\n' => "\\n".into(), '\t' => "\\t".into(), c => c.to_string() }).collect() }
fn call(r: &mut Rng) -> String {
    let lang = if r.chance(1, 2) { Lang::Toml } else { Lang::Yaml };
    let (text, d) = if lang == Lang::Toml {
        let n = r.below(5);
        let m = entries(r, lang, 3, n);
        let t = toml_table(r, "", &m);
        if r.chance(1, 20) { (t + r.pick(&["x =", "= 1", "y = [1", "[u", "q = \"\nq = 2"]), None) } else { (t, Some(sorted(&D::Map(m)))) }
    } else {
        let mut d = if r.chance(1, 8) { scalar(r, lang) } else { let n = 1 + r.below(4); if r.chance(2, 3) { D::Map(entries(r, lang, 3, n)) } else { D::List((0..n).map(|_| doc(r, lang, 3)).collect()) } };
        if r.chance(1, 8) { spoil(r, &mut d, 0) }
        let whole = !matches!(d, D::Str(_)) && r.chance(3, 4);
        let t = if whole { yaml_block(r, &d, 0) } else { yaml_flow(r, &d) };
        // An alias needs its anchor.
        let t = t.replace("'&'", "&n 1").replace("\"&\"", "&n 1");
        let t = if r.chance(1, 5) { format!("---\n{t}") } else { t };
        let t = if r.chance(1, 8) { format!("{}\n{}", t.trim_end_matches('\n'), r.pick(&["---\nz: 9\n", "...\n", "---\n- other\n"])) } else { t };
        if r.chance(1, 20) { (t + r.pick(&["\n[", "\n}: {", "\n\"u"]), None) } else { (t, Some(d)) }
    };
    // What was made of it cannot always be predicted if it was meant to be wrong.
    let wrong = d.is_none();
    if !wrong { KNOWN.with(|k| k.borrow_mut().insert((lang, text.clone()), d)); }
    let name = if lang == Lang::Toml { "toml" } else { r.pick(&["yaml", "yaml", "json"]) };
    let sep = match r.below(7) { 0 => " :separator .", 1 => " :separator \"\"", 2 => " :separator \"::\"", 3 => " :separator 0", _ => "" };
    if r.chance(1, 25) { return format!("(%{name} \"{}\" {})", quoted(&text), r.pick(&["1", ":sep 1", ":separator (x)", ":separator \".\" :separator \"/\""])) }
    if r.chance(1, 40) { return format!("(%{name} {})", r.pick(&["", "a", "(\"a: 1\")", "1"])) }
    if r.chance(1, 6) { format!("(%{name}{sep} \"{}\")", quoted(&text)) } else { format!("(%{name} \"{}\"{sep})", quoted(&text)) }
}
pub fn program(r: &mut Rng, pages: bool) -> String {
    PAGES.with(|k| k.borrow_mut().clear());
    KNOWN.with(|k| k.borrow_mut().clear());
    let mut o = String::new();
    let n = if r.chance(1, 4) { 3 } else { 1 };
    for _ in 0..n {
        o += r.pick(&["", " ", "\n", "\n  "]);
        if r.chance(1, 5) { o += &format!("(%define {} old) ", r.pick(&["a", "b", "a/0", "a.b", "0"])) }
        let c = if pages { page_call(r) } else { call(r) };
        o += &match r.below(9) {
            0 => format!("(p {c})"),
            1 => format!("(%define d {c}) %d"),
            2 => format!("(p {c} (%ifdef \"a\" %a no))"),
            3 => format!("(%do (%splat {c}) (%ifdef \"a/0\" %a/0 no))"),
            4 => format!("(%namespace n {c})"),
            5 => format!("(%define (f) {c}) (%f) (%f)"),
            6 => format!("(%namespace n :separator \".\" {c} (%define u 1))"),
            _ => c,
        };
    }
    o
}
