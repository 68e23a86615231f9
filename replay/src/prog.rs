//! Random programs in the macro language.
use crate::rng::Rng;

pub const NAMES: [&str; 8] = ["a", "b", "c", "x", "y", "z", "in", "&r"];
pub const MACROS: [&str; 4] = ["f", "g", "h", "a"];
const WORDS: [&str; 22] = ["a", "b", "x", "p", "1", "2", "10", "-3", "1.5", "+2", "\"\"", "\"t\"", "\"two w\"", "\"10\"", "\"\\n\"", "\"a/b\"", "in", "&r", "\u{e9}", "\"\u{1f980}\"", "div", "0"];
const KEYS: [&str; 4] = ["k", "l", "x", "key"];

pub struct Gen<'r> { pub r: &'r mut Rng, pub focus: &'static [&'static str], pub vars: Vec<String>, pub macros: Vec<(String, Vec<Par>)>, pub wild: bool }
#[derive(Clone)]
pub enum Par { Name(String), Rest, KwRest, Key(String), List(usize), Lit(String) }

const FORMS: [&str; 24] = ["do", "define", "lambda", "ifdef", "match", "raw", "string", "concat", "number", "symbol", "log", "join", "list", "strip", "splat",
    "reverse", "sort", "for", "map", "filter", "apply", "get", "namespace", "call"];

impl<'r> Gen<'r> {
    fn odd(&mut self) -> bool { self.wild && self.r.chance(1, 12) }
    fn gap(&mut self) -> &'static str { if self.r.chance(2, 3) { " " } else { self.r.pick(&["\n", "  ", "\n  ", "\t", " ; c\n ", "\r\n"]) } }
    fn seq(&mut self, parts: Vec<String>) -> String {
        let mut o = String::from("(");
        for (i, p) in parts.iter().enumerate() { if i > 0 || self.r.chance(1, 20) { o += self.gap() } o += p }
        if self.r.chance(1, 6) { o += self.gap() }
        o + ")"
    }
    pub fn word(&mut self) -> String {
        if self.r.chance(1, 6) && !self.vars.is_empty() { return format!("%{}", self.r.of(&self.vars)) }
        self.r.pick(&WORDS).to_string()
    }
    fn literal(&mut self, d: usize) -> String {
        if self.odd() { return self.any(d) }
        if d > 0 && self.r.chance(1, 8) { let k = self.r.pick(&["concat", "string", "join", "ifdef", "raw"]); return self.form(k, d - 1) }
        self.word()
    }
    fn literals(&mut self, d: usize, at_least: usize) -> Vec<String> { let n = at_least + self.r.below(4); (0..n).map(|_| self.literal(d)).collect() }
    fn attribute(&mut self, d: usize) -> String { let k = self.r.pick(&KEYS); let v = if self.r.chance(1, 2) { self.word() } else { self.any(d) }; format!(":{k}{}{v}", if self.r.chance(1, 8) { "\n" } else { " " }) }
    fn list(&mut self, d: usize) -> String {
        let n = self.r.below(5);
        let mut p = vec![];
        for _ in 0..n { p.push(if self.r.chance(1, 6) { self.attribute(d.saturating_sub(1)) } else if d > 0 && self.r.chance(1, 2) { self.any(d - 1) } else { self.word() }) }
        // A list headed by a macro is a call.
        if p.first().map_or(false, |x| x.starts_with('%')) && !self.odd() { p[0] = "p".into() }
        self.seq(p)
    }
    fn anys(&mut self, d: usize, max: usize) -> Vec<String> { let n = self.r.below(max + 1); (0..n).map(|_| if self.r.chance(1, 10) { self.attribute(d) } else { self.any(d) }).collect() }
    pub fn any(&mut self, d: usize) -> String {
        if d == 0 || self.r.chance(1, 4) { return if self.r.chance(1, 6) { "()".into() } else { self.word() } }
        if self.r.chance(1, 4) { return self.list(d - 1) }
        let k = if self.r.chance(1, 2) && !self.focus.is_empty() { self.r.pick(self.focus) } else { self.r.pick(&FORMS) };
        self.form(k, d - 1)
    }
    /// A place for a list: a list, a variable, or a call giving one.
    fn some_list(&mut self, d: usize) -> String {
        if self.odd() { return self.any(d) }
        if d > 0 && self.r.chance(1, 4) { let k = self.r.pick(&["list", "reverse", "sort"]); return self.form(k, d - 1) }
        self.list(d)
    }
    fn callee(&mut self) -> String {
        if self.macros.is_empty() || self.r.chance(1, 3) { return self.r.pick(&["do", "list", "concat", "string", "strip", "number", "symbol", "splat", "raw", "reverse"]).to_string() }
        let i = self.r.below(self.macros.len());
        self.macros[i].0.clone()
    }
    fn pattern(&mut self, d: usize, like: Option<&str>) -> String {
        if let Some(v) = like { if self.r.chance(1, 3) { return if self.r.chance(1, 6) { self.akin(v) } else { v.into() } } }
        match self.r.below(7) {
            0 => self.r.pick(&["1", "\"t\"", "10", "\"\"", "\"10\""]).to_string(),
            1 if d > 0 => { let n = self.r.below(4); let p = (0..n).map(|_| self.pattern(d - 1, None)).collect(); self.seq(p) },
            2 => { let k = self.r.pick(&KEYS); let v = self.pattern(0, None); format!(":{k} {v}") },
            3 => self.r.pick(&["&r", "&&k", "&", "&&"]).to_string(),
            _ => { let n = self.r.pick(&NAMES).to_string(); self.vars.push(n.clone()); n },
        }
    }
    fn params(&mut self) -> Vec<Par> {
        let keys = self.focus.contains(&"apply") || self.r.chance(1, 4);
        let n = self.r.below(if keys { 6 } else { 4 });
        let mut p: Vec<Par> = (0..n).map(|_| match self.r.below(8) {
            0 => Par::Rest, 1 => Par::KwRest, 2 => Par::Key(self.r.pick(&KEYS).into()), 3 => Par::List(self.r.below(3)), 4 => Par::Lit(self.r.pick(&["1", "\"t\""]).into()),
            5 if keys => Par::Key(self.r.pick(&KEYS[..2]).into()),
            _ => Par::Name(self.r.pick(&NAMES[..7]).into()),
        }).collect();
        if !self.odd() {
            let mut seen = [false; 2];
            p.retain(|x| match x { Par::Rest => !std::mem::replace(&mut seen[0], true), Par::KwRest => !std::mem::replace(&mut seen[1], true), _ => true });
        }
        p
    }
    fn param(&mut self, p: &Par) -> String {
        match p {
            Par::Name(n) => { self.vars.push(n.clone()); n.clone() },
            Par::Rest => { self.vars.push("r".into()); "&r".into() },
            Par::KwRest => { self.vars.push("s".into()); "&&s".into() },
            Par::Key(k) => { self.vars.push(k.clone()); format!(":{k} {}", self.r.pick(&WORDS)) },
            Par::List(n) => { let p = (0..*n).map(|i| { let x = NAMES[(i + 3) % 8].to_string(); self.vars.push(x.clone()); x }).collect(); self.seq(p) },
            Par::Lit(s) => s.clone(),
        }
    }
    fn fits(&mut self, p: &[Par], d: usize) -> Vec<String> {
        let mut o: Vec<String> = vec![];
        let mut named = vec![];
        for p in p {
            match p {
                Par::Name(_) => o.push(self.any(d)),
                Par::Rest => o.extend((0..self.r.below(3)).map(|_| self.word()).collect::<Vec<_>>()),
                Par::KwRest => for _ in 0..self.r.below(4) { named.push(self.attribute(d)) },
                Par::Key(k) => for _ in 0..self.r.below(4) { let v = if self.r.chance(1, 2) { self.word() } else { self.any(d) }; named.push(format!(":{k} {v}")) },
                Par::List(n) => { let v = (0..*n).map(|_| { let w = self.word(); if w.starts_with('%') { "1".into() } else { w } }).collect(); o.push(self.seq(v)) },
                Par::Lit(s) => { let s = if self.odd() { self.akin(s) } else { s.clone() }; o.push(s) },
            }
        }
        // More than fits at the end goes to & wherever that is.
        for n in named { let at = self.r.below(o.len() + 1); o.insert(at, n) }
        if self.odd() { if self.r.chance(1, 2) { o.pop(); } else { let w = self.word(); o.push(w) } }
        o
    }
    fn body(&mut self, d: usize, max: usize) -> Vec<String> {
        // Shows all the variables.
        if !self.vars.is_empty() && self.r.chance(1, 3) {
            let from = self.vars.len().saturating_sub(5);
            let mut v: Vec<String> = self.vars[from..].iter().map(|x| format!("%{x}")).collect();
            v.dedup();
            v.insert(0, "v".into());
            return vec![self.seq(v)];
        }
        // What one round leaves behind for the next.
        if self.r.chance(1, 10) {
            let n = self.r.pick(&NAMES[..6]);
            let w = self.word();
            let mut b = vec![format!("(%ifdef {n} (d %{n}) u)")];
            b.push(if self.r.chance(1, 2) { format!("(%define {n} {w})") } else { format!("(%define {n} (%ifdef {n} (%do %{n} {w}) {w}))") });
            if self.r.chance(1, 3) { b.swap(0, 1) }
            return b;
        }
        let n = self.r.below(max) + 1;
        (0..n).map(|_| if self.r.chance(1, 8) { let k = self.r.pick(&["define", "namespace", "call"]); self.form(k, d.saturating_sub(1)) } else { self.any(d) }).collect()
    }
    /// Runs `f` and forgets the variables it added, mostly.
    fn inside<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T { let n = self.vars.len(); let r = f(self); if self.r.chance(9, 10) { self.vars.truncate(n) } r }
    pub fn form(&mut self, k: &str, d: usize) -> String {
        let mut o = vec![format!("%{k}")];
        match k {
            "define" => {
                if self.r.chance(1, 2) {
                    let name = self.r.pick(&NAMES[..7]).to_string();
                    // Names like those that namespaces make.
                    let name = if self.r.chance(1, 12) { match self.r.below(6) { 0 => format!("/{name}"), 1 => format!("{name}/"), 2 => format!("ns/{name}"), 3 => format!(".{name}"), 4 => format!("a/{name}"), _ => format!("n{name}") } } else { name };
                    o.push(name.clone());
                    o.extend(self.anys(d, 2));
                    self.vars.push(name);
                } else {
                    let name = self.r.pick(&MACROS).to_string();
                    let p = self.params();
                    let (head, b) = self.inside(|g| { let mut h = vec![name.clone()]; for x in &p { h.push(g.param(x)) } (g.seq(h), g.body(d, 2)) });
                    o.push(head);
                    o.extend(b);
                    self.macros.retain(|m| m.0 != name);
                    self.vars.retain(|v| *v != name);
                    self.macros.push((name, p));
                }
                if self.odd() { o.remove(1); }
            },
            "lambda" => {
                let p = self.params();
                let (head, b) = self.inside(|g| { let h: Vec<String> = p.iter().map(|x| g.param(x)).collect(); (if h.len() == 1 && g.r.chance(1, 2) { h[0].clone() } else { g.seq(h) }, g.body(d, 2)) });
                o.push(head);
                o.extend(b);
                let l = self.seq(o);
                if self.r.chance(1, 8) { return l }
                let a = self.fits(&p, d);
                let mut c = vec![self.r.pick(&["%apply", "%apply", "%map", "%filter"]).to_string(), l];
                c.extend(a);
                return self.seq(c);
            },
            "ifdef" => { let n = if self.r.chance(1, 2) { self.r.pick(&["a", "b", "x", "q", "\"a\"", "1"]).to_string() } else { self.vars.last().cloned().unwrap_or("a".into()) }; o.push(n); let n = 1 + self.r.below(2); for _ in 0..n { o.push(self.any(d)) } if self.odd() { let n = self.r.below(o.len()); o.truncate(n + 1) } },
            "match" => {
                let v = if self.r.chance(1, 2) { self.list(0) } else { self.word() };
                o.push(v.clone());
                for _ in 0..self.r.below(4) {
                    let arm = self.inside(|g| { let mut a = vec![g.pattern(2, Some(&v))]; if !g.r.chance(1, 10) { a.extend(g.body(d, 2)) } g.seq(a) });
                    o.push(arm);
                }
                if self.odd() { let w = self.word(); o.push(w) }
            },
            "raw" | "string" | "concat" | "number" | "symbol" | "log" => {
                let mut l = self.literals(d, 0);
                if k == "log" { l.truncate(0) }
                o.extend(l)
            },
            "join" => {
                o.extend(self.literals(d, 1));
                if self.r.chance(1, 2) { let at = 1 + self.r.below(o.len()); let v = if self.odd() { self.word() } else { self.r.pick(&["true", "false", "\"true\""]).to_string() }; let n = self.near("trailing"); let v = self.near(&v); o.insert(at, format!(":{n} {v}")) }
            },
            "for" => {
                let (d2, l) = (d, self.some_list(d));
                let items = self.inside(|g| { let deep = g.r.chance(1, 3) as usize; let p = g.pattern(deep, None); let mut v = vec![p, "in".into(), l]; v.extend(g.body(d2, 2)); v });
                o.extend(items);
                if self.odd() { let i = 1 + self.r.below(o.len() - 1); o.remove(i); }
            },
            "map" | "filter" | "apply" => { let f = self.callee(); o.push(f); let n = self.r.below(4); for _ in 0..n { let x = self.any(d); o.push(x) } },
            "reverse" => { let l = self.some_list(d); o.push(l); if self.odd() { let w = self.word(); o.push(w) } },
            "sort" => {
                // Sorting algorithms differ by length.
                let n = if let Some(n) = crate::words::count(self.r) { n } else if self.r.chance(1, 10) { 20 + self.r.below(25) } else if self.r.chance(1, 30) { 40 + self.r.below(100) } else { self.r.below(6) };
                let keys = ["1", "2", "10", "1.5", "-3", "a", "b", "B", "ab", "\"10\"", "\"\"", "1e2", "007", "9223372036854775807", "9223372036854775806", "1.0", "+1", "nan", "inf", "-0", "0"];
                let mut l: Vec<String> = (0..n).map(|_| if self.r.chance(5, 6) { self.r.pick(&keys).to_string() } else { self.literal(d) }).collect();
                if l.first().map_or(false, |x| x.starts_with('%')) { l[0] = "1".into() }
                let l = if self.r.chance(1, 6) { self.some_list(d) } else { self.seq(l) };
                o.push(l);
                if self.r.chance(1, 3) { let v = if self.odd() { self.word() } else { self.r.pick(&["ascending", "descending"]).to_string() }; let n = self.near("order"); let v = self.near(&v); o.push(format!(":{n} {v}")) }
                if self.r.chance(1, 4) { let f = self.callee(); o.push(format!(":key {f}")) }
            },
            "get" => {
                let sep = if self.r.chance(1, 3) { self.r.pick(&[".", "/", ", ", ""]) } else { "/" };
                let (path, tree) = self.path(d, sep);
                o.push(if path.contains([' ', ',']) || path.is_empty() || self.r.chance(1, 2) { format!("\"{path}\"") } else { path });
                o.push(tree);
                if sep != "/" || self.r.chance(1, 6) { o.push(format!(":separator \"{sep}\"")) }
                if self.odd() { let i = 1 + self.r.below(o.len() - 1); o.remove(i); }
            },
            "namespace" => {
                o.push(self.r.pick(&["ns", "\"n s\"", "1", "a"]).into());
                if self.r.chance(1, 3) { o.push(format!(":separator {}", self.r.pick(&[".", "\"\"", "\"/\""]))) }
                if self.odd() { let a = self.attribute(0); o.push(a) }
                let b = self.inside(|g| g.body(d, 3));
                o.extend(b);
            },
            "call" => {
                if self.macros.is_empty() || self.odd() { o[0] = format!("%{}", self.r.pick(&["f", "nope", "a"])); o.extend(self.anys(d, 3)); return self.seq(o) }
                let i = self.r.below(self.macros.len());
                let (n, p) = self.macros[i].clone();
                o[0] = format!("%{n}");
                o.extend(self.fits(&p, d));
            },
            _ => o.extend(self.anys(d, 4)),
        }
        // The same option twice.
        if self.r.chance(1, 10) {
            let option = match k { "join" => ":trailing true", "sort" => ":order descending", "get" => ":separator \".\"", _ => "" };
            if !option.is_empty() { let at = 1 + self.r.below(o.len()); o.insert(at, option.into()) }
        }
        self.seq(o)
    }
    /// Another literal that may mean the same.
    fn akin(&mut self, w: &str) -> String {
        if let Some(q) = w.strip_prefix('"').and_then(|w| w.strip_suffix('"')) {
            return match self.r.below(5) { 0 if !q.is_empty() && !q.contains([' ', '\\', '/']) => q.into(), 1 => format!("\"{q} \""), 2 => format!("\" {q}\""), 3 if !q.contains('\\') => format!("\"{}\"", q.to_uppercase()), _ => format!("(%raw {w})") };
        }
        if w.parse::<f64>().is_ok() {
            let (sign, n) = match w.strip_prefix(['-', '+']) { Some(n) => (&w[..1], n), None => ("", w) };
            return match self.r.below(6) { 0 if !n.contains(['.', 'e']) => format!("{w}.0"), 1 => format!("{sign}0{n}"), 2 if sign.is_empty() => format!("+{n}"), 3 => format!("{w}e0"), 4 => format!("\"{w}\""), _ => format!("-{n}") };
        }
        if w.starts_with(['(', '%']) { return w.into() }
        match self.r.below(3) { 0 => w.to_uppercase(), 1 => format!("\"{w}\""), _ => format!("{w}{w}") }
    }
    /// Now and then, not quite the word.
    fn near(&mut self, w: &str) -> String {
        if !self.r.chance(1, 12) || w.starts_with(['"', '(', '%']) { return w.into() }
        match self.r.below(9) {
            0 => w.to_uppercase(),
            1 => format!("{w}s"),
            2 => w[..w.len() - w.chars().last().map_or(0, char::len_utf8)].to_string() + if w.len() < 2 { "z" } else { "" },
            3 => format!("\" {w}\""),
            4 => format!("\"{w} \""),
            5 => format!("\"{w}\\n\""),
            6 => format!("\"{w}\""),
            7 => { let mut c = w.chars(); c.next().map_or(w.into(), |f| f.to_uppercase().collect::<String>() + c.as_str()) },
            _ => format!("x{w}"),
        }
    }
    /// A path and a tree it may lead through.
    fn path(&mut self, d: usize, sep: &str) -> (String, String) {
        let n = 1 + self.r.below(3);
        let mut tree = if self.r.chance(1, 3) { "()".to_string() } else { let w = self.word(); if d > 0 && self.r.chance(1, 4) { self.list(d) } else { w } };
        let mut path = vec![];
        for _ in 0..n {
            let len = self.r.below(4);
            let mut l: Vec<String> = vec!["p".into()];
            l.extend((0..len).map(|_| if self.r.chance(1, 3) { let k = self.r.pick(&["k", "1", "x"]); format!(":{k} {}", self.r.pick(&WORDS)) } else { self.r.pick(&WORDS).to_string() }));
            let at = 1 + self.r.below(l.len());
            if self.r.chance(1, 2) { let k = self.r.pick(&["k", "1", "x", "9"]); l.insert(at, format!(":{k} {tree}")); path.push(k.to_string()) } else { l.insert(at, tree); path.push(at.to_string()) }
            if self.odd() { *path.last_mut().unwrap() = self.r.pick(&["0", "1", "+1", "-1", "9", "k", "", "99999999999999999999999"]).into() }
            tree = self.seq(l);
        }
        path.reverse();
        (path.join(sep), tree)
    }
    /// Macros that call one another.
    fn chain(&mut self) -> String {
        let often = self.r.chance(1, 2);
        let k = match if often { crate::words::number(self.r) } else { None } { Some(k) if k <= 80 || self.r.chance(1, 10) => k, Some(_) => 3, None if self.r.chance(1, 16) => 20 + self.r.below(60), None => 1 + self.r.below(8) };
        let mut o = format!("(%define (c0 x) {})\n", self.r.pick(&["%x", "(p %x)", "%x %x", "(%ifdef y %y %x)"]));
        for i in 0..k {
            let call = match self.r.below(6) { 0 => format!("(%ifdef x (%c{i} %x) z)"), 1 => format!("(%do (%c{i} %x))"), 2 => format!("(q (%c{i} %x))"), 3 => format!("(%define y %x) (%c{i} %x)"), _ => format!("(%c{i} %x)") };
            o += &format!("(%define (c{} x) {call})\n", i + 1);
        }
        let w = self.word();
        o + &format!("(%c{k} {w})\n")
    }
    pub fn program(&mut self, size: usize) -> String {
        let d = 1 + size.min(3);
        let n = 1 + self.r.below(2 + size.min(4));
        let mut o = String::new();
        for i in 0..self.r.below(4) {
            if i > 0 { o += self.gap() }
            o += &self.form("define", d.min(2));
            o += "\n";
        }
        if self.r.chance(1, 60) { let c = self.chain(); if self.r.chance(1, 2) { return c } o += &c }
        for _ in 0..n {
            o += self.gap();
            let k = if !self.focus.is_empty() && self.r.chance(1, 2) { Some(self.r.pick(self.focus)) } else { None };
            o += &match k { Some(k) => self.form(k, d), None => if self.r.chance(1, 6) { self.form("define", d) } else { self.any(d) } };
        }
        o
    }
}
pub fn new<'r>(r: &'r mut Rng, focus: &'static [&'static str]) -> Gen<'r> {
    let wild = r.chance(1, 4);
    Gen { r, focus, vars: vec![], macros: vec![], wild }
}
