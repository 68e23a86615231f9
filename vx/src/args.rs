//! What an `arguments!` schema means: a function whose contract is derived from the
//! schema's text alone.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

struct Rule { pats: Vec<TokenTree>, mandatory: bool, kind: String, one_of: Vec<String> }

fn rust_type(kind: &str) -> Option<&'static str> {
    Some(match kind { "literal" | "string" | "symbol" | "number" | "symbolic" => "Node<'a>", "list" => "Vec<ParseNode<'a>>", "any" => "ParseNode<'a>", _ => return None })
}
fn conv(kind: &str, n: &str) -> String {
    match kind { "list" => format!("({n})->nodes"), "any" => n.to_string(), _ => format!("atom_of({n})->0") }
}

struct Parsed { pats: Vec<(Vec<usize>, Vec<String>)>,  rules: Vec<Rule>, rest: Option<(String, Vec<String>)>, rule_texts: Vec<String>, fields: Vec<(String, String, String)>, tys: Vec<String>, ens: Vec<String>, places: Vec<Place>, rest_fit: Option<String> }
/// A position or keyword of the schema, and its rule.
enum Place { Int(usize, usize), Name(String, usize) }

fn parse(src: &str) -> Option<Parsed> {
    let ts: TokenStream = src.parse().ok()?;
    let mut it = ts.into_iter().peekable();
    let mut rules: Vec<Rule> = vec![];
    let mut rest: Option<(String, Vec<String>)> = None;
    while let Some(t) = it.next() {
        let TokenTree::Ident(what) = t else { return None };
        let what = what.to_string();
        let pats = if what == "rest" { vec![] } else { match it.next()? { TokenTree::Group(g) => g.stream().into_iter().collect(), _ => return None } };
        match it.next()? { TokenTree::Punct(p) if p.as_char() == ':' => {}, _ => return None }
        let TokenTree::Ident(kind) = it.next()? else { return None };
        let kind = kind.to_string(); rust_type(&kind)?;
        let mut one_of = vec![];
        if let Some(TokenTree::Group(g)) = it.peek().cloned() {
            if g.delimiter() != Delimiter::Bracket { return None; }
            it.next();
            for t in g.stream() { match t { TokenTree::Literal(l) => one_of.push(l.to_string()), TokenTree::Punct(p) if p.as_char() == ',' => {}, _ => return None } }
        }
        match it.next() { None => {}, Some(TokenTree::Punct(p)) if p.as_char() == ',' => {}, _ => return None }
        match what.as_str() {
            "mandatory" | "optional" => rules.push(Rule { pats, mandatory: what == "mandatory", kind, one_of }),
            "rest" => rest = Some((kind, one_of)),
            _ => return None,
        }
    }
    let strs = |v: &Vec<String>| format!("seq![{}]", v.iter().map(|s| format!("{s}@")).collect::<Vec<_>>().join(", ")).replace("seq![]", "Seq::empty()");
    let fits = |kind: &str, v: &Vec<String>| format!("Fit {{ kind: ArgKind::{}{}, one_of: {} }}", kind[..1].to_uppercase(), &kind[1..], strs(v));
    let mut fields: Vec<(String, String, String)> = vec![]; // name, type, ensures about a.<name>
    let mut numbers: std::collections::BTreeMap<usize, (String, String)> = Default::default();
    let mut rule_texts = vec![];
    let mut places = vec![];
    let mut pats = vec![];
    for (k, r) in rules.iter().enumerate() {
        let (mut ints, mut names) = (vec![], vec![]);
        for p in &r.pats {
            match p {
                TokenTree::Literal(l) => { let s = l.to_string(); if s.starts_with('"') { names.push(s); } else { ints.push(s.parse::<usize>().ok()?); } },
                TokenTree::Punct(p) if p.as_char() == '|' => {},
                _ => return None,
            }
        }
        rule_texts.push(format!("ArgRule {{ ints: {}, names: {}, mandatory: {}, fit: {} }}",
            format!("seq![{}]", ints.iter().map(|i| format!("{i}int")).collect::<Vec<_>>().join(", ")).replace("seq![]", "Seq::empty()"), strs(&names), r.mandatory, fits(&r.kind, &r.one_of)));
        pats.push((ints.clone(), names.clone()));
        let t = rust_type(&r.kind)?;
        let (ty, ens) = if r.mandatory { (t.to_string(), Box::new(|place: String, f: String| format!("{place} is Some && {f} == {}", conv(&r.kind, &format!("{place}->0")))) as Box<dyn Fn(String, String) -> String>) }
            else { (format!("Option<{t}>"), Box::new(|place: String, f: String| format!("{f} == (match {place} {{ Some(x) => Some({}), None => None }})", conv(&r.kind, "x"))) as Box<dyn Fn(String, String) -> String>) };
        for i in ints { places.push(Place::Int(i, k)); numbers.insert(i, (ty.clone(), ens(format!("positional(params@, {i})"), format!("a.number.{i}")))); }
        for n in names { places.push(Place::Name(n.clone(), k)); let f = n.trim_matches('"').to_string(); fields.push((f.clone(), ty.clone(), ens(format!("named(params@, {n}@)"), format!("a.r#{f}")))); }
    }
    let len = numbers.keys().max().cloned().unwrap_or(0);
    let mut tys = vec!["()".to_string()]; let mut ens = vec![];
    for i in 1..=len { match numbers.get(&i) { Some((t, e)) => { tys.push(t.clone()); ens.push(e.clone()); }, None => tys.push("()".into()) } }
    let rest_fit = rest.as_ref().map(|(k, v)| fits(k, v));
    Some(Parsed { pats, rules, rest, rule_texts, fields, tys, ens, places, rest_fit })
}

pub fn emit(name: &str, src: &str, proven: bool) -> Option<String> {
    let p = parse(src)?;
    let mut o = String::new();
    let st = name.replacen("vx_args", "VxArgs", 1); let sc = name.replacen("vx_args", "schema", 1);
    o += &format!("pub struct {st}<'a> {{ pub number: ({},), ", p.tys.join(", "));
    for (f, t, _) in &p.fields { o += &format!("pub r#{f}: {t}, "); }
    match &p.rest { Some((k, _)) => o += &format!("pub rest: Vec<{}>, pub ph: core::marker::PhantomData<&'a ()> }}\n", rust_type(k)?), None => o += "pub rest: (), pub ph: core::marker::PhantomData<&'a ()> }\n" }
    o += &format!("pub open spec fn {sc}() -> Schema {{ Schema {{ rules: {}, rest: {} }} }}\n",
        format!("seq![{}]", p.rule_texts.join(", ")).replace("seq![]", "Seq::empty()"),
        match &p.rest_fit { Some(f) => format!("Some({f})"), None => "None".into() });
    if !proven { o += &format!("#[verifier::external_body]\npub fn {name}<'a, 'n>(node: &'n ParseNode<'a>, params: &Vec<ParseNode<'a>>) -> (r: Result<((), {st}<'a>), ExpansionError<'a>>)\n{}{{ unimplemented!() }}\n", spec(name, &p)); }
    Some(o)
}

/// What the parse function of a schema guarantees.
fn spec(name: &str, p: &Parsed) -> String {
    let sc = name.replacen("vx_args", "schema", 1);
    let mut ens = p.ens.clone();
    for (_, _, e) in &p.fields { ens.push(e.clone()); }
    if let Some((k, _)) = &p.rest {
        if k == "any" { ens.push(format!("a.rest@ == others({sc}(), params@)")); }
        ens.push(format!("a.rest@.len() == others({sc}(), params@).len()"));
        ens.push(format!("forall|i: int| 0 <= i < a.rest@.len() ==> #[trigger] a.rest@[i] == {}", conv(k, &format!("others({sc}(), params@)[i]"))));
    }
    format!("    ensures r is Ok <==> accepts({sc}(), params@),\n        match r {{ Err(_) => true, Ok(p) => {{ let a = p.1; true{} }} }}\n",
        ens.iter().map(|e| format!("\n            && ({e})")).collect::<String>())
}

/// What is listed for rule `k` of schema `c`.
fn listed(c: &str, k: usize, p: &Parsed) -> String {
    let (ints, names) = &p.pats[k];
    let mut f = format!("        assert({c}.rules[{k}].ints.len() == {} && {c}.rules[{k}].names.len() == {});\n", ints.len(), names.len());
    for (i, x) in ints.iter().enumerate() { f += &format!("        assert({c}.rules[{k}].ints[{i}] == {x});\n"); }
    for (i, x) in names.iter().enumerate() { f += &format!("        assert({c}.rules[{k}].names[{i}] == {x}@);\n"); }
    f
}
pub fn matcher_facts(name: &str, src: &str, k: usize) -> Option<String> {
    let p = parse(src)?;
    if k >= p.rules.len() { return None; }
    Some(format!("    proof {{\n{}    }}\n", listed(&format!("{}()", name.replacen("vx_args", "schema", 1)), k, &p)))
}

/// The contract of an expansion: its specification, the invariant of the loop over the
/// rest, and the facts needed before the arguments are parsed.
pub fn contract(name: &str, src: &str, n: usize) -> Option<(String, Option<(String, String)>, String)> {
    let p = parse(src)?;
    let sc = format!("{}()", name.replacen("vx_args", "schema", 1));
    let loop1 = p.rest.as_ref().map(|(k, _)| {
        let at = conv(k, "*parser.trailing@[i]");
        let before = format!("    proof {{ assert forall|i: int| 0 <= i < parser.trailing@.len() implies fits(({sc}.rest->0), *(#[trigger] parser.trailing@[i])) by {{ assert(derefs(parser.trailing@)[i] == *parser.trailing@[i]); }} }}\n");
        (format!("    invariant\n        __vx_i1@.len() <= parser.trailing@.len(),\n        __vx_i1@ == parser.trailing@.skip(parser.trailing@.len() - __vx_i1@.len()),\n        __vx_c1@.len() == parser.trailing@.len() - __vx_i1@.len(),\n        forall|i: int| 0 <= i < __vx_c1@.len() ==> #[trigger] __vx_c1@[i] == {at},\n        forall|i: int| 0 <= i < parser.trailing@.len() ==> fits(({sc}.rest->0), *(#[trigger] parser.trailing@[i])),\n"), before)
    });
    let mut f = format!("    proof {{\n        reveal_with_fuel(rule_int, {0}); reveal_with_fuel(rule_name, {0});\n        let c = {sc};\n", p.rules.len() + 2);
    // The names, apart.
    let names: Vec<String> = p.places.iter().filter_map(|x| if let Place::Name(n, _) = x { Some(n.clone()) } else { None }).collect();
    for (i, a) in names.iter().enumerate() {
        f += &format!("        reveal_strlit({a});\n");
        for b in &names[..i] {
            let (x, y): (Vec<char>, Vec<char>) = (a.trim_matches('"').chars().collect(), b.trim_matches('"').chars().collect());
            if x.len() != y.len() { f += &format!("        assert({a}@.len() != {b}@.len());\n"); }
            else if let Some(k) = (0..x.len()).find(|&k| x[k] != y[k]) { f += &format!("        assert({a}@[{k}] != {b}@[{k}]);\n"); }
        }
    }
    for (k, _) in p.rules.iter().enumerate() {
        f += &format!("        assert(rules.patterns@[{k}].argument is Mandatory == c.rules[{k}].mandatory);\n        assert(fit_rep(typ_of(rules.patterns@[{k}].argument), c.rules[{k}].fit));\n");
        f += &listed("c", k, &p);
        for x in &p.places { match x {
            Place::Int(i, j) => f += &format!("        assert({}c.rules[{k}].ints.contains({i}));\n", if *j == k { "" } else { "!" }),
            Place::Name(a, j) => f += &format!("        assert({}c.rules[{k}].names.contains({a}@));\n", if *j == k { "" } else { "!" }),
        } }
    }
    f += "        assert(rules_rep(rules, c));\n        assert(schema_ok(c));\n        lemma_schema(rules, c, params@);\n";
    for x in &p.places { match x {
        Place::Int(i, j) => f += &format!("        assert(rule_int(c.rules, {i}) == Some(c.rules[{j}]));\n        lemma_fit_int(c, params@, {i});\n"),
        Place::Name(a, j) => f += &format!("        assert(rule_name(c.rules, {a}@) == Some(c.rules[{j}]));\n        lemma_fit_name(c, params@, {a}@);\n"),
    } }
    if p.rest.is_some() { f += "        lemma_fit_rest(c, params@); reveal(rest_fits);\n"; }
    f += "    }\n";
    let _ = n;
    Some((spec(name, &p), loop1, f))
}
