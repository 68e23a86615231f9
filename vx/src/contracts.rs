//! Contract files: for each function of /repo under contract, the ghost text
//! that the extractor places around its (mechanically extracted) body.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub name: String,
    pub ret: Option<String>,
    pub sections: BTreeMap<String, String>,
    pub props: Vec<String>,
    pub trusted: bool,
    pub opts: BTreeSet<String>,
    pub file: String,
    pub line: usize,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>,
    pub skip: BTreeSet<String>,
    pub ghost: BTreeMap<String, String>,
    pub inherent: BTreeSet<String>,
    pub drop_fields: BTreeSet<String>,
    pub identity: BTreeSet<String>,
    pub types: BTreeSet<String>,
    pub attrs: BTreeMap<String, String>,
}

impl Contracts {
    pub fn load(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut cur: Option<String> = None;   // function
        let mut sec: Option<String> = None;   // section of it
        let mut ghost: Option<String> = None; // module
        for (i, line) in text.lines().enumerate() {
            if let Some(rest) = line.strip_prefix('@') {
                let mut w = rest.split_whitespace();
                let kw = w.next().unwrap_or("");
                let args: Vec<&str> = w.collect();
                ghost = None;
                match kw {
                    "fn" | "trusted" => {
                        let name = args[0].to_string();
                        let mut c = FnContract { name: name.clone(), trusted: kw == "trusted",
                            file: path.to_string(), line: i + 1, ..Default::default() };
                        let mut j = 1;
                        while j < args.len() {
                            match args[j] {
                                "->" => { c.ret = Some(args[j+1].to_string()); j += 2; },
                                p if p.starts_with('+') => { c.opts.insert(p[1..].to_string()); j += 1; },
                                p => { c.props.push(p.to_string()); j += 1; },
                            }
                        }
                        assert!(self.fns.insert(name.clone(), c).is_none(), "{path}:{}: contract {name} given twice", i+1);
                        cur = Some(name); sec = Some("spec".into());
                    },
                    "skip" => { for a in args { self.skip.insert(a.to_string()); } cur = None; sec = None; },
                    "inherent" => { for a in args { self.inherent.insert(a.to_string()); } cur = None; },
                    "drop_fields" => { for a in args { self.drop_fields.insert(a.to_string()); } cur = None; },
                    "identity" => { for a in args { self.identity.insert(a.to_string()); } cur = None; },
                    "types" => { for a in args { self.types.insert(a.to_string()); } cur = None; },
                    "attr" if !args.is_empty() => { self.attrs.insert(args[0].to_string(), args[1..].join(" ")); cur = None; },
                    "ghost" => { cur = None; sec = None; ghost = Some(args[0].to_string()); },
                    _ => { sec = Some(rest.trim().to_string()); assert!(cur.is_some(), "{path}:{}: section outside @fn", i + 1); },
                }
                continue;
            }
            if let Some(g) = &ghost {
                let t = self.ghost.entry(g.clone()).or_default();
                t.push_str(line); t.push('\n');
            } else if let (Some(c), Some(s)) = (&cur, &sec) {
                let t = self.fns.get_mut(c).unwrap().sections.entry(s.clone()).or_default();
                t.push_str(line); t.push('\n');
            } else if !line.trim().is_empty() && !line.starts_with("//") {
                panic!("{path}:{}: stray text", i + 1);
            }
        }
    }
}
