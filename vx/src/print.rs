//! Prints token streams with line breaks, substituting marker macros by ghost text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'m> { pub out: String, indent: usize, markers: &'m [String], sol: bool, nospace: bool }

fn marker(tts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
        = (tts.get(i), tts.get(i + 1), tts.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'m> Printer<'m> {
    pub fn new(markers: &'m [String]) -> Self { Printer { out: String::new(), indent: 0, markers, sol: true, nospace: true } }
    fn nl(&mut self) {
        if !self.sol { self.out.push('\n'); }
        self.sol = true;
    }
    fn tok(&mut self, s: &str) {
        if self.sol { for _ in 0..self.indent { self.out.push_str("    "); } }
        else if !self.nospace { self.out.push(' '); }
        self.out.push_str(s);
        self.sol = false; self.nospace = false;
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            if l.trim().is_empty() { continue; }
            for _ in 0..self.indent { self.out.push_str("    "); }
            self.out.push_str(l.trim_end());
            self.out.push('\n');
        }
    }
    pub fn stream(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some(k) = marker(&tts, i, "__vx_m") {
                let t = self.markers[k].clone();
                self.raw(&t);
                i += 3;
                if let Some(TokenTree::Punct(p)) = tts.get(i) { if p.as_char() == ';' { i += 1; } }
                continue;
            }
            if let Some(k) = marker(&tts, i, "__vx_text") {
                let t = self.markers[k].clone();
                self.raw(&t);
                i += 3;
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut rest = inner;
                            let mut looped = false;
                            if let Some(k) = marker(&rest, 0, "__vx_inv") {
                                let t = self.markers[k].clone();
                                self.raw(&t);
                                let mut n = 3;
                                if let Some(TokenTree::Punct(p)) = rest.get(3) { if p.as_char() == ';' { n = 4; } }
                                rest.drain(0..n);
                                looped = true;
                            }
                            if rest.is_empty() { self.tok("{ }"); }
                            else {
                                self.tok("{");
                                self.indent += 1; self.nl();
                                self.stream(rest.into_iter().collect());
                                self.indent -= 1; self.nl();
                                self.tok("}");
                            }
                            if looped && matches!(tts.get(i + 1), Some(TokenTree::Group(_))) { self.out.push(';'); }
                            match tts.get(i + 1) {
                                Some(TokenTree::Ident(id)) if id == "else" => {},
                                Some(TokenTree::Punct(_)) | None => {},
                                _ => self.nl(),
                            }
                        },
                        d => {
                            let (o, c) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                            if !o.is_empty() { self.tok(o); self.nospace = true; }
                            self.stream(g.stream());
                            if !c.is_empty() { if !self.sol { self.nospace = true; } self.tok(c); }
                        }
                    }
                },
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if matches!(ch, ',' | ';' | '.' | ':' | '?') && !self.sol {
                        // no space before
                        if ch != ':' { self.nospace = true; }
                    }
                    self.tok(&ch.to_string());
                    if p.spacing() == Spacing::Joint || ch == '.' && !matches!(tts.get(i+1), Some(TokenTree::Literal(_))) { self.nospace = true; }
                    if ch == ';' { self.nl(); }
                },
                t => self.tok(&t.to_string()),
            }
            i += 1;
        }
    }
    pub fn finish(mut self) -> String { self.nl(); self.out }
}
