//! Token printer: newline after `;`, `{`, `}`; raw-text markers are replaced.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Default)]
pub struct Out {
    pub text: String,
    pub raws: Vec<String>,
    indent: usize,
}

impl Out {
    pub fn line(&self) -> usize {
        self.text.bytes().filter(|b| *b == b'\n').count() + 1
    }
    pub fn raw_id(&mut self, s: String) -> usize {
        self.raws.push(s);
        self.raws.len() - 1
    }
    pub fn nl(&mut self) {
        if !self.text.ends_with('\n') {
            while self.text.ends_with(' ') {
                self.text.pop();
            }
            self.text.push('\n');
        }
    }
    pub fn raw(&mut self, s: &str) {
        self.nl();
        self.text.push_str(s);
        self.nl();
    }
    fn pad(&mut self) {
        if self.text.ends_with('\n') {
            for _ in 0..self.indent {
                self.text.push_str("    ");
            }
        }
    }
    /// Is this `__vp_NAME ! ( n )` at position i? returns (NAME, n, tokens consumed)
    fn marker(ts: &[TokenTree], i: usize) -> Option<(String, usize, usize)> {
        if let TokenTree::Ident(id) = &ts[i] {
            let s = id.to_string();
            if let Some(n) = s.strip_prefix("__vp_") {
                if let (Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i + 1), ts.get(i + 2)) {
                    if p.as_char() == '!' {
                        let num: usize = g.stream().to_string().trim().parse().ok()?;
                        let mut used = 3;
                        if let Some(TokenTree::Punct(p)) = ts.get(i + 3) {
                            if p.as_char() == ';' {
                                used = 4;
                            }
                        }
                        return Some((n.to_string(), num, used));
                    }
                }
            }
        }
        None
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some((name, n, used)) = Self::marker(&v, i) {
                let r = self.raws[n].clone();
                match name.as_str() {
                    // statement-level raw text
                    "raw" => self.raw(&r),
                    // inline raw text
                    "inl" => {
                        self.pad();
                        self.text.push_str(&r);
                        self.text.push(' ');
                    }
                    _ => {}
                }
                i += used;
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut skip = 0;
                            // header markers: text that belongs before the brace
                            while skip < inner.len() {
                                match Self::marker(&inner, skip) {
                                    Some((name, n, used)) if name == "hdr" => {
                                        let r = self.raws[n].clone();
                                        self.raw(&r);
                                        skip += used;
                                    }
                                    _ => break,
                                }
                            }
                            self.pad();
                            self.text.push_str("{\n");
                            self.indent += 1;
                            let rest: TokenStream = inner[skip..].iter().cloned().collect();
                            self.tokens(rest);
                            self.indent -= 1;
                            self.nl();
                            self.pad();
                            self.text.push_str("}");
                            // keep method chains / else / commas on one line
                            match v.get(i + 1) {
                                Some(TokenTree::Punct(p)) if ".,;?)".contains(p.as_char()) => {}
                                Some(TokenTree::Ident(id)) if id == "else" => self.text.push(' '),
                                None => {}
                                _ => self.text.push('\n'),
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => (" ", " "),
                            };
                            self.pad();
                            self.text.push_str(o);
                            self.tokens(g.stream());
                            while self.text.ends_with(' ') {
                                self.text.pop();
                            }
                            self.text.push_str(c);
                            self.text.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    self.pad();
                    let c = p.as_char();
                    if ".,;?".contains(c) && self.text.ends_with(' ') && !(c == '.' && self.text.ends_with(". ")) {
                        self.text.pop();
                    }
                    self.text.push(c);
                    if c == ';' {
                        self.text.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        if !(c == '.' || c == '\'' ) {
                            self.text.push(' ');
                        }
                    }
                }
                t => {
                    self.pad();
                    self.text.push_str(&t.to_string());
                    self.text.push(' ');
                }
            }
            i += 1;
        }
    }
}
