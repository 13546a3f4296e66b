//! Prints tokens, one statement per line, and joins what must be joined.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, indent: usize) -> String {
    let mut p = Printer { out: String::new(), indent, fresh: true, glue: true };
    p.stream(ts, false);
    p.out
}

struct Printer {
    out: String,
    indent: usize,
    /// At the start of a line.
    fresh: bool,
    /// No space before the next token.
    glue: bool,
}

impl Printer {
    fn nl(&mut self) {
        if !self.fresh {
            self.out.push('\n');
            self.fresh = true;
            self.glue = true;
        }
    }
    fn tok(&mut self, s: &str) {
        if self.fresh {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.fresh = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn stream(&mut self, ts: TokenStream, braces: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let n = v.len();
        for (i, t) in v.into_iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::None {
                        self.stream(g.stream(), braces);
                    } else if g.delimiter() == Delimiter::Brace {
                        self.tok(a);
                        if g.stream().is_empty() {
                            self.tok(b);
                        } else {
                            self.indent += 1;
                            self.nl();
                            self.stream(g.stream(), true);
                            self.nl();
                            self.indent -= 1;
                            self.tok(b);
                        }
                        if braces && i + 1 < n {
                            self.nl();
                        }
                    } else {
                        self.glue = true;
                        self.tok(a);
                        self.glue = true;
                        self.stream(g.stream(), false);
                        self.glue = true;
                        self.tok(b);
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') {
                        self.glue = true;
                    }
                    self.tok(&c.to_string());
                    if p.spacing() == Spacing::Joint || matches!(c, '.' | '&' | '#' | '!' | '\'') {
                        self.glue = true;
                    }
                    if braces && (c == ';' || c == ',') {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if let Some(m) = s.strip_prefix("__MARK_") {
                        // replaced by verification text
                        self.nl();
                        self.tok(&format!("//@@{m}"));
                        self.nl();
                    } else {
                        self.tok(&s);
                    }
                }
                TokenTree::Literal(l) => self.tok(&l.to_string()),
            }
        }
    }
}
