//! Token printer: one statement per line, literal text spliced at markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// `__vx_splice ! (N)` is replaced by `texts[N]`.
pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut o = String::new();
    go(ts, texts, &mut o);
    o
}

fn go(ts: TokenStream, texts: &[String], o: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = true;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "__vx_splice" && i + 2 < v.len() {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    o.push('\n');
                    o.push_str(&texts[n]);
                    o.push('\n');
                    i += 3;
                    glue = true;
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !glue && g.delimiter() != Delimiter::None {
                    o.push(' ');
                }
                o.push_str(a);
                go(g.stream(), texts, o);
                o.push_str(b);
                glue = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !glue {
                    o.push(' ');
                }
                o.push(c);
                if c == ';' {
                    o.push('\n');
                }
                glue = p.spacing() == Spacing::Joint || c == '\'';
            }
            t => {
                if !glue {
                    o.push(' ');
                }
                o.push_str(&t.to_string());
                glue = false;
            }
        }
        i += 1;
    }
}
