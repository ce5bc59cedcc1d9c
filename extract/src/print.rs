//! Token printer with newlines; expands the raw-text markers `__vraw!{N}` and `__vinv!{N}`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Raw<'a> {
    pub raw: &'a [String],
    pub inv: &'a dyn Fn(usize) -> String,
}

fn marker(v: &[TokenTree], i: usize) -> Option<(String, usize)> {
    // ident ! { N }
    if let TokenTree::Ident(id) = &v[i] {
        let n = id.to_string();
        if n == "__vraw" || n == "__vinv" {
            if let (Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                let k: usize = g.stream().to_string().trim().parse().ok()?;
                return Some((n, k));
            }
        }
    }
    None
}

pub fn print(ts: TokenStream, raw: &Raw) -> String {
    let mut s = String::new();
    go(ts, raw, &mut s, 0);
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("  ");
    }
}
fn go(ts: TokenStream, raw: &Raw, s: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some((n, k)) = marker(&v, i) {
            if n == "__vraw" {
                nl(s, ind);
                s.push_str(raw.raw[k].trim_end());
                nl(s, ind);
            }
            i += 3;
            // swallow optional ;
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if !inner.is_empty() {
                        if let Some((n, k)) = marker(&inner, 0) {
                            if n == "__vinv" {
                                nl(s, ind);
                                s.push_str((raw.inv)(k).trim_end());
                                nl(s, ind);
                            }
                        }
                    }
                    if inner.is_empty() {
                        s.push_str("{ } ");
                    } else {
                        s.push('{');
                        nl(s, ind + 1);
                        go(g.stream(), raw, s, ind + 1);
                        nl(s, ind);
                        s.push_str("} ");
                    }
                    // newline after a block unless followed by punctuation / else
                    match v.get(i + 1) {
                        Some(TokenTree::Ident(id)) if id != "else" => nl(s, ind),
                        _ => {}
                    }
                }
                Delimiter::Parenthesis => {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    // keep a space after keywords
                    if s.chars().last().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
                        let w: String = s.chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<Vec<_>>().into_iter().rev().collect();
                        if ["in", "return", "match", "if", "while", "let", "mut", "else", "as", "move", "break"].contains(&w.as_str()) {
                            s.push(' ');
                        }
                    } else {
                        s.push(' ');
                    }
                    s.push('(');
                    go(g.stream(), raw, s, ind + 1);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    go(g.stream(), raw, s, ind + 1);
                    s.push_str("] ");
                }
                Delimiter::None => go(g.stream(), raw, s, ind),
            },
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, '.' | ',' | ';' | '?') {
                    while s.ends_with(' ') && !s.ends_with("\n ") {
                        s.pop();
                    }
                }
                s.push(c);
                if c == ';' {
                    nl(s, ind);
                } else if c == ',' {
                    if s.len() > 100 && s.rsplit('\n').next().map(|l| l.len()).unwrap_or(0) > 90 {
                        nl(s, ind)
                    } else {
                        s.push(' ')
                    }
                } else if p.spacing() == Spacing::Alone && c != '.' {
                    s.push(' ');
                }
            }
        }
        i += 1;
    }
}
