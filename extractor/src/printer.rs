//! Token printer: one statement per line, and expansion of the loop / closure /
//! ghost markers that `rewrite` leaves in the token stream.
use proc_macro2::{Delimiter, TokenStream, TokenTree, Spacing};
use std::collections::BTreeMap;

pub struct Marks {
    pub loops: BTreeMap<usize, [String; 6]>,
    pub texts: Vec<String>, // __verif_text!(n) -> texts[n]
}

pub fn print(ts: TokenStream, m: &Marks) -> String {
    let mut s = String::new();
    go(ts, m, None, &mut s);
    s
}

fn marker(tt: &TokenTree, prefix: &str) -> Option<usize> {
    if let TokenTree::Ident(i) = tt {
        let t = i.to_string();
        if let Some(r) = t.strip_prefix(prefix) {
            return r.parse().ok();
        }
    }
    None
}

fn go(ts: TokenStream, m: &Marks, inside: Option<usize>, s: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        let tt = &toks[i];
        if let Some(n) = marker(tt, "__VEXPR_") {
            if s.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                s.push(' ');
            }
            s.push_str(&m.texts[n]);
            i += 1;
            continue;
        }
        if let Some(n) = marker(tt, "__VTEXT_") {
            s.push('\n');
            s.push_str(&m.texts[n]);
            s.push('\n');
            i += 1;
            // swallow the `;` that makes the marker a statement
            if let Some(TokenTree::Punct(p)) = toks.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("(", ")"),
                };
                if g.delimiter() == Delimiter::Brace {
                    if let Some(f) = g.stream().into_iter().next() {
                        if let Some(k) = marker(&f, "__VLOOP_") {
                            s.push('\n');
                            if let Some(l) = m.loops.get(&k) {
                                s.push_str(&l[0]);
                            }
                            s.push_str("{\n");
                            if let Some(l) = m.loops.get(&k) {
                                s.push_str(&l[1]);
                            }
                            let rest: TokenStream = g.stream().into_iter().skip(2).collect();
                            let open = !matches!(rest.clone().into_iter().last(), None | Some(TokenTree::Group(_)) | Some(TokenTree::Punct(_)))
                                || matches!(rest.clone().into_iter().last(), Some(TokenTree::Group(n)) if n.delimiter() == Delimiter::Parenthesis);
                            go(rest, m, Some(k), s);
                            if let Some(l) = m.loops.get(&k) {
                                // a tail expression of the body becomes a statement before the ghost code
                                if open && !l[2].trim().is_empty() {
                                    s.push(';');
                                }
                                s.push('\n');
                                s.push_str(&l[2]);
                            }
                            s.push_str("}\n");
                            if let Some(l) = m.loops.get(&k) {
                                s.push_str(&l[3]);
                            }
                            // Verus takes a block right after a loop for part of its header
                            if matches!(toks.get(i + 1), Some(TokenTree::Group(n)) if n.delimiter() == Delimiter::Brace) {
                                s.push_str(";\n");
                            }
                            i += 1;
                            continue;
                        }
                    }
                }
                s.push_str(o);
                go(g.stream(), m, inside, s);
                s.push_str(c);
            }
            TokenTree::Ident(id) => {
                // ghost code on the way back to the loop's head
                if (id == "continue" || id == "break") && s.trim_end().ends_with(['{', ';', '}']) {
                    if let Some(l) = inside.and_then(|k| m.loops.get(&k)) {
                        s.push_str(&l[if id == "continue" { 4 } else { 5 }]);
                    }
                }
                if s.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '"' || c == ')' || c == ']') {
                    s.push(' ');
                }
                s.push_str(&id.to_string());
            }
            TokenTree::Literal(l) => {
                if s.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                    s.push(' ');
                }
                s.push_str(&l.to_string());
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '\'' {
                    s.push(' ');
                    s.push(c);
                } else {
                    // a joint punct glues to the next one; otherwise leave a space
                    s.push(c);
                    if p.spacing() == Spacing::Alone && !matches!(c, ':' | '.' | '!' | '?' | '#') {
                        s.push(' ');
                    }
                    if c == ';' {
                        s.push('\n');
                    }
                }
            }
        }
        i += 1;
    }
}
