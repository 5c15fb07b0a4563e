use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    rec(ts, 0, &mut s, false);
    s
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("  ");
    }
}

fn rec(ts: TokenStream, ind: usize, out: &mut String, braces: bool) {
    for t in ts {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push('{');
                    if g.stream().is_empty() {
                        out.push('}');
                    } else {
                        nl(out, ind + 1);
                        rec(g.stream(), ind + 1, out, true);
                        nl(out, ind);
                        out.push('}');
                    }
                    if braces {
                        nl(out, ind);
                    } else {
                        out.push(' ');
                    }
                }
                Delimiter::Parenthesis => {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    // keep a space after keywords/operators
                    if let Some(c) = out.chars().last() {
                        if "=<>+-*/|&,".contains(c) || out.ends_with("return") || out.ends_with(" in") || out.ends_with(" if") || out.ends_with("while") || out.ends_with("match") {
                            out.push(' ');
                        }
                    }
                    out.push('(');
                    rec(g.stream(), ind, out, false);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    if let Some(c) = out.chars().last() {
                        if "=<>+-*/|,".contains(c) {
                            out.push(' ');
                        }
                    }
                    out.push('[');
                    rec(g.stream(), ind, out, false);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str("] ");
                }
                Delimiter::None => rec(g.stream(), ind, out, false),
            },
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, '.' | ',' | ';' | '?') && !out.ends_with(". ") {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(c);
                if c == ';' {
                    if braces {
                        nl(out, ind);
                    } else {
                        out.push(' ');
                    }
                } else if p.spacing() == Spacing::Alone && c != '.' {
                    out.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}
