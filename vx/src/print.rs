//! Token printer: one statement per line, joint punctuation kept together.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0);
    s.trim().to_string()
}

fn go(ts: TokenStream, out: &mut String, depth: usize) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                if g.delimiter() == Delimiter::Brace {
                    nl(out, depth + 1);
                    go(g.stream(), out, depth + 1);
                    nl(out, depth);
                    out.push_str(b);
                    nl(out, depth);
                } else {
                    go(g.stream(), out, depth + 1);
                    out.push_str(b);
                    out.push(' ');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint {
                    // keep `'` attached to the lifetime that follows
                }
                out.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if !joint {
                    out.push(' ');
                }
                if p.as_char() == ';' {
                    nl(out, depth);
                }
            }
            o => {
                out.push_str(&o.to_string());
                out.push(' ');
                joint = false;
            }
        }
    }
}

fn nl(out: &mut String, depth: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..depth {
        out.push_str("  ");
    }
}
