//! Token printing: `flat` is a canonical one-line form, `pretty` breaks lines at `;`, `{`, `}`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn flat(ts: TokenStream) -> String {
    let mut s = String::new();
    emit(ts, &mut s, false, 0);
    s.trim().to_string()
}
pub fn pretty(ts: TokenStream) -> String {
    let mut s = String::new();
    emit(ts, &mut s, true, 0);
    s.trim().to_string()
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}
fn emit(ts: TokenStream, s: &mut String, pretty: bool, ind: usize) {
    emit2(ts, s, pretty, ind, true)
}
fn emit2(ts: TokenStream, s: &mut String, pretty: bool, ind: usize, brace: bool) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::None {
                    emit(g.stream(), s, pretty, ind);
                    if !s.ends_with(' ') { s.push(' '); }
                } else if g.delimiter() == Delimiter::Brace && pretty && !g.stream().is_empty() {
                    s.push_str(o);
                    nl(s, ind + 1);
                    emit(g.stream(), s, pretty, ind + 1);
                    nl(s, ind);
                    s.push_str(c);
                    s.push(' ');
                } else {
                    s.push_str(o);
                    if !g.stream().is_empty() && g.delimiter() == Delimiter::Brace { s.push(' '); }
                    emit2(g.stream(), s, pretty, ind, false);
                    while s.ends_with(' ') { s.pop(); }
                    if !g.stream().is_empty() && g.delimiter() == Delimiter::Brace { s.push(' '); }
                    s.push_str(c);
                    s.push(' ');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint && (p.as_char() == ',' || p.as_char() == ';' ) {
                    while s.ends_with(' ') { s.pop(); }
                }
                s.push(p.as_char());
                joint = p.spacing() == Spacing::Joint;
                if !joint {
                    s.push(' ');
                }
                if pretty && (p.as_char() == ';' || (p.as_char() == ',' && brace)) {
                    nl(s, ind);
                }
            }
            x => {
                s.push_str(&x.to_string());
                s.push(' ');
                joint = false;
            }
        }
    }
}
