//! Prints the tokens of Rust files: one line per token, `FILE name` before each file.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::io::Write;

fn walk(t: TokenStream, out: &mut Vec<u8>) {
    for x in t {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    writeln!(out, "{a}").unwrap();
                }
                walk(g.stream(), out);
                if !b.is_empty() {
                    writeln!(out, "{b}").unwrap();
                }
            }
            TokenTree::Punct(p) => writeln!(out, "{}", p.as_char()).unwrap(),
            TokenTree::Literal(l) => writeln!(out, "L{:?}", l.to_string()).unwrap(),
            TokenTree::Ident(i) => writeln!(out, "{i}").unwrap(),
        }
    }
}

fn main() {
    let mut out = Vec::new();
    for a in std::env::args().skip(1) {
        let s = std::fs::read_to_string(&a).unwrap();
        writeln!(out, "FILE {a}").unwrap();
        match s.parse::<TokenStream>() {
            Ok(t) => walk(t, &mut out),
            Err(e) => writeln!(out, "ERROR {e}").unwrap(),
        }
    }
    std::io::stdout().write_all(&out).unwrap();
}
