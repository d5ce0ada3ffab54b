//! Attribute macros of the pyo3 stand-in: keep the annotated Rust item, drop the
//! pyo3 helper attributes and make the methods visible to the harness.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const HELPERS: &[&str] = &[
    "new", "pyo3", "getter", "setter", "staticmethod", "classmethod", "classattr", "args", "text_signature",
];

fn is_helper(g: &Group) -> bool {
    if g.delimiter() != Delimiter::Bracket {
        return false;
    }
    match g.stream().into_iter().next() {
        Some(TokenTree::Ident(i)) => HELPERS.contains(&i.to_string().as_str()),
        _ => false,
    }
}

fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    if is_helper(g) {
                        it.next();
                        continue;
                    }
                }
            }
        }
        out.push(match t {
            TokenTree::Group(g) if g.delimiter() != Delimiter::Bracket => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x,
        });
    }
    out.into_iter().collect()
}

// Make every associated item of the impl body `pub`
fn publish(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut start = true;
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if start {
            match &t {
                TokenTree::Punct(p) if p.as_char() == '#' => {
                    out.push(t);
                    if let Some(TokenTree::Group(_)) = it.peek() {
                        out.push(it.next().unwrap());
                    }
                    continue;
                }
                TokenTree::Ident(i) => {
                    if i.to_string() == "pub" {
                        if let Some(TokenTree::Group(g)) = it.peek() {
                            if g.delimiter() == Delimiter::Parenthesis {
                                it.next();
                            }
                        }
                        out.push(t);
                    } else {
                        out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
                        out.push(t);
                    }
                    start = false;
                    continue;
                }
                _ => {}
            }
        }
        let end = match &t {
            TokenTree::Group(g) => g.delimiter() == Delimiter::Brace,
            TokenTree::Punct(p) => p.as_char() == ';',
            _ => false,
        };
        out.push(t);
        if end {
            start = true;
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pymethods(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut toks: Vec<TokenTree> = strip(item).into_iter().collect();
    if let Some(TokenTree::Group(g)) = toks.last().cloned() {
        let mut n = Group::new(g.delimiter(), publish(g.stream()));
        n.set_span(g.span());
        *toks.last_mut().unwrap() = TokenTree::Group(n);
    }
    toks.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyclass(_a: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

// The module initialiser only registers names; it is dropped.
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, _item: TokenStream) -> TokenStream {
    TokenStream::new()
}
