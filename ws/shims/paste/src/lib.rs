//! Offline stand-in for `paste`: supports `[<ident:snake:upper:lower:camel ...>]` concatenation.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
fn snake(s: &str) -> String {
    let mut out = String::new();
    let mut prev = '_';
    for ch in s.chars() {
        if ch.is_uppercase() && prev != '_' { out.push('_'); }
        out.push(ch);
        prev = ch;
    }
    out.to_lowercase()
}
fn expand(ts: TokenStream) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Group(g) => {
            if g.delimiter() == Delimiter::Bracket {
                if let Some(id) = paste_ident(&g) { return TokenTree::Ident(id); }
            }
            let mut n = Group::new(g.delimiter(), expand(g.stream()));
            n.set_span(g.span());
            // a None-delimited single token is what macro_rules fragments expand to
            TokenTree::Group(n)
        }
        o => o,
    }).collect()
}
fn flat(ts: TokenStream, out: &mut Vec<TokenTree>) {
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), out),
            o => out.push(o),
        }
    }
}
fn paste_ident(g: &Group) -> Option<Ident> {
    let mut toks = vec![];
    flat(g.stream(), &mut toks);
    let is = |t: &TokenTree, c: char| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
    if toks.len() < 3 || !is(&toks[0], '<') || !is(toks.last().unwrap(), '>') { return None; }
    let inner = &toks[1..toks.len() - 1];
    let mut s = String::new();
    let mut span: Option<Span> = None;
    let mut i = 0;
    while i < inner.len() {
        let mut seg = match &inner[i] {
            TokenTree::Ident(id) => { span.get_or_insert(id.span()); id.to_string() }
            TokenTree::Literal(l) => l.to_string().trim_matches('"').to_string(),
            _ => return None,
        };
        i += 1;
        while i + 1 < inner.len() && is(&inner[i], ':') {
            seg = match inner[i + 1].to_string().as_str() {
                "snake" => snake(&seg),
                "upper" => seg.to_uppercase(),
                "lower" => seg.to_lowercase(),
                _ => return None,
            };
            i += 2;
        }
        s.push_str(&seg);
    }
    Some(Ident::new(&s, span.unwrap_or_else(Span::call_site)))
}
#[proc_macro]
pub fn paste(ts: TokenStream) -> TokenStream { expand(ts) }
