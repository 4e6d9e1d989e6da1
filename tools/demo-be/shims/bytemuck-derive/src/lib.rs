//! Derives of the bytemuck stand-in: marker implementations for a plain struct.
use proc_macro::{TokenStream, TokenTree};
fn name(t: TokenStream) -> String {
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if let TokenTree::Ident(i) = &x {
            if i.to_string() == "struct" { return it.next().expect("a name").to_string() }
        }
    }
    panic!("only structs are supported")
}
#[proc_macro_derive(Pod)]
pub fn pod(t: TokenStream) -> TokenStream { format!("unsafe impl ::bytemuck::Pod for {} {{}}", name(t)).parse().unwrap() }
#[proc_macro_derive(Zeroable)]
pub fn zeroable(t: TokenStream) -> TokenStream { format!("unsafe impl ::bytemuck::Zeroable for {} {{}}", name(t)).parse().unwrap() }
