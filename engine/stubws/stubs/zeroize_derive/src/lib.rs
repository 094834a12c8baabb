//! Stand-in for `zeroize_derive`: marker impls only.
use proc_macro::{TokenStream, TokenTree};
fn name(t: TokenStream) -> String {
    let mut it = t.into_iter();
    while let Some(x) = it.next() {
        if let TokenTree::Ident(i) = &x { let s = i.to_string(); if s == "struct" || s == "enum" { return it.next().unwrap().to_string(); } }
    }
    panic!("no item")
}
#[proc_macro_derive(Zeroize, attributes(zeroize))]
pub fn z(t: TokenStream) -> TokenStream { format!("impl ::zeroize::Zeroize for {} {{ fn zeroize(&mut self) {{ loop {{}} }} }}", name(t)).parse().unwrap() }
#[proc_macro_derive(ZeroizeOnDrop, attributes(zeroize))]
pub fn zd(t: TokenStream) -> TokenStream { format!("impl ::zeroize::ZeroizeOnDrop for {} {{}}", name(t)).parse().unwrap() }
