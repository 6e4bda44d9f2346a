//! Stand-in for derivative: an opaque Debug for the type it is derived on.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(item: TokenStream) -> TokenStream {
	let mut it = item.into_iter();
	let mut name = String::new();
	while let Some(t) = it.next() {
		if let TokenTree::Ident(i) = &t {
			if ["enum", "struct"].contains(&i.to_string().as_str()) {
				if let Some(TokenTree::Ident(n)) = it.next() { name = n.to_string(); }
				break;
			}
		}
	}
	format!("impl ::core::fmt::Debug for {} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.write_str(\"{}\") }} }}", name, name).parse().unwrap()
}
