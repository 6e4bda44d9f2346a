//! Stand-in for #[tracing::instrument]: every argument that is not skipped is handed to `tracing::field`.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn names(ts: TokenStream) -> Vec<String> {
	ts.into_iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect()
}

#[proc_macro_attribute]
pub fn instrument(attr: TokenStream, item: TokenStream) -> TokenStream {
	let (mut skip, mut all) = (vec![], false);
	let mut last = String::new();
	for t in attr {
		match t {
			TokenTree::Ident(i) => { last = i.to_string(); if last == "skip_all" { all = true } }
			TokenTree::Group(g) if last == "skip" => skip = names(g.stream()),
			_ => {}
		}
	}
	let mut toks: Vec<TokenTree> = item.into_iter().collect();
	let mut params = vec![];
	let mut seen_fn = false;
	for t in &toks {
		match t {
			TokenTree::Ident(i) if i.to_string() == "fn" => seen_fn = true,
			TokenTree::Group(g) if seen_fn && g.delimiter() == Delimiter::Parenthesis => {
				let (mut depth, mut start, mut name) = (0i32, true, None);
				for t in g.stream() {
					match &t {
						TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
						TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
						TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => { start = true; name = None; }
						TokenTree::Punct(p) if p.as_char() == ':' && start => { if let Some(n) = name.take() { params.push(n) } start = false; }
						TokenTree::Ident(i) if start => { let n = i.to_string(); if n != "mut" { name = Some(n) } }
						_ => {}
					}
				}
				break;
			}
			_ => {}
		}
	}
	if let Some(TokenTree::Group(g)) = toks.pop() {
		let mut code = String::new();
		for p in params {
			if !all && p != "self" && !skip.contains(&p) {
				code += &format!("::tracing::field(::core::format_args!(\"{{:?}}\", {}));", p);
			}
		}
		let mut body: TokenStream = code.parse().unwrap();
		body.extend(g.stream());
		let mut ng = Group::new(Delimiter::Brace, body);
		ng.set_span(g.span());
		toks.push(TokenTree::Group(ng));
	}
	toks.into_iter().collect()
}
