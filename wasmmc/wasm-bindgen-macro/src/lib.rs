//! `#[wasm_bindgen]`: gives exported functions a symbol by the name they have in JavaScript.
use proc_macro::{TokenStream, TokenTree};

fn name_after(item: &[TokenTree], word: &str) -> Option<String> {
    let i = item.iter().position(|t| matches!(t, TokenTree::Ident(x) if x.to_string() == word))?;
    Some(item.get(i + 1)?.to_string())
}

#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    let tokens: Vec<TokenTree> = item.clone().into_iter().collect();
    // only functions are exported
    if tokens.iter().any(|t| matches!(t, TokenTree::Ident(x) if ["struct", "enum", "impl", "mod", "extern"].contains(&x.to_string().as_str()))) { return item }
    let Some(rust) = name_after(&tokens, "fn") else { return item };
    let attr: Vec<TokenTree> = attr.into_iter().collect();
    let mut js = rust;
    if let Some(i) = attr.iter().position(|t| t.to_string() == "js_name") && let Some(t) = attr.get(i + 2) { js = t.to_string().trim_matches('"').to_string(); }
    let mut out: TokenStream = format!("#[unsafe(export_name = \"hdmock_{js}\")]").parse().unwrap();
    out.extend(item);
    out
}
