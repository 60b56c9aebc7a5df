/// The Rust generator (the attribute macro) on `mod ffi { body }`; Err when the expansion reports an error.
pub fn rust(bridge: &TokenStream) -> Result<String, String> { rust_with(TokenStream::new(), bridge) }
pub fn rust_with(args: TokenStream, bridge: &TokenStream) -> Result<String, String> { let t = cxx_macro_lib::bridge(args, bridge.clone()); if has_error(t.clone()) { Err(t.to_string()) } else { Ok(t.to_string()) } }
fn has_error(t: TokenStream) -> bool { let mut word = false; for x in t { match x { TokenTree::Ident(i) => { word = i == "compile_error"; continue } TokenTree::Punct(p) => if word && p.as_char() == '!' { return true; }, TokenTree::Group(g) => if has_error(g.stream()) { return true; }, _ => {} } word = false; } false }
