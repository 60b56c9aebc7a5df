// Running both generators on a bridge built by a harness, and reading their output.
use proc_macro2::{Group, Literal, TokenStream, TokenTree};
/// Tokens of `src`, with every identifier `__k` replaced by `with[k]` (k: one of 0-9, then a-z).
pub fn tokens(src: &str, with: &[TokenStream]) -> TokenStream { let t: TokenStream = src.parse().unwrap(); if with.is_empty() { t } else { fill_in(t, with) } }
fn fill_in(t: TokenStream, with: &[TokenStream]) -> TokenStream {
    let mut out = TokenStream::new();
    for x in t {
        match x {
            TokenTree::Ident(i) => { let s = i.to_string(); let b = s.as_bytes(); if b.len() == 3 && b[0] == b'_' && b[1] == b'_' { out.extend(with[if b[2] <= b'9' { b[2] - b'0' } else { b[2] - b'a' + 10 } as usize].clone()) } else { out.extend([TokenTree::Ident(i)]) } }
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), fill_in(g.stream(), with)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]) }
            x => out.extend([x]),
        }
    }
    out
}
#[allow(dead_code)] pub fn ident(s: &str) -> TokenStream { TokenTree::Ident(proc_macro2::Ident::new(s, proc_macro2::Span::call_site())).into() }
pub fn literal(s: &str) -> TokenStream { let l: Literal = s.parse().unwrap(); TokenTree::Literal(l).into() }
pub struct Cpp { pub header: String, pub cc: String }
/// The C++ generator on `#[cxx::bridge] mod ffi { body }`.
pub fn cpp(bridge: &TokenStream) -> Result<Cpp, String> { cpp_with(bridge, &cxx_gen::Opt::default()) }
pub fn cpp_with(bridge: &TokenStream, opt: &cxx_gen::Opt) -> Result<Cpp, String> {
    match cxx_gen::generate_header_and_cc(bridge.clone(), opt) { Ok(g) => Ok(Cpp { header: utf8(g.header), cc: utf8(g.implementation) }), Err(e) => Err(e.to_string()) }
}
pub fn utf8(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
/// First position of `n` in `h` at or after `from`.
pub fn find_from(h: &str, n: &str, from: usize) -> Option<usize> { sym::position(h.as_bytes(), n.as_bytes(), from) }
pub fn find(h: &str, n: &str) -> Option<usize> { find_from(h, n, 0) }
pub fn count(h: &str, n: &str) -> usize { let mut c = 0; let mut i = 0; while let Some(p) = find_from(h, n, i) { c += 1; i = p + n.len(); } c }
/// The text between the first `a` and the next `b` after it.
pub fn between<'a>(h: &'a str, a: &str, b: &str) -> Option<&'a str> { let i = find(h, a)? + a.len(); let j = find_from(h, b, i)?; Some(slice(h, i, j)) }
pub fn slice(h: &str, i: usize, j: usize) -> &str { unsafe { core::str::from_utf8_unchecked(&h.as_bytes()[i..j]) } }
