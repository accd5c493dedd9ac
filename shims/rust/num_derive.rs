//! Stand-in for "num-derive", for enumerations of units with values.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

/// Name of an enumeration and of its items.
fn parts(ts: TokenStream) -> (String, Vec<String>) {
    let mut it = ts.into_iter();
    let mut name = String::new();
    while let Some(t) = it.next() {
        if t.to_string() == "enum" { name = it.next().unwrap().to_string(); break; }
    }
    let mut items = Vec::new();
    let mut fresh = true;
    if let Some(TokenTree::Group(g)) = it.next() {
        for t in g.stream() {
            match t {
                TokenTree::Ident(i) if fresh => { items.push(i.to_string()); fresh = false; }
                TokenTree::Punct(p) if p.as_char() == ',' => fresh = true,
                _ => {}
            }
        }
    }
    (name, items)
}

#[proc_macro_derive(FromPrimitive)]
pub fn from(ts: TokenStream) -> TokenStream {
    let (n, items) = parts(ts);
    let arms: String = items.iter().map(|i| format!("if n == {}::{} as i64 {{ return Some({}::{}); }}", n, i, n, i)).collect();
    format!("impl ::num_traits::FromPrimitive for {} {{ #[allow(trivial_numeric_casts)] fn from_i64(n: i64) -> Option<Self> {{ {} None }}
        fn from_u64(n: u64) -> Option<Self> {{ Self::from_i64(n as i64) }} }}", n, arms).parse().unwrap()
}

#[proc_macro_derive(ToPrimitive)]
pub fn to(ts: TokenStream) -> TokenStream {
    let (n, items) = parts(ts);
    let arms: String = items.iter().map(|i| format!("{}::{} => {}::{} as i64,", n, i, n, i)).collect();
    format!("impl ::num_traits::ToPrimitive for {} {{ fn to_i64(&self) -> Option<i64> {{ Some(match *self {{ {} }}) }}
        fn to_u64(&self) -> Option<u64> {{ self.to_i64().map(|x| x as u64) }} }}", n, arms).parse().unwrap()
}
