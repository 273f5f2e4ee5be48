//! Stand-in for the derives of num_enum (not available offline).
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree, Delimiter};
// name, representation and variants (name, value) of an enum
fn parts(t: TokenStream) -> (String, String, Vec<(String, i128)>) {
    let (mut name, mut repr, mut vars) = (String::new(), "u8".to_string(), vec![]);
    let ts: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in ts.iter().enumerate() {
        match x {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket => { let s = g.to_string().replace(' ', ""); if let Some(r) = s.strip_prefix("[repr(") { repr = r.trim_end_matches(")]").to_string(); } }
            TokenTree::Ident(d) if d.to_string() == "enum" => name = ts[i + 1].to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => {
                let (mut cur, mut val, mut next): (Option<String>, Option<String>, i128) = (None, None, 0);
                let mut neg = false; let mut eq = false;
                let mut flush = |cur: &mut Option<String>, val: &mut Option<String>, neg: &mut bool| { if let Some(c) = cur.take() {
                    let v = match val.take() { Some(v) => { let v = v.replace('_', ""); let v = v.trim_end_matches("u8").trim_end_matches("u32").to_string(); let n = if let Some(h) = v.strip_prefix("0x") { i128::from_str_radix(h, 16).unwrap() } else { v.parse().unwrap() }; if *neg { -n } else { n } } None => next };
                    next = v + 1; *neg = false; vars.push((c, v)); } };
                for y in g.stream() {
                    match y {
                        TokenTree::Punct(p) if p.as_char() == ',' => { flush(&mut cur, &mut val, &mut neg); eq = false; }
                        TokenTree::Punct(p) if p.as_char() == '=' => eq = true,
                        TokenTree::Punct(p) if p.as_char() == '-' && eq => neg = true,
                        TokenTree::Literal(l) if eq => val = Some(l.to_string()),
                        TokenTree::Ident(d) if !eq => cur = Some(d.to_string()),
                        _ => {}
                    }
                }
                flush(&mut cur, &mut val, &mut neg);
            }
            _ => {}
        }
    }
    (name, repr, vars)
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from(t: TokenStream) -> TokenStream {
    let (n, r, v) = parts(t);
    let arms: String = v.iter().map(|(k, x)| format!("{x} => Ok({n}::{k}), ")).collect();
    format!("impl ::std::convert::TryFrom<{r}> for {n} {{ type Error = ::num_enum::TryFromPrimitiveError<{r}>; fn try_from(x: {r}) -> ::std::result::Result<Self, Self::Error> {{ match x {{ {arms} _ => Err(::num_enum::TryFromPrimitiveError {{ number: x }}) }} }} }}").parse().unwrap()
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into(t: TokenStream) -> TokenStream {
    let (n, r, v) = parts(t);
    let arms: String = v.iter().map(|(k, x)| format!("{n}::{k} => {x}, ")).collect();
    format!("impl ::std::convert::From<{n}> for {r} {{ fn from(x: {n}) -> {r} {{ match x {{ {arms} }} }} }}").parse().unwrap()
}
