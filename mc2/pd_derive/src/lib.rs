//! the part of parse-display 0.8 the repository uses: `Display` and `FromStr` for plain enums, enums whose
//! variants hold one value shown as `{0}`, and structs shown as `{field}` with literals between.
use proc_macro::TokenStream;
use quote::quote;
use syn::*;

fn attr(attrs: &[Attribute]) -> (Option<String>, Option<String>) {
    let (mut fmt, mut style) = (None, None);
    for a in attrs.iter().filter(|a| a.path().is_ident("display")) {
        if let Ok(l) = a.parse_args::<LitStr>() {
            fmt = Some(l.value());
        } else if let Ok(nv) = a.parse_args::<MetaNameValue>() {
            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = nv.value {
                assert!(nv.path.is_ident("style"));
                style = Some(s.value());
            }
        }
    }
    (fmt, style)
}
fn styled(id: &str, style: Option<&str>) -> String {
    match style {
        None => id.into(),
        Some("lowercase") => id.to_lowercase(),
        Some("kebab-case") => {
            let mut o = String::new();
            for (i, c) in id.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    o.push('-')
                }
                o.extend(c.to_lowercase());
            }
            o
        }
        Some(s) => panic!("style {s}"),
    }
}
/// `lit{field}lit{field}lit` as alternating literals and fields
fn pieces(fmt: &str) -> Vec<(bool, String)> {
    let mut out = vec![];
    let mut rest = fmt;
    while let Some(i) = rest.find('{') {
        out.push((false, rest[..i].to_string()));
        let e = rest.find('}').expect("closing brace");
        out.push((true, rest[i + 1..e].to_string()));
        rest = &rest[e + 1..];
    }
    out.push((false, rest.to_string()));
    out
}

#[proc_macro_derive(Display, attributes(display))]
pub fn display(ts: TokenStream) -> TokenStream {
    let d = parse_macro_input!(ts as DeriveInput);
    let name = &d.ident;
    let (fmt, style) = attr(&d.attrs);
    let body = match &d.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let (vf, _) = attr(&v.attrs);
                match &v.fields {
                    Fields::Unit => {
                        let s = vf.unwrap_or_else(|| styled(&id.to_string(), style.as_deref()));
                        quote!(#name::#id => f.write_str(#s))
                    }
                    _ => {
                        assert_eq!(vf.as_deref(), Some("{0}"));
                        quote!(#name::#id(a) => ::core::fmt::Display::fmt(a, f))
                    }
                }
            });
            quote!(match self { #(#arms),* })
        }
        Data::Struct(_) => {
            let p = pieces(&fmt.expect("format")).into_iter().map(|(field, s)| {
                if field {
                    let i = Ident::new(&s, proc_macro2::Span::call_site());
                    quote!(::core::fmt::Display::fmt(&self.#i, f)?;)
                } else {
                    quote!(f.write_str(#s)?;)
                }
            });
            quote!(#(#p)* Ok(()))
        }
        _ => panic!("union"),
    };
    quote!(impl ::core::fmt::Display for #name {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body }
    })
    .into()
}

#[proc_macro_derive(FromStr, attributes(display))]
pub fn from_str(ts: TokenStream) -> TokenStream {
    let d = parse_macro_input!(ts as DeriveInput);
    let name = &d.ident;
    let (fmt, style) = attr(&d.attrs);
    let body = match &d.data {
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let (vf, _) = attr(&v.attrs);
                match &v.fields {
                    Fields::Unit => {
                        let s = vf.unwrap_or_else(|| styled(&id.to_string(), style.as_deref()));
                        quote!(if s == #s { return Ok(#name::#id) })
                    }
                    _ => quote!(if let Ok(v) = s.parse() { return Ok(#name::#id(v)) }),
                }
            });
            quote!(#(#arms)* Err(::parse_display::ParseError::new()))
        }
        Data::Struct(_) => {
            // non-greedy fields: each ends at the first occurrence of the literal after it
            let ps = pieces(&fmt.expect("format"));
            let mut out = quote!(let mut s = s;);
            let mut fields = vec![];
            let first = &ps[0].1;
            out = quote!(#out s = s.strip_prefix(#first).ok_or_else(::parse_display::ParseError::new)?;);
            for k in (1..ps.len()).step_by(2) {
                let i = Ident::new(&ps[k].1, proc_macro2::Span::call_site());
                let lit = &ps[k + 1].1;
                let last = k + 2 == ps.len();
                out = if last {
                    quote!(#out let #i = s.strip_suffix(#lit).ok_or_else(::parse_display::ParseError::new)?.parse().map_err(|_| ::parse_display::ParseError::new())?;)
                } else {
                    quote!(#out
                        let at = s.find(#lit).ok_or_else(::parse_display::ParseError::new)?;
                        let #i = s[..at].parse().map_err(|_| ::parse_display::ParseError::new())?;
                        s = &s[at + #lit.len()..];)
                };
                fields.push(i);
            }
            quote!(#out Ok(#name { #(#fields),* }))
        }
        _ => panic!("union"),
    };
    quote!(impl ::core::str::FromStr for #name {
        type Err = ::parse_display::ParseError;
        fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> { #body }
    })
    .into()
}
