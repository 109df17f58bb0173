//! the parsing of command lines is not checked: options are built as structs.
//! The derives give a function that takes all fields in their order, as many are private.
use proc_macro::TokenStream;
use quote::quote;
fn make(t: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(t as syn::DeriveInput);
    let syn::Data::Struct(syn::DataStruct { fields: syn::Fields::Named(f), .. }) = &d.data else {
        return TokenStream::new();
    };
    let (n, ty): (Vec<_>, Vec<_>) = f.named.iter().map(|f| (&f.ident, &f.ty)).unzip();
    let id = &d.ident;
    let (g, h, w) = d.generics.split_for_impl();
    quote!(impl #g #id #h #w {
        #[doc(hidden)]
        #[allow(dead_code, clippy::all)]
        pub fn __make(#(#n: #ty),*) -> Self { Self { #(#n),* } }
    })
    .into()
}
#[proc_macro_derive(Parser, attributes(arg, command, group, value, clap))]
pub fn parser(t: TokenStream) -> TokenStream {
    make(t)
}
#[proc_macro_derive(Args, attributes(arg, command, group, value, clap))]
pub fn args(t: TokenStream) -> TokenStream {
    make(t)
}
#[proc_macro_derive(ValueEnum, attributes(arg, command, group, value, clap))]
pub fn value_enum(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
