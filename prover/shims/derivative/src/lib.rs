//! Stand-in for `derivative`: only `#[derivative(Default(bound = ""))]` on structs.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let (ig, tg, wc) = i.generics.split_for_impl();
    let name = &i.ident;
    let body = match &i.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let n = f.named.iter().map(|f| &f.ident);
                quote! { Self { #( #n: ::core::default::Default::default(), )* } }
            }
            Fields::Unnamed(f) => {
                let n = f.unnamed.iter().map(|_| quote! { ::core::default::Default::default() });
                quote! { Self( #( #n, )* ) }
            }
            Fields::Unit => quote! { Self },
        },
        _ => panic!("only structs"),
    };
    quote! { impl #ig ::core::default::Default for #name #tg #wc { fn default() -> Self { #body } } }.into()
}
