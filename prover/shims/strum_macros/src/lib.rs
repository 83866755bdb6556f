//! Stand-in for `strum_macros`: unit-variant enums, no attributes.
use proc_macro::TokenStream;
use quote::quote;
fn variants(input: &syn::DeriveInput) -> Vec<syn::Ident> {
    let syn::Data::Enum(e) = &input.data else { panic!("enum expected") };
    e.variants
        .iter()
        .map(|v| {
            assert!(matches!(v.fields, syn::Fields::Unit), "only unit variants");
            v.ident.clone()
        })
        .collect()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(t: TokenStream) -> TokenStream {
    let i: syn::DeriveInput = syn::parse(t).unwrap();
    let (n, v) = (&i.ident, variants(&i));
    quote!(impl strum::IntoEnumIterator for #n {
        type Iterator = std::vec::IntoIter<#n>;
        fn iter() -> Self::Iterator { vec![#(#n::#v),*].into_iter() }
    })
    .into()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn as_ref_str(t: TokenStream) -> TokenStream {
    let i: syn::DeriveInput = syn::parse(t).unwrap();
    let (n, v) = (&i.ident, variants(&i));
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    quote!(impl ::core::convert::AsRef<str> for #n {
        fn as_ref(&self) -> &str { match self { #(#n::#v => #s),* } }
    })
    .into()
}
