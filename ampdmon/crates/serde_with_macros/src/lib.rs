//! Stand-in for serde_with's `SerializeDisplay`.
use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(SerializeDisplay)]
pub fn serialize_display(input: TokenStream) -> TokenStream {
    let n = syn::parse_macro_input!(input as syn::DeriveInput).ident;
    quote! {
        impl ::serde::Serialize for #n {
            fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> { s.collect_str(self) }
        }
    }
    .into()
}
