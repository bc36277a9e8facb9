//! Stand-in for deref-derive: `Deref` of a one-field tuple struct.
use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(Deref)]
pub fn deref(input: TokenStream) -> TokenStream {
    let s = syn::parse_macro_input!(input as syn::ItemStruct);
    let (n, t) = (&s.ident, &s.fields.iter().next().expect("a field").ty);
    quote! { impl ::core::ops::Deref for #n { type Target = #t; fn deref(&self) -> &#t { &self.0 } } }.into()
}
