//! Stand-in for derive_builder in its default (mutable) pattern.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(input: TokenStream) -> TokenStream {
    let s = syn::parse_macro_input!(input as syn::ItemStruct);
    let (name, vis) = (&s.ident, &s.vis);
    let (b, e) = (format_ident!("{}Builder", name), format_ident!("{}BuilderError", name));
    let (ig, tg, wc) = s.generics.split_for_impl();
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().expect("named fields")).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let mut cg = s.generics.clone();
    for p in cg.type_params_mut() {
        p.bounds.push(syn::parse_quote!(::core::clone::Clone));
    }
    let (cig, _, _) = cg.split_for_impl();
    quote! {
        #vis struct #b #ig #wc { #( #f: ::core::option::Option<#t>, )* }
        impl #ig ::core::default::Default for #b #tg #wc {
            fn default() -> Self { Self { #( #f: ::core::option::Option::None, )* } }
        }
        #[derive(Debug)]
        #vis struct #e(&'static str);
        impl ::std::fmt::Display for #e {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "`{}` must be initialized", self.0) }
        }
        impl ::std::error::Error for #e {}
        impl #cig #b #tg #wc {
            #( #[allow(dead_code)] pub fn #f(&mut self, value: #t) -> &mut Self { self.#f = ::core::option::Option::Some(value); self } )*
            pub fn build(&self) -> ::core::result::Result<#name #tg, #e> {
                ::core::result::Result::Ok(#name { #(
                    #f: match &self.#f {
                        ::core::option::Option::Some(v) => ::core::clone::Clone::clone(v),
                        ::core::option::Option::None => return ::core::result::Result::Err(#e(stringify!(#f))),
                    },
                )* })
            }
        }
    }
    .into()
}
