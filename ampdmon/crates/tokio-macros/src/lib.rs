//! Stand-in for tokio-macros (which is not in this machine's cargo cache): the two helpers of `tokio::select!`.
//! The attribute macros are never expanded here (they are only used by tests).
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro]
pub fn select_priv_declare_output_enum(input: TokenStream) -> TokenStream {
    // one `_` per branch, in parentheses
    let n = match input.into_iter().next() {
        Some(TokenTree::Group(g)) => g.stream().into_iter().count(),
        _ => panic!("unexpected macro input"),
    };
    let mask = match n {
        0..=8 => "u8",
        9..=16 => "u16",
        17..=32 => "u32",
        33..=64 => "u64",
        _ => panic!("up to 64 branches supported"),
    };
    let params: Vec<String> = (0..n).map(|i| format!("_{i}")).collect();
    let variants: Vec<String> = params.iter().map(|p| format!("{p}({p}),")).collect();
    format!(
        "pub(super) enum Out<{}> {{ {} Disabled, }} pub(super) type Mask = {mask};",
        params.join(","),
        variants.join(" ")
    )
    .parse()
    .unwrap()
}

/// a pattern without its `ref` and `mut`
#[proc_macro]
pub fn select_priv_clean_pattern(input: TokenStream) -> TokenStream {
    input
        .into_iter()
        .filter(|t| !matches!(t, TokenTree::Ident(i) if i.to_string() == "ref" || i.to_string() == "mut"))
        .collect()
}

macro_rules! attr {
    ($($n:ident)*) => {$(
        #[proc_macro_attribute]
        pub fn $n(_: TokenStream, item: TokenStream) -> TokenStream { item }
    )*};
}
attr!(main test main_rt test_rt main_fail test_fail);
