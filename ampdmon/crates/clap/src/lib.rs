//! Stand-in for clap: the command line is not parsed here.
use proc_macro::TokenStream;
#[proc_macro_derive(Subcommand, attributes(arg, clap, command, value))]
pub fn subcommand(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Args, attributes(arg, clap, command, value))]
pub fn args(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Parser, attributes(arg, clap, command, value))]
pub fn parser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
