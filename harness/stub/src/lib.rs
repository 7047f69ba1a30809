//! Stand-in for the documentation macro: the doc text becomes empty.
use proc_macro::TokenStream;
#[proc_macro]
pub fn transform(_input: TokenStream) -> TokenStream {
    "\"\"".parse().unwrap()
}
