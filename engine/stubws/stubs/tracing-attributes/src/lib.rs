//! `#[instrument]` leaves the function as it is: logging is no part of the behaviour analysed
#[proc_macro_attribute]
pub fn instrument(_a: proc_macro::TokenStream, item: proc_macro::TokenStream) -> proc_macro::TokenStream { item }
