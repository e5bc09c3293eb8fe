//! `#[wasm_bindgen]` as a no-op: the exported functions stay ordinary functions.
extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream { item }
