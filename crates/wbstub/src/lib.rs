//! The part of wasm-bindgen the JavaScript API uses, without a JavaScript engine: a value is its JSON text, which is
//! how the real from_serde and into_serde carry objects.
use serde::{de::DeserializeOwned, Serialize};
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub String);
impl JsValue {
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> { Ok(JsValue(serde_json::to_string(t)?)) }
    pub fn into_serde<T: DeserializeOwned>(&self) -> serde_json::Result<T> { serde_json::from_str(&self.0) }
}
macro_rules! num { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> JsValue { JsValue(x.to_string()) } })* } }
num!(u8 u16 u32 i8 i16 i32 f32 f64 bool);
impl<'a> From<&'a str> for JsValue { fn from(x: &'a str) -> JsValue { JsValue(serde_json::to_string(x).unwrap()) } }
impl JsValue {
    pub const NULL_TEXT: &'static str = "null";
    pub fn null() -> JsValue { JsValue("null".into()) }
    pub fn undefined() -> JsValue { JsValue("null".into()) }
    pub fn from_f64(x: f64) -> JsValue { x.into() }
    pub fn from_bool(x: bool) -> JsValue { x.into() }
    pub fn from_str(x: &str) -> JsValue { x.into() }
    pub fn is_null(&self) -> bool { self.0 == "null" }
    pub fn is_undefined(&self) -> bool { self.0 == "null" }
    pub fn is_string(&self) -> bool { self.0.starts_with('"') }
    pub fn is_object(&self) -> bool { self.0.starts_with('{') || self.0.starts_with('[') }
    pub fn as_f64(&self) -> Option<f64> { self.0.parse().ok() }
    pub fn as_bool(&self) -> Option<bool> { self.0.parse().ok() }
    pub fn as_string(&self) -> Option<String> { serde_json::from_str(&self.0).ok() }
}
pub mod prelude { pub use crate::JsValue; pub use wbmacro::wasm_bindgen; }
