//! JavaScript values, as far as options, results and callbacks need them.
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

pub type Callable = Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>;

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Array(Vec<JsValue>),
    Object(Vec<(String, JsValue)>),
    Func(Callable),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn undefined() -> JsValue { JsValue::Undefined }
    pub fn null() -> JsValue { JsValue::Null }
    pub fn from_str(s: &str) -> JsValue { JsValue::Str(s.into()) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::Bool(b) }
    pub fn from_f64(n: f64) -> JsValue { JsValue::Num(n) }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
    pub fn is_null_or_undefined(&self) -> bool { self.is_null() || self.is_undefined() }
    pub fn is_string(&self) -> bool { matches!(self, JsValue::Str(_)) }
    pub fn is_object(&self) -> bool { matches!(self, JsValue::Object(_) | JsValue::Array(_)) }
    pub fn is_array(&self) -> bool { matches!(self, JsValue::Array(_)) }
    pub fn is_function(&self) -> bool { matches!(self, JsValue::Func(_)) }
    pub fn as_string(&self) -> Option<String> { match self { JsValue::Str(s) => Some(s.clone()), _ => None } }
    pub fn as_bool(&self) -> Option<bool> { match self { JsValue::Bool(b) => Some(*b), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match self { JsValue::Num(n) => Some(*n), _ => None } }
    pub fn is_truthy(&self) -> bool {
        match self { JsValue::Undefined | JsValue::Null => false, JsValue::Bool(b) => *b, JsValue::Num(n) => *n != 0.0 && !n.is_nan(), JsValue::Str(s) => !s.is_empty(), _ => true }
    }
    pub fn is_falsy(&self) -> bool { !self.is_truthy() }
    pub fn get(&self, key: &str) -> JsValue {
        match self { JsValue::Object(o) => o.iter().find(|(k, _)| k == key).map_or(JsValue::Undefined, |(_, v)| v.clone()), _ => JsValue::Undefined }
    }
}
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue::Str(s.into()) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::Str(s) } }
impl From<&String> for JsValue { fn from(s: &String) -> JsValue { JsValue::Str(s.clone()) } }
impl From<bool> for JsValue { fn from(b: bool) -> JsValue { JsValue::Bool(b) } }
impl From<f64> for JsValue { fn from(n: f64) -> JsValue { JsValue::Num(n) } }
impl From<u32> for JsValue { fn from(n: u32) -> JsValue { JsValue::Num(n as f64) } }
impl From<i32> for JsValue { fn from(n: i32) -> JsValue { JsValue::Num(n as f64) } }
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "undefined"),
            JsValue::Null => write!(f, "null"),
            JsValue::Bool(b) => write!(f, "{b}"),
            JsValue::Num(n) => write!(f, "{n}"),
            JsValue::Str(s) => write!(f, "{s:?}"),
            JsValue::Array(a) => f.debug_list().entries(a).finish(),
            JsValue::Object(o) => f.debug_map().entries(o.iter().map(|(k, v)| (k, v))).finish(),
            JsValue::Func(_) => write!(f, "function"),
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool { format!("{self:?}") == format!("{o:?}") }
}

#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> JsError { JsError(s.into()) } }
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> JsError { JsError(e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> JsValue { JsValue::Str(e.0) } }

pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; fn expect_throw(self, m: &str) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }

pub mod prelude { pub use crate::{JsError, JsValue, UnwrapThrowExt, wasm_bindgen}; }
