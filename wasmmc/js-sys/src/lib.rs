//! Functions of JavaScript.
use wasm_bindgen::{Callable, JsValue};

#[derive(Clone)]
pub struct Function(pub Callable);
impl Function {
    pub fn new(f: impl Fn(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function { Function(std::rc::Rc::new(f)) }
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> { (self.0)(&[]) }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { (self.0)(&[a.clone()]) }
    pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> { (self.0)(&[a.clone(), b.clone()]) }
    pub fn call3(&self, _this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> { (self.0)(&[a.clone(), b.clone(), c.clone()]) }
}
