//! From and to JavaScript values, by the rules of serde-wasm-bindgen 0.6.5.
use serde::de::{self, DeserializeOwned, IntoDeserializer};
use serde::ser::{self, Serialize};
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}
impl de::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Error { Error(m.to_string()) } }
impl ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Error { Error(m.to_string()) } }
impl From<Error> for JsValue { fn from(e: Error) -> JsValue { JsValue::Str(e.0) } }
type Result<T> = std::result::Result<T, Error>;

pub fn from_value<T: DeserializeOwned>(v: JsValue) -> Result<T> { T::deserialize(Deserializer(v)) }
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue> { v.serialize(&Serializer::new()) }

pub struct Deserializer(JsValue);
impl From<JsValue> for Deserializer { fn from(v: JsValue) -> Deserializer { Deserializer(v) } }
impl<'de> IntoDeserializer<'de, Error> for Deserializer { type Deserializer = Self; fn into_deserializer(self) -> Self { self } }

impl Deserializer {
    fn nullish(&self) -> bool { self.0.is_null_or_undefined() }
    fn safe(&self) -> Option<i64> { match self.0 { JsValue::Num(n) if n.fract() == 0.0 && n.abs() <= 9007199254740991.0 => Some(n as i64), _ => None } }
    fn invalid<'de, V: de::Visitor<'de>>(&self, v: V) -> Result<V::Value> {
        let s;
        let u = match &self.0 {
            JsValue::Undefined | JsValue::Null => de::Unexpected::Unit,
            JsValue::Bool(b) => de::Unexpected::Bool(*b),
            JsValue::Num(n) => de::Unexpected::Float(*n),
            JsValue::Str(t) => de::Unexpected::Str(t),
            o => { s = format!("{o:?}"); de::Unexpected::Other(&s) }
        };
        Err(de::Error::invalid_type(u, &v))
    }
    fn signed<'de, V: de::Visitor<'de>>(&self, v: V) -> Result<V::Value> { match self.safe() { Some(n) => v.visit_i64(n), None => self.invalid(v) } }
    fn unsigned<'de, V: de::Visitor<'de>>(&self, v: V) -> Result<V::Value> { match self.safe() { Some(n) if n >= 0 => v.visit_u64(n as u64), _ => self.invalid(v) } }
}
/// The fields that a struct knows and an object has
struct Fields { object: JsValue, fields: std::slice::Iter<'static, &'static str>, next: Option<JsValue> }
impl<'de> de::MapAccess<'de> for Fields {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        for f in &mut self.fields {
            let JsValue::Object(o) = &self.object else { return Ok(None) };
            if let Some((_, v)) = o.iter().find(|(k, _)| k == f) {
                self.next = Some(v.clone());
                let d: de::value::StrDeserializer<Error> = (*f).into_deserializer();
                return Ok(Some(seed.deserialize(d)?));
            }
        }
        Ok(None)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> { seed.deserialize(Deserializer(self.next.take().unwrap())) }
}
macro_rules! ints { ($($n:ident $to:ident;)*) => { $(fn $n<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { self.$to(v) })* } }
impl<'de> de::Deserializer<'de> for Deserializer {
    type Error = Error;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match &self.0 {
            JsValue::Undefined | JsValue::Null => v.visit_unit(),
            JsValue::Bool(b) => v.visit_bool(*b),
            JsValue::Num(n) => match self.safe() { Some(i) => v.visit_i64(i), None => v.visit_f64(*n) },
            JsValue::Str(s) => v.visit_string(s.clone()),
            JsValue::Array(_) => self.deserialize_seq(v),
            JsValue::Object(_) => self.deserialize_map(v),
            JsValue::Func(_) => self.invalid(v),
        }
    }
    ints! { deserialize_i8 signed; deserialize_i16 signed; deserialize_i32 signed; deserialize_i64 signed; deserialize_u8 unsigned; deserialize_u16 unsigned; deserialize_u32 unsigned; deserialize_u64 unsigned; deserialize_f32 deserialize_f64; deserialize_str deserialize_string; deserialize_identifier deserialize_string; deserialize_bytes deserialize_byte_buf; deserialize_byte_buf invalid_bytes; }
    fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { if self.nullish() { v.visit_unit() } else { self.invalid(v) } }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> { self.deserialize_unit(v) }
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { match self.0 { JsValue::Bool(b) => v.visit_bool(b), _ => self.invalid(v) } }
    fn deserialize_f64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { match self.0 { JsValue::Num(n) => v.visit_f64(n), _ => self.invalid(v) } }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { match self.0 { JsValue::Str(s) => v.visit_string(s), _ => self.invalid(v) } }
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match &self.0 { JsValue::Str(s) if s.chars().count() == 1 => v.visit_char(s.chars().next().unwrap()), _ => self.invalid(v) }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { if self.nullish() { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 { JsValue::Array(a) => v.visit_seq(de::value::SeqDeserializer::new(a.into_iter().map(Deserializer))), JsValue::Str(s) => v.visit_seq(de::value::SeqDeserializer::new(s.chars().map(|c| Deserializer(JsValue::Str(c.into()))).collect::<Vec<_>>().into_iter())), _ => self.invalid(v) }
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value> { self.deserialize_seq(v) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value> { self.deserialize_seq(v) }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.0 { JsValue::Object(o) => v.visit_map(de::value::MapDeserializer::new(o.into_iter().map(|(k, x)| (Deserializer(JsValue::Str(k)), Deserializer(x))))), _ => self.invalid(v) }
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value> {
        if self.0.is_object() { v.visit_map(Fields { object: self.0, fields: fields.iter(), next: None }) } else { self.invalid(v) }
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        match self.0 {
            JsValue::Str(s) => v.visit_enum(Variant(s, JsValue::Undefined)),
            JsValue::Object(mut o) if o.len() == 1 => { let (k, x) = o.remove(0); v.visit_enum(Variant(k, x)) }
            _ => self.invalid(v),
        }
    }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { v.visit_unit() }
}
impl Deserializer { fn invalid_bytes<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> { self.invalid(v) } }
struct Variant(String, JsValue);
impl<'de> de::EnumAccess<'de> for Variant {
    type Error = Error;
    type Variant = Deserializer;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Deserializer)> { Ok((seed.deserialize(Deserializer(JsValue::Str(self.0)))?, Deserializer(self.1))) }
}
impl<'de> de::VariantAccess<'de> for Deserializer {
    type Error = Error;
    fn unit_variant(self) -> Result<()> { de::Deserialize::deserialize(self) }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value> { seed.deserialize(self) }
    fn tuple_variant<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value> { de::Deserializer::deserialize_tuple(self, n, v) }
    fn struct_variant<V: de::Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value> { de::Deserializer::deserialize_struct(self, "", f, v) }
}

#[derive(Default)]
pub struct Serializer { null: bool }
impl Serializer {
    pub const fn new() -> Serializer { Serializer { null: false } }
    pub const fn json_compatible() -> Serializer { Serializer { null: true } }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Serializer { self.null = v; self }
    pub const fn serialize_maps_as_objects(self, _: bool) -> Serializer { self }
}
pub struct Seq<'s>(&'s Serializer, Vec<JsValue>);
pub struct Map<'s>(&'s Serializer, Vec<(String, JsValue)>, Option<&'static str>);
impl ser::SerializeSeq for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.1.push(v.serialize(self.0)?); Ok(()) }
    fn end(self) -> Result<JsValue> { Ok(JsValue::Array(self.1)) }
}
impl ser::SerializeTuple for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { ser::SerializeSeq::serialize_element(self, v) }
    fn end(self) -> Result<JsValue> { ser::SerializeSeq::end(self) }
}
impl ser::SerializeTupleStruct for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { ser::SerializeSeq::serialize_element(self, v) }
    fn end(self) -> Result<JsValue> { ser::SerializeSeq::end(self) }
}
impl ser::SerializeStruct for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.1.push((k.into(), v.serialize(self.0)?)); Ok(()) }
    fn end(self) -> Result<JsValue> { Ok(JsValue::Object(self.1)) }
}
impl ser::SerializeStructVariant for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.1.push((k.into(), v.serialize(self.0)?)); Ok(()) }
    fn end(self) -> Result<JsValue> { Ok(JsValue::Object(vec![(self.2.unwrap_or("").into(), JsValue::Object(self.1))])) }
}
macro_rules! nums { ($($n:ident $t:ty;)*) => { $(fn $n(self, v: $t) -> Result<JsValue> { Ok(JsValue::Num(v as f64)) })* } }
impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'s>;
    type SerializeTuple = Seq<'s>;
    type SerializeTupleStruct = Seq<'s>;
    type SerializeTupleVariant = ser::Impossible<JsValue, Error>;
    type SerializeMap = ser::Impossible<JsValue, Error>;
    type SerializeStruct = Map<'s>;
    type SerializeStructVariant = Map<'s>;
    nums! { serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; }
    fn serialize_bool(self, v: bool) -> Result<JsValue> { Ok(JsValue::Bool(v)) }
    fn serialize_char(self, v: char) -> Result<JsValue> { Ok(JsValue::Str(v.into())) }
    fn serialize_str(self, v: &str) -> Result<JsValue> { Ok(JsValue::Str(v.into())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<JsValue> { Ok(JsValue::Array(v.iter().map(|b| JsValue::Num(*b as f64)).collect())) }
    fn serialize_none(self) -> Result<JsValue> { self.serialize_unit() }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<JsValue> { v.serialize(self) }
    fn serialize_unit(self) -> Result<JsValue> { Ok(if self.null { JsValue::Null } else { JsValue::Undefined }) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<JsValue> { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<JsValue> { Ok(JsValue::Str(v.into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<JsValue> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<JsValue> { Ok(JsValue::Object(vec![(n.into(), v.serialize(self)?)])) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'s>> { Ok(Seq(self, vec![])) }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'s>> { Ok(Seq(self, vec![])) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'s>> { Ok(Seq(self, vec![])) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant> { Err(ser::Error::custom("not supported")) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap> { Err(ser::Error::custom("not supported")) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map<'s>> { Ok(Map(self, vec![], None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Map<'s>> { Ok(Map(self, vec![], Some(v))) }
}
