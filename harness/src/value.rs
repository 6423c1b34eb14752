//! A self-describing serde format in memory, with structures as maps.
//! (The binary format of the codecs never takes that side of a `Deserialize`.)
use serde::de::{self, DeserializeOwned, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Value {
    Unit,
    None,
    Some(Box<Value>),
    Bool(bool),
    I(i64),
    U(u64),
    Big(u128),
    F(f32),
    D(f64),
    Str(String),
    Seq(Vec<Value>),
    Map(Vec<(Value, Value)>),
}

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

/// there and back; the fields of structures in any of the possible orders
pub fn again<T: Serialize + DeserializeOwned>(x: &T, reversed: bool) -> Result<T, Error> {
    let mut v = x.serialize(Ser)?;
    if reversed {
        reverse(&mut v);
    }
    T::deserialize(v)
}

fn reverse(v: &mut Value) {
    match v {
        Value::Some(x) => reverse(x),
        Value::Seq(x) => x.iter_mut().for_each(reverse),
        Value::Map(x) => {
            x.iter_mut().for_each(|(_, y)| reverse(y));
            x.reverse();
        }
        _ => {}
    }
}

pub struct Ser;
pub struct Many(Vec<Value>);
pub struct Pairs(Vec<(Value, Value)>);

macro_rules! simple {
    ($($f:ident $t:ty => $v:ident as $u:ty;)*) => {
        $(fn $f(self, x: $t) -> Result<Value, Error> { Ok(Value::$v(x as $u)) })*
    };
}
impl ser::Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = ser::Impossible<Value, Error>;
    type SerializeMap = Pairs;
    type SerializeStruct = Pairs;
    type SerializeStructVariant = ser::Impossible<Value, Error>;
    simple! {
        serialize_bool bool => Bool as bool;
        serialize_i8 i8 => I as i64;
        serialize_i16 i16 => I as i64;
        serialize_i32 i32 => I as i64;
        serialize_i64 i64 => I as i64;
        serialize_u8 u8 => U as u64;
        serialize_u16 u16 => U as u64;
        serialize_u32 u32 => U as u64;
        serialize_u64 u64 => U as u64;
        serialize_u128 u128 => Big as u128;
        serialize_f32 f32 => F as f32;
        serialize_f64 f64 => D as f64;
    }
    fn serialize_char(self, x: char) -> Result<Value, Error> {
        Ok(Value::Str(x.to_string()))
    }
    fn serialize_str(self, x: &str) -> Result<Value, Error> {
        Ok(Value::Str(x.to_string()))
    }
    fn serialize_bytes(self, x: &[u8]) -> Result<Value, Error> {
        Ok(Value::Seq(x.iter().map(|&b| Value::U(b as u64)).collect()))
    }
    fn serialize_none(self) -> Result<Value, Error> {
        Ok(Value::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<Value, Error> {
        Ok(Value::Some(Box::new(x.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        Ok(Value::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<Value, Error> {
        x.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Value, Error> {
        Err(ser::Error::custom("variant with data"))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, Error> {
        Ok(Many(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        Err(ser::Error::custom("variant with data"))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Error> {
        Ok(Pairs(vec![]))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Ok(Pairs(vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        Err(ser::Error::custom("variant with data"))
    }
}
macro_rules! many {
    ($($t:ident $f:ident;)*) => {
        $(impl ser::$t for Many {
            type Ok = Value;
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
                self.0.push(x.serialize(Ser)?);
                Ok(())
            }
            fn end(self) -> Result<Value, Error> {
                Ok(Value::Seq(self.0))
            }
        })*
    };
}
many! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
}
impl ser::SerializeMap for Pairs {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
        self.0.push((x.serialize(Ser)?, Value::Unit));
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
        self.0.last_mut().unwrap().1 = x.serialize(Ser)?;
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(Value::Map(self.0))
    }
}
impl ser::SerializeStruct for Pairs {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), Error> {
        self.0.push((Value::Str(k.to_string()), x.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Value, Error> {
        Ok(Value::Map(self.0))
    }
}

impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}
impl<'de> de::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Value::Unit => v.visit_unit(),
            Value::None => v.visit_none(),
            Value::Some(x) => v.visit_some(*x),
            Value::Bool(x) => v.visit_bool(x),
            Value::I(x) => v.visit_i64(x),
            Value::U(x) => v.visit_u64(x),
            Value::Big(x) => v.visit_u128(x),
            Value::F(x) => v.visit_f32(x),
            Value::D(x) => v.visit_f64(x),
            Value::Str(x) => v.visit_string(x),
            Value::Seq(x) => {
                let mut s = de::value::SeqDeserializer::new(x.into_iter());
                let r = v.visit_seq(&mut s)?;
                s.end()?;
                Ok(r)
            }
            Value::Map(x) => {
                let mut s = de::value::MapDeserializer::new(x.into_iter());
                let r = v.visit_map(&mut s)?;
                s.end()?;
                Ok(r)
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self {
            Value::None | Value::Unit => v.visit_none(),
            Value::Some(x) => v.visit_some(*x),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self {
            Value::Str(x) => v.visit_enum(x.into_deserializer()),
            _ => Err(de::Error::custom("not a variant")),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
