//! A data format of its own for configurations: what a configuration file would hold.
use serde::de::{self, value::*, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    Unit,
    Bool(bool),
    Num(u64),
    Text(String),
    List(Vec<Form>),
    Map(Vec<(String, Form)>),
}

#[derive(Debug)]
pub struct Wrong(pub String);
impl fmt::Display for Wrong {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Wrong {}
impl ser::Error for Wrong {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Wrong(t.to_string())
    }
}
impl de::Error for Wrong {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Wrong(t.to_string())
    }
}

pub struct Writer;
#[derive(Default)]
pub struct Items {
    list: Vec<Form>,
    map: Vec<(String, Form)>,
    variant: Option<String>,
}
impl Items {
    fn wrap(v: Option<String>, f: Form) -> Form {
        match v {
            Some(v) => Form::Map(vec![(v, f)]),
            None => f,
        }
    }
    fn as_list(self) -> Result<Form, Wrong> {
        Ok(Items::wrap(self.variant, Form::List(self.list)))
    }
    fn as_map(self) -> Result<Form, Wrong> {
        Ok(Items::wrap(self.variant, Form::Map(self.map)))
    }
}
macro_rules! nums {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Form, Wrong> { Ok(Form::Num(v as u64)) })* };
}
impl ser::Serializer for Writer {
    type Ok = Form;
    type Error = Wrong;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Items;
    type SerializeStruct = Items;
    type SerializeStructVariant = Items;
    nums!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<Form, Wrong> {
        Ok(Form::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Form, Wrong> {
        Ok(Form::Text(v.to_string()))
    }
    fn serialize_f64(self, v: f64) -> Result<Form, Wrong> {
        Ok(Form::Text(v.to_string()))
    }
    fn serialize_char(self, v: char) -> Result<Form, Wrong> {
        Ok(Form::Text(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Form, Wrong> {
        Ok(Form::Text(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Form, Wrong> {
        Ok(Form::List(v.iter().map(|b| Form::Num(*b as u64)).collect()))
    }
    fn serialize_none(self) -> Result<Form, Wrong> {
        Ok(Form::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Form, Wrong> {
        v.serialize(Writer)
    }
    fn serialize_unit(self) -> Result<Form, Wrong> {
        Ok(Form::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Form, Wrong> {
        Ok(Form::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Form, Wrong> {
        Ok(Form::Text(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Form, Wrong> {
        v.serialize(Writer)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<Form, Wrong> {
        Ok(Form::Map(vec![(k.to_string(), v.serialize(Writer)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, Wrong> {
        Ok(Items::default())
    }
    fn serialize_tuple(self, _: usize) -> Result<Items, Wrong> {
        Ok(Items::default())
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items, Wrong> {
        Ok(Items::default())
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Items, Wrong> {
        Ok(Items { variant: Some(v.to_string()), ..Items::default() })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Items, Wrong> {
        Ok(Items::default())
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Items, Wrong> {
        Ok(Items::default())
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Items, Wrong> {
        Ok(Items { variant: Some(v.to_string()), ..Items::default() })
    }
}
macro_rules! lists {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Items {
        type Ok = Form;
        type Error = Wrong;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Wrong> {
            self.list.push(v.serialize(Writer)?);
            Ok(())
        }
        fn end(self) -> Result<Form, Wrong> { self.as_list() }
    })* };
}
lists!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structs {
    ($($t:ident),*) => { $(impl ser::$t for Items {
        type Ok = Form;
        type Error = Wrong;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Wrong> {
            self.map.push((k.to_string(), v.serialize(Writer)?));
            Ok(())
        }
        fn end(self) -> Result<Form, Wrong> { self.as_map() }
    })* };
}
structs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Items {
    type Ok = Form;
    type Error = Wrong;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Wrong> {
        match k.serialize(Writer)? {
            Form::Text(t) => self.map.push((t, Form::Unit)),
            x => return Err(Wrong(format!("key {:?}", x))),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Wrong> {
        let f = v.serialize(Writer)?;
        match self.map.last_mut() {
            Some(x) => x.1 = f,
            None => return Err(Wrong("a value without a key".into())),
        }
        Ok(())
    }
    fn end(self) -> Result<Form, Wrong> {
        self.as_map()
    }
}

impl<'de> IntoDeserializer<'de, Wrong> for Form {
    type Deserializer = Form;
    fn into_deserializer(self) -> Form {
        self
    }
}
impl<'de> de::Deserializer<'de> for Form {
    type Error = Wrong;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Wrong> {
        match self {
            Form::Unit => v.visit_unit(),
            Form::Bool(x) => v.visit_bool(x),
            Form::Num(x) => v.visit_u64(x),
            Form::Text(x) => v.visit_string(x),
            Form::List(x) => {
                let mut d = SeqDeserializer::new(x.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Form::Map(x) => {
                let mut d = MapDeserializer::new(x.into_iter());
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Wrong> {
        match self {
            Form::Unit => v.visit_none(),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Wrong> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Wrong> {
        match self {
            Form::Text(t) => v.visit_enum(t.into_deserializer()),
            Form::Map(x) => v.visit_enum(MapAccessDeserializer::new(MapDeserializer::new(x.into_iter()))),
            x => Err(Wrong(format!("{:?} for a choice", x))),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier ignored_any
    }
}
