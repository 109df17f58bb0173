//! A self-describing serialisation format that is a plain tree: what a type writes can be looked at, changed and read back.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::{ser, Deserialize, Serialize};
use std::fmt::Display;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    /// the name of a variant and what it holds
    Var(String, Box<V>),
}
#[derive(Debug)]
pub struct E(pub String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
pub fn write<T: Serialize + ?Sized>(t: &T) -> Result<V, E> {
    t.serialize(S)
}
pub fn read<T: for<'a> Deserialize<'a>>(v: &V) -> Result<T, E> {
    T::deserialize(D(v.clone()))
}
struct S;
struct Items(Vec<V>, Option<&'static str>);
struct Fields(Vec<(V, V)>, Option<V>, Option<&'static str>);
fn var(name: &str, v: V) -> V {
    V::Var(name.into(), Box::new(v))
}
impl Items {
    fn done(self) -> V {
        let v = V::Seq(self.0);
        match self.1 {
            None => v,
            Some(n) => var(n, v),
        }
    }
}
macro_rules! num {
    ($($f:ident $t:ty => $v:ident),*) => { $(fn $f(self, v: $t) -> Result<V, E> { Ok(V::$v(v as _)) })* };
}
impl ser::Serializer for S {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    num!(serialize_u8 u8 => U, serialize_u16 u16 => U, serialize_u32 u32 => U, serialize_u64 u64 => U, serialize_u128 u128 => U,
         serialize_i8 i8 => I, serialize_i16 i16 => I, serialize_i32 i32 => I, serialize_i64 i64 => I, serialize_i128 i128 => I);
    fn serialize_bool(self, v: bool) -> Result<V, E> {
        Ok(V::Bool(v))
    }
    fn serialize_f32(self, _: f32) -> Result<V, E> {
        Err(E("float".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<V, E> {
        Err(E("float".into()))
    }
    fn serialize_char(self, v: char) -> Result<V, E> {
        Ok(V::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<V, E> {
        Ok(V::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<V, E> {
        Ok(V::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<V, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<V, E> {
        Ok(var(n, V::Unit))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<V, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<V, E> {
        Ok(var(n, v.serialize(S)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, E> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Items, E> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items, E> {
        Ok(Items(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Items, E> {
        Ok(Items(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Fields, E> {
        Ok(Fields(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, E> {
        Ok(Fields(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Fields, E> {
        Ok(Fields(vec![], None, Some(n)))
    }
}
macro_rules! items {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Items {
        type Ok = V;
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
            self.0.push(v.serialize(S)?);
            Ok(())
        }
        fn end(self) -> Result<V, E> {
            Ok(self.done())
        }
    })* };
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl Fields {
    fn done(self) -> V {
        let v = V::Map(self.0);
        match self.2 {
            None => v,
            Some(n) => var(n, v),
        }
    }
}
macro_rules! fields {
    ($($t:ident),*) => { $(impl ser::$t for Fields {
        type Ok = V;
        type Error = E;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
            self.0.push((V::Str(k.into()), v.serialize(S)?));
            Ok(())
        }
        fn end(self) -> Result<V, E> {
            Ok(self.done())
        }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Fields {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(k.serialize(S)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E("value without key".into()))?;
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        Ok(self.done())
    }
}
struct D(V);
impl<'de> IntoDeserializer<'de, E> for D {
    type Deserializer = D;
    fn into_deserializer(self) -> D {
        self
    }
}
impl<'de> de::Deserializer<'de> for D {
    type Error = E;
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Unit => x.visit_unit(),
            V::Bool(b) => x.visit_bool(b),
            V::U(n) => match u64::try_from(n) {
                Ok(n) => x.visit_u64(n),
                Err(_) => x.visit_u128(n),
            },
            V::I(n) => match i64::try_from(n) {
                Ok(n) => x.visit_i64(n),
                Err(_) => x.visit_i128(n),
            },
            V::Str(s) => x.visit_string(s),
            V::Bytes(b) => x.visit_byte_buf(b),
            V::Seq(s) => {
                let n = s.len();
                let mut it = de::value::SeqDeserializer::new(s.into_iter().map(D));
                let r = x.visit_seq(&mut it)?;
                it.end().map_err(|_| E(format!("not all of {n} elements were read")))?;
                Ok(r)
            }
            V::Map(m) => x.visit_map(de::value::MapDeserializer::new(m.into_iter().map(|(k, v)| (D(k), D(v))))),
            V::Var(..) => Err(E("a variant where none is expected".into())),
        }
    }
    fn deserialize_option<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Unit => x.visit_none(),
            v => x.visit_some(D(v)),
        }
    }
    fn deserialize_newtype_struct<X: Visitor<'de>>(self, _: &'static str, x: X) -> Result<X::Value, E> {
        x.visit_newtype_struct(self)
    }
    fn deserialize_enum<X: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Var(n, v) => x.visit_enum(Variant(n, *v)),
            v => Err(E(format!("no variant: {v:?}"))),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct Variant(String, V);
impl<'de> de::EnumAccess<'de> for Variant {
    type Error = E;
    type Variant = D;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, D), E> {
        Ok((seed.deserialize(D(V::Str(self.0)))?, D(self.1)))
    }
}
impl<'de> de::VariantAccess<'de> for D {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        if self.0 == V::Unit {
            Ok(())
        } else {
            Err(E("holds nothing".into()))
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }
    fn tuple_variant<X: Visitor<'de>>(self, _: usize, x: X) -> Result<X::Value, E> {
        de::Deserializer::deserialize_any(self, x)
    }
    fn struct_variant<X: Visitor<'de>>(self, _: &'static [&'static str], x: X) -> Result<X::Value, E> {
        de::Deserializer::deserialize_any(self, x)
    }
}
