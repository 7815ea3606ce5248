//! A strict serde format of our own: every kind of value is kept apart (bytes are not a
//! sequence, a map is not a struct's field list unless asked, nothing is coerced), as formats
//! in the manner of MessagePack do. Used to serialise and deserialise the crate's types.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    Unit,
    None,
    Some(Box<T>),
    Bool(bool),
    I(i128),
    F(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    /// name and index of the variant, and its content
    Variant(String, u32, Box<T>),
}
#[derive(Debug, Clone, Copy)]
pub struct Fmt {
    /// structs are sequences of their fields rather than maps
    pub compact: bool,
    /// variants go by their index rather than by their name
    pub index: bool,
    /// what the visitor of strings and bytes is given
    pub owned: u8,
    pub human: bool,
}
#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<M: fmt::Display>(m: M) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<M: fmt::Display>(m: M) -> Self {
        E(m.to_string())
    }
}
pub fn to<V: Serialize>(v: &V, f: Fmt) -> Result<T, E> {
    v.serialize(Ser(f))
}
pub fn from<'a, V: de::Deserialize<'a>>(t: &'a T, f: Fmt) -> Result<V, E> {
    V::deserialize(De(t, f))
}

// ------------------------------------------------------------ serializer
#[derive(Clone, Copy)]
struct Ser(Fmt);
struct SeqSer(Fmt, Vec<T>, Option<(String, u32)>);
struct MapSer(Fmt, Vec<(T, T)>, Option<T>, Option<(String, u32)>);
fn wrap(t: T, v: Option<(String, u32)>) -> T {
    match v {
        None => t,
        Some((n, i)) => T::Variant(n, i, Box::new(t)),
    }
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<T, E> { Ok(T::I(v as i128)) })* };
}
impl ser::Serializer for Ser {
    type Ok = T;
    type Error = E;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = SeqSer;
    type SerializeMap = MapSer;
    type SerializeStruct = MapSer;
    type SerializeStructVariant = MapSer;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<T, E> {
        Ok(T::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<T, E> {
        Ok(T::F((v as f64).to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<T, E> {
        Ok(T::F(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<T, E> {
        Ok(T::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<T, E> {
        Ok(T::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<T, E> {
        Ok(T::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<T, E> {
        Ok(T::None)
    }
    fn serialize_some<V: Serialize + ?Sized>(self, v: &V) -> Result<T, E> {
        Ok(T::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<T, E> {
        Ok(T::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<T, E> {
        Ok(T::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<T, E> {
        Ok(T::Variant(n.to_string(), i, Box::new(T::Unit)))
    }
    fn serialize_newtype_struct<V: Serialize + ?Sized>(self, _: &'static str, v: &V) -> Result<T, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<V: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, v: &V) -> Result<T, E> {
        Ok(T::Variant(n.to_string(), i, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, E> {
        Ok(SeqSer(self.0, vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, E> {
        Ok(SeqSer(self.0, vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, E> {
        Ok(SeqSer(self.0, vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<SeqSer, E> {
        Ok(SeqSer(self.0, vec![], Some((n.to_string(), i))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, E> {
        Ok(MapSer(Fmt { compact: false, ..self.0 }, vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapSer, E> {
        Ok(MapSer(self.0, vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<MapSer, E> {
        Ok(MapSer(self.0, vec![], None, Some((n.to_string(), i))))
    }
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
}
macro_rules! seq_ser {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for SeqSer {
        type Ok = T;
        type Error = E;
        fn $f<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
            self.1.push(v.serialize(Ser(self.0))?);
            Ok(())
        }
        fn end(self) -> Result<T, E> {
            Ok(wrap(T::Seq(self.1), self.2))
        }
    })* };
}
seq_ser!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! map_ser {
    ($($t:ident),*) => { $(impl ser::$t for MapSer {
        type Ok = T;
        type Error = E;
        fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<(), E> {
            self.1.push((T::Str(k.to_string()), v.serialize(Ser(self.0))?));
            Ok(())
        }
        fn end(self) -> Result<T, E> {
            Ok(wrap(if self.0.compact { T::Seq(self.1.into_iter().map(|x| x.1).collect()) } else { T::Map(self.1) }, self.3))
        }
    })* };
}
map_ser!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for MapSer {
    type Ok = T;
    type Error = E;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, k: &V) -> Result<(), E> {
        self.2 = Some(k.serialize(Ser(self.0))?);
        Ok(())
    }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
        let k = self.2.take().unwrap();
        self.1.push((k, v.serialize(Ser(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<T, E> {
        Ok(T::Map(self.1))
    }
}

// ------------------------------------------------------------ deserializer
#[derive(Clone, Copy)]
struct De<'a>(&'a T, Fmt);
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            T::Unit => v.visit_unit(),
            T::None => v.visit_none(),
            T::Some(x) => v.visit_some(De(x, self.1)),
            T::Bool(x) => v.visit_bool(*x),
            T::I(x) => match (u64::try_from(*x), i64::try_from(*x)) {
                (Ok(x), _) => v.visit_u64(x),
                (_, Ok(x)) => v.visit_i64(x),
                _ => v.visit_i128(*x),
            },
            T::F(x) => v.visit_f64(f64::from_bits(*x)),
            T::Char(x) => v.visit_char(*x),
            T::Str(x) => match self.1.owned {
                0 => v.visit_str(x),
                1 => v.visit_borrowed_str(x),
                _ => v.visit_string(x.clone()),
            },
            T::Bytes(x) => match self.1.owned {
                0 => v.visit_bytes(x),
                1 => v.visit_borrowed_bytes(x),
                _ => v.visit_byte_buf(x.clone()),
            },
            T::Seq(x) => v.visit_seq(Items(x.iter(), self.1)),
            T::Map(x) => v.visit_map(Pairs(x.iter(), None, self.1)),
            T::Variant(..) => v.visit_enum(self),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            T::None => v.visit_none(),
            T::Some(x) => v.visit_some(De(x, self.1)),
            // a format without a mark for present values
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(self)
    }
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
struct Items<'a>(std::slice::Iter<'a, T>, Fmt);
impl<'a> SeqAccess<'a> for Items<'a> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        self.0.next().map(|x| s.deserialize(De(x, self.1))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
struct Pairs<'a>(std::slice::Iter<'a, (T, T)>, Option<&'a T>, Fmt);
impl<'a> MapAccess<'a> for Pairs<'a> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(De(k, self.2)).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, E> {
        s.deserialize(De(self.1.take().unwrap(), self.2))
    }
}
impl<'a> EnumAccess<'a> for De<'a> {
    type Error = E;
    type Variant = De<'a>;
    fn variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<(S::Value, De<'a>), E> {
        match self.0 {
            T::Variant(n, i, x) => {
                let r = if self.1.index { s.deserialize(IntoDeserializer::<E>::into_deserializer(*i as u64))? } else { s.deserialize(IntoDeserializer::<E>::into_deserializer(n.as_str()))? };
                Ok((r, De(x, self.1)))
            }
            x => Err(E(format!("{x:?} is not a variant"))),
        }
    }
}
impl<'a> VariantAccess<'a> for De<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.0 {
            T::Unit => Ok(()),
            x => Err(E(format!("{x:?} in a variant without content"))),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<S::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, E> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        de::Deserializer::deserialize_any(self, v)
    }
}
