//! A recording serializer and a scripted deserializer.
use crate::api::Ent;
use crate::elem::{key, val, Key, Val};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt;

impl<const P: usize> Serialize for Key<P> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.kk())
    }
}
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i64(self.v())
    }
}
struct NumVisitor;
impl<'de> Visitor<'de> for NumVisitor {
    type Value = i64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a number")
    }
    fn visit_i64<E>(self, v: i64) -> Result<i64, E> {
        Ok(v)
    }
}
impl<'de, const P: usize> de::Deserialize<'de> for Key<P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_i64(NumVisitor).map(key)
    }
}
impl<'de> de::Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_i64(NumVisitor).map(val)
    }
}

#[derive(Debug)]
pub struct Er(pub String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}
impl ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Er(m.to_string())
    }
}

/// What was serialized: announced length, announced lengths match, entries.
#[derive(Default)]
pub struct Ser {
    pub len: Option<usize>,
    pub maps: usize,
    pub items: Vec<Ent>,
    pub err: bool,
    key: Option<i64>,
    num: Option<i64>,
}

pub fn serialize<T: Serialize>(t: &T) -> Ser {
    let mut s = Ser::default();
    if t.serialize(&mut s).is_err() {
        s.err = true
    }
    s
}

macro_rules! nope {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Er> { Err(Er(stringify!($f).into())) })* };
}
impl<'a> Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Self;
    type SerializeTuple = ser::Impossible<(), Er>;
    type SerializeTupleStruct = ser::Impossible<(), Er>;
    type SerializeTupleVariant = ser::Impossible<(), Er>;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Er>;
    nope! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32);
    serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
    serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none();
    serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_i64(self, v: i64) -> Result<(), Er> {
        self.num = Some(v);
        Ok(())
    }
    fn serialize_unit(self) -> Result<(), Er> {
        self.num = Some(0);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> {
        self.serialize_unit()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(self)
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Self, Er> {
        self.maps += 1;
        self.len = l;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Self, Er> {
        self.maps += 1;
        self.len = l;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Er> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> {
        Err(Er("variant".into()))
    }
}
impl<'a> ser::SerializeSeq for &'a mut Ser {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)?;
        let k = self.num.take().ok_or(Er("elem".into()))?;
        self.items.push((k, 0));
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}
impl<'a> ser::SerializeMap for &'a mut Ser {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)?;
        self.key = self.num.take();
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)?;
        let v = self.num.take().ok_or(Er("value".into()))?;
        let k = self.key.take().ok_or(Er("key".into()))?;
        self.items.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}
impl<'a> ser::SerializeStruct for &'a mut Ser {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Er> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Er> {
        Ok(())
    }
}

/// A scripted input: entries, a size hint (possibly wrong), and the position
/// of an error: `err = 2*i` fails reading key i, `2*i+1` reading value i.
#[derive(Clone, Default)]
pub struct Script {
    pub hint: Option<usize>,
    pub items: Vec<Ent>,
    pub err: Option<usize>,
}

struct Input<'a> {
    s: &'a Script,
    i: usize,
    in_struct: bool,
}
pub fn deserialize<T: de::DeserializeOwned>(s: &Script) -> Result<T, String> {
    let mut i = Input { s, i: 0, in_struct: false };
    T::deserialize(&mut i).map_err(|e| e.0)
}

/// Deserializer of one number.
struct Num(i64);
impl<'de> Deserializer<'de> for Num {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_i64(self.0)
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes
    byte_buf option unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

impl<'de, 'a, 'b> Deserializer<'de> for &'b mut Input<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_map(self)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_map(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_seq(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        self.in_struct = true;
        v.visit_map(StructAccess { d: self, fields: f, i: 0 })
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes
    byte_buf option unit unit_struct tuple tuple_struct enum identifier ignored_any }
}
struct StructAccess<'a, 'b> {
    d: &'b mut Input<'a>,
    fields: &'static [&'static str],
    i: usize,
}
struct Ident(&'static str);
impl<'de> Deserializer<'de> for Ident {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        v.visit_str(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes
    byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a, 'b> MapAccess<'de> for StructAccess<'a, 'b> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        // the collection is the first field of the struct
        if self.i >= self.fields.len().min(1) {
            return Ok(None);
        }
        self.i += 1;
        seed.deserialize(Ident(self.fields[self.i - 1])).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Er> {
        seed.deserialize(&mut *self.d)
    }
}
impl<'de, 'a, 'b> MapAccess<'de> for &'b mut Input<'a> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.s.err == Some(2 * self.i) {
            return Err(Er("scripted".into()));
        }
        match self.s.items.get(self.i) {
            None => Ok(None),
            Some(e) => seed.deserialize(Num(e.0)).map(Some),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Er> {
        self.i += 1;
        if self.s.err == Some(2 * self.i - 1) {
            return Err(Er("scripted".into()));
        }
        seed.deserialize(Num(self.s.items[self.i - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.s.hint
    }
}
impl<'de, 'a, 'b> SeqAccess<'de> for &'b mut Input<'a> {
    type Error = Er;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.s.err == Some(2 * self.i) || self.s.err == Some(2 * self.i + 1) {
            return Err(Er("scripted".into()));
        }
        self.i += 1;
        match self.s.items.get(self.i - 1) {
            None => Ok(None),
            Some(e) => seed.deserialize(Num(e.0)).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.s.hint
    }
}
