//! A serialiser into a plain tree in which two values can be compared: maps are compared as maps
//! (the iteration order of hash maps is not part of the value)
use serde::ser::{self, Serialize};
use std::fmt::Display;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    Unit,
    Bool(bool),
    Int(i128),
    Float(u64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<T>),
    Seq(Vec<T>),
    Map(Vec<(T, T)>),
    Struct(Vec<(&'static str, T)>),
    Variant(&'static str, Box<T>),
}

#[derive(Debug)]
pub struct E(String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<X: Display>(x: X) -> Self {
        E(x.to_string())
    }
}

pub fn tree<V: Serialize + ?Sized>(v: &V) -> Result<T, String> {
    v.serialize(S).map_err(|e| e.0)
}

struct S;
pub struct Seq(Vec<T>, Option<&'static str>);
pub struct Map(Vec<(T, T)>, Option<T>);
pub struct St(Vec<(&'static str, T)>, Option<&'static str>);

macro_rules! int {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<T, E> { Ok(T::Int(v as i128)) })* };
}

impl ser::Serializer for S {
    type Ok = T;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Map;
    type SerializeStruct = St;
    type SerializeStructVariant = St;
    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_char(self, v: char) -> Result<T, E> {
        Ok(T::Int(v as i128))
    }
    fn serialize_bool(self, v: bool) -> Result<T, E> {
        Ok(T::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<T, E> {
        Ok(T::Float(f64::from(v).to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<T, E> {
        Ok(T::Float(v.to_bits()))
    }
    fn serialize_str(self, v: &str) -> Result<T, E> {
        Ok(T::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<T, E> {
        Ok(T::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<T, E> {
        Ok(T::None)
    }
    fn serialize_some<V: Serialize + ?Sized>(self, v: &V) -> Result<T, E> {
        Ok(T::Some(Box::new(v.serialize(S)?)))
    }
    fn serialize_unit(self) -> Result<T, E> {
        Ok(T::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<T, E> {
        Ok(T::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<T, E> {
        Ok(T::Variant(v, Box::new(T::Unit)))
    }
    fn serialize_newtype_struct<V: Serialize + ?Sized>(self, _: &'static str, v: &V) -> Result<T, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<V: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &V) -> Result<T, E> {
        Ok(T::Variant(n, Box::new(v.serialize(S)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map, E> {
        Ok(Map(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<St, E> {
        Ok(St(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<St, E> {
        Ok(St(vec![], Some(n)))
    }
}
impl Seq {
    fn fin(self) -> Result<T, E> {
        Ok(match self.1 {
            None => T::Seq(self.0),
            Some(n) => T::Variant(n, Box::new(T::Seq(self.0))),
        })
    }
}
macro_rules! seq {
    ($($tr:ident $f:ident),*) => { $(impl ser::$tr for Seq {
        type Ok = T;
        type Error = E;
        fn $f<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> { self.0.push(v.serialize(S)?); Ok(()) }
        fn end(self) -> Result<T, E> { self.fin() }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Map {
    type Ok = T;
    type Error = E;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
        self.1 = Some(v.serialize(S)?);
        Ok(())
    }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
        let k = self.1.take().unwrap();
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(mut self) -> Result<T, E> {
        self.0.sort();
        Ok(T::Map(self.0))
    }
}
macro_rules! st {
    ($($tr:ident),*) => { $(impl ser::$tr for St {
        type Ok = T;
        type Error = E;
        fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<(), E> { self.0.push((k, v.serialize(S)?)); Ok(()) }
        fn end(self) -> Result<T, E> {
            Ok(match self.1 { None => T::Struct(self.0), Some(n) => T::Variant(n, Box::new(T::Struct(self.0))) })
        }
    })* };
}
st!(SerializeStruct, SerializeStructVariant);

/// where two trees differ
pub fn diff(a: &T, b: &T) -> String {
    match (a, b) {
        (T::Struct(x), T::Struct(y)) if x.len() == y.len() => {
            for (p, q) in x.iter().zip(y) {
                if p != q {
                    return format!(".{}{}", p.0, diff(&p.1, &q.1));
                }
            }
            String::new()
        }
        (T::Seq(x), T::Seq(y)) if x.len() == y.len() => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return format!("[{i}]{}", diff(p, q));
                }
            }
            String::new()
        }
        (T::Some(x), T::Some(y)) => diff(x, y),
        (T::Variant(m, x), T::Variant(n, y)) if m == n => diff(x, y),
        _ => {
            let f = |t: &T| format!("{t:?}").chars().take(300).collect::<String>();
            format!(": {} became {}", f(a), f(b))
        }
    }
}
