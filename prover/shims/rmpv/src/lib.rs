//! Stand-in for `rmpv` (with-serde): the dynamic MessagePack value.
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum N {
    Pos(u64),
    Neg(i64),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Integer(N);
impl Integer {
    pub fn as_i64(&self) -> Option<i64> {
        match self.0 {
            N::Pos(u) => i64::try_from(u).ok(),
            N::Neg(i) => Some(i),
        }
    }
    pub fn as_u64(&self) -> Option<u64> {
        match self.0 {
            N::Pos(u) => Some(u),
            N::Neg(_) => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        Some(match self.0 {
            N::Pos(u) => u as f64,
            N::Neg(i) => i as f64,
        })
    }
    pub fn is_i64(&self) -> bool {
        self.as_i64().is_some()
    }
    pub fn is_u64(&self) -> bool {
        self.as_u64().is_some()
    }
}
impl fmt::Debug for Integer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Integer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.0 {
            N::Pos(u) => write!(f, "{u}"),
            N::Neg(i) => write!(f, "{i}"),
        }
    }
}
macro_rules! ints {
    (u: $($u:ty),*; i: $($i:ty),*) => {
        $( impl From<$u> for Integer { fn from(v: $u) -> Self { Integer(N::Pos(v as u64)) } } )*
        $( impl From<$i> for Integer { fn from(v: $i) -> Self { if v < 0 { Integer(N::Neg(v as i64)) } else { Integer(N::Pos(v as u64)) } } } )*
        $( impl From<$u> for Value { fn from(v: $u) -> Self { Value::Integer(v.into()) } } )*
        $( impl From<$i> for Value { fn from(v: $i) -> Self { Value::Integer(v.into()) } } )*
    };
}
ints!(u: u8, u16, u32, u64, usize; i: i8, i16, i32, i64, isize);
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Utf8String(Result<String, Vec<u8>>);
impl Utf8String {
    pub fn as_str(&self) -> Option<&str> {
        self.0.as_deref().ok()
    }
    pub fn into_str(self) -> Option<String> {
        self.0.ok()
    }
    pub fn is_str(&self) -> bool {
        self.0.is_ok()
    }
    pub fn as_bytes(&self) -> &[u8] {
        match &self.0 {
            Ok(s) => s.as_bytes(),
            Err(b) => b,
        }
    }
}
impl fmt::Display for Utf8String {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Ok(s) => write!(f, "{s:?}"),
            Err(b) => write!(f, "{b:?}"),
        }
    }
}
impl From<String> for Utf8String {
    fn from(s: String) -> Self {
        Utf8String(Ok(s))
    }
}
impl<'a> From<&'a str> for Utf8String {
    fn from(s: &'a str) -> Self {
        Utf8String(Ok(s.into()))
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Value {
    Nil,
    Boolean(bool),
    Integer(Integer),
    F32(f32),
    F64(f64),
    String(Utf8String),
    Binary(Vec<u8>),
    Array(Vec<Value>),
    Map(Vec<(Value, Value)>),
    Ext(i8, Vec<u8>),
}
impl Value {
    pub fn as_i64(&self) -> Option<i64> {
        if let Value::Integer(i) = self { i.as_i64() } else { None }
    }
    pub fn as_u64(&self) -> Option<u64> {
        if let Value::Integer(i) = self { i.as_u64() } else { None }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            Value::Integer(i) => i.as_f64(),
            Value::F32(f) => Some(*f as f64),
            Value::F64(f) => Some(*f),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let Value::Boolean(b) = self { Some(*b) } else { None }
    }
    pub fn as_str(&self) -> Option<&str> {
        if let Value::String(s) = self { s.as_str() } else { None }
    }
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        if let Value::Array(a) = self { Some(a) } else { None }
    }
    pub fn as_map(&self) -> Option<&Vec<(Value, Value)>> {
        if let Value::Map(m) = self { Some(m) } else { None }
    }
    pub fn as_slice(&self) -> Option<&[u8]> {
        match self {
            Value::Binary(b) => Some(b),
            Value::String(s) => Some(s.as_bytes()),
            _ => None,
        }
    }
    pub fn is_nil(&self) -> bool {
        matches!(self, Value::Nil)
    }
    pub fn is_array(&self) -> bool {
        matches!(self, Value::Array(_))
    }
    pub fn is_map(&self) -> bool {
        matches!(self, Value::Map(_))
    }
    pub fn is_number(&self) -> bool {
        matches!(self, Value::Integer(_) | Value::F32(_) | Value::F64(_))
    }
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Value::Nil => write!(f, "nil"),
            Value::Boolean(b) => write!(f, "{b}"),
            Value::Integer(i) => write!(f, "{i}"),
            Value::F32(x) => write!(f, "{x}"),
            Value::F64(x) => write!(f, "{x}"),
            Value::String(s) => write!(f, "{s}"),
            Value::Binary(b) => write!(f, "{b:?}"),
            Value::Array(a) => {
                write!(f, "[")?;
                for (i, x) in a.iter().enumerate() {
                    write!(f, "{}{x}", if i > 0 { ", " } else { "" })?;
                }
                write!(f, "]")
            }
            Value::Map(m) => {
                write!(f, "{{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    write!(f, "{}{k}: {v}", if i > 0 { ", " } else { "" })?;
                }
                write!(f, "}}")
            }
            Value::Ext(t, b) => write!(f, "[{t}, {b:?}]"),
        }
    }
}
impl From<bool> for Value {
    fn from(v: bool) -> Self {
        Value::Boolean(v)
    }
}
impl From<f32> for Value {
    fn from(v: f32) -> Self {
        Value::F32(v)
    }
}
impl From<f64> for Value {
    fn from(v: f64) -> Self {
        Value::F64(v)
    }
}
impl From<String> for Value {
    fn from(v: String) -> Self {
        Value::String(v.into())
    }
}
impl<'a> From<&'a str> for Value {
    fn from(v: &'a str) -> Self {
        Value::String(v.into())
    }
}
impl From<Vec<Value>> for Value {
    fn from(v: Vec<Value>) -> Self {
        Value::Array(v)
    }
}
impl From<Vec<(Value, Value)>> for Value {
    fn from(v: Vec<(Value, Value)>) -> Self {
        Value::Map(v)
    }
}
impl From<Vec<u8>> for Value {
    fn from(v: Vec<u8>) -> Self {
        Value::Binary(v)
    }
}
static NIL: Value = Value::Nil;
impl std::ops::Index<&str> for Value {
    type Output = Value;
    fn index(&self, k: &str) -> &Value {
        if let Value::Map(m) = self {
            for (a, b) in m {
                if a.as_str() == Some(k) {
                    return b;
                }
            }
        }
        &NIL
    }
}
impl std::ops::Index<usize> for Value {
    type Output = Value;
    fn index(&self, k: usize) -> &Value {
        self.as_array().and_then(|a| a.get(k)).unwrap_or(&NIL)
    }
}
impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Value::Nil => s.serialize_unit(),
            Value::Boolean(b) => s.serialize_bool(*b),
            Value::Integer(Integer(N::Pos(u))) => s.serialize_u64(*u),
            Value::Integer(Integer(N::Neg(i))) => s.serialize_i64(*i),
            Value::F32(f) => s.serialize_f32(*f),
            Value::F64(f) => s.serialize_f64(*f),
            Value::String(u) => match &u.0 {
                Ok(t) => s.serialize_str(t),
                Err(b) => s.serialize_bytes(b),
            },
            Value::Binary(b) => s.serialize_bytes(b),
            Value::Array(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for x in a {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    q.serialize_entry(k, v)?;
                }
                q.end()
            }
            Value::Ext(..) => Err(serde::ser::Error::custom("ext values are not supported here")),
        }
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("any valid MessagePack value")
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
                Deserialize::deserialize(d)
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Nil)
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Nil)
            }
            fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_f32<E>(self, v: f32) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_str<E>(self, v: &str) -> Result<Value, E> {
                Ok(v.into())
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Value, E> {
                Ok(Value::Binary(v.to_vec()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut o = vec![];
                while let Some(x) = a.next_element()? {
                    o.push(x);
                }
                Ok(Value::Array(o))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut o = vec![];
                while let Some(x) = a.next_entry()? {
                    o.push(x);
                }
                Ok(Value::Map(o))
            }
        }
        d.deserialize_any(V)
    }
}
pub mod ext {
    use super::*;
    #[derive(Debug)]
    pub enum Error {
        Syntax(String),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let Error::Syntax(s) = self;
            write!(f, "{s}")
        }
    }
    impl std::error::Error for Error {}
    pub fn from_value<T: for<'de> Deserialize<'de>>(v: Value) -> Result<T, Error> {
        let b = rmp_serde::to_vec(&v).map_err(|e| Error::Syntax(e.to_string()))?;
        rmp_serde::from_slice(&b).map_err(|e| Error::Syntax(e.to_string()))
    }
    pub fn to_value<T: Serialize>(v: T) -> Result<Value, Error> {
        let b = rmp_serde::to_vec(&v).map_err(|e| Error::Syntax(e.to_string()))?;
        rmp_serde::from_slice(&b).map_err(|e| Error::Syntax(e.to_string()))
    }
}
