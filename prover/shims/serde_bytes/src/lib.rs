//! Stand-in for `serde_bytes`: `#[serde(with = "serde_bytes")]` on byte vectors.
use serde::de::{SeqAccess, Visitor};
use serde::{Deserializer, Serializer};
pub trait Bytes: Sized {
    fn b(&self) -> &[u8];
}
impl Bytes for Vec<u8> {
    fn b(&self) -> &[u8] {
        self
    }
}
pub fn serialize<S: Serializer, T: Bytes>(v: &T, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_bytes(v.b())
}
pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = Vec<u8>;
        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("byte array")
        }
        fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
            Ok(v.to_vec())
        }
        fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
            Ok(v)
        }
        fn visit_str<E>(self, v: &str) -> Result<Vec<u8>, E> {
            Ok(v.as_bytes().to_vec())
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
            let mut o = Vec::with_capacity(a.size_hint().unwrap_or(0).min(4096));
            while let Some(x) = a.next_element()? {
                o.push(x);
            }
            Ok(o)
        }
    }
    d.deserialize_byte_buf(V)
}
