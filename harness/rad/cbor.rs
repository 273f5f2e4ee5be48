//! Stand-in for cbor-codec (not available offline).
pub mod types { #[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum Tag { DateTime, Timestamp, Unassigned(u64), CBOR }
    impl Tag { pub fn of(n: u64) -> Tag { match n { 0 => Tag::DateTime, 1 => Tag::Timestamp, 55799 => Tag::CBOR, n => Tag::Unassigned(n) } } pub fn to(&self) -> u64 { match self { Tag::DateTime => 0, Tag::Timestamp => 1, Tag::Unassigned(n) => *n, Tag::CBOR => 55799 } } } }
pub mod value {
    use std::collections::{BTreeMap, LinkedList};
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value { Array(Vec<Value>), Bool(bool), Break, Bytes(Bytes), F32(f32), F64(f64), I8(i8), I16(i16), I32(i32), I64(i64), Int(Int), Map(BTreeMap<Key, Value>), Null, Simple(u8), Tagged(super::types::Tag, Box<Value>), Text(Text), U8(u8), U16(u16), U32(u32), U64(u64), Undefined }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub enum Text { Text(String), Chunks(LinkedList<String>) }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub enum Bytes { Bytes(Vec<u8>), Chunks(LinkedList<Vec<u8>>) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub enum Int { Neg(u64), Pos(u64) }
    impl Int { pub fn i64(&self) -> Option<i64> { match *self { Int::Pos(n) => i64::try_from(n).ok(), Int::Neg(n) => i64::try_from(-1 - n as i128).ok() } } }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)] pub enum Key { Bool(bool), Bytes(Bytes), Int(Int), Text(Text) }
    use serde_cbor::Value as S;
    pub fn of(v: S) -> Value {
        match v {
            S::Null => Value::Null, S::Bool(b) => Value::Bool(b), S::Float(f) => Value::F64(f), S::Bytes(b) => Value::Bytes(Bytes::Bytes(b)), S::Text(t) => Value::Text(Text::Text(t)),
            S::Integer(i) => if let Ok(x) = u8::try_from(i) { Value::U8(x) } else if let Ok(x) = u16::try_from(i) { Value::U16(x) } else if let Ok(x) = u32::try_from(i) { Value::U32(x) } else if let Ok(x) = u64::try_from(i) { Value::U64(x) }
                else if let Ok(x) = i8::try_from(i) { Value::I8(x) } else if let Ok(x) = i16::try_from(i) { Value::I16(x) } else if let Ok(x) = i32::try_from(i) { Value::I32(x) } else if let Ok(x) = i64::try_from(i) { Value::I64(x) } else { Value::Int(Int::Neg((-1 - i) as u64)) },
            S::Array(a) => Value::Array(a.into_iter().map(of).collect()),
            S::Map(m) => Value::Map(m.into_iter().filter_map(|(k, v)| Some((match k { S::Text(t) => Key::Text(Text::Text(t)), S::Bool(b) => Key::Bool(b), S::Bytes(b) => Key::Bytes(Bytes::Bytes(b)), S::Integer(i) => Key::Int(if i < 0 { Int::Neg((-1 - i) as u64) } else { Int::Pos(i as u64) }), _ => return None }, of(v)))).collect()),
            S::Tag(t, _) if t >= serde_cbor::SIMPLE => Value::Simple((t & 31) as u8),
            S::Tag(t, x) => Value::Tagged(super::types::Tag::of(t), Box::new(of(*x))),
        }
    }
    pub fn to(v: &Value) -> S {
        match v {
            Value::Simple(n) => S::Tag(serde_cbor::SIMPLE | *n as u64, Box::new(S::Null)), Value::Null | Value::Undefined | Value::Break => S::Null, Value::Bool(b) => S::Bool(*b), Value::F32(f) => S::Float(*f as f64), Value::F64(f) => S::Float(*f),
            Value::Bytes(Bytes::Bytes(b)) => S::Bytes(b.clone()), Value::Bytes(Bytes::Chunks(l)) => S::Bytes(l.iter().flatten().cloned().collect()), Value::Text(Text::Text(t)) => S::Text(t.clone()), Value::Text(Text::Chunks(l)) => S::Text(l.iter().cloned().collect()),
            Value::I8(x) => S::Integer(*x as i128), Value::I16(x) => S::Integer(*x as i128), Value::I32(x) => S::Integer(*x as i128), Value::I64(x) => S::Integer(*x as i128),
            Value::U8(x) => S::Integer(*x as i128), Value::U16(x) => S::Integer(*x as i128), Value::U32(x) => S::Integer(*x as i128), Value::U64(x) => S::Integer(*x as i128),
            Value::Int(Int::Pos(x)) => S::Integer(*x as i128), Value::Int(Int::Neg(x)) => S::Integer(-1 - *x as i128),
            Value::Array(a) => S::Array(a.iter().map(to).collect()),
            Value::Map(m) => S::Map(m.iter().map(|(k, v)| (match k { Key::Bool(b) => S::Bool(*b), Key::Bytes(Bytes::Bytes(b)) => S::Bytes(b.clone()), Key::Int(Int::Pos(x)) => S::Integer(*x as i128), Key::Int(Int::Neg(x)) => S::Integer(-1 - *x as i128), Key::Text(Text::Text(t)) => S::Text(t.clone()), _ => S::Null }, to(v))).collect()),
            Value::Tagged(t, x) => S::Tag(t.to(), Box::new(to(x))),
        }
    }
}
#[derive(Clone, Debug, Default)] pub struct Config;
pub mod decoder {
    use std::io::Read;
    #[derive(Debug)] pub enum DecodeError { Malformed }
    impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("malformed") } }
    impl std::error::Error for DecodeError {}
    pub struct GenericDecoder<R> { r: R }
    impl<R: Read> GenericDecoder<R> {
        pub fn new(_: super::Config, r: R) -> Self { GenericDecoder { r } }
        pub fn value(&mut self) -> Result<super::value::Value, DecodeError> { let mut b = vec![]; self.r.read_to_end(&mut b).map_err(|_| DecodeError::Malformed)?; let mut p = 0; serde_cbor::parse(&b, &mut p, 0, true).map(super::value::of).map_err(|_| DecodeError::Malformed) }
    }
}
pub mod encoder {
    use std::io::Write;
    #[derive(Debug)] pub enum EncodeError { Io }
    impl std::fmt::Display for EncodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("io") } }
    impl std::error::Error for EncodeError {}
    pub struct Encoder<W> { w: W }
    impl<W> Encoder<W> { pub fn into_writer(self) -> W { self.w } }
    pub struct GenericEncoder<W> { w: W }
    impl<W: Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self { GenericEncoder { w } }
        pub fn value(&mut self, v: &super::value::Value) -> Result<(), EncodeError> { let b = serde_cbor::to_vec(&super::value::to(v)).map_err(|_| EncodeError::Io)?; self.w.write_all(&b).map_err(|_| EncodeError::Io) }
        pub fn into_inner(self) -> Encoder<W> { Encoder { w: self.w } }
    }
}
pub use encoder::GenericEncoder;
pub use decoder::GenericDecoder;
