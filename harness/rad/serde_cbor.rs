//! Stand-in for serde_cbor 0.11 (not available offline): the value type, its encoding and the conversions the RADON code uses.
use std::collections::BTreeMap;
use std::fmt;
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Value { Null, Bool(bool), Integer(i128), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Map(BTreeMap<Value, Value>), Tag(u64, Box<Value>) }
impl Eq for Value {}
impl Ord for Value { fn cmp(&self, o: &Self) -> std::cmp::Ordering { to_vec(self).unwrap().cmp(&to_vec(o).unwrap()) } }
macro_rules! ints { ($($t:ty)*) => { $(impl From<$t> for Value { fn from(x: $t) -> Value { Value::Integer(x as i128) } })* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
impl From<bool> for Value { fn from(x: bool) -> Value { Value::Bool(x) } }
impl From<f64> for Value { fn from(x: f64) -> Value { Value::Float(x) } }
impl From<String> for Value { fn from(x: String) -> Value { Value::Text(x) } }
impl From<Vec<Value>> for Value { fn from(x: Vec<Value>) -> Value { Value::Array(x) } }
impl From<BTreeMap<Value, Value>> for Value { fn from(x: BTreeMap<Value, Value>) -> Value { Value::Map(x) } }
impl From<Vec<u8>> for Value { fn from(x: Vec<u8>) -> Value { Value::Bytes(x) } }
#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl serde::ser::Error for Error { fn custom<T: fmt::Display>(t: T) -> Self { Error(t.to_string()) } }
pub mod error { pub use super::Error; pub type Result<T> = std::result::Result<T, Error>; }
pub type Result<T> = std::result::Result<T, Error>;
fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 { o.push(m | n as u8) } else if n < 1 << 8 { o.push(m | 24); o.push(n as u8) } else if n < 1 << 16 { o.push(m | 25); o.extend((n as u16).to_be_bytes()) }
    else if n < 1 << 32 { o.push(m | 26); o.extend((n as u32).to_be_bytes()) } else { o.push(m | 27); o.extend(n.to_be_bytes()) }
}
fn put(o: &mut Vec<u8>, v: &Value) -> Result<()> {
    match v {
        Value::Null => o.push(0xf6),
        Value::Bool(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        Value::Integer(i) => if *i >= 0 { head(o, 0, u64::try_from(*i).map_err(|_| Error("number out of range".into()))?) } else { head(o, 1, u64::try_from(-1 - *i).map_err(|_| Error("number out of range".into()))?) },
        Value::Float(f) => if f.is_nan() { o.extend([0xf9, 0x7e, 0]) } else if *f == (*f as f32) as f64 { o.push(0xfa); o.extend((*f as f32).to_be_bytes()) } else { o.push(0xfb); o.extend(f.to_be_bytes()) },
        Value::Bytes(b) => { head(o, 2, b.len() as u64); o.extend(b) }
        Value::Text(b) => { head(o, 3, b.len() as u64); o.extend(b.as_bytes()) }
        Value::Array(a) => { head(o, 4, a.len() as u64); for x in a { put(o, x)? } }
        Value::Map(a) => { head(o, 5, a.len() as u64); for (k, x) in a { put(o, k)?; put(o, x)? } }
        Value::Tag(t, _) if *t >= SIMPLE => o.push(0xe0 | (*t & 31) as u8),
        Value::Tag(t, x) => { head(o, 6, *t); put(o, x)? }
    }
    Ok(())
}
pub trait AsValue { fn as_value(&self) -> Result<Value>; }
impl AsValue for Value { fn as_value(&self) -> Result<Value> { Ok(self.clone()) } }
pub fn to_vec<T: AsValue>(v: &T) -> Result<Vec<u8>> { let mut o = vec![]; put(&mut o, &v.as_value()?)?; Ok(o) }
pub fn parse(b: &[u8], p: &mut usize, depth: usize, tags: bool) -> Result<Value> {
    let e = || Error("bad cbor".to_string());
    if depth > 128 || tags && depth >= 16 { return Err(Error("recursion limit exceeded".into())); }
    fn take<'a>(b: &'a [u8], p: &mut usize, n: u64) -> Option<&'a [u8]> { let n = usize::try_from(n).ok()?; let r = b.get(*p..p.checked_add(n)?)?; *p += n; Some(r) }
    fn num(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
    let h = take(b, p, 1).ok_or_else(e)?[0];
    let (major, low) = (h >> 5, h & 31);
    let n = match low { 0..=23 => low as u64, 24..=27 => num(take(b, p, 1 << (low - 24)).ok_or_else(e)?), _ => return Err(e()) };
    if tags && n > 1000 && (major == 4 || major == 5) { return Err(Error("too long".into())); }   // the defaults of the other codec
    Ok(match major {
        0 => Value::Integer(n as i128),
        1 => Value::Integer(-1 - n as i128),
        2 => Value::Bytes(take(b, p, n).ok_or_else(e)?.to_vec()),
        3 => Value::Text(String::from_utf8(take(b, p, n).ok_or_else(e)?.to_vec()).map_err(|_| e())?),
        4 => { let mut a = vec![]; for _ in 0..n { a.push(parse(b, p, depth + 1, tags)?) } Value::Array(a) }
        5 => { let mut a = BTreeMap::new(); for _ in 0..n { let k = parse(b, p, depth + 1, tags)?; a.insert(k, parse(b, p, depth + 1, tags)?); } Value::Map(a) }
        6 => { let x = parse(b, p, depth + 1, tags)?; if tags { Value::Tag(n, Box::new(x)) } else { x } }
        _ => match low {
            20 => Value::Bool(false), 21 => Value::Bool(true), 22 | 23 => Value::Null,
            25 => { let (s, x, m) = (n >> 15, (n >> 10) & 31, n & 1023); let v = if x == 0 { m as f64 * 2f64.powi(-24) } else if x == 31 { if m == 0 { f64::INFINITY } else { f64::NAN } } else { (1024 + m) as f64 * 2f64.powi(x as i32 - 25) }; Value::Float(if s == 1 { -v } else { v }) }
            26 => Value::Float(f32::from_bits(n as u32) as f64), 27 => Value::Float(f64::from_bits(n)),
            0..=19 if tags => Value::Tag(SIMPLE | low as u64, Box::new(Value::Null)),   // for the other codec only
            _ => return Err(e()),
        },
    })
}
pub const SIMPLE: u64 = u64::MAX - 31;
pub fn from_slice(b: &[u8]) -> Result<Value> { let mut p = 0; let v = parse(b, &mut p, 0, false)?; if p == b.len() { Ok(v) } else { Err(Error("trailing data".into())) } }
fn json(v: Value) -> Result<serde_json::Value> {
    use serde_json::Value as J;
    Ok(match v {
        Value::Null => J::Null, Value::Bool(b) => J::Bool(b), Value::Text(t) => J::String(t),
        Value::Integer(i) => if let Ok(u) = u64::try_from(i) { J::from(u) } else if let Ok(u) = i64::try_from(i) { J::from(u) } else { return Err(Error("number out of range".into())) },
        Value::Float(f) => serde_json::Number::from_f64(f).map(J::Number).unwrap_or(J::Null),
        Value::Bytes(b) => J::Array(b.into_iter().map(J::from).collect()),
        Value::Array(a) => J::Array(a.into_iter().map(json).collect::<Result<_>>()?),
        Value::Map(a) => { let mut m = serde_json::Map::new(); for (k, x) in a { if let Value::Text(k) = k { m.insert(k, json(x)?); } else { return Err(Error("key".into())) } } J::Object(m) }
        Value::Tag(_, x) => json(*x)?,
    })
}
fn unjson(v: serde_json::Value) -> Value {
    use serde_json::Value as J;
    match v {
        J::Null => Value::Null, J::Bool(b) => Value::Bool(b), J::String(t) => Value::Text(t),
        J::Number(n) => if let Some(u) = n.as_u64() { Value::Integer(u as i128) } else if let Some(i) = n.as_i64() { Value::Integer(i as i128) } else { Value::Float(n.as_f64().unwrap()) },
        J::Array(a) => Value::Array(a.into_iter().map(unjson).collect()),
        J::Object(m) => Value::Map(m.into_iter().map(|(k, x)| (Value::Text(k), unjson(x))).collect()),
    }
}
impl serde::Serialize for Value { fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> { json(self.clone()).map_err(serde::ser::Error::custom)?.serialize(s) } }
impl<'de> serde::Deserialize<'de> for Value { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> { Ok(unjson(serde_json::Value::deserialize(d)?)) } }
pub mod value {
    pub use super::Value;
    use super::*;
    pub fn to_value<T: AsAnyValue>(v: T) -> Result<Value> { v.any_value() }
    pub fn from_value<T: FromAny>(v: Value) -> Result<T> { T::from_any(v) }
    pub trait AsAnyValue { fn any_value(self) -> Result<Value>; }
    // a map of values keeps its values, everything else goes by its JSON form
    impl AsAnyValue for BTreeMap<Value, Value> { fn any_value(self) -> Result<Value> { Ok(Value::Map(self)) } }
    impl AsAnyValue for BTreeMap<String, Value> { fn any_value(self) -> Result<Value> { Ok(Value::Map(self.into_iter().map(|(k, v)| (Value::Text(k), v)).collect())) } }
    impl<'a, T: serde::Serialize> AsAnyValue for &'a T { fn any_value(self) -> Result<Value> { serde_json::to_value(self).map(unjson).map_err(|e| Error(e.to_string())) } }
    pub trait FromAny: Sized { fn from_any(v: Value) -> Result<Self>; }
    impl<T: serde::de::DeserializeOwned> FromAny for T {
        fn from_any(v: Value) -> Result<T> {
            // the plain conversions keep their value
            fn same<T, X>(x: X) -> Option<T> { if std::any::type_name::<T>() == std::any::type_name::<X>() { let x = std::mem::ManuallyDrop::new(x); Some(unsafe { std::mem::transmute_copy::<X, T>(&*x) }) } else { None } }
            match &v {
                Value::Array(a) => if let Some(r) = same::<T, Vec<Value>>(a.clone()) { return Ok(r) },
                Value::Map(m) => if std::any::type_name::<T>() == std::any::type_name::<BTreeMap<String, Value>>() { let mut o = BTreeMap::new(); for (k, x) in m { if let Value::Text(k) = k { o.insert(k.clone(), x.clone()); } else { return Err(Error("key".into())) } } return Ok(same::<T, BTreeMap<String, Value>>(o).unwrap()) },
                Value::Float(f) => if let Some(r) = same::<T, f64>(*f) { return Ok(r) },
                Value::Integer(i) => if let Some(r) = same::<T, i128>(*i) { return Ok(r) },
                _ => {}
            }
            serde_json::from_value(json(v)?).map_err(|e| Error(e.to_string()))
        }
    }
}
