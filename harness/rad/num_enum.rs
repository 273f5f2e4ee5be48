pub use num_enum_derive::{IntoPrimitive, TryFromPrimitive};
#[derive(Debug, Clone, PartialEq, Eq)] pub struct TryFromPrimitiveError<T> { pub number: T }
impl<T: std::fmt::Debug> std::fmt::Display for TryFromPrimitiveError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no discriminant {:?}", self.number) } }
impl<T: std::fmt::Debug> std::error::Error for TryFromPrimitiveError<T> {}
