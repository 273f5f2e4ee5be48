pub trait Engine { fn encode<T: AsRef<[u8]>>(&self, b: T) -> String { b.as_ref().iter().map(|x| format!("{x:02x}")).collect() } fn decode<T: AsRef<[u8]>>(&self, _: T) -> Result<Vec<u8>, DecodeError> { Err(DecodeError) } }
#[derive(Debug)] pub struct DecodeError;
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not available") } }
pub mod engine { pub mod general_purpose { pub struct Std; impl crate::Engine for Std {} pub const STANDARD: Std = Std; } }
