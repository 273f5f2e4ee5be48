pub struct Selector;
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not available") } }
impl Selector { pub fn new(_: &str) -> Result<Selector, Error> { Err(Error) } pub fn find<'a>(&self, _: &'a serde_json::Value) -> std::vec::IntoIter<&'a serde_json::Value> { vec![].into_iter() } }
