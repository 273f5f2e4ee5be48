pub struct Element; pub enum Node { Element(Element), Text(String) }
#[derive(Debug)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not available") } }
impl Element { pub fn name(&self) -> &str { "" } pub fn attrs(&self) -> std::vec::IntoIter<(&str, &str)> { vec![].into_iter() } pub fn nodes(&self) -> std::vec::IntoIter<&Node> { vec![].into_iter() } }
impl std::str::FromStr for Element { type Err = Error; fn from_str(_: &str) -> Result<Element, Error> { Err(Error) } }
