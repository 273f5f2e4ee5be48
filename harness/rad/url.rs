#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub enum ParseError { EmptyHost }
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not available") } }
impl std::error::Error for ParseError {}
