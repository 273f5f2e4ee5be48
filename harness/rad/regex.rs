//! Only plain text patterns: no metacharacters.
pub struct Regex(String);
#[derive(Debug)] pub struct Error;
impl Regex { pub fn new(s: &str) -> Result<Regex, Error> { if s.is_empty() || s.chars().any(|c| "\\.+*?()|[]{}^$".contains(c)) { Err(Error) } else { Ok(Regex(s.to_string())) } }
    pub fn replace_all(&self, t: &str, r: String) -> String { t.replace(&self.0, &r) }
    pub fn split<'a>(&'a self, t: &'a str) -> impl Iterator<Item = &'a str> + 'a { t.split(self.0.as_str()) } }
