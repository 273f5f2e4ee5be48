pub trait Slice { fn slice(&self, r: std::ops::RangeFrom<usize>) -> String; }
impl Slice for String { fn slice(&self, r: std::ops::RangeFrom<usize>) -> String { self.chars().skip(r.start).collect() } }
