#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct NotNan<T>(T);
#[derive(Debug)] pub struct FloatIsNan;
impl NotNan<f64> { pub fn new(x: f64) -> Result<Self, FloatIsNan> { if x.is_nan() { Err(FloatIsNan) } else { Ok(NotNan(x)) } } pub fn into_inner(self) -> f64 { self.0 } }
impl Eq for NotNan<f64> {}
impl Ord for NotNan<f64> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.partial_cmp(o).unwrap() } }
impl std::ops::Deref for NotNan<f64> { type Target = f64; fn deref(&self) -> &f64 { &self.0 } }
impl From<NotNan<f64>> for f64 { fn from(x: NotNan<f64>) -> f64 { x.0 } }
macro_rules! op { ($($t:ident $f:ident $o:tt)*) => { $(impl std::ops::$t for NotNan<f64> { type Output = NotNan<f64>; fn $f(self, o: Self) -> Self { NotNan::new(self.0 $o o.0).expect("NotNan") } } impl std::ops::$t<f64> for NotNan<f64> { type Output = NotNan<f64>; fn $f(self, o: f64) -> Self { NotNan::new(self.0 $o o).expect("NotNan") } })* } }
op!(Add add + Sub sub - Mul mul * Div div /);
