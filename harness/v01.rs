use serde_cbor::Value;
use std::collections::BTreeMap;
use RadonTypes as T;
const TEXTS: [&str; 8] = ["", "a", "b", "key", "it's", "añb", "日本語", "a rather long text of more than twenty-four bytes"];
const EDGES: [i128; 20] = [0, 23, 24, 255, 256, 65535, 65536, 1 << 31, 1 << 32, i64::MAX as i128, 1 << 63, (1 << 64) - 1, -1, -24, -25, -256, -257, -(1 << 63), -(1 << 63) - 1, -(1 << 64)];
fn int(c: &mut Ctx) -> i128 { match c.below(4) { 0 => c.pick(&EDGES), 1 => c.pick(&EDGES).saturating_add(c.below(3) as i128 - 1).clamp(-(1 << 64), (1 << 64) - 1), 2 => c.below(9) as i128 - 4, _ => (c.num(u64::MAX) as i128 - c.num(u64::MAX) as i128).clamp(-(1 << 64), (1 << 64) - 1) } }
fn float(c: &mut Ctx) -> f64 { c.pick(&[0.0, -0.0, 1.0, 0.5, -2.5, 0.1, 1e300, -1e300, f64::MIN_POSITIVE, 3.0, 16777217.0, 1.0 + f64::EPSILON, 3.4028236e38]) }
fn text(c: &mut Ctx) -> String { let t = c.pick(&TEXTS); t.to_string() }
fn val(c: &mut Ctx, d: u32) -> T {
    match if d == 0 { 2 + c.below(5) } else { c.below(8) } {
        0 => { let n = if c.chance(20) { c.pick(&[23u64, 24, 30, 256]) } else { c.below(5) }; let same = c.chance(2); let x = val(c, d - 1); T::from(RadonArray::from((0..n).map(|_| if same { x.clone() } else { val(c, d - 1) }).collect::<Vec<_>>())) }
        1 => T::from(RadonMap::from((0..c.below(4)).map(|_| (text(c), val(c, d - 1))).collect::<BTreeMap<_, _>>())),
        2 => T::from(RadonBoolean::from(c.flip())),
        3 => T::from(RadonBytes::from((0..c.pick(&[0u64, 1, 2, 23, 24, 32])).map(|_| c.below(256) as u8).collect::<Vec<u8>>())),
        4 => T::from(RadonFloat::from(if c.chance(8) { c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { float(c) })),
        5 => T::from(RadonInteger::from(int(c))),
        _ => T::from(RadonString::from(text(c))),
    }
}
// A separate reading of what a value is in CBOR, and of what CBOR is.
fn of(x: &T) -> Value {
    match x {
        T::Array(a) => Value::Array(a.value().iter().map(of).collect()), T::Map(m) => Value::Map(m.value().iter().map(|(k, v)| (Value::Text(k.clone()), of(v))).collect()),
        T::Boolean(b) => Value::Bool(b.value()), T::Bytes(b) => Value::Bytes(b.value()), T::Float(f) => Value::Float(f.value()), T::Integer(i) => Value::Integer(i.value()), T::String(s) => Value::Text(s.value()),
        T::RadonError(_) => Value::Null,
    }
}
fn untag(v: &Value) -> Option<Value> {
    Some(match v { Value::Tag(t, _) if *t >= serde_cbor::SIMPLE => return None, Value::Tag(_, x) => untag(x)?, Value::Array(a) => Value::Array(a.iter().map(untag).collect::<Option<_>>()?), Value::Map(m) => { let mut o = BTreeMap::new(); for (k, x) in m { o.insert(untag(k)?, untag(x)?); } Value::Map(o) } v => v.clone() })
}
enum Exp { Val(T), Bad, Open }
use Exp::*;
fn read(v: &Value) -> Exp {
    match v {
        Value::Null => Bad, Value::Tag(t, _) if *t >= serde_cbor::SIMPLE => Bad, Value::Tag(39, x) => match untag(x) { None => Bad, Some(Value::Array(a)) => read_error(&a), Some(_) => Bad }, Value::Tag(_, x) => read(x),
        Value::Bool(b) => Val(T::from(RadonBoolean::from(*b))), Value::Integer(i) => Val(T::from(RadonInteger::from(*i))), Value::Float(f) => Val(T::from(RadonFloat::from(*f))), Value::Bytes(b) => Val(T::from(RadonBytes::from(b.clone()))), Value::Text(t) => Val(T::from(RadonString::from(t.clone()))),
        Value::Array(a) => { let mut o = vec![]; for x in a { match read(x) { Val(T::RadonError(_)) | Bad => return Bad, Val(x) => o.push(x), Open => return Open } } Val(T::from(RadonArray::from(o))) }
        Value::Map(m) => { let mut o = BTreeMap::new(); for (k, x) in m { match (k, read(x)) { (Value::Text(_), Open) => return Open, (Value::Text(k), Val(x)) if !matches!(x, T::RadonError(_)) => { o.insert(k.clone(), x); } _ => {} } } Val(T::from(RadonMap::from(o))) }
    }
}
const PLAIN: [(u8, RadError); 18] = [(0, RadError::Unknown), (1, RadError::SourceScriptNotCBOR), (2, RadError::SourceScriptNotArray), (3, RadError::SourceScriptNotRADON), (0x10, RadError::RequestTooManySources), (0x11, RadError::ScriptTooManyCalls), (0x31, RadError::RetrieveTimeout), (0x40, RadError::Underflow), (0x41, RadError::Overflow), (0x42, RadError::DivisionByZero),
    (0x50, RadError::NoReveals), (0x52, RadError::InsufficientCommits), (0x54, RadError::TooManyWitnesses), (0x60, RadError::MalformedReveal), (0x61, RadError::EncodeReveal), (0xe0, RadError::MalformedReveal), (0xe1, RadError::MalformedReveal), (0xe2, RadError::MalformedReveal)];
// what goes through the conversions of serde as it is
fn exact(v: &Value) -> bool { match v { Value::Bytes(_) | Value::Tag(..) => false, Value::Float(f) => f.is_finite(), Value::Integer(i) => *i <= u64::MAX as i128 && *i >= i64::MIN as i128, Value::Array(a) => a.iter().all(exact), Value::Map(m) => m.iter().all(|(k, v)| matches!(k, Value::Text(_)) && exact(v)), _ => true } }
fn read_error(a: &[Value]) -> Exp {
    let Some(Value::Integer(k)) = a.first() else { return Bad }; let Ok(k) = u8::try_from(*k) else { return Bad };
    let ok = |e: RadError| Val(T::RadonError(RadonError::new(e)));
    if let Some((_, e)) = PLAIN.iter().find(|p| p.0 == k) { return ok(e.clone()); }
    match (k, &a[1..]) {
        (0xff, []) => ok(RadError::UnhandledInterceptV2 { inner: None }), (0xff, [Value::Text(t)]) => ok(RadError::UnhandledIntercept { inner: None, message: Some(t.clone()) }), (0x53, [Value::Text(t)]) => ok(RadError::TallyExecution { inner: None, message: Some(t.clone()) }),
        (0x30, [Value::Integer(i)]) if (0..=65535).contains(i) => ok(RadError::HttpStatus { status_code: *i as u16 }), (0x70, [Value::Integer(i)]) if i32::try_from(*i).is_ok() => ok(RadError::ArrayIndexOutOfBounds { index: *i as i32 }), (0x71, [Value::Text(t)]) => ok(RadError::MapKeyNotFound { key: t.clone() }),
        (0x51, [Value::Float(x), Value::Float(y)]) if x.is_finite() && y.is_finite() => ok(RadError::InsufficientConsensus { achieved: *x, required: *y }),
        (0x20, [Value::Text(x), Value::Text(y), z]) if exact(z) => match z { Value::Null => ok(RadError::UnsupportedOperator { input_type: x.clone(), operator: y.clone(), args: None }), Value::Array(a) => ok(RadError::UnsupportedOperator { input_type: x.clone(), operator: y.clone(), args: Some(a.clone()) }), _ => Open },
        (0x20 | 0x30 | 0x51 | 0x53 | 0x70 | 0x71 | 0xff, _) => Open,
        _ => Bad,
    }
}
fn arg(c: &mut Ctx, d: u32) -> Value { match c.below(if d == 0 { 5 } else { 7 }) { 0 => Value::Null, 1 => Value::Bool(c.flip()), 2 => Value::Text(text(c)), 3 => Value::Float(float(c)), 4 => Value::Integer(int(c).clamp(i64::MIN as i128, u64::MAX as i128)), 5 => Value::Array((0..c.below(3)).map(|_| arg(c, d - 1)).collect()), _ => Value::Map((0..c.below(3)).map(|_| (Value::Text(text(c)), arg(c, d - 1))).collect()) } }
// an error, the array it is sent as (None: it never is) and the error read from it
fn error(c: &mut Ctx) -> (RadError, Option<Vec<Value>>) {
    let n = |k: u8| Value::Integer(k as i128); let t = |t: &String| Value::Text(t.clone());
    match c.below(12) {
        0 | 1 => { let k = c.below(15) as usize; (PLAIN[k].1.clone(), Some(vec![n(PLAIN[k].0)])) }
        2 => { let (x, y) = (text(c), text(c)); let args = if c.chance(3) { None } else { Some((0..c.below(4)).map(|_| arg(c, 2)).collect::<Vec<_>>()) }; let z = match &args { None => Value::Null, Some(a) => Value::Array(a.clone()) }; (RadError::UnsupportedOperator { input_type: x.clone(), operator: y.clone(), args }, Some(vec![n(0x20), t(&x), t(&y), z])) }
        3 => { let k = c.pick(&[0u16, 1, 23, 24, 200, 255, 256, 404, 503, 65535]); (RadError::HttpStatus { status_code: k }, Some(vec![n(0x30), Value::Integer(k as i128)])) }
        4 => { let (x, y) = (float(c), float(c)); (RadError::InsufficientConsensus { achieved: x, required: y }, Some(vec![n(0x51), Value::Float(x), Value::Float(y)])) }
        5 => { let i = int(c).clamp(i32::MIN as i128, i32::MAX as i128); (RadError::ArrayIndexOutOfBounds { index: i as i32 }, Some(vec![n(0x70), Value::Integer(i)])) }
        6 => { let k = text(c); (RadError::MapKeyNotFound { key: k.clone() }, Some(vec![n(0x71), t(&k)])) }
        7 => { let m = text(c); let inner = if c.flip() { None } else { Some(Box::new(RadError::EmptyArray)) }; (RadError::TallyExecution { inner, message: Some(m.clone()) }, Some(vec![n(0x53), t(&m)])) }
        8 => { let m = text(c); let inner = if c.flip() { None } else { Some(Box::new(RadError::EmptyArray)) }; (RadError::UnhandledIntercept { inner, message: Some(m.clone()) }, Some(vec![n(0xff), t(&m)])) }
        9 => { let inner = if c.flip() { None } else { Some(Box::new(RadError::EmptyArray)) }; (RadError::UnhandledInterceptV2 { inner }, Some(vec![n(0xff)])) }
        10 => (RadError::InconsistentSource, Some(vec![n(0)])),
        _ => (c.pick(&[0, 1, 2, 3]).pipe(|k| match k { 0 => RadError::EmptyArray, 1 => RadError::Hash, 2 => RadError::NoOperatorInCompoundCall, _ => RadError::HttpOther { message: text(c) } }), None),
    }
}
trait Pipe: Sized { fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R { f(self) } }
impl<X> Pipe for X {}
fn hex(b: &[u8]) -> String { hex::encode(&b[..b.len().min(300)]) }
fn same(x: &T, y: &T) -> bool { format!("{x:?}") == format!("{y:?}") }
fn short<D: std::fmt::Debug>(x: &D) -> String { let t = format!("{x:?}"); t.chars().take(300).collect() }
fn values(c: &mut Ctx) {
    let d = 1 + c.below(3) as u32; let x = val(c, d);
    let b = match guard(|| x.encode()) { Ok(Ok(b)) => b, Ok(Err(e)) => return c.fail(format!("{} is not encoded: {e:?}", short(&x))), Err(p) => return c.fail(format!("encoding {} panics: {p}", short(&x))) };
    if b != serde_cbor::to_vec(&of(&x)).unwrap() { return c.fail(format!("{} is encoded as {}", short(&x), hex(&b))); }
    match guard(|| T::try_from(&b[..])) { Ok(Ok(y)) if same(&x, &y) => {} Ok(r) => return c.fail(format!("{} is encoded as {}, which is decoded as {}", short(&x), hex(&b), short(&r))), Err(p) => return c.fail(format!("decoding {}, which is {}, panics: {p}", hex(&b), short(&x))) }
    c.sample(|| format!("{} is {} and back", short(&x), hex(&b))); c.case(&("value", hex(&b)));
}
fn errors(c: &mut Ctx) {
    let (e, a) = error(c);
    let x = match (guard(|| RadonError::try_from(e.clone())), &a) { (Ok(Ok(x)), Some(_)) => x, (Ok(Err(_)), None) => { // errors without a code are sent as one that has
            match guard(|| T::intercept(Err(e.clone()))) { Ok(y) => if !matches!(&y, T::RadonError(_)) { return c.fail(format!("{e:?} is intercepted as {y:?}")); }, Err(p) => return c.fail(format!("intercepting {e:?} panics: {p}")) }
            match guard(|| T::intercept(Err(e.clone())).encode().map(|b| T::try_from(&b[..]))) { Ok(Ok(Ok(T::RadonError(f)))) if matches!(f.inner(), RadError::UnhandledIntercept { inner: None, message: Some(_) }) => {} r => c.fail(format!("{e:?}, intercepted, encoded and decoded, is {r:?}")) }
            return c.case(&("intercepted", short(&e))); }
        (r, _) => return c.fail(format!("{e:?} as an error to send is {r:?}")) };
    let a = a.unwrap(); let bytes = serde_cbor::to_vec(&Value::Tag(39, Box::new(Value::Array(a.clone())))).unwrap();
    match guard(|| T::RadonError(x.clone()).encode()) { Ok(Ok(b)) if b == bytes => {} Ok(Ok(b)) => return c.fail(format!("{e:?} is encoded as {}, not as {}", hex(&b), hex(&bytes))), Ok(Err(f)) => return c.fail(format!("{e:?} is not encoded: {f:?}")), Err(p) => return c.fail(format!("encoding {e:?} panics: {p}")) }
    let Val(want) = read_error(&a) else { return };
    match guard(|| T::try_from(&bytes[..])) { Ok(Ok(y)) if same(&want, &y) => {} Ok(r) => return c.fail(format!("{} is decoded as {}, not as {}", hex(&bytes), short(&r), short(&want))), Err(p) => return c.fail(format!("decoding {} panics: {p}", hex(&bytes))) }
    c.case(&("error", hex(&bytes)));
}
// arguments beyond what the decoders take
fn large(c: &mut Ctx) {
    let mut v = Value::Integer(1); if c.flip() { let n = c.pick(&[999usize, 1000, 1001, 1500]); v = Value::Array(vec![v; n]); } else { for _ in 0..c.pick(&[10, 14, 15, 16, 17, 40]) { v = Value::Array(vec![v]); } }
    let e = RadError::UnsupportedOperator { input_type: "RadonArray".into(), operator: "ArrayMap".into(), args: Some(vec![v]) };
    match guard(|| T::intercept(Err(e.clone())).encode().map(|b| T::try_from(&b[..]))) { Err(p) => c.fail(format!("encoding {} panics: {p}", short(&e))), Ok(Ok(Ok(y))) if !same(&y, &T::intercept(Err(e.clone()))) => c.fail(format!("{}, encoded and decoded, is {}", short(&e), short(&y))), _ => c.case(&("large", short(&e))) }
}
fn check_bytes(c: &mut Ctx, b: &[u8]) {
    let r = match guard(|| T::try_from(b)) { Ok(r) => r, Err(p) => return c.fail(format!("decoding {} panics: {p}", hex(b))) };
    let mut p = 0; let want = match serde_cbor::parse(b, &mut p, 0, true) { Err(_) => Bad, Ok(v) => read(&v) };
    match (want, r) { (Open, _) => {} (Bad, Err(_)) => {} (Val(x), Ok(y)) if same(&x, &y) => {} (Val(x), r) => c.fail(format!("{} is decoded as {}, not as {}", hex(b), short(&r), short(&x))), (Bad, r) => c.fail(format!("{} is decoded as {}, not as an error", hex(b), short(&r))) }
}
fn some_bytes(c: &mut Ctx) -> Vec<u8> {
    match c.below(6) {
        0 => { let n = c.below(12); (0..n).map(|_| c.below(256) as u8).collect() }
        1 => { let n = c.below(6); let mut b = vec![0xd8, 0x27]; b.extend((0..n).map(|_| c.pick(&[0x80, 0x81, 0x82, 0x18, 0, 0x20, 0x30, 0xff, 0xe0, 0xe2, 0xf6, 0xa0, 0x60, 0x61, 0x41, 0x51]) as u8)); b }
        2 => { let n = c.below(10); (0..n).map(|_| c.pick(&[0x80, 0x81, 0x82, 0xa1, 0xa2, 0xd8, 0x27, 0x18, 0x38, 0x01, 0x61, 0x41, 0xf4, 0xf5, 0xf6, 0xf7, 0xe0, 0xc0, 0xc1, 0xf9, 0x60, 0x40]) as u8).collect() }
        k => {
            let mut b = if k < 5 { let x = val(c, 2); x.encode().unwrap_or_default() } else { let k = c.below(256) as i128; let mut a = vec![Value::Integer(k)]; for _ in 0..c.below(4) { a.push(arg(c, 1)); } serde_cbor::to_vec(&Value::Tag(c.pick(&[39, 39, 39, 38, 1]), Box::new(Value::Array(a)))).unwrap() };
            for _ in 0..c.below(3) { if b.is_empty() { break; } let i = c.below(b.len() as u64) as usize; match c.below(4) { 0 => { b.truncate(i); } 1 => { b[i] = c.below(256) as u8; } 2 => { b[i] ^= 1 << c.below(8); } _ => { for (j, x) in [0xd8, 0x27].iter().enumerate() { b.insert(i + j, *x); } } } }
            b
        }
    }
}
fn bytes(c: &mut Ctx) { let b = some_bytes(c); check_bytes(c, &b); c.case(&("bytes", hex(&b))); }
// reveals of one data request
fn act(e: RadError, b: &[u8], k: &u32) -> Option<RadonReport<T>> { if *k % 3 == 0 { None } else { Some(RadonReport::from_result(Ok(T::from(RadonString::from(format!("{k} {} {}", hex(b), match e { RadError::EncodeReveal => "early", _ => "bad" })))), &ReportContext::default())) } }
fn reveals(c: &mut Ctx) {
    let n = c.below(5); let on = c.flip();
    let rs: Vec<(Vec<u8>, u32)> = (0..n).map(|_| (match c.below(4) { 0 => vec![0xd8, 0x27, 0x81, 0x18, 0x61], 1 => { let (e, _) = error(c); T::intercept(Err(e)).encode().unwrap_or_default() } _ => some_bytes(c) }, c.below(5) as u32)).collect();
    let mut w = ActiveWips { active_wips: Default::default(), block_epoch: 1000 }; if on { w.active_wips.insert("WIP0026".to_string(), 0); }
    let got = match guard(|| serial_iter_decode(&mut rs.iter().map(|(b, k)| (&b[..], k)), act, &w).into_iter().map(|r| r.into_inner()).collect::<Vec<_>>()) { Ok(r) => r, Err(p) => return c.fail(format!("decoding the reveals {rs:?} panics: {p}")) };
    let mut want = vec![];
    for (b, k) in &rs { match T::try_from(&b[..]) { Err(e) => want.extend(act(e, b, k).map(|r| r.into_inner())), Ok(T::RadonError(e)) if matches!(e.inner(), RadError::EncodeReveal) && !on => want.extend(act(RadError::EncodeReveal, b, k).map(|r| r.into_inner())), Ok(x) => want.push(x) } }
    if format!("{got:?}") != format!("{want:?}") { c.fail(format!("of the reveals {:?} there are {}, not {}", rs.iter().map(|(b, k)| (hex(b), k)).collect::<Vec<_>>(), short(&got), short(&want))); }
    c.case(&("reveals", short(&rs), on));
}
fn main() {
    let mut c = Ctx::new();
    for i in EDGES { let x = T::from(RadonInteger::from(i)); let r = guard(|| x.encode().map(|b| T::try_from(&b[..]))); if !matches!(&r, Ok(Ok(Ok(y))) if same(&x, y)) { c.fail(format!("{i}, encoded and decoded, is {r:?}")); } }
    for k in 0..=255u8 { check_bytes(&mut c, &[0xd8, 0x27, 0x81, 0x18, k]); check_bytes(&mut c, &[0xd8, 0x27, k]); check_bytes(&mut c, &[0xd8, 0x27, 0x82, 0x18, k, 0x61, 0x61]); check_bytes(&mut c, &[k]); check_bytes(&mut c, &[0x82, k, 1]); check_bytes(&mut c, &[0xa1, 0x61, 0x61, k]); check_bytes(&mut c, &[k, 0]); }
    while c.more() { match c.below(9) { 0..=2 => values(&mut c), 3 | 4 => errors(&mut c), 5 => if c.chance(4) { large(&mut c) }, 6 | 7 => bytes(&mut c), _ => reveals(&mut c) } }
    c.done()
}
