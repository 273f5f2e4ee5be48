use serde_cbor::Value;
use std::collections::BTreeMap;
const TEXTS: [&str; 22] = ["", "a", "b", "12", "-3", "1,200.5", "true", "false\n", "0x0a", "NaN", "inf", "é", "añb", "日本語", "abc", "A,b", "[1,2]", "[1.5,\"a\",null,{\"k\":[true]}]", "{\"a\":1,\"b\":\"2\"}", "170141183460469231731687303715884105728", "1e400", "18446744073709551616"];
fn int(c: &mut Ctx) -> i128 { match c.below(8) { 0 => i128::MIN, 1 => i128::MAX, 2 => c.pick(&[i32::MAX as i128, i32::MIN as i128, 1i128 << 64, -(1i128 << 64), 255, 256, 1i128 << 126, u32::MAX as i128]), _ => c.below(9) as i128 - 4 } }
fn float(c: &mut Ctx) -> f64 { c.pick(&[0.0, -0.0, 1.0, 0.5, -2.5, 1e300, -1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 3.0]) }
fn text(c: &mut Ctx) -> String { let t = c.pick(&TEXTS); t.to_string() }
fn val(c: &mut Ctx, d: u32) -> RadonTypes {
    match if d == 0 { 2 + c.below(5) } else { c.below(8) } {
        0 if c.chance(4) => { let n = c.below(7); let k = c.below(4); RadonTypes::from(RadonArray::from((0..n).map(|_| match k { 0 => RadonTypes::from(RadonInteger::from(c.below(9) as i128 - 4)), 1 => RadonTypes::from(RadonArray::from((0..c.below(3)).map(|_| val(c, 0)).collect::<Vec<_>>())), 2 => RadonTypes::from(RadonMap::from((0..3).map(|j| (TEXTS[1 + j].to_string(), RadonTypes::from(RadonInteger::from(c.below(3) as i128)))).collect::<BTreeMap<_, _>>())), _ => RadonTypes::from(RadonString::from(text(c))) }).collect::<Vec<_>>())) }
        0 => { let n = c.below(5); let same = c.chance(2); let x = val(c, d - 1); RadonTypes::from(RadonArray::from((0..n).map(|_| if same && c.chance(2) { x.clone() } else { val(c, d - 1) }).collect::<Vec<_>>())) }
        1 => RadonTypes::from(RadonMap::from((0..c.below(4)).map(|_| (text(c), val(c, d - 1))).collect::<BTreeMap<_, _>>())),
        2 => RadonTypes::from(RadonBoolean::from(c.flip())),
        3 => RadonTypes::from(RadonBytes::from((0..c.pick(&[0u64, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 20])).map(|_| c.below(256) as u8).collect::<Vec<u8>>())),
        4 => RadonTypes::from(RadonFloat::from(float(c))),
        5 => RadonTypes::from(RadonInteger::from(int(c))),
        _ => RadonTypes::from(RadonString::from(text(c))),
    }
}
fn leaf(c: &mut Ctx) -> Value { match c.below(7) { 0 => Value::Bool(c.flip()), 1 => Value::Bytes(vec![c.below(256) as u8; c.below(3) as usize]), 2 => Value::Float(float(c)), 3 => Value::Null, 4 => Value::Text(text(c)), _ => Value::Integer(int(c).clamp(-(1i128 << 64), (1i128 << 64) - 1)) } }
// a script for the items of an array, more or less apt
fn script(c: &mut Ctx, items: &[RadonTypes], d: u32) -> Value {
    let mut v = vec![]; let mut base = items.first().map(base).unwrap_or(0x40);
    for _ in 0..c.below(3) {
        let op = match c.below(6) { 0 => 0, 1 => code(c), _ => base + c.below(16) as u8 };
        let mut call = vec![Value::Integer(op as i128)]; for _ in 0..c.below(2) { let a = if d > 0 && c.chance(3) { script(c, &[], d - 1) } else { leaf(c) }; call.push(a); }
        v.push(if call.len() == 1 && c.flip() { call.pop().unwrap() } else { Value::Array(call) });
        if let Ok(o) = RadonOpCodes::try_from(op) { use RadonOpCodes::*; base = match o { IntegerGreaterThan | IntegerLessThan | FloatGreaterThan | FloatLessThan | StringAsBoolean | ArrayGetBoolean | MapGetBoolean => 0x20, StringLength | ArrayCount | StringAsInteger | ArrayGetInteger | MapGetInteger => 0x40, ArrayGetString | MapGetString | IntegerToString => 0x70, _ => base }; }
    }
    Value::Array(v)
}
fn base(x: &RadonTypes) -> u8 { match x { RadonTypes::Array(_) => 0x10u8, RadonTypes::Boolean(_) => 0x20, RadonTypes::Bytes(_) => 0x30, RadonTypes::Integer(_) => 0x40, RadonTypes::Float(_) => 0x50, RadonTypes::Map(_) => 0x60, _ => 0x70 } }
fn arg(c: &mut Ctx, x: &RadonTypes, op: RadonOpCodes) -> Value {
    use RadonOpCodes::*;
    match (x, op) {
        _ if c.chance(8) => leaf(c),
        (RadonTypes::Array(v), ArraySort) if c.chance(2) => { let one = |o: RadonOpCodes, a: Option<Value>| Value::Array(vec![match a { None => Value::Integer(o as i128), Some(a) => Value::Array(vec![Value::Integer(o as i128), a]) }]);
            match v.value().first() { Some(RadonTypes::String(_)) => one(StringLength, None), Some(RadonTypes::Integer(_)) => { let k = c.below(3) as i128 + 1; one(IntegerModulo, Some(Value::Integer(k))) } Some(RadonTypes::Array(_)) => one(ArrayCount, None), Some(RadonTypes::Map(_)) => one(MapGetInteger, Some(Value::Text(TEXTS[1].to_string()))), _ => Value::Array(vec![]) } }
        (RadonTypes::Array(v), ArrayMap | ArrayFilter | ArraySort) => script(c, &v.value(), 2),
        (RadonTypes::Array(v), _) => if c.chance(4) { leaf(c) } else { Value::Integer(c.below(v.value().len() as u64 + 1) as i128) },
        (RadonTypes::Map(m), _) => { let k: Vec<String> = m.value().keys().cloned().collect(); if k.is_empty() || c.chance(6) { Value::Text(text(c)) } else { Value::Text(k[c.below(k.len() as u64) as usize].clone()) } }
        (RadonTypes::Float(_), _) => Value::Float(float(c)),
        (RadonTypes::Bytes(_) | RadonTypes::String(_), BytesSlice | StringSlice) => Value::Integer(c.below(12) as i128 - 6),
        (RadonTypes::Bytes(_) | RadonTypes::Integer(_), BytesToInteger | IntegerToBytes | BytesToString) => Value::Integer(c.pick(&[0, 1, 2, 128, 16, 255, 256])),
        (RadonTypes::Integer(_), _) => Value::Integer(int(c).clamp(-(1i128 << 64), (1i128 << 64) - 1)),
        _ => leaf(c),
    }
}
fn code(c: &mut Ctx) -> u8 { c.below(0x7e) as u8 }
// An independent reading of what a call makes of a value.
use RadonTypes as T;
enum Exp { Val(T), Bad(&'static str), Any, Open }   // a value, an error of a kind, some error, not told here
use Exp::*;
#[derive(Clone, Copy)]
struct Env { w24: bool, v21: bool }
fn b(x: bool) -> Exp { Val(T::from(RadonBoolean::from(x))) }
fn n(x: i128) -> Exp { Val(T::from(RadonInteger::from(x))) }
fn fl(x: f64) -> Exp { Val(T::from(RadonFloat::from(x))) }
fn s<A: Into<String>>(x: A) -> Exp { Val(T::from(RadonString::from(x.into()))) }
fn y(x: Vec<u8>) -> Exp { Val(T::from(RadonBytes::from(x))) }
fn a(x: Vec<T>) -> Exp { Val(T::from(RadonArray::from(x))) }
fn whole(x: Option<i128>) -> Exp { match x { Some(x) => n(x), None => Bad("Overflow") } }
const W: Exp = Bad("WrongArguments");
// arguments: None when it is not one, the outer None when not told
fn a_int(v: &Value, lo: i128, hi: i128) -> Option<i128> { match v { Value::Integer(x) if *x >= lo && *x <= hi => Some(*x), _ => None } }
fn a_text(v: &Value) -> Option<Option<String>> { match v { Value::Text(t) => Some(Some(t.clone())), Value::Bytes(_) => None, _ => Some(None) } }
fn a_float(v: &Value) -> Option<Option<f64>> { match v { Value::Float(f) => Some(Some(*f)), Value::Integer(_) => None, _ => Some(None) } }
// |x| and sign
fn signed(neg: bool, m: Option<u128>) -> Option<i128> { let m = m?; if neg { if m <= 1 << 127 { Some((m as i128).wrapping_neg()) } else { None } } else if m < 1 << 127 { Some(m as i128) } else { None } }
fn power(x: i128, e: u32) -> Option<i128> { if e == 0 { return Some(1); } if x == 0 || x == 1 { return Some(x); } if x == -1 { return Some(if e % 2 == 0 { 1 } else { -1 }); } if e > 127 { return None; } let mut m = Some(1u128); for _ in 0..e { m = m.and_then(|m| m.checked_mul(x.unsigned_abs())); } signed(x < 0 && e % 2 == 1, m) }
fn cut(len: usize, args: &[Value]) -> Option<(usize, usize)> {
    let l = len as i128; let s = a_int(args.first()?, i32::MIN as i128, i32::MAX as i128)?; let e = args.get(1).and_then(|v| a_int(v, i32::MIN as i128, i32::MAX as i128)).unwrap_or(l);
    let at = |x: i128| (if x < 0 { x + l } else { x }).clamp(0, l) as usize; let (s, e) = (at(s), at(e)); Some((s, e.max(s)))
}
fn trimmed(t: &str) -> String { t.strip_suffix('\n').unwrap_or(t).to_string() }
fn plain(t: &str, seps: &[Value]) -> Option<String> { let sep = |i: usize, d: &str| if (1..=2).contains(&seps.len()) && i < seps.len() { a_text(&seps[i]).map(|t| t.unwrap_or(d.to_string())) } else { Some(d.to_string()) }; Some(t.replace(&sep(0, ",")?, "").replace(&sep(1, ".")?, ".")) }
fn int_in(t: &str) -> Exp { match t.parse::<i128>() { Ok(x) => n(x), Err(_) => Bad("ParseInt") } }
fn float_in(t: &str) -> Exp { match t.parse::<f64>() { Ok(x) => fl(x), Err(_) => Bad("ParseFloat") } }
fn pos(v: &T) -> usize { match v { T::Array(_) => 0, T::Boolean(_) => 1, T::Bytes(_) => 2, T::Float(_) => 3, T::Integer(_) => 4, T::Map(_) => 5, T::String(_) => 6, _ => 7 } }
// an item asked for as text
fn as_text(x: &T) -> Option<Option<String>> { match x { T::Boolean(x) => Some(Some(x.value().to_string())), T::Float(x) => Some(Some(x.value().to_string())), T::Integer(x) => Some(Some(x.value().to_string())), T::String(x) => Some(Some(x.value())), T::Bytes(_) => None, _ => Some(None) } }
fn item(x: std::result::Result<T, &'static str>, code: u8, seps: &[Value], e: Env) -> Exp {
    let x = match x { Ok(x) => x, Err(m) => return Bad(m) };
    match code {
        1 => match pos(&x) { 0 => Val(x), 2 => Open, _ => Bad("Decode") }, 2 => if pos(&x) == 1 { Val(x) } else { Bad("Decode") }, 3 => if pos(&x) == 2 { Val(x) } else { Bad("Decode") }, 6 => if pos(&x) == 5 { Val(x) } else { Bad("Decode") },
        7 => match as_text(&x) { None => Open, Some(None) => Bad("Decode"), Some(Some(t)) => s(t) },
        _ if e.w24 => match as_text(&x) { None => Open, Some(None) => Bad("Decode"), Some(Some(t)) => match plain(&t, seps) { None => Open, Some(t) => if code == 4 { float_in(&t) } else { int_in(&t) } } },
        4 => match &x { T::Float(_) => Val(x), T::Integer(i) => fl(i.value() as f64), T::String(t) => float_in(&t.value()), _ => Bad("ParseFloat") },
        _ => match &x { T::Integer(_) => Val(x), T::String(t) => int_in(&t.value()), _ => Bad("ParseInt") },
    }
}
fn get_code(c: RadonOpCodes) -> u8 { use RadonOpCodes::*; match c { ArrayGetArray | MapGetArray => 1, ArrayGetBoolean | MapGetBoolean => 2, ArrayGetBytes | MapGetBytes => 3, ArrayGetFloat | MapGetFloat => 4, ArrayGetInteger | MapGetInteger => 5, ArrayGetMap | MapGetMap => 6, ArrayGetString | MapGetString => 7, _ => 0 } }
fn subscript(v: &Value) -> Option<Vec<(RadonOpCodes, Option<Vec<Value>>)>> {
    let Value::Array(l) = v else { return None }; let mut r = vec![];
    for c in l { r.push(match c { Value::Integer(i) if *i >= 0 => (RadonOpCodes::try_from((i % 256) as u8).ok()?, None), Value::Array(p) => (RadonOpCodes::try_from(a_int(p.first()?, 0, 255)? as u8).ok()?, Some(p[1..].to_vec())), _ => return None }); }
    Some(r)
}
fn run(x: &T, calls: &[(RadonOpCodes, Option<Vec<Value>>)], e: Env) -> Exp { let mut x = x.clone(); for c in calls { match expect(&x, c, e) { Val(z) => x = z, Open => return Open, _ => return Any } } Val(x) }
fn same(v: &[T]) -> bool { !v.is_empty() && v.iter().all(|x| pos(x) == pos(&v[0])) }
fn mapping(v: &[T], args: &[Value], e: Env) -> std::result::Result<Vec<T>, Exp> {
    if args.len() != 1 { return Err(W); } let Some(calls) = subscript(&args[0]) else { return Err(Bad("Subscript")) };
    let mut r = vec![]; for x in v { match run(x, &calls, e) { Val(z) => r.push(z), z => return Err(z) } } Ok(r)
}
fn expect(x: &T, call: &(RadonOpCodes, Option<Vec<Value>>), e: Env) -> Exp {
    use RadonOpCodes::*;
    let (op, args) = (call.0, call.1.as_deref()); let none = args.is_none(); let list = args.unwrap_or_default();
    if op == Identity { return if none { Val(x.clone()) } else { Bad("UnsupportedOperator") }; }
    let first_int = |lo: i128, hi: i128| list.first().and_then(|v| a_int(v, lo, hi));
    let (lo, hi) = (-(1i128 << 64), (1i128 << 64) - 1);
    let arg = |f: &dyn Fn(i128) -> Exp| match first_int(lo, hi) { Some(m) => f(m), None => W };
    let farg = |f: &dyn Fn(f64) -> Exp| match list.first() { None => W, Some(v) => match a_float(v) { None => Open, Some(None) => W, Some(Some(m)) => f(m) } };
    let un = Bad("UnsupportedOperator");
    match x {
        T::Integer(i) => { let i = i.value(); match (op, none) {
            (IntegerAbsolute, true) => whole(signed(false, Some(i.unsigned_abs()))), (IntegerNegate, true) => whole(signed(i > 0, Some(i.unsigned_abs()))),
            (IntegerGreaterThan, false) => arg(&|m| b(i > m)), (IntegerLessThan, false) => arg(&|m| b(i < m)),
            (IntegerMultiply, false) => arg(&|m| whole(signed((i < 0) != (m < 0), i.unsigned_abs().checked_mul(m.unsigned_abs())))),
            (IntegerModulo, false) => arg(&|m| if m == 0 || (m == -1 && i == i128::MIN) { Bad("Overflow") } else { whole(signed(i < 0, Some(i.unsigned_abs() % m.unsigned_abs()))) }),
            (IntegerPower, false) => match first_int(0, u32::MAX as i128) { Some(m) => whole(power(i, m as u32)), None => W },
            (IntegerToBytes, _) if e.v21 => { let little = match list.first() { None => false, Some(v) => match a_int(v, 0, 255) { None => return W, Some(k) => k == 1 } }; let mut d: Vec<u8> = (0..16).map(|k| (i >> (8 * k)) as u8).collect(); if !little { d.reverse(); } y(d) }
            (IntegerToFloat, true) => fl(i as f64), (IntegerToString, true) => s(i.to_string()), _ => un } }
        T::Boolean(z) => match (op, none) { (BooleanNegate, true) => b(!z.value()), (BooleanAsString, true) => s(if z.value() { "true" } else { "false" }), _ => un },
        T::Float(f) => { let f = f.value(); match (op, none) {
            (FloatAbsolute, true) => fl(f.abs()), (FloatNegate, true) => fl(-f), (FloatAsString, true) => s(f.to_string()), (FloatCeiling, true) => n(f.ceil() as i128), (FloatFloor, true) => n(f.floor() as i128), (FloatRound, true) => n(f.round() as i128), (FloatTruncate, true) => n(f.trunc() as i128),
            (FloatGreaterThan, false) => farg(&|m| b(f > m)), (FloatLessThan, false) => farg(&|m| b(f < m)), (FloatMultiply, false) => farg(&|m| fl(f * m)), (FloatModulo, false) => farg(&|m| fl(f % m)), (FloatPower, false) => farg(&|m| fl(f.powf(m))), _ => un } }
        T::Bytes(v) => { let v = v.value(); match (op, none) {
            (BytesLength, true) if e.v21 => n(v.len() as i128), (BytesSlice, false) if e.v21 => match cut(v.len(), list) { None => W, Some((p, q)) => y(v[p..q].to_vec()) },
            (BytesToInteger, _) if e.v21 => { let little = match list.first() { None => false, Some(v) => match a_int(v, 0, 255) { None => return W, Some(k) => k == 1 } }; if v.is_empty() { return Bad("EmptyArray"); } if v.len() > 16 { return Bad("ParseInt"); } let mut d = vec![0u8; 16 - v.len()]; d.extend(&v); if little { d.reverse(); } n(d.iter().fold(0u128, |u, k| u << 8 | *k as u128) as i128) }
            (BytesToString, _) => { let enc = if !e.v21 { 0 } else { match list.first() { None => 0, Some(v) => match a_int(v, 0, 255) { Some(k) if [0, 16, 17, 128].contains(&k) => k, _ => return W } } }; match enc { 0 => s(v.iter().map(|k| format!("{:02x}", k)).collect::<String>()), 128 => match String::from_utf8(v) { Ok(t) => s(t), Err(_) => s("") }, _ => Open } }
            (BytesHash, false) => match first_int(0, 255) { None => W, Some(_) => Open }, _ => un } }
        T::String(t) => { let t = t.value(); match (op, none) {
            (StringLength, true) => n(t.len() as i128), (StringToLowerCase, true) => s(t.to_lowercase()), (StringToUpperCase, true) => s(t.to_uppercase()),
            (StringAsBoolean, true) => match trimmed(&t).as_str() { "true" => b(true), "false" => b(false), _ => Bad("ParseBool") },
            (StringAsFloat, _) => if e.w24 { match plain(&trimmed(&t), list) { None => Open, Some(t) => float_in(&t) } } else { float_in(&trimmed(&t)) },
            (StringAsInteger, _) => if e.w24 { match plain(&trimmed(&t), list) { None => Open, Some(t) => int_in(&t) } } else { int_in(&trimmed(&t)) },
            (StringSlice, false) if e.v21 => match cut(t.len(), list) { None => W, Some((p, q)) => match if p == q { Some("") } else { t.get(p..q) } { Some(z) => s(z), None => W } },
            (StringAsBytes, _) => match list.first().map(|v| a_int(v, 0, 255).filter(|k| [0, 16, 17, 128].contains(k))) { Some(None) => W, Some(Some(128)) => y(t.into_bytes()), Some(Some(16 | 17)) => Open,
                _ => { let h = t.strip_prefix("0x").unwrap_or(&t); let h = if h.len() % 2 == 1 { format!("0{h}") } else { h.to_string() }; if h.bytes().all(|k| k.is_ascii_hexdigit()) { y((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()) } else { Bad("Decode") } } },
            (StringMatch, false) => Open, (StringParseJSONArray | StringParseJSONMap, _) => Open, (StringParseXMLMap, true) => Open, (StringReplace | StringSplit, _) if e.v21 => Open, _ => un } }
        T::Map(m) => { let m = m.value(); match (op, none) {
            (MapKeys, true) => a(m.keys().map(|k| T::from(RadonString::from(k.clone()))).collect()), (MapValues, true) => a(m.values().cloned().collect()),
            (c, false) if get_code(c) > 0 && (c as u8) < 0x6f && (c as u8) >= 0x60 => { let k = match list.first() { None => return W, Some(v) => match a_text(v) { None => return Open, Some(None) => return W, Some(Some(k)) => k } }; item(m.get(&k).cloned().ok_or("MapKeyNotFound"), get_code(c), &list[1..], e) }
            _ => un } }
        T::Array(v) => { let v = v.value(); match (op, none) {
            (ArrayCount, true) => n(v.len() as i128),
            (c, false) if get_code(c) > 0 && (c as u8) < 0x20 => { let number = e.w24 && [4, 5].contains(&get_code(c)); if list.is_empty() || (list.len() > 1 && !number) { return W; } let Some(k) = a_int(&list[0], i32::MIN as i128, i32::MAX as i128) else { return W }; item(usize::try_from(k).ok().and_then(|k| v.get(k).cloned()).ok_or("ArrayIndexOutOfBounds"), get_code(c), &list[1..], e) }
            (ArrayMap, false) => match mapping(&v, list, e) { Ok(r) => a(r), Err(z) => z },
            (ArrayFilter, false) => match list.first() {
                Some(Value::Array(_)) => { let Some(calls) = subscript(&list[0]) else { return Bad("Subscript") }; let mut r = vec![]; for x in &v { match run(x, &calls, e) { Val(T::Boolean(k)) => if k.value() { r.push(x.clone()) }, Val(_) => return Bad("ArrayFilterWrongSubscript"), z => return z } } a(r) }
                Some(Value::Integer(k)) => if (0..256).contains(k) && filters::RadonFilters::try_from(*k as u8).is_ok() { Open } else { Bad("UnknownFilter") }, _ => W },
            (ArraySort, false) => { if list.len() > 1 { return W; } let by = [Value::Array(vec![])]; let keys = match mapping(&v, if list.is_empty() { &by } else { list }, e) { Ok(r) => r, Err(z) => return z };
                if v.is_empty() { return Val(x.clone()); } if !same(&v) { return Bad("UnsupportedOpNonHomogeneous"); } if !same(&keys) || ![4, 6].contains(&pos(&keys[0])) { return Bad("UnsupportedSortOp"); }
                let before = |p: &T, q: &T| match (p, q) { (T::Integer(p), T::Integer(q)) => p.value() < q.value(), (T::String(p), T::String(q)) => p.value().as_bytes() < q.value().as_bytes(), _ => false };
                let mut r: Vec<usize> = vec![]; for k in 0..v.len() { let at = r.iter().position(|q| before(&keys[k], &keys[*q])).unwrap_or(r.len()); r.insert(at, k); } a(r.into_iter().map(|k| v[k].clone()).collect()) }
            (ArrayReduce, false) => if list.len() == 1 && a_int(&list[0], 0, 255).is_some() { Open } else { W }, _ => un } }
        T::RadonError(_) => Open,
    }
}
fn name(e: &RadError) -> String { format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect() }
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let x = val(&mut c, 3);
        let base = match &x { RadonTypes::Array(_) => 0x10u8, RadonTypes::Boolean(_) => 0x20, RadonTypes::Bytes(_) => 0x30, RadonTypes::Integer(_) => 0x40, RadonTypes::Float(_) => 0x50, RadonTypes::Map(_) => 0x60, _ => 0x70 };
        let op = if c.chance(20) { code(&mut c) } else { base + c.below(16) as u8 };
        let Ok(op) = RadonOpCodes::try_from(op) else { continue };
        let args = if c.chance(3) { None } else { let n = c.below(4); Some((0..n).map(|_| arg(&mut c, &x, op)).collect::<Vec<_>>()) };
        let e = Env { w24: c.flip(), v21: c.flip() };
        let version = if e.v21 { ProtocolVersion::V2_1 } else { c.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V2_0]) };
        let mut w = std::collections::HashMap::new();
        if e.w24 { for k in ["WIP0009-0011-0012", "WIP0017-0018-0019", "WIP0020-0021", "WIP0024"] { w.insert(k.to_string(), 0u32); } }
        let stage = match c.below(3) { 0 => Stage::Retrieval(RetrievalMetadata::default()), 1 => Stage::Aggregation, _ => Stage::Contextless };
        let mut context = ReportContext { protocol_version: Some(version), active_wips: Some(ActiveWips { active_wips: w, block_epoch: 1 }), stage, ..Default::default() };
        let call = (op, args);
        let shown = format!("{:?} of {:?} with wip0024 {} and version 2.1 {}", call, x, e.w24, e.v21);
        c.case(&shown);
        match guard(|| operate_in_context(x.clone(), &call, &mut context)) {
            Err(m) => c.fail(format!("panics: {}: {}", shown, m)),
            Ok(r) => { let ok = match (expect(&x, &call, e), &r) { (Open, _) | (Any, Err(_)) => true, (Bad(k), Err(m)) => k == name(m), (Val(v), Ok(r)) => format!("{:?}", v) == format!("{:?}", r), _ => false };
                if !ok { c.fail(format!("{}: got {:?}, expected {}", shown, r, match expect(&x, &call, e) { Val(v) => format!("{:?}", v), Bad(k) => k.to_string(), Any => "an error".into(), Open => String::new() })); } }
        }
        c.sample(|| shown.clone());
        // a script is its calls, one after another, up to the first error
        if c.chance(4) {
            let calls: Vec<_> = (0..c.below(4)).filter_map(|_| RadonOpCodes::try_from(base + c.below(16) as u8).ok().map(|o| (o, if c.flip() { None } else { Some(vec![leaf(&mut c)]) }))).collect();
            let settings = RadonScriptExecutionSettings { breakpoints: c.flip(), partial_results: c.flip(), timing: c.flip() };
            let shown = format!("{:?} over {:?} with wip0024 {} and version 2.1 {}", calls, x, e.w24, e.v21);
            match guard(|| execute_radon_script(x.clone(), &calls, &mut context, settings)) {
                Err(m) => c.fail(format!("panics: script {}: {}", shown, m)),
                Ok(Err(m)) => c.fail(format!("script {}: {:?}", shown, m)),
                Ok(Ok(r)) => { let ok = match run(&x, &calls, e) { Open => true, Val(v) => format!("{:?}", v) == format!("{:?}", r.result), _ => matches!(r.result, T::RadonError(_)) }; if !ok { c.fail(format!("script {}: got {:?}", shown, r.result)); }
                    if let Some(p) = &r.partial_results { if format!("{:?}", p.last()) != format!("{:?}", Some(&r.result)) || p.len() > calls.len() + 1 { c.fail(format!("script {}: partial results {:?}, result {:?}", shown, p, r.result)); } } }
            }
        }
    }
    c.done()
}
