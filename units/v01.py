from unit import LIGHT_PRELUDE
import re, radlib
ID = "V01"
TB, TY, TS, TI, TF, TA, TM, TT, ER = ["rad/src/" + x for x in ["types/%s.rs" % n for n in ("boolean", "bytes", "string", "integer", "float", "array", "map", "mod")] + ["error.rs"]]
RE = "data_structures/src/radon_error.rs"
FILES = [RE, TB, TY, TS, TI, TF, TA, TM, TT, ER]
RULE = "values of all kinds up to depth 3 (extreme integers and floats, texts with characters of several bytes, mixed arrays, maps), every error a result can be with arguments of its kind, and bytes: random, cut, and of encoded values and errors with some bytes changed"
ASSUMPTIONS = ["serde_cbor::to_vec, from_slice and the encoder and decoder of cbor-codec agree on the bytes of a value (`carries`), and to_vec is an error only for integers beyond the range of CBOR", "serde's to_value and from_value of tuples of numbers, texts and lists do as their documentation says",
               "std BTreeMap of texts is a map of what the texts say", "recursion over values ends (nesting is bounded by the decoder)", "payloads of errors that are never encoded are dropped, and so is the text made of an error inside of another", "f64::from(f32) is the value the encoder narrowed", "the search builds the real rad crate against stand-ins for serde_cbor and cbor-codec, not available offline"]
NOTE = "Encoding and decoding of values and errors are proved down to the bytes of the two CBOR libraries, which are assumed to agree."
KEPT = ["UnsupportedOperator", "HttpStatus", "InsufficientConsensus", "TallyExecution", "ArrayIndexOutOfBounds", "MapKeyNotFound", "UnhandledIntercept", "UnhandledInterceptV2"]
# the codes of errors, as the protocol has them
CODES = dict(Unknown=0x00, SourceScriptNotCBOR=0x01, SourceScriptNotArray=0x02, SourceScriptNotRADON=0x03, RequestTooManySources=0x10, ScriptTooManyCalls=0x11, UnsupportedOperator=0x20, HTTPError=0x30, RetrieveTimeout=0x31, Underflow=0x40, Overflow=0x41, DivisionByZero=0x42,
             NoReveals=0x50, InsufficientConsensus=0x51, InsufficientCommits=0x52, TallyExecution=0x53, TooManyWitnesses=0x54, MalformedReveal=0x60, EncodeReveal=0x61, ArrayIndexOutOfBounds=0x70, MapKeyNotFound=0x71, BridgeMalformedRequest=0xE0, BridgePoorIncentives=0xE1, BridgeOversizedResult=0xE2, UnhandledIntercept=0xFF)
PLAIN = [k for k in CODES if k not in KEPT and k != "HTTPError" and not k.startswith("Bridge")]


def verus(u):
    tb, ty, ts, ti, tf, ta, tm, tt, er, re_ = [u.src(x) for x in (TB, TY, TS, TI, TF, TA, TM, TT, ER, RE)]
    u.result_fns.update(["from_value", "to_value", "from_slice", "encode_tagged_bytes", "try_from_cbor_value_for_serde_cbor_value", "try_item_from_cbor_value", "try_from_kind_and_cbor_args", "try_from_cbor_array"])
    u.file("values", LIGHT_PRELUDE)
    u.emit("global size_of usize == 8; broadcast use ax::all, vstd::std_specs::vec::group_vec_axioms;")
    UNIT = (r"(RadError|Self::Error)::(?!%s)(\w+) \{(?:[^{}]|\{[^{}]*\})*\}" % "|".join(KEPT), r"RadError::\2")
    it = er.find_item(("item_struct", "item_enum"), "RadError")
    u.emit("pub enum RadError { %s }" % ", ".join(er.text(max([v["s"]] + [a["e"] for a in v["attrs"]]), v["e"]).replace("SerdeCborValue", "Value") if v["name"] in KEPT else v["name"] for v in it["variants"]))
    for s, n in ((ti, "RadonInteger"), (tb, "RadonBoolean"), (ty, "RadonBytes"), (ts, "RadonString"), (tf, "RadonFloat"), (ta, "RadonArray"), (tm, "RadonMap")):
        u.emit_raw(re.sub(r"\b(value|is_homogeneous):", r"pub \1:", u.struct_text(s, n, derive="", subst=[(r"\bBTreeMap\b", "Tree")]).replace("struct", "pub struct")).replace("pub pub", "pub"))
    u.emit_raw(u.struct_text(tt, "RadonTypes", derive="", subst=[(r"RadonError<RadError>", "RadonError")]).replace("enum", "pub enum").replace("pub pub", "pub"))
    u.emit_raw("#[derive(Clone, Copy)] " + re.sub(r"\s*=\s*\d+", "", re.sub(r"#\[[^\]]*\]", "", u.struct_text(tt, "RadonTypesDiscriminant"))).replace("enum", "pub enum"))
    t = re.sub(r"#\[[^\]]*\]", "", u.struct_text(re_, "RadonErrors"))
    known = re.findall(r"^\s*(\w+)\s*=\s*(\w+)", t, re.M)
    u.emit_raw("#[derive(Clone, Copy)] " + re.sub(r"\s*=\s*\w+", "", t).replace("enum", "pub enum"))
    u.emit("""
    pub struct RadonError { pub inner: RadError }
    // -- the two CBOR libraries
    pub enum Value { Null, Bool(bool), Integer(i128), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Map(Tree<Value, Value>), Tag(u64, Box<Value>), Hidden }
    pub mod cbor {
        pub mod types { use super::super::*; pub enum Tag { Unassigned(u64), Other(u64) } impl Tag { pub fn of(n: u64) -> (r: Tag) requires n == 39 ensures r == Tag::Unassigned(39) { Tag::Unassigned(39) } } }
        pub mod value { use super::super::*;
            pub enum Text { Text(String), Chunks(Vec<String>) }
            pub enum Bytes { Bytes(Vec<u8>), Chunks(Vec<Vec<u8>>) }
            pub enum Int { Neg(u64), Pos(u64) }
            pub enum Key { Bool(bool), Bytes(Bytes), Int(Int), Text(Text) }
        }
    }
    pub use cbor::value::Int; pub use cbor::types::Tag;
    pub enum CborValue { Array(Vec<CborValue>), Bool(bool), Break, Bytes(cbor::value::Bytes), F32(f32), F64(f64), I8(i8), I16(i16), I32(i32), I64(i64), Int(Int), Map(Tree<cbor::value::Key, CborValue>), Null, Simple(u8), Tagged(Tag, Box<CborValue>), Text(cbor::value::Text), U8(u8), U16(u16), U32(u32), U64(u64), Undefined }
    pub type Chars = Seq<char>;
    use ax::*;
    impl Key for String { open spec fn text(&self) -> Option<Chars> { Some(self@) } }
    impl<'a, K: Key> Key for &'a K { open spec fn text(&self) -> Option<Chars> { (**self).text() } }
    impl Key for Value { open spec fn text(&self) -> Option<Chars> { match self { Value::Text(s) => Some(s@), _ => None } } }
    impl Key for cbor::value::Key { open spec fn text(&self) -> Option<Chars> { match self { cbor::value::Key::Text(cbor::value::Text::Text(s)) => Some(s@), _ => None } } }
    pub open spec fn listed<K: Key, V>(m: Tree<K, V>, s: Seq<(K, V)>) -> bool {
        (forall|i: int| 0 <= i < s.len() ==> match (#[trigger] s[i]).0.text() { Some(t) => m.at().contains_key(t) && m.at()[t] == s[i].1, None => !m.texts() })
        && (forall|t: Chars| #[trigger] m.at().contains_key(t) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0.text() == Some(t))
        && (m.texts() == forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.text() is Some)
        && (forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).0.text() is Some ==> s[i].0.text() != (#[trigger] s[j]).0.text())
    }
    #[verifier::external_body] fn pairs_in<K: Key, V>(m: Tree<K, V>) -> (r: Vec<(K, V)>) ensures listed(m, r@) { unimplemented!() }
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    #[verifier::external_body] fn copy_of(x: &String) -> (r: String) ensures r@ == x@ { unimplemented!() }
    pub mod ax { use super::*;
        pub broadcast group all { smaller }
        pub trait Key: Sized { spec fn text(&self) -> Option<Chars>; }
        // std's map: what its keys that are texts hold, and whether all of them are
        #[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Tree<K, V> { m: std::collections::BTreeMap<K, V> }
        impl<K, V> Clone for Tree<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        impl<K: Key, V> Tree<K, V> {
            pub uninterp spec fn at(&self) -> Map<Chars, V>;
            pub uninterp spec fn texts(&self) -> bool;
            #[verifier::external_body] pub fn new() -> (r: Self) ensures r.at() == Map::<Chars, V>::empty(), r.texts() { unimplemented!() }
            #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures match k.text() { Some(t) => final(self).at() == old(self).at().insert(t, v) && final(self).texts() == old(self).texts(), None => final(self).at() == old(self).at() && !final(self).texts() } { unimplemented!() }
        }
        pub broadcast axiom fn smaller<K: Key, V>(m: Tree<K, V>, t: Chars) requires m.at().contains_key(t) ensures #[trigger] (decreases_to!(m => m.at()[t]));
    }
    """)
    for n in ("RadonTypes", "RadonArray", "RadonMap", "RadonError", "RadError", "RadonString", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger", "Value"):
        u.emit("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
    u.emit("""
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RadonTypesDiscriminant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for RadonTypesDiscriminant { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    pub type Outcome = Result<RadonTypes, RadError>;
    pub struct Anyhow { x: u64 }
    #[verifier::external_body] fn any_error<E>(e: E) -> Anyhow { unimplemented!() }
    // -- what the libraries make of values
    uninterp spec fn nan(f: f64) -> bool;
    uninterp spec fn widen(f: f32) -> f64;
    #[verifier::external_body] fn widened(f: f32) -> (r: f64) ensures r == widen(f) { unimplemented!() }
    spec fn alike(f: f64, g: f64) -> bool { f == g || nan(f) && nan(g) }
    spec fn carries(c: CborValue, v: Value) -> bool decreases c {
        match c {
            CborValue::Bool(b) => v == Value::Bool(b), CborValue::Null => v == Value::Null,
            CborValue::U8(n) => v == Value::Integer(n as i128), CborValue::U16(n) => v == Value::Integer(n as i128), CborValue::U32(n) => v == Value::Integer(n as i128), CborValue::U64(n) => v == Value::Integer(n as i128),
            CborValue::I8(n) => v == Value::Integer(n as i128), CborValue::I16(n) => v == Value::Integer(n as i128), CborValue::I32(n) => v == Value::Integer(n as i128), CborValue::I64(n) => v == Value::Integer(n as i128),
            CborValue::Int(Int::Pos(n)) => v == Value::Integer(n as i128), CborValue::Int(Int::Neg(n)) => v == Value::Integer((-1 - n) as i128),
            CborValue::F32(f) => v matches Value::Float(g) && alike(widen(f), g), CborValue::F64(f) => v matches Value::Float(g) && alike(f, g),
            CborValue::Text(cbor::value::Text::Text(s)) => v matches Value::Text(t) && t@ == s@, CborValue::Bytes(cbor::value::Bytes::Bytes(b)) => v matches Value::Bytes(w) && w@ == b@,
            CborValue::Array(a) => v matches Value::Array(w) && w@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> carries(#[trigger] a@[i], w@[i]),
            CborValue::Map(m) => v matches Value::Map(w) && m.texts() == w.texts() && (forall|t: Chars| #[trigger] m.at().contains_key(t) == w.at().contains_key(t)) && forall|t: Chars| #[trigger] m.at().contains_key(t) ==> carries(m.at()[t], w.at()[t]),
            _ => false,
        }
    }
    uninterp spec fn odd(v: Value) -> bool;
    spec fn portable(v: Value) -> bool decreases v {
        match v {
            Value::Integer(n) => -0x1_0000_0000_0000_0000 <= n <= 0xffff_ffff_ffff_ffff,
            Value::Array(w) => forall|i: int| 0 <= i < w@.len() ==> portable(#[trigger] w@[i]),
            Value::Map(m) => m.texts() && forall|t: Chars| #[trigger] m.at().contains_key(t) ==> portable(m.at()[t]),
            Value::Tag(_, _) | Value::Hidden => odd(v), _ => true,
        }
    }
    // within what the decoders take (arrays and maps of 1000, 16 deep)
    uninterp spec fn shallow(v: Value) -> bool;
    spec fn tagless(v: Value) -> bool decreases v {
        match v { Value::Array(w) => forall|i: int| 0 <= i < w@.len() ==> tagless(#[trigger] w@[i]), Value::Map(m) => forall|t: Chars| #[trigger] m.at().contains_key(t) ==> tagless(m.at()[t]), Value::Tag(_, _) | Value::Hidden => false, _ => true }
    }
    // read back, a value carries what it did
    spec fn faithful(c: CborValue, d: CborValue) -> bool { forall|v: Value| carries(c, v) ==> carries(d, v) }
    uninterp spec fn bytes_s(v: Value) -> Seq<u8>;
    uninterp spec fn bytes_c(c: CborValue) -> Seq<u8>;
    uninterp spec fn read_c(b: Seq<u8>) -> Option<CborValue>;
    axiom fn from_one_to_the_other(v: Value) requires portable(v), tagless(v) ensures match read_c(bytes_s(v)) { Some(c) => carries(c, v), None => !shallow(v) };
    axiom fn tags_are_kept(n: u64, c: CborValue, v: Value) requires carries(c, v), tagless(v) ensures match read_c(bytes_c(CborValue::Tagged(Tag::Unassigned(n), Box::new(c)))) { Some(x) => x matches CborValue::Tagged(Tag::Unassigned(m), d) && m == n && faithful(c, *d), None => !shallow(Value::Tag(n, Box::new(v))) };
    pub struct SerdeError { x: u64 }
    #[verifier::external_body] fn to_vec(v: &Value) -> (r: Result<Vec<u8>, SerdeError>) ensures match r { Ok(b) => portable(*v) && b@ == bytes_s(*v), Err(_) => !portable(*v) } { unimplemented!() }
    impl From<SerdeError> for Anyhow { #[verifier::external_body] fn from(e: SerdeError) -> Anyhow { unimplemented!() } }
    pub struct Cursor { pub b: Vec<u8> }
    impl Cursor { fn new(b: Vec<u8>) -> (r: Self) ensures r.b == b { Cursor { b } } fn into_inner(self) -> (r: Vec<u8>) ensures r == self.b { self.b } }
    impl std::fmt::Debug for SerdeError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl std::fmt::Debug for RadError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    #[verifier::external_body] fn from_slice(b: &Vec<u8>) -> (r: Result<Value, Anyhow>) ensures forall|c: CborValue, v: Value| bytes_c(c) == b@ && #[trigger] carries(c, v) ==> (r matches Ok(w) && carries(c, w)) { unimplemented!() }
    pub struct GenericDecoder { b: Vec<u8> }
    impl GenericDecoder { fn new(c: Cursor) -> (r: Self) ensures r.b == c.b { GenericDecoder { b: c.b } }
        #[verifier::external_body] fn value(&mut self) -> (r: Result<CborValue, RadError>) ensures match r { Ok(c) => read_c(old(self).b@) == Some(c), Err(_) => read_c(old(self).b@) is None } { unimplemented!() } }
    pub struct GenericEncoder { c: Cursor }
    impl GenericEncoder { fn new(c: Cursor) -> (r: Self) ensures r.c == c { GenericEncoder { c } }
        #[verifier::external_body] fn value(&mut self, v: &CborValue) -> (r: Result<(), Anyhow>) requires old(self).c.b@.len() == 0 ensures (exists|w: Value| carries(*v, w)) || (v matches CborValue::Tagged(_, d) && exists|w: Value| carries(**d, w)) ==> r is Ok, r is Ok ==> final(self).c.b@ == bytes_c(*v) { unimplemented!() }
        fn into_inner(self) -> (r: Self) ensures r == self { self } fn into_writer(self) -> (r: Cursor) ensures r == self.c { self.c } }
    // -- arguments of errors
    pub trait Ser: Sized { spec fn shape(v: Value) -> bool; spec fn is(&self, v: Value) -> bool; }
    impl Ser for i32 { open spec fn shape(v: Value) -> bool { v matches Value::Integer(n) && i32::MIN <= n <= i32::MAX } open spec fn is(&self, v: Value) -> bool { v == Value::Integer(*self as i128) } }
    impl Ser for u16 { open spec fn shape(v: Value) -> bool { v matches Value::Integer(n) && 0 <= n <= u16::MAX } open spec fn is(&self, v: Value) -> bool { v == Value::Integer(*self as i128) } }
    impl Ser for f64 { open spec fn shape(v: Value) -> bool { v is Float } open spec fn is(&self, v: Value) -> bool { v == Value::Float(*self) } }
    impl Ser for String { open spec fn shape(v: Value) -> bool { v is Text } open spec fn is(&self, v: Value) -> bool { v matches Value::Text(t) && t@ == self@ } }
    impl Ser for Option<Vec<Value>> { open spec fn shape(v: Value) -> bool { v is Null || v is Array } open spec fn is(&self, v: Value) -> bool { match self { None => v is Null, Some(a) => v matches Value::Array(w) && w@ == a@ } } }
    impl<'a, A: Ser> Ser for &'a A { open spec fn shape(v: Value) -> bool { A::shape(v) } open spec fn is(&self, v: Value) -> bool { (**self).is(v) } }
    impl<A: Ser> Ser for (A,) { open spec fn shape(v: Value) -> bool { v matches Value::Array(w) && w@.len() == 1 && A::shape(w@[0]) } open spec fn is(&self, v: Value) -> bool { v matches Value::Array(w) && w@.len() == 1 && self.0.is(w@[0]) } }
    impl<A: Ser, B: Ser> Ser for (A, B) { open spec fn shape(v: Value) -> bool { v matches Value::Array(w) && w@.len() == 2 && A::shape(w@[0]) && B::shape(w@[1]) } open spec fn is(&self, v: Value) -> bool { v matches Value::Array(w) && w@.len() == 2 && self.0.is(w@[0]) && self.1.is(w@[1]) } }
    impl<A: Ser, B: Ser, C: Ser> Ser for (A, B, C) { open spec fn shape(v: Value) -> bool { v matches Value::Array(w) && w@.len() == 3 && A::shape(w@[0]) && B::shape(w@[1]) && C::shape(w@[2]) } open spec fn is(&self, v: Value) -> bool { v matches Value::Array(w) && w@.len() == 3 && self.0.is(w@[0]) && self.1.is(w@[1]) && self.2.is(w@[2]) } }
    #[verifier::external_body] fn to_value<T: Ser>(x: &T) -> (r: Result<Value, SerdeError>) ensures r matches Ok(v) && x.is(v) { unimplemented!() }
    #[verifier::external_body] fn from_value<T: Ser>(v: Value) -> (r: Result<T, SerdeError>) ensures T::shape(v) ==> (r matches Ok(x) && x.is(v)) { unimplemented!() }
    #[verifier::external_body] fn byte_of(n: i128) -> (r: Result<u8, SerdeError>) ensures match r { Ok(b) => n == b, Err(_) => !(0 <= n <= 255) } { unimplemented!() }
    #[verifier::external_body] fn split1<'a>(v: &'a Vec<Value>) -> (r: Option<(&'a Value, Vec<Value>)>) ensures match r { Some((h, t)) => v@.len() > 0 && *h == v@[0] && t@ == v@.skip(1), None => v@.len() == 0 } { unimplemented!() }
    fn extend_by(v: &mut Vec<Value>, a: Vec<Value>) ensures final(v)@ == old(v)@ + a@ { let mut a = a; v.append(&mut a); }
    spec fn no_of(k: RadonErrors) -> u8 { match k { %(no)s } }
    spec fn kind_at(n: int) -> Option<RadonErrors> { %(at)s else { None } }
    #[verifier::external_body] fn code(k: RadonErrors) -> (r: u8) ensures r == no_of(k) { unimplemented!() }
    #[verifier::external_body] fn kind_of_code(n: u8) -> (r: Result<RadonErrors, SerdeError>) ensures match r { Ok(k) => kind_at(n as int) == Some(k), Err(_) => kind_at(n as int) is None } { unimplemented!() }
    // the codes are those of the protocol, and tell the kinds apart
    proof fn codes_are() ensures %(codes)s, forall|k: RadonErrors| kind_at(#[trigger] no_of(k) as int) == Some(k) { PROBE(codes_are); }
    // the kind an error is sent as
    spec fn kind_of(e: RadError) -> Option<RadonErrors> { match e { %(kinds)s, _ => None } }
    // its arguments
    spec fn said(inner: Option<Box<RadError>>, m: Option<String>, s: Seq<Value>) -> bool { s.len() == 1 && s[0] is Text && (m matches Some(t) ==> t.is(s[0])) }
    spec fn args_like(e: RadError, s: Seq<Value>) -> bool {
        match e {
            RadError::UnsupportedOperator { input_type, operator, args } => s.len() == 3 && input_type.is(s[0]) && operator.is(s[1]) && args.is(s[2]),
            RadError::HttpStatus { status_code } => s.len() == 1 && status_code.is(s[0]), RadError::InsufficientConsensus { achieved, required } => s.len() == 2 && achieved.is(s[0]) && required.is(s[1]),
            RadError::ArrayIndexOutOfBounds { index } => s.len() == 1 && index.is(s[0]), RadError::MapKeyNotFound { key } => s.len() == 1 && key.is(s[0]),
            RadError::TallyExecution { inner, message } => said(inner, message, s), RadError::UnhandledIntercept { inner, message } => said(inner, message, s),
            _ => s.len() == 0,
        }
    }
    spec fn shaped(k: RadonErrors, a: Option<Seq<Value>>) -> bool {
        match k {
            RadonErrors::UnsupportedOperator => a matches Some(s) && s.len() == 3 && String::shape(s[0]) && String::shape(s[1]) && Option::<Vec<Value>>::shape(s[2]),
            RadonErrors::HTTPError => a matches Some(s) && s.len() == 1 && u16::shape(s[0]), RadonErrors::InsufficientConsensus => a matches Some(s) && s.len() == 2 && f64::shape(s[0]) && f64::shape(s[1]),
            RadonErrors::ArrayIndexOutOfBounds => a matches Some(s) && s.len() == 1 && i32::shape(s[0]), RadonErrors::MapKeyNotFound => a matches Some(s) && s.len() == 1 && String::shape(s[0]),
            RadonErrors::TallyExecution => a matches Some(s) && s.len() == 1 && String::shape(s[0]), RadonErrors::UnhandledIntercept => a matches Some(s) ==> s.len() == 1 && String::shape(s[0]),
            _ => true,
        }
    }
    // what an error of a kind with arguments is
    spec fn rebuilt(k: RadonErrors, a: Option<Seq<Value>>, e: RadError) -> bool {
        match k {
            RadonErrors::UnsupportedOperator => e matches RadError::UnsupportedOperator { input_type, operator, args } && (shaped(k, a) ==> args_like(e, a->Some_0)),
            RadonErrors::HTTPError => e is HttpStatus && (shaped(k, a) ==> args_like(e, a->Some_0)), RadonErrors::InsufficientConsensus => e is InsufficientConsensus && (shaped(k, a) ==> args_like(e, a->Some_0)),
            RadonErrors::ArrayIndexOutOfBounds => e is ArrayIndexOutOfBounds && (shaped(k, a) ==> args_like(e, a->Some_0)), RadonErrors::MapKeyNotFound => e is MapKeyNotFound && (shaped(k, a) ==> args_like(e, a->Some_0)),
            RadonErrors::TallyExecution => e matches RadError::TallyExecution { inner: None, message: Some(_) } && (shaped(k, a) ==> args_like(e, a->Some_0)),
            RadonErrors::UnhandledIntercept => if a is None { e == RadError::UnhandledInterceptV2 { inner: None } } else { e matches RadError::UnhandledIntercept { inner: None, message: Some(_) } && (shaped(k, a) ==> args_like(e, a->Some_0)) },
            RadonErrors::BridgeMalformedRequest | RadonErrors::BridgePoorIncentives | RadonErrors::BridgeOversizedResult => e == RadError::MalformedReveal,
            %(plain)s
        }
    }
    spec fn kinded(k: RadonErrors, a: Option<Seq<Value>>, r: Result<RadonError, RadError>) -> bool { (r matches Ok(e) ==> rebuilt(k, a, e.inner)) && (shaped(k, a) ==> r is Ok) }
    spec fn read_error(s: Seq<Value>, r: Result<RadonError, RadError>) -> bool {
        if s.len() == 0 { r is Err } else { match s[0] { Value::Integer(n) => match kind_at(n as int) { Some(k) => kinded(k, if s.len() == 1 { None } else { Some(s.skip(1)) }, r), None => r is Err }, _ => r is Err } }
    }
    """ % dict(no=", ".join("RadonErrors::%s => %du8" % (k, int(v, 0)) for k, v in known), at=" else ".join("if n == %d { Some(RadonErrors::%s) }" % (int(v, 0), k) for k, v in known),
        codes=", ".join("no_of(RadonErrors::%s) == %d" % kv for kv in CODES.items()),
        kinds=", ".join(["RadError::%s => Some(RadonErrors::%s)" % (k, k) for k in PLAIN] + ["RadError::%s { .. } => Some(RadonErrors::%s)" % (k, "HTTPError" if k == "HttpStatus" else "UnhandledIntercept" if k == "UnhandledInterceptV2" else k) for k in KEPT] + ["RadError::InconsistentSource => Some(RadonErrors::Unknown)"]),
        plain=", ".join("RadonErrors::%s => e == RadError::%s" % (k, k) for k in PLAIN)))
    G = [(r"RadonError<(Self|RadError)>", "RadonError"), (r"\bSerdeCborValue\b", "Value"), (r"serde_cbor::(value::)?", "")]
    u.emit_impl(" RadonError", [u.fn(re_, "RadonError::new", ret="r", sig_subst=[(r"\bIE\b", "RadError")], spec="ensures r.inner == inner"), u.fn(re_, "RadonError::inner", ret="r", sig_subst=[(r"\bIE\b", "RadError")], spec="ensures *r == self.inner"), u.fn(re_, "RadonError::into_inner", ret="r", sig_subst=[(r"\bIE\b", "RadError")], spec="ensures r == self.inner")])
    E = [UNIT]
    u.emit_fn(er, "RadError::try_from_kind_and_cbor_args::deserialize_args", sig="fn deserialize_args<T: Ser>(error_args: Option<Vec<Value>>) -> (r: Result<T, RadError>)", subst=E + G, desugar=["opt_map_err"],
        spec="ensures match error_args { None => r == Err::<T, RadError>(RadError::DecodeRadonErrorMissingArguments), Some(a) => T::shape(Value::Array(a)) ==> (r matches Ok(x) && x.is(Value::Array(a))) }")
    u.emit_fn(er, "RadError::try_into_cbor_array::serialize_args", sig="fn serialize_args<T: Ser>(args: T) -> (r: Result<Value, RadError>)", subst=E + G, desugar=["opt_map_err"], spec="ensures r matches Ok(v) && args.is(v)")
    u.emit_impl(" RadError", [
        u.fn(er, "RadError::default", trait="Default", ret="r", spec="ensures r == RadError::Unknown"),
        u.fn(er, "RadError::try_into_error_code", ret="r", spec="ensures match r { Ok(k) => kind_of(*self) == Some(k), Err(_) => kind_of(*self) is None }"),
        u.fn(er, "RadError::try_from_kind_and_cbor_args", ret="r", subst=E + G, spec="ensures kinded(kind, match error_args { Some(a) => Some(a@), None => None }, r)"),
        u.fn(er, "RadError::try_from_cbor_array", ret="r", subst=E + G + [(r"serde_cbor_array\.split_first\(\)", "split1(&serde_cbor_array)"), (r"u8::try_from\(", "byte_of("), (r"RadonErrors::try_from\(", "kind_of_code("), (r"tail\.to_vec\(\)", "tail")], desugar=["opt_map_err"], spec="ensures read_error(serde_cbor_array@, r)"),
        u.fn(er, "RadError::try_into_cbor_array", ret="r", subst=E + G + [(r"u8::from\(", "code("), (r"i128::from\(kind\)", "(kind as i128)"), (r"v\.extend\(a\)", "extend_by(&mut v, a)"), (r"if_rust_version::if_rust_version! \{[^;]*?\}\}", "rt_string()")], desugar=["opt_map_err"], spec="ensures match r { Ok(v) => kind_of(*self) matches Some(k) && v@.len() > 0 && v@[0] == Value::Integer(no_of(k) as i128) && args_like(*self, v@.skip(1)), Err(_) => kind_of(*self) is None }"),
    ])
    u.emit("""
    // what an error is sent as
    spec fn array_of(e: RadError, w: Seq<Value>) -> bool { kind_of(e) matches Some(k) && w.len() > 0 && w[0] == Value::Integer(no_of(k) as i128) && args_like(e, w.skip(1)) }
    spec fn sends(e: RadError, c: CborValue) -> bool { c matches CborValue::Tagged(Tag::Unassigned(n), b) && n == 39 && exists|w: Vec<Value>| array_of(e, w@) && #[trigger] carries(*b, Value::Array(w)) }
    spec fn simple(e: RadError) -> bool { forall|w: Vec<Value>, i: int| #[trigger] array_of(e, w@) && 0 <= i < w@.len() ==> tagless(#[trigger] w@[i]) }
    // errors that are never sent, or have arguments beyond what the decoders take
    spec fn unsent(e: RadError) -> bool { kind_of(e) is None || exists|w: Vec<Value>, i: int| #[trigger] array_of(e, w@) && 0 <= i < w@.len() && !(portable(#[trigger] w@[i]) && shallow(w@[i])) }
    // what CBOR means
    spec fn error_means(c: CborValue, r: Outcome) -> bool {
        (r matches Ok(x) ==> x is RadonError) && ((exists|v: Value| #[trigger] carries(c, v)) ==> exists|v: Value| #[trigger] carries(c, v) && match v { Value::Array(w) => read_error(w@, match r { Ok(RadonTypes::RadonError(e)) => Ok(e), Ok(_) => arbitrary(), Err(e) => Err(e) }), _ => r is Err })
    }
    spec fn int_is(n: int, r: Outcome) -> bool { r matches Ok(RadonTypes::Integer(x)) && x.value == n }
    spec fn means(c: CborValue, r: Outcome) -> bool decreases c {
        match c {
            CborValue::Tagged(t, d) => if t == Tag::Unassigned(39) { error_means(*d, r) } else { means(*d, r) },
            CborValue::Bool(b) => r matches Ok(RadonTypes::Boolean(x)) && x.value == b,
            CborValue::U8(n) => int_is(n as int, r), CborValue::U16(n) => int_is(n as int, r), CborValue::U32(n) => int_is(n as int, r), CborValue::U64(n) => int_is(n as int, r),
            CborValue::I8(n) => int_is(n as int, r), CborValue::I16(n) => int_is(n as int, r), CborValue::I32(n) => int_is(n as int, r), CborValue::I64(n) => int_is(n as int, r),
            CborValue::Int(Int::Pos(n)) => int_is(n as int, r), CborValue::Int(Int::Neg(n)) => int_is(-1 - n, r),
            CborValue::F32(f) => r matches Ok(RadonTypes::Float(x)) && x.value == widen(f), CborValue::F64(f) => r matches Ok(RadonTypes::Float(x)) && x.value == f,
            CborValue::Text(cbor::value::Text::Text(s)) => r matches Ok(RadonTypes::String(x)) && x.value@ == s@, CborValue::Bytes(cbor::value::Bytes::Bytes(b)) => r matches Ok(RadonTypes::Bytes(x)) && x.value@ == b@,
            CborValue::Array(a) => match r { Ok(RadonTypes::Array(x)) => x.value@.len() == a@.len() && x.is_homogeneous == of_one_kind(x.value@) && forall|i: int| 0 <= i < a@.len() ==> (means(#[trigger] a@[i], Ok(x.value@[i])) && !no_item(a@[i])), Ok(_) => false, Err(_) => no_item(c) },
            CborValue::Map(m) => r matches Ok(RadonTypes::Map(x)) && x.value.texts() && (forall|t: Chars| #[trigger] x.value.at().contains_key(t) == (m.at().contains_key(t) && !no_item(m.at()[t]))) && forall|t: Chars| #[trigger] x.value.at().contains_key(t) ==> means(m.at()[t], Ok(x.value.at()[t])),
            _ => r is Err,
        }
    }
    // what is no value, or an error: neither can be an item of arrays and maps
    spec fn no_item(c: CborValue) -> bool decreases c {
        match c {
            CborValue::Tagged(t, d) => t == Tag::Unassigned(39) || no_item(*d), CborValue::Array(a) => exists|i: int| 0 <= i < a@.len() && no_item(#[trigger] a@[i]), CborValue::Map(_) => false,
            CborValue::Break | CborValue::Null | CborValue::Undefined | CborValue::Simple(_) | CborValue::Text(cbor::value::Text::Chunks(_)) | CborValue::Bytes(cbor::value::Bytes::Chunks(_)) => true, _ => false,
        }
    }
    spec fn kind(x: RadonTypes) -> RadonTypesDiscriminant { match x { RadonTypes::Array(_) => RadonTypesDiscriminant::Array, RadonTypes::Boolean(_) => RadonTypesDiscriminant::Boolean, RadonTypes::Bytes(_) => RadonTypesDiscriminant::Bytes, RadonTypes::Float(_) => RadonTypesDiscriminant::Float, RadonTypes::Integer(_) => RadonTypesDiscriminant::Integer, RadonTypes::Map(_) => RadonTypesDiscriminant::Map, RadonTypes::RadonError(_) => RadonTypesDiscriminant::Error, RadonTypes::String(_) => RadonTypesDiscriminant::String } }
    spec fn of_one_kind(s: Seq<RadonTypes>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> kind(#[trigger] s[i]) == kind(s[0]) }
    """)
    u.emit_impl(" RadError", [u.fn(er, "RadError::encode_cbor_array", trait="ErrorLike", ret="r", sig_subst=[(r"anyhow::Error", "Anyhow"), (r"SerdeCborValue", "Value")], desugar=["opt_map_err"], subst=[(r"(Into::into|\|e\| e\.into\(\))", "any_error"), (r"Err\((\w+)\.into\(\)\)", r"Err(any_error(\1))")], spec="ensures match r { Ok(v) => array_of(*self, v@), Err(_) => kind_of(*self) is None }")])
    AN = [(r"(?:serde_cbor|anyhow)::anyhow!\([^)]*\)", "any_error(())"), (r"anyhow!\([^)]*\)", "any_error(())"), (r"cbor::(encoder|decoder)::", ""), (r"cbor::Config::default\(\),\s*", ""), (r"std::io::", ""), (r"Config::default\(\),\s*", "")]
    SA = [(r"anyhow::Error", "Anyhow"), (r"SerdeCborValue", "Value")]
    u.emit_fn(re_, "try_from_serde_cbor_value_for_cbor_value", ret="r", sig_subst=SA, desugar=["opt_map_err"], subst=G + AN, spec="requires tagless(serde_cbor_value) ensures match r { Ok(c) => portable(serde_cbor_value) && carries(c, serde_cbor_value), Err(_) => !(portable(serde_cbor_value) && shallow(serde_cbor_value)) }", start="proof { if portable(serde_cbor_value) { from_one_to_the_other(serde_cbor_value); } }")
    u.emit_fn(re_, "try_from_cbor_value_for_serde_cbor_value", ret="r", sig_subst=SA, desugar=["opt_map_err"], subst=G + AN, spec="ensures forall|v: Value| #[trigger] carries(cbor_value, v) ==> (r matches Ok(w) && carries(cbor_value, w))")
    DE = ["opt_map", "opt_map_err", "opt_ok", "map", "filter_map", "collect_res", "collect_map", "collect"]
    u.emit_fn(re_, "RadonError::encode_tagged_value", name="tagged_value", ret="r", sig="fn tagged_value(this: &RadonError) -> (r: Result<CborValue, Anyhow>)", sig_subst=SA, desugar=DE, cty="Vec<CborValue>", subst=G + AN + [(r"\bself\b", "this")],
        loops={0: dict(bind="ws", iter_as=lambda its, n, r: re.sub(r"\.\s*into_iter\(\)$", "", its.strip()), before="let ghost s = ws@; let ghost mut at = 0int; proof { gw = ws; }", inv_except_break="__bad is None, __c@.len() == it0.index@, at == it0.index@", inv="it0.seq() == s, array_of(this.inner, s), 0 <= at <= s.len(), simple(this.inner), forall|i: int| 0 <= i < __c@.len() ==> carries(#[trigger] __c@[i], s[i])", ensures="__bad is None ==> __c@.len() == s.len(), __bad is Some ==> at < s.len() && !(portable(s[at]) && shallow(s[at]))", start="proof { assert(tagless(s[at])); }", end="proof { at = at + 1; }")}, spec="requires simple(this.inner) ensures match r { Ok(c) => sends(this.inner, c), Err(_) => unsent(this.inner) }",
        start="let ghost mut gw = arbitrary::<Vec<Value>>();", before=[(r"Ok\(CborValue::Tagged", "proof { assert(array_of(this.inner, gw@)); assert(carries(CborValue::Array(values), Value::Array(gw))); }")])
    u.emit_fn(re_, "RadonError::encode_tagged_bytes", ret="r", sig="fn encode_tagged_bytes(this: &RadonError) -> (r: Result<Vec<u8>, Anyhow>)", desugar=DE, subst=G + AN + [(r"self\.encode_tagged_value\(\)", "tagged_value(this)"), (r"\bself\b", "this")], spec="requires simple(this.inner) ensures match r { Ok(b) => exists|c: CborValue| sends(this.inner, c) && b@ == #[trigger] bytes_c(c), Err(_) => unsent(this.inner) }")
    TTS = [(r"RadonError<(Self|RadError)>", "RadonError"), (r"Self::Error", "RadError"), (r"<RadonTypes as TryFrom<&\[u8\]>>::Error", "RadError"), (r"<Vec<u8> as TryFrom<RadonTypes>>::Error", "RadError")]
    for s, n in ((ti, "RadonInteger"), (tb, "RadonBoolean"), (ty, "RadonBytes"), (ts, "RadonString"), (tf, "RadonFloat"), (tm, "RadonMap")):
        u.emit_impl(" " + n, [u.fn(s, n + "::from", trait="From", self_text="From<%s>" % dict(RadonInteger="i128", RadonBoolean="bool", RadonBytes="Vec<u8>", RadonString="String", RadonFloat="f64", RadonMap="BTreeMap<String, RadonTypes>")[n], ret="r", sig_subst=[(r"BTreeMap", "Tree")], spec="ensures r.value == %s" % ("input" if n == "RadonBoolean" else "value"))])
    u.emit_impl(" RadonArray", [u.fn(ta, "RadonArray::from", trait="From", self_text="From<Vec<RadonTypes>>", ret="r", desugar=["opt_map", "opt_map_or", "try_fold"], cty="Option<RadonTypesDiscriminant>", spec="ensures r.value == value, r.is_homogeneous == of_one_kind(value@)",
        loops={0: dict(before="let ghost v = value@;", inv="v == value@, v.len() > 0, it0.seq().unref() == v.skip(1), it0.seq().len() == v.len() - 1", inv_except_break="__acc is Some ==> __acc == Some(kind(v[0])), __acc is Some ==> forall|i: int| 0 <= i <= it0.index@ ==> kind(#[trigger] v[i]) == kind(v[0]), __acc is None ==> !of_one_kind(v)", ensures="__acc is Some == of_one_kind(v)", start="proof { let i = it0.index@ as int; assert(it0.seq().unref()[i] == *current); assert(v.skip(1)[i] == v[i + 1]); assert(*current == v[i + 1]); }")})])
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::discriminant", ret="r", spec="ensures r == kind(*self)"),
        u.fn(tt, "RadonTypes::try_error_from_cbor_value", ret="r", subst=E + G, spec="ensures error_means(value, r)"),
        u.fn(tt, "RadonTypes::try_item_from_cbor_value", ret="r", subst=E + G + [(r"RadonTypes::try_from\(", "RadonTypes::from_cbor(")], attrs="#[verifier::exec_allows_no_decreases_clause]", spec="ensures match r { Ok(_) => means(value, r) && !no_item(value), Err(_) => no_item(value) }"),
        u.fn(tt, "RadonTypes::try_from", trait="TryFrom", self_text="TryFrom<CborValue>", name="from_cbor", ret="r", sig_subst=TTS, desugar=DE, attrs="#[verifier::exec_allows_no_decreases_clause]", cty="Vec<RadonTypes>",
            subst=E + G + [(r"use cbor::value::Int;", ""), (r"i128::from\((\w+)\)", r"(\1 as i128)"), (r"CborValue::F32\((\w+)\) => (.*?)f64::from\(\1\)", r"CborValue::F32(\1) => \2widened(\1)"), (r"RadonTypes::try_from\(", "RadonTypes::from_cbor("), (r"BTreeMap", "Tree")], spec="ensures means(cbor_value, r), no_item(cbor_value) == (r is Err || r->Ok_0 is RadonError)",
            loops={0: dict(cty="Vec<RadonTypes>", iter_as=lambda its, n, r: re.sub(r"\s*\.\s*into_iter\(\)$", "", its.strip()), before="let ghost s = x@; let ghost mut at = 0int;", inv="it0.seq() == s, 0 <= at <= s.len()", inv_except_break="__bad is None, __c@.len() == it0.index@, at == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> means(#[trigger] s[i], Ok(__c@[i])) && !no_item(s[i])",
                    ensures="__bad is None ==> __c@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> means(#[trigger] s[i], Ok(__c@[i])) && !no_item(s[i]), __bad matches Some(e) ==> at < s.len() && no_item(s[at])", end="proof { at = at + 1; }"),
                1: dict(cty="Tree<String, RadonTypes>", iter_as=lambda its, n, r: re.sub(r"^(\w+)\s*\.\s*into_iter\(\)$", r"ps", its.strip()), iter_of=["x.into_iter()"], before="let ghost m = x; let ps = pairs_in(x); let ghost s = ps@;", inv="""it1.seq() == s, listed(m, s), __c.texts(), forall|t: Chars| #[trigger] __c.at().contains_key(t) ==> m.at().contains_key(t) && !no_item(m.at()[t]) && means(m.at()[t], Ok(__c.at()[t])),
                    forall|j: int| 0 <= j < it1.index@ && (#[trigger] s[j]).0.text() is Some && !__c.at().contains_key(s[j].0.text()->Some_0) ==> no_item(s[j].1)""", start="proof { assert(__e1 == s[it1.index@ as int]); }", after="proof { assert forall|t: Chars| #[trigger] m.at().contains_key(t) && !__c.at().contains_key(t) implies no_item(m.at()[t]) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0.text() == Some(t); assert(s[i].0.text() is Some); } assert(means(cbor_value, Ok(RadonTypes::Map(RadonMap { value: __c })))); }")}),
    ])
    u.emit("""
    // values that results can be: no errors within
    spec fn clean(x: RadonTypes) -> bool decreases x {
        match x { RadonTypes::RadonError(_) => false, RadonTypes::Array(a) => a.is_homogeneous == of_one_kind(a.value@) && forall|i: int| 0 <= i < a.value@.len() ==> clean(#[trigger] a.value@[i]), RadonTypes::Map(m) => m.value.texts() && forall|t: Chars| #[trigger] m.value.at().contains_key(t) ==> clean(m.value.at()[t]), _ => true }
    }
    spec fn is_value(x: RadonTypes, v: Value) -> bool decreases x {
        match x {
            RadonTypes::Boolean(y) => v == Value::Bool(y.value), RadonTypes::Integer(y) => v == Value::Integer(y.value), RadonTypes::Float(y) => v == Value::Float(y.value), RadonTypes::String(y) => v matches Value::Text(t) && t@ == y.value@, RadonTypes::Bytes(y) => v matches Value::Bytes(b) && b@ == y.value@,
            RadonTypes::Array(a) => v matches Value::Array(w) && w@.len() == a.value@.len() && forall|i: int| 0 <= i < a.value@.len() ==> is_value(#[trigger] a.value@[i], w@[i]),
            RadonTypes::Map(m) => v matches Value::Map(w) && w.texts() && (forall|t: Chars| #[trigger] w.at().contains_key(t) == m.value.at().contains_key(t)) && forall|t: Chars| #[trigger] m.value.at().contains_key(t) ==> is_value(m.value.at()[t], w.at()[t]),
            RadonTypes::RadonError(_) => false,
        }
    }
    #[verifier::external_body] fn pairs_of<'a, K: Key, V>(m: &'a Tree<K, V>) -> (r: Vec<(&'a K, &'a V)>) ensures listed(*m, Seq::new(r@.len(), |i: int| (*r@[i].0, *r@[i].1))) { unimplemented!() }
    // what the first n pairs of a map become
    spec fn part(m: Tree<String, RadonTypes>, g: Seq<(String, RadonTypes)>, n: int, w: Tree<Value, Value>) -> bool {
        w.texts() && (forall|t: Chars| #[trigger] w.at().contains_key(t) ==> m.at().contains_key(t) && is_value(m.at()[t], w.at()[t])) && forall|j: int| 0 <= j < n ==> w.at().contains_key((#[trigger] g[j]).0.text()->Some_0)
    }
    // serde_cbor::value::to_value of a map of values
    #[verifier::external_body] fn map_value(m: Tree<Value, Value>) -> (r: Result<Value, SerdeError>) ensures r == Ok::<Value, SerdeError>(Value::Map(m)) { unimplemented!() }
    """)
    for s, n in ((ty, "RadonBytes"), (ts, "RadonString"), (ta, "RadonArray"), (tm, "RadonMap"), (tf, "RadonFloat"), (ti, "RadonInteger"), (tb, "RadonBoolean")):
        u.emit_impl(" " + n, [u.fn(s, n + "::value", trait="RadonType", ret="r", sig_subst=[(r"BTreeMap", "Tree")], subst=[(r"self\.value\.clone\(\)", "cl(&self.value)")], spec="ensures r == self.value")])
    for s, n, v in ((tb, "RadonBoolean", "Bool"), (ty, "RadonBytes", "Bytes"), (tf, "RadonFloat", "Float"), (ti, "RadonInteger", "Integer"), (ts, "RadonString", "Text")):
        u.emit_impl(" " + n, [u.fn(s, n + "::try_into", trait="TryInto", ret="r", sig_subst=TTS, subst=[(r"Value::from\(self\.value(\(\))?\)", r"Value::%s(self.value\1)" % v)], spec="ensures r matches Ok(v) && v == Value::%s(self.value)" % v)])
    NOD = "#[verifier::exec_allows_no_decreases_clause]"
    CV = "requires clean(%s) ensures r matches Ok(v) && is_value(%s, v)"
    u.emit_impl(" RadonArray", [u.fn(ta, "RadonArray::try_into", trait="TryInto", ret="r", attrs=NOD, sig_subst=TTS, desugar=DE, cty="Vec<Value>", subst=E + [(r"RadonTypes::try_into\((\w+)\.(?:to_owned|clone)\(\)\)", r"Value::of(cl(\1))"), (r"Value::from\b", "Value::Array"), (r"self\.value\(\)\s*\.iter\(\)", "self.value.iter()")], spec=CV % (("RadonTypes::Array(self)",) * 2),
        loops={0: dict(before="let ghost s = self.value@;", inv_except_break="__bad is None, __c@.len() == it0.index@", inv="it0.seq().unref() == s, s == self.value@, clean(RadonTypes::Array(self)), forall|i: int| 0 <= i < __c@.len() ==> is_value(#[trigger] s[i], __c@[i])", ensures="__bad is None, __c@.len() == s.len()", start="proof { let i = it0.index@ as int; assert(it0.seq().unref()[i] == *__e0); assert(clean(s[i])); }")})])
    u.emit_impl(" RadonMap", [u.fn(tm, "RadonMap::try_into", trait="TryInto", ret="r", attrs=NOD, sig_subst=TTS, desugar=["try_fold", "closure", "opt_ok_or_else", "opt_map_err"], cty="Option<Tree<Value, Value>>", subst=E + [(r"BTreeMap", "Tree"), (r"Value::from\((\w+)\.(?:to_string|to_owned|clone)\(\)\)", r"Value::Text(copy_of(\1))"), (r"Value::try_from\((\w+)\.clone\(\)\)", r"Value::of(cl(\1))"), (r"to_value\(map\)", "map_value(map)")], spec=CV % (("RadonTypes::Map(self)",) * 2),
        loops={0: dict(iter_of=["self.value().iter()"], iter_as=lambda its, n, r: "ps", before="let ps = pairs_of(&self.value); let ghost m = self.value; let ghost g = Seq::new(ps@.len(), |i: int| (*ps@[i].0, *ps@[i].1));",
            inv="it0.seq() == ps@, it0.seq().len() == ps@.len(), m == self.value, listed(m, g), g == Seq::new(ps@.len(), |i: int| (*ps@[i].0, *ps@[i].1)), clean(RadonTypes::Map(self))", inv_except_break="__acc is Some, part(m, g, it0.index@ as int, __acc->Some_0)", ensures="__acc is Some, part(m, g, g.len() as int, __acc->Some_0)", start="proof { let i = it0.index@ as int; assert(g[i].0.text() is Some); assert(m.at().contains_key(g[i].0.text()->Some_0)); }")})])
    u.emit("impl Value { " + u.fn(tt, "Value::try_from", trait="TryFrom", self_text="TryFrom<RadonTypes>", name="of", attrs=NOD, ret="r", sig_subst=TTS, subst=E, spec=CV % (("input",) * 2)) + " }")
    u.emit_fn(tt, "Vec::try_from", trait="TryFrom", self_text="TryFrom<RadonTypes> for Vec<u8>", name="encoded", ret="r", sig_subst=TTS, desugar=DE, subst=E + [(r"let type_name = RadonTypes::radon_type_name\(&radon_types\);", ""), (r"radon_error\s*\.encode_tagged_bytes\(\)", "encode_tagged_bytes(&radon_error)"), (r"radon_types\.try_into\(\)", "Value::of(radon_types)")],
        spec="""requires radon_types matches RadonTypes::RadonError(e) ==> simple(e.inner), !(radon_types is RadonError) ==> clean(radon_types)
        ensures match radon_types { RadonTypes::RadonError(e) => match r { Ok(b) => exists|c: CborValue| sends(e.inner, c) && b@ == #[trigger] bytes_c(c), Err(_) => unsent(e.inner) }, _ => exists|v: Value| #[trigger] is_value(radon_types, v) && match r { Ok(b) => portable(v) && b@ == bytes_s(v), Err(_) => !portable(v) } }""")
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::try_from", trait="TryFrom", self_text="TryFrom<&[u8]>", name="decoded", ret="r", sig_subst=TTS, subst=E + AN + [(r"RadonTypes::try_from\(", "RadonTypes::from_cbor("), (r"Cursor::new\(slice\)", "Cursor::new(copied(slice))")], spec="ensures match read_c(slice@) { Some(c) => means(c, r), None => r is Err }"),
        u.fn(tt, "RadonTypes::encode", trait="TypeLike", ret="r", sig_subst=TTS, subst=[(r"Vec::<u8>::try_from\(\(\*self\)\.clone\(\)\)", "encoded(cl(self))")], spec="""requires *self matches RadonTypes::RadonError(e) ==> simple(e.inner), !(*self is RadonError) ==> clean(*self)
        ensures match *self { RadonTypes::RadonError(e) => match r { Ok(b) => exists|c: CborValue| sends(e.inner, c) && b@ == #[trigger] bytes_c(c), Err(_) => unsent(e.inner) }, _ => exists|v: Value| #[trigger] is_value(*self, v) && match r { Ok(b) => portable(v) && b@ == bytes_s(v), Err(_) => !portable(v) } }""")])
    u.emit("""
    #[verifier::external_body] fn copied(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
    // the same value, floats up to how not-a-number is written
    spec fn same(x: RadonTypes, y: RadonTypes) -> bool decreases x {
        match x {
            RadonTypes::Boolean(a) => y matches RadonTypes::Boolean(b) && a.value == b.value, RadonTypes::Integer(a) => y matches RadonTypes::Integer(b) && a.value == b.value, RadonTypes::Float(a) => y matches RadonTypes::Float(b) && alike(a.value, b.value),
            RadonTypes::String(a) => y matches RadonTypes::String(b) && a.value@ == b.value@, RadonTypes::Bytes(a) => y matches RadonTypes::Bytes(b) && a.value@ == b.value@,
            RadonTypes::Array(a) => y matches RadonTypes::Array(b) && a.value@.len() == b.value@.len() && a.is_homogeneous == b.is_homogeneous && forall|i: int| 0 <= i < a.value@.len() ==> same(#[trigger] a.value@[i], b.value@[i]),
            RadonTypes::Map(a) => y matches RadonTypes::Map(b) && b.value.texts() && (forall|t: Chars| #[trigger] a.value.at().contains_key(t) == b.value.at().contains_key(t)) && forall|t: Chars| #[trigger] a.value.at().contains_key(t) ==> same(a.value.at()[t], b.value.at()[t]),
            RadonTypes::RadonError(_) => false,
        }
    }
    proof fn an_item(x: RadonTypes, v: Value, c: CborValue) requires clean(x), is_value(x, v), carries(c, v) ensures !no_item(c) decreases x
    {
        if let RadonTypes::Array(a) = x {
            let (w, d) = (v->Array_0, c->Array_0);
            assert forall|i: int| 0 <= i < d@.len() implies !no_item(#[trigger] d@[i]) by { assert(is_value(a.value@[i], w@[i])); an_item(a.value@[i], w@[i], d@[i]); }
        }
    }
    // encoded and decoded, a value is the same
    proof fn kept(x: RadonTypes, v: Value, c: CborValue, r: Outcome)
        requires clean(x), is_value(x, v), carries(c, v), means(c, r) ensures r matches Ok(y) && same(x, y) && kind(x) == kind(y) decreases x
    {
        PROBE(kept); an_item(x, v, c);
        match x {
            RadonTypes::Array(a) => {
                let (w, d, y) = (v->Array_0, c->Array_0, r->Ok_0->Array_0);
                assert(r is Ok); assert(r->Ok_0 is Array);
                assert forall|i: int| 0 <= i < a.value@.len() implies same(#[trigger] a.value@[i], y.value@[i]) && kind(a.value@[i]) == kind(y.value@[i]) by { assert(means(d@[i], Ok(y.value@[i]))); assert(carries(d@[i], w@[i])); kept(a.value@[i], w@[i], d@[i], Ok(y.value@[i])); }
                assert(of_one_kind(a.value@) == of_one_kind(y.value@)) by { if of_one_kind(a.value@) { assert forall|i: int| 0 <= i < y.value@.len() implies kind(#[trigger] y.value@[i]) == kind(y.value@[0]) by { let _ = a.value@[i]; let _ = a.value@[0]; } } else if a.value@.len() > 0 { let i = choose|i: int| 0 <= i < a.value@.len() && kind(#[trigger] a.value@[i]) != kind(a.value@[0]); let _ = a.value@[0]; assert(kind(y.value@[i]) != kind(y.value@[0])); } }
            }
            RadonTypes::Map(m) => {
                let (w, d, y) = (v->Map_0, c->Map_0, r->Ok_0->Map_0);
                assert forall|t: Chars| #[trigger] m.value.at().contains_key(t) implies y.value.at().contains_key(t) && same(m.value.at()[t], y.value.at()[t]) by {
                    assert(w.at().contains_key(t)); assert(d.at().contains_key(t)); assert(carries(d.at()[t], w.at()[t])); an_item(m.value.at()[t], w.at()[t], d.at()[t]); assert(y.value.at().contains_key(t));
                    kept(m.value.at()[t], w.at()[t], d.at()[t], Ok(y.value.at()[t]));
                }
                assert forall|t: Chars| #[trigger] y.value.at().contains_key(t) implies m.value.at().contains_key(t) by { assert(d.at().contains_key(t)); assert(w.at().contains_key(t)); }
                assert forall|t: Chars| #[trigger] m.value.at().contains_key(t) == y.value.at().contains_key(t) by {}
            }
            _ => {}
        }
    }
    // values one CBOR value can carry are alike
    spec fn like(v: Value, w: Value) -> bool decreases v {
        match v {
            Value::Float(f) => w matches Value::Float(g) && alike(f, g), Value::Text(s) => w matches Value::Text(t) && s@ == t@, Value::Bytes(s) => w matches Value::Bytes(t) && s@ == t@,
            Value::Array(a) => w matches Value::Array(b) && a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> like(#[trigger] a@[i], b@[i]),
            Value::Map(a) => w matches Value::Map(b) && (a.texts() == b.texts()) && (forall|t: Chars| #[trigger] a.at().contains_key(t) == b.at().contains_key(t)) && forall|t: Chars| #[trigger] a.at().contains_key(t) ==> like(a.at()[t], b.at()[t]),
            _ => v == w,
        }
    }
    proof fn one_content(c: CborValue, v: Value, w: Value) requires carries(c, v), carries(c, w) ensures like(v, w) decreases c
    {
        match c {
            CborValue::Array(a) => { let (x, y) = (v->Array_0, w->Array_0); assert forall|i: int| 0 <= i < x@.len() implies like(#[trigger] x@[i], y@[i]) by { assert(carries(a@[i], x@[i])); one_content(a@[i], x@[i], y@[i]); } }
            CborValue::Map(m) => { let (x, y) = (v->Map_0, w->Map_0);
                assert forall|t: Chars| #[trigger] x.at().contains_key(t) == y.at().contains_key(t) by { assert(m.at().contains_key(t) == x.at().contains_key(t)); assert(m.at().contains_key(t) == y.at().contains_key(t)); }
                assert forall|t: Chars| #[trigger] x.at().contains_key(t) implies like(x.at()[t], y.at()[t]) by { assert(m.at().contains_key(t)); one_content(m.at()[t], x.at()[t], y.at()[t]); } }
            _ => {}
        }
    }
    // the same error: what it was made of is not sent, nor is which source was inconsistent
    spec fn same_error(e: RadError, f: RadError) -> bool {
        match e {
            RadError::UnsupportedOperator { input_type: a1, operator: a2, args: a3 } => f matches RadError::UnsupportedOperator { input_type: b1, operator: b2, args: b3 } && a1@ == b1@ && a2@ == b2@ && match (a3, b3) { (None, None) => true, (Some(x), Some(y)) => x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> like(#[trigger] x@[i], y@[i]), _ => false },
            RadError::InsufficientConsensus { achieved: a1, required: a2 } => f matches RadError::InsufficientConsensus { achieved: b1, required: b2 } && alike(a1, b1) && alike(a2, b2),
            RadError::MapKeyNotFound { key: a } => f matches RadError::MapKeyNotFound { key: b } && a@ == b@,
            RadError::TallyExecution { inner, message } => f matches RadError::TallyExecution { inner: None, message: Some(n) } && (message matches Some(m) ==> n@ == m@),
            RadError::UnhandledIntercept { inner, message } => f matches RadError::UnhandledIntercept { inner: None, message: Some(n) } && (message matches Some(m) ==> n@ == m@),
            RadError::UnhandledInterceptV2 { inner } => f == RadError::UnhandledInterceptV2 { inner: None }, RadError::InconsistentSource => f == RadError::Unknown, _ => f == e,
        }
    }
    proof fn shapes(k: RadonErrors, e: RadError, s: Seq<Value>, a: Option<Seq<Value>>)
        requires kind_of(e) == Some(k), args_like(e, s), match a { None => s.len() == 0, Some(t) => s.len() > 0 && t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> like(#[trigger] s[i], t[i]) }
        ensures shaped(k, a), forall|f: RadError| #[trigger] rebuilt(k, a, f) ==> same_error(e, f)
    {
        PROBE(shapes);
        if let Some(t) = a { if s.len() > 0 { assert(like(s[0], t[0])); } if s.len() > 1 { assert(like(s[1], t[1])); } if s.len() > 2 { assert(like(s[2], t[2])); } }
    }
    // encoded and decoded, an error is the same
    proof fn error_kept(e: RadError, c: CborValue, d: CborValue, r: Outcome)
        requires sends(e, c), c matches CborValue::Tagged(_, b) && faithful(*b, d), means(CborValue::Tagged(Tag::Unassigned(39), Box::new(d)), r) ensures r matches Ok(RadonTypes::RadonError(f)) && same_error(e, f.inner)
    {
        PROBE(error_kept); codes_are();
        let b = c->Tagged_1; let w = choose|w: Vec<Value>| array_of(e, w@) && #[trigger] carries(*b, Value::Array(w)); let k = kind_of(e)->Some_0;
        assert(carries(d, Value::Array(w))); assert(error_means(d, r));
        let q = match r { Ok(RadonTypes::RadonError(e)) => Ok(e), Ok(_) => arbitrary(), Err(e) => Err(e) };
        let v = choose|v: Value| #[trigger] carries(d, v) && match v { Value::Array(w) => read_error(w@, q), _ => r is Err };
        one_content(d, Value::Array(w), v); let x = v->Array_0;
        assert(like(w@[0], x@[0]));
        let a = if x@.len() == 1 { None } else { Some(x@.skip(1)) };
        if let Some(t) = a { assert forall|i: int| 0 <= i < w@.skip(1).len() implies like(#[trigger] w@.skip(1)[i], t[i]) by { assert(like(w@[i + 1], x@[i + 1])); } }
        shapes(k, e, w@.skip(1), a); assert(kinded(k, a, q));
    }
    // what a value is encoded to is decoded to that value, or is beyond what the decoder takes
    proof fn values_round_trip(x: RadonTypes, v: Value, b: Seq<u8>, r: Outcome)
        requires clean(x), is_value(x, v), portable(v), b == bytes_s(v), match read_c(b) { Some(c) => means(c, r), None => r is Err } ensures r matches Ok(y) ==> same(x, y), r is Err ==> !shallow(v)
    { PROBE(values_round_trip); without_tags(x, v); from_one_to_the_other(v); if let Some(c) = read_c(b) { kept(x, v, c, r); } }
    proof fn without_tags(x: RadonTypes, v: Value) requires is_value(x, v) ensures tagless(v) decreases x
    {
        match x {
            RadonTypes::Array(a) => { let w = v->Array_0; assert forall|i: int| 0 <= i < w@.len() implies tagless(#[trigger] w@[i]) by { assert(is_value(a.value@[i], w@[i])); without_tags(a.value@[i], w@[i]); } }
            RadonTypes::Map(m) => { let w = v->Map_0; assert forall|t: Chars| #[trigger] w.at().contains_key(t) implies tagless(w.at()[t]) by { assert(m.value.at().contains_key(t)); without_tags(m.value.at()[t], w.at()[t]); } }
            _ => {}
        }
    }
    proof fn errors_round_trip(e: RadError, c: CborValue, b: Seq<u8>, r: Outcome)
        requires simple(e), sends(e, c), b == bytes_c(c), match read_c(b) { Some(c) => means(c, r), None => r is Err } ensures r is Ok ==> (r matches Ok(RadonTypes::RadonError(f)) && same_error(e, f.inner)), r is Err ==> read_c(b) is None
    {
        PROBE(errors_round_trip);
        let d = c->Tagged_1; let w = choose|w: Vec<Value>| array_of(e, w@) && #[trigger] carries(*d, Value::Array(w));
        assert forall|i: int| 0 <= i < w@.len() implies tagless(#[trigger] w@[i]) by { assert(array_of(e, w@)); }
        tags_are_kept(39, *d, Value::Array(w)); assert(c == CborValue::Tagged(Tag::Unassigned(39), Box::new(*d)));
        if let Some(x) = read_c(b) { let y = x->Tagged_1; error_kept(e, c, *y, r); }
    }
    """)
    u.emit_impl(" RadonError", [u.fn(er, "RadonError::try_from", trait="TryFrom", self_text="TryFrom<RadError> for RadonError", name="intercepted", ret="r", sig_subst=TTS, spec="ensures match r { Ok(f) => f.inner == rad_error && kind_of(rad_error) is Some, Err(e) => e == rad_error && kind_of(rad_error) is None }")])
    u.emit("""
    // every result can be sent: errors that have no code become an error that has one
    spec fn interception(q: Outcome, x: RadonTypes) -> bool { match q { Ok(y) => x == y, Err(e) => x matches RadonTypes::RadonError(f) && kind_of(f.inner) is Some && (if kind_of(e) is Some { f.inner == e } else { f.inner matches RadError::UnhandledIntercept { inner: Some(b), message: None } && *b == e }) } }
    """)
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::intercept", trait="TypeLike", ret="r", sig_subst=TTS, subst=[(r"RadonError::try_from\(", "RadonError::intercepted(")], desugar=["opt_unwrap_or_else", "res_unwrap_or_else"], spec="ensures interception(result, r)"),
        u.fn(er, "RadonTypes::try_from", trait="TryFrom", self_text="TryFrom<Result<RadonTypes, RadError>>", name="of_result", ret="r", sig_subst=TTS, subst=[(r"RadonError(::<RadError>)?::try_from\(", "RadonError::intercepted(")], desugar=["opt_map"], spec="ensures match r { Ok(x) => interception(value, x), Err(e) => value matches Err(d) && e == d && kind_of(d) is None }")])
    u.emit("""
    pub struct Context { x: u64 }
    #[verifier::external_body] fn no_context() -> (r: Context) { unimplemented!() }
    pub struct Report { pub context: Context, pub result: RadonTypes }
    pub struct ActiveWips { pub late_errors: bool }
    impl ActiveWips { fn wip0026(&self) -> (r: bool) ensures r == self.late_errors { self.late_errors } }
    impl Report { #[verifier::external_body] fn from_result(q: Outcome, c: &Context) -> (r: Report) ensures interception(q, r.result) { unimplemented!() } }
    spec fn reads(b: Seq<u8>, r: Outcome) -> bool { match read_c(b) { Some(c) => means(c, r), None => r is Err } }
    uninterp spec fn panics(b: Seq<u8>) -> bool;
    // panic::catch_unwind around the decoding
    #[verifier::external_body] fn caught(b: &[u8]) -> (r: Result<Outcome, u64>) ensures match r { Ok(q) => reads(b@, q), Err(_) => panics(b@) } { unimplemented!() }
    // what one reveal becomes: what was decoded, or what the caller makes of the error
    spec fn early(x: RadonTypes, w: ActiveWips) -> bool { x matches RadonTypes::RadonError(e) && e.inner == RadError::EncodeReveal && !w.late_errors }
    spec fn told<'a, T, F: Fn(RadError, &[u8], &T) -> Option<Report>>(p: (&'a [u8], &'a T), q: Outcome, f: F, w: ActiveWips, o: Option<Report>) -> bool {
        match q { Err(e) => f.ensures((e, p.0, p.1), o), Ok(x) => if early(x, w) { f.ensures((RadError::EncodeReveal, p.0, p.1), o) } else { o matches Some(r) && r.result == x } }
    }
    spec fn revealed<'a, T, F: Fn(RadError, &[u8], &T) -> Option<Report>>(p: (&'a [u8], &'a T), f: F, w: ActiveWips, o: Option<Report>) -> bool {
        (exists|q: Outcome| #[trigger] reads(p.0@, q) && told(p, q, f, w, o)) || panics(p.0@) && f.ensures((RadError::Unknown, p.0, p.1), o)
    }
    // the reports of the first n reveals, in order
    spec fn kept_of(s: Seq<Option<Report>>) -> Seq<Report> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Some(r) => kept_of(s.drop_last()).push(r), None => kept_of(s.drop_last()) } } }
    """)
    u.emit_fn(tt, "serial_iter_decode", ret="r", sig="fn serial_iter_decode<'a, T, F: Fn(RadError, &[u8], &T) -> Option<Report>>(iter: Vec<(&'a [u8], &'a T)>, err_action: F, active_wips: &ActiveWips) -> (r: Vec<Report>)", attrs="#[verifier::loop_isolation(false)]", desugar=["filter_map", "collect"], cty="Vec<Report>",
        subst=E + [(r"panic::catch_unwind\(\|\| RadonTypes::try_from\(slice\)\)", "caught(slice)"), (r"RadonReport::from_result", "Report::from_result"), (r"&ReportContext::default\(\)", "&no_context()")],
        spec="requires forall|e: RadError, b: &[u8], t: &T| #[trigger] err_action.requires((e, b, t)) ensures exists|s: Seq<Option<Report>>| s.len() == iter@.len() && r@ == #[trigger] kept_of(s) && forall|i: int| 0 <= i < s.len() ==> revealed(iter@[i], err_action, *active_wips, #[trigger] s[i])",
        loops={0: dict(indexed=True, named=True, before="let ghost mut s = Seq::<Option<Report>>::empty();", dec="__v0.len() - __i0",
            inv="__v0@ == iter@, 0 <= __i0 <= __v0@.len(), s.len() == __i0, __c@ == kept_of(s), forall|i: int| 0 <= i < s.len() ==> revealed(iter@[i], err_action, *active_wips, #[trigger] s[i])",
            end="proof { let n = s.push(__g0); assert(n.drop_last() == s); s = n; }")})
    u.close()


def build(u):
    return """
use witnet_rad::{error::RadError, types::{*, array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString}};
use witnet_data_structures::{chain::{*, tapi::*}, radon_report::*, radon_error::*};
"""


harness = dict(kind="crate", name="v01", build=build, main="v01.rs", setup=lambda w: radlib.crates(w, ["run_tally_report", "run_tally_with_context_report"]), edition="2024", lock=False)
