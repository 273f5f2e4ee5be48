from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
import re, radlib
ID = "O01"
OI, OB, OY, OS, OA, OM, OF, OP, SC, TI, TB, TY, TS, TA, TM, TF, TT, ER, HF = ["rad/src/" + x for x in ["operators/%s.rs" % n for n in ("integer", "boolean", "bytes", "string", "array", "map", "float", "mod")] + ["script.rs"] + ["types/%s.rs" % n for n in ("integer", "boolean", "bytes", "string", "array", "map", "float", "mod")] + ["error.rs", "hash_functions/mod.rs"]]
RE = "data_structures/src/radon_error.rs"
RR, VS, CK = "data_structures/src/radon_report.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/chain/tapi.rs"
FILES = [RE, RR, VS, CK, OI, OB, OY, OS, OA, OM, OF, OP, SC, TI, TB, TY, TS, TA, TM, TF, TT, ER, HF]
RULE = "values of all kinds up to depth 3 (extreme integers and floats, texts with characters of several bytes, mixed arrays), operator codes of the value's kind and of others, apt and odd arguments, scripts for items, before and after WIP-0024 and protocol version 2.1"
ASSUMPTIONS = ["floating-point arithmetic, letters (to_lowercase, to_uppercase), number parsing and printing are uninterpreted functions of std", "regular expressions (replace, split), JSON, XML, match, hashes, base 58 and base 64 are external operators, assumed total", "numbers beyond the range of CBOR are not arguments",
               "inside scripts `step` stands for operate_in_context under the contract proved for it; scripts are finite (nesting is bounded by the decoder)", "decoding of arrays and maps from CBOR gives arrays with a correct mark and no errors among items", "[T]::sort_by is a stable sort; std BTreeMap is its pairs in order of keys; String::replace, get, from_str, hex as their documentation says",
               "filters and reducers applied by operators are those C01 decides", "payloads of errors other than positions and keys are dropped", "time (start, completion) is not looked at", "the search builds the real rad crate against stand-ins for serde_cbor, num_enum, ordered_float, regex and others not available offline"]
NOTE = "All operators but the external ones (regular expressions, JSON, XML, match, hashes, base 58/64), their dispatch, and scripts are proved; floats are uninterpreted."
KEPT = ["ArrayIndexOutOfBounds", "MapKeyNotFound", "UnhandledIntercept", "UnhandledInterceptV2"]


def verus(u):
    oi, ob, oy, os_, oa, om, of, op, sc, ti, tb, ty, ts, ta, tm, tf, tt, er, hf = [u.src(x) for x in (OI, OB, OY, OS, OA, OM, OF, OP, SC, TI, TB, TY, TS, TA, TM, TF, TT, ER, HF)]
    u.result_fns.update(["from_value"])
    u.file("operators", LIGHT_PRELUDE)
    u.emit("global size_of usize == 8; broadcast use fl::fax, heap::clean_ax;")
    # errors keep what tells them apart: payloads of messages are dropped
    UNIT = (r"(RadError|Self::Error)::(?!%s)(\w+) \{(?:[^{}]|\{[^{}]*\})*\}" % "|".join(KEPT), r"RadError::\2")
    it = er.find_item(("item_struct", "item_enum"), "RadError")
    u.emit("pub enum RadError { %s }" % ", ".join(er.text(max([v["s"]] + [a["e"] for a in v["attrs"]]), v["e"]) if v["name"] in KEPT else v["name"] for v in it["variants"]))
    for s, n in ((ti, "RadonInteger"), (tb, "RadonBoolean"), (ty, "RadonBytes"), (ts, "RadonString"), (tf, "RadonFloat")):
        u.emit_raw(u.struct_text(s, n, derive="").replace("struct", "pub struct").replace("value:", "pub value:"))
    u.emit("""
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    pub enum Value { Null, Bool(bool), Integer(i128), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Map(std::collections::BTreeMap<Value, Value>), Other(u64) }
    impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    type Args = Seq<Value>;
    // from_value::<T>: decoding of an argument (numbers that CBOR cannot carry are not numbers)
    pub trait Arg: Sized { spec fn read(v: Value) -> Option<Self>; }
    spec fn carried(n: i128) -> bool { -0x1_0000_0000_0000_0000 <= n <= 0xffff_ffff_ffff_ffff }
    uninterp spec fn text_like(v: Value) -> Option<String>;
    uninterp spec fn float_like(v: Value) -> Option<f64>;
    impl Arg for i128 { open spec fn read(v: Value) -> Option<Self> { match v { Value::Integer(n) => if -0x1_0000_0000_0000_0000 <= n <= 0xffff_ffff_ffff_ffff { Some(n) } else { None }, _ => None } } }
    impl Arg for i32 { open spec fn read(v: Value) -> Option<Self> { match v { Value::Integer(n) => if i32::MIN <= n <= i32::MAX { Some(n as i32) } else { None }, _ => None } } }
    impl Arg for u32 { open spec fn read(v: Value) -> Option<Self> { match v { Value::Integer(n) => if 0 <= n <= u32::MAX { Some(n as u32) } else { None }, _ => None } } }
    impl Arg for u8 { open spec fn read(v: Value) -> Option<Self> { match v { Value::Integer(n) => if 0 <= n <= u8::MAX { Some(n as u8) } else { None }, _ => None } } }
    impl Arg for String { closed spec fn read(v: Value) -> Option<Self> { match v { Value::Text(s) => Some(s), Value::Integer(_) => None, _ => text_like(v) } } }
    impl Arg for f64 { closed spec fn read(v: Value) -> Option<Self> { match v { Value::Float(f) => Some(f), _ => float_like(v) } } }
    pub struct Undecoded { x: u64 }
    #[verifier::external_body] fn arg_of<T: Arg>(v: Value) -> (r: Result<T, Undecoded>) ensures match r { Ok(x) => T::read(v) == Some(x), Err(_) => T::read(v) is None } { unimplemented!() }
    spec fn nth<T: Arg>(a: Args, i: int) -> Option<T> { if 0 <= i < a.len() { T::read(a[i]) } else { None } }
    // checked arithmetic on i128
    pub open spec fn small(n: int) -> Option<i128> { if i128::MIN <= n <= i128::MAX { Some(n as i128) } else { None } }
    pub open spec fn rest_of(a: int, b: int) -> int { let m = if b < 0 { -b } else { b }; if a >= 0 { a % m } else { -((-a) % m) } }
    pub trait Checked: Sized { spec fn n(&self) -> int;
        fn ck_abs(self) -> (r: Option<i128>) ensures r == small(if self.n() < 0 { -self.n() } else { self.n() });
        fn ck_neg(self) -> (r: Option<i128>) ensures r == small(-self.n());
        fn ck_mul(self, o: i128) -> (r: Option<i128>) ensures r == small(self.n() * o);
        fn ck_rem(self, o: i128) -> (r: Option<i128>) ensures r == (if o == 0 || (self.n() == i128::MIN && o == -1) { None::<i128> } else { small(rest_of(self.n(), o as int)) });
        fn ck_pow(self, e: u32) -> (r: Option<i128>) ensures r == small(vstd::arithmetic::power::pow(self.n(), e as nat)); }
    impl Checked for i128 { open spec fn n(&self) -> int { *self as int }
        #[verifier::external_body] fn ck_abs(self) -> (r: Option<i128>) { unimplemented!() }
        #[verifier::external_body] fn ck_neg(self) -> (r: Option<i128>) { unimplemented!() }
        #[verifier::external_body] fn ck_mul(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
        #[verifier::external_body] fn ck_rem(self, o: i128) -> (r: Option<i128>) { unimplemented!() }
        #[verifier::external_body] fn ck_pow(self, e: u32) -> (r: Option<i128>) { unimplemented!() } }
    """)
    E = [UNIT, (r"from_value::<(\w+)>\(", r"arg_of::<\1>("), (r"\.checked_(\w+)\(", r".ck_\1("), (r"\.to_owned\(\)", ".clone()"), (r"\.to_vec\(\)", ".tv()"), (r"\.unwrap_or\(", ".or_value(")]
    u.emit_impl(" RadonInteger", [u.fn(ti, "RadonInteger::value", trait="RadonType", ret="r", spec="ensures r == self.value"), u.fn(ti, "RadonInteger::from", trait="From", ret="r", spec="ensures r.value == value")])
    u.emit_impl(" RadonBoolean", [u.fn(tb, "RadonBoolean::value", trait="RadonType", ret="r", spec="ensures r == self.value"), u.fn(tb, "RadonBoolean::from", ret="r", spec="ensures r.value == input")])
    u.emit("""
    spec fn whole(n: Option<i128>) -> Result<RadonInteger, RadError> { match n { Some(n) => Ok(RadonInteger { value: n }), None => Err(RadError::Overflow) } }
    spec fn exact(n: int) -> Result<RadonInteger, RadError> { whole(small(n)) }
    spec fn truth(b: bool) -> Result<RadonBoolean, RadError> { Ok(RadonBoolean { value: b }) }
    """)
    D = ["closure", "opt_map_err", "opt_ok_or_else", "opt_and_then", "opt_map"]
    SPECS = {}
    def fn(src, path, name, spec, **kw):
        SPECS[name] = re.sub(r"^requires .* ensures ", "", spec)
        kw.setdefault("desugar", D)
        u.emit_fn(src, path, ret=kw.pop("ret", "r") or None, name=name, subst=kw.pop("subst", []) + E, spec="ensures " + spec if not re.match(r"requires|ensures", spec) else spec, **kw)
    ONE = "match nth::<%s>(args@, 0) { None => r == Err::<%s, RadError>(RadError::WrongArguments), Some(m) => r == %s }"
    fn(oi, "absolute", "integer_absolute", "r == exact(if input.value < 0 { -input.value } else { input.value as int })")
    fn(oi, "negate", "integer_negate", "r == exact(-input.value)")
    fn(oi, "multiply", "integer_multiply", ONE % ("i128", "RadonInteger", "exact(input.value * m)"))
    fn(oi, "modulo", "integer_modulo", ONE % ("i128", "RadonInteger", "if m == 0 || (m == -1 && input.value == i128::MIN) { Err(RadError::Overflow) } else { exact(rest_of(input.value as int, m as int)) }"))
    fn(oi, "power", "integer_power", ONE % ("u32", "RadonInteger", "exact(vstd::arithmetic::power::pow(input.value as int, m as nat))"))
    fn(oi, "greater_than", "integer_greater_than", ONE % ("i128", "RadonBoolean", "truth(input.value > m)"))
    fn(oi, "less_than", "integer_less_than", ONE % ("i128", "RadonBoolean", "truth(input.value < m)"))
    fn(ob, "negate", "boolean_negate", "r.value == !input.value")

    # -- codes of enumerations -------------------------------------------------------------------
    def codes(src, name, fn):
        t = u.struct_text(src, name, derive="Clone, Copy")
        u.emit_raw(re.sub(r"\s*=\s*\w+", "", re.sub(r"#\[[^\]]*\]", "", t)).replace("enum", "pub enum"))
        if "=" in t:
            u.emit("pub open spec fn %s(f: %s) -> int { match f { %s } }" % (fn, name, ", ".join("%s::%s => %dint" % (name, k, int(v, 0)) for k, v in re.findall(r"^\s*(\w+)\s*=\s*(\w+)", t, re.M))))
        return re.findall(r"^\s*(\w+)\s*=\s*(\w+)", t, re.M)
    def default(src, name):
        v = [v["name"] for v in src.find_item(("item_enum",), name)["variants"] if any(re.match(r"#\s*\[\s*default\s*\]", src.text(a["s"], a["e"])) for a in v["attrs"])]
        return "%s::%s" % (name, v[0])
    u.emit_raw("#[derive(Clone, Copy)] " + re.sub(r"#\[[^\]]*\]", "", u.struct_text(ty, "RadonBytesEndianness")).replace("enum", "pub enum"))
    u.emit("""impl vstd::std_specs::cmp::PartialEqSpecImpl for RadonBytesEndianness { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for RadonBytesEndianness { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }""")
    known = [codes(ty, "RadonBytesEncoding", "encoding_no"), codes(hf, "RadonHashFunctions", "hash_no"), codes(op, "RadonOpCodes", "opcode_no")]
    u.emit("""
    #[verifier::external_body] fn endian_bytes(big: bool, n: i128) -> (r: [u8; 16]) ensures r@ == encoded(n, big) { unimplemented!() }
    #[verifier::external_body] fn endian_value(big: bool, b: [u8; 16]) -> (r: i128) ensures r == signed(unsigned(if big { b@.reverse() } else { b@ })) { unimplemented!() }
    // two's complement in base 256, least significant digit first
    spec fn digits(u: int, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(u % 256) as u8] + digits(u / 256, (n - 1) as nat) } }
    spec fn unsigned(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * unsigned(s.skip(1)) } }
    spec fn two128() -> int { 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int }
    spec fn signed(u: int) -> i128 { (if u >= two128() / 2 { u - two128() } else { u }) as i128 }
    spec fn encoded(n: i128, big: bool) -> Seq<u8> { let d = digits(if n < 0 { n + two128() } else { n as int }, 16); if big { d.reverse() } else { d } }
    // what is written is read back
    proof fn read_back(u: int, n: nat) requires 0 <= u < vstd::arithmetic::power::pow(256, n) ensures digits(u, n).len() == n, unsigned(digits(u, n)) == u decreases n
    {
        PROBE(read_back); reveal(vstd::arithmetic::power::pow);
        if n > 0 { let d = digits(u, n); let e = digits(u / 256, (n - 1) as nat); assert(vstd::arithmetic::power::pow(256, n) == 256 * vstd::arithmetic::power::pow(256, (n - 1) as nat)); assert(0 <= u / 256 < vstd::arithmetic::power::pow(256, (n - 1) as nat)) by (nonlinear_arith) requires 0 <= u < 256 * vstd::arithmetic::power::pow(256, (n - 1) as nat); read_back(u / 256, (n - 1) as nat); assert(d.skip(1) =~= e); assert(d[0] == (u % 256) as u8); }
    }
    proof fn round_trip(n: i128, big: bool) ensures encoded(n, big).len() == 16, signed(unsigned(if big { encoded(n, big).reverse() } else { encoded(n, big) })) == n
    {
        PROBE(round_trip); let u = if n < 0 { n + two128() } else { n as int }; assert(vstd::arithmetic::power::pow(256, 16) == two128()) by (compute);
        read_back(u, 16); let d = digits(u, 16); assert(d.reverse().reverse() =~= d);
    }
    trait Copied { type T; spec fn v(&self) -> Self::T; fn cpy(self) -> (r: Self::T) ensures r == self.v(); }
    impl<'a, X: Clone> Copied for Option<&'a X> { type T = Option<X>; spec fn v(&self) -> Option<X> { match self { Some(x) => Some(**x), None => None } } #[verifier::external_body] fn cpy(self) -> (r: Option<X>) { unimplemented!() } }
    impl<'a, X: Clone> Copied for Result<&'a X, RadError> { type T = Result<X, RadError>; spec fn v(&self) -> Result<X, RadError> { match self { Ok(x) => Ok(**x), Err(e) => Err(*e) } } #[verifier::external_body] fn cpy(self) -> (r: Result<X, RadError>) { unimplemented!() } }
    trait Owned { type T; spec fn s(&self) -> Seq<Self::T>; fn tv(&self) -> (r: Vec<Self::T>) ensures r@ == self.s(); }
    impl<X: Clone> Owned for [X] { type T = X; spec fn s(&self) -> Seq<X> { self@ } #[verifier::external_body] fn tv(&self) -> (r: Vec<X>) { unimplemented!() } }
    impl<X: Clone> Owned for Vec<X> { type T = X; spec fn s(&self) -> Seq<X> { self@ } #[verifier::external_body] fn tv(&self) -> (r: Vec<X>) { unimplemented!() } }
    impl<const N: usize> Owned for [u8; N] { type T = u8; spec fn s(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn tv(&self) -> (r: Vec<u8>) { unimplemented!() } }
    trait OrValue { type T; spec fn or(&self, d: Self::T) -> Self::T; fn or_value(self, d: Self::T) -> (r: Self::T) ensures r == self.or(d); }
    impl<X, E> OrValue for Result<X, E> { type T = X; spec fn or(&self, d: X) -> X { match self { Ok(x) => *x, Err(_) => d } } #[verifier::external_body] fn or_value(self, d: X) -> (r: X) { unimplemented!() } }
    impl<X> OrValue for Option<X> { type T = X; spec fn or(&self, d: X) -> X { match self { Some(x) => *x, None => d } } #[verifier::external_body] fn or_value(self, d: X) -> (r: X) { unimplemented!() } }
    // Default + TryFrom<T1>
    pub trait Coded<T1>: Sized { spec fn default_value() -> Self; spec fn of(x: T1) -> Option<Self>; fn default() -> (r: Self) ensures r == Self::default_value(); fn try_from(x: T1) -> (r: Result<Self, Undecoded>) ensures match r { Ok(y) => Self::of(x) == Some(y), Err(_) => Self::of(x) is None }; }
    spec fn coded<T1: Arg, T2: Coded<T1>>(args: Option<Vec<Value>>, i: int) -> Result<T2, RadError> {
        if args is Some && 0 <= i < args->Some_0@.len() { match T1::read(args->Some_0@[i]) { Some(x) => match T2::of(x) { Some(y) => Ok(y), None => Err(RadError::WrongArguments) }, None => Err(RadError::WrongArguments) } } else { Ok(T2::default_value()) } }
    """)
    for (k, n) in zip(known, ("RadonBytesEncoding", "RadonHashFunctions", "RadonOpCodes")):
        of_ = "spec fn of(x: u8) -> Option<Self> { match x { %s, _ => None } }" % ", ".join("%du8 => Some(%s::%s)" % (int(v, 0), n, c) for c, v in k)
        tf_ = "#[verifier::external_body] fn try_from(x: u8) -> (r: Result<Self, Undecoded>) %s { unimplemented!() }"
        if n == "RadonBytesEncoding":
            u.emit("impl Coded<u8> for %s { open spec fn default_value() -> Self { %s } open %s fn default() -> (r: Self) { %s } %s }" % (n, default(ty, n), of_, default(ty, n), tf_ % ""))
        else:
            u.emit("impl %s { pub open %s %s }" % (n, of_, tf_ % "ensures match r { Ok(y) => Self::of(x) == Some(y), Err(_) => Self::of(x) is None }"))
    u.emit("impl Coded<u8> for RadonBytesEndianness { open spec fn default_value() -> Self { RadonBytesEndianness::Big } open spec fn of(x: u8) -> Option<Self> { Some(if x == 1 { RadonBytesEndianness::Little } else { RadonBytesEndianness::Big }) } fn default() -> (r: Self) { %s } fn try_from(x: u8) -> (r: Result<Self, Undecoded>) { Ok(RadonBytesEndianness::from_u8(x)) } }" % default(ty, "RadonBytesEndianness"))
    u.emit_impl(" RadonBytesEndianness", [u.fn(ty, "RadonBytesEndianness::from", name="from_u8", ret="r", spec="ensures r == (if value == 1 { RadonBytesEndianness::Little } else { RadonBytesEndianness::Big })")])
    fn(op, "decode_single_arg", "decode_single_arg", "r == coded::<T1, T2>(*args, index as int)", sig="fn decode_single_arg<T1: Arg, T2: Coded<T1>>(args: &Option<Vec<Value>>, index: usize) -> (r: Result<T2, RadError>)", subst=[(r"args\.to_owned\(\)", "cl(args)"), (r"\.cloned\(\)", ".cpy()")])
    AR = [(r"decode_single_arg::<\w+, (\w+), (\w+), _, _>\((\w+), (\w+), \"\w+\"\)", r"decode_single_arg::<\1, \2>(\3, \4)")]
    u.emit_impl(" RadonBytes", [u.fn(ty, "RadonBytes::value", trait="RadonType", ret="r", subst=[(r"self\.value\.clone\(\)", "cl(&self.value)")], spec="ensures r == self.value"), u.fn(ty, "RadonBytes::from", trait="From", ret="r", spec="ensures r.value == value")])
    fn(oi, "to_bytes", "integer_to_bytes", "match coded::<u8, RadonBytesEndianness>(*args, 0) { Err(e) => r == Err::<RadonBytes, RadError>(e), Ok(e) => r is Ok && r->Ok_0.value@ == encoded(input.value, e == RadonBytesEndianness::Big) }", subst=AR + [(r"i128::to_be_bytes", "true"), (r"i128::to_le_bytes", "false"), (r"encoder\(", "endian_bytes(encoder, ")])
    u.emit("""
    spec fn clamped(i: int, n: int) -> int { let j = if i < 0 { i + n } else { i }; if j < 0 { 0 } else if j > n { n } else { j } }
    spec fn cut(b: Seq<u8>, i: int, j: int) -> Seq<u8> { let (s, e) = (clamped(i, b.len() as int), clamped(j, b.len() as int)); if s < e { b.subrange(s, e) } else { Seq::empty() } }
    spec fn until(a: Args, n: int) -> int { match nth::<i32>(a, 1) { Some(j) => j as int, None => n } }
    pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body] fn sha2_256(b: &[u8]) -> (r: Vec<u8>) ensures r@ == sha256(b@) { unimplemented!() }
    #[verifier::external_body] fn copy_tail(a: &mut [u8; 16], from: usize, b: &Vec<u8>) requires from <= 16, from + b@.len() == 16 ensures final(a)@ == old(a)@.take(from as int) + b@ { unimplemented!() }
    spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
    spec fn as_number(b: Seq<u8>, big: bool) -> i128 { let a = zeros(16 - b.len()) + b; signed(unsigned(if big { a.reverse() } else { a })) }
    spec fn hashed(b: Seq<u8>, args: Args) -> Result<Seq<u8>, RadError> { match nth::<u8>(args, 0) { None => Err(RadError::WrongArguments), Some(n) => match RadonHashFunctions::of(n) { None => Err(RadError::WrongArguments), Some(RadonHashFunctions::SHA2_256) => Ok(sha256(b)), Some(_) => Err(RadError::UnsupportedHashFunction) } } }
    spec fn is_bytes(r: Result<RadonBytes, RadError>, e: Result<Seq<u8>, RadError>) -> bool { match r { Ok(x) => e matches Ok(y) && x.value@ == y, Err(x) => e == Err::<Seq<u8>, RadError>(x) } }
    """)
    fn(hf, "hash", "hash_with", "match r { Ok(x) => hash_function_code == RadonHashFunctions::SHA2_256 && x@ == sha256(input@), Err(e) => hash_function_code != RadonHashFunctions::SHA2_256 && e == RadError::UnsupportedHashFunction }")
    fn(oy, "length", "bytes_length", "r.value == input.value@.len()")
    fn(oy, "hash", "bytes_hash", "is_bytes(r, hashed(input.value@, args@))", subst=[(r"hash_functions::hash\(", "hash_with(")])
    fn(oy, "slice", "bytes_slice", "is_bytes(r, if input.value@.len() > i32::MAX { Err(RadError::InputTooBig) } else { match nth::<i32>(args@, 0) { None => Err(RadError::WrongArguments), Some(i) => Ok(cut(input.value@, i as int, until(args@, input.value@.len() as int))) } })", subst=[(r"\.0\s*\.to_owned\(\)", ".0.tv()"), (r"\.cloned\(\)", ".cpy()")], end="proof { if __ret is Ok { assert(__ret->Ok_0.value@ =~= cut(input.value@, nth::<i32>(args@, 0)->Some_0 as int, until(args@, input.value@.len() as int))); } }")
    fn(oy, "to_integer", "bytes_to_integer", "match coded::<u8, RadonBytesEndianness>(*args, 0) { Err(e) => r == Err::<RadonInteger, RadError>(e), Ok(e) => r == (if input.value@.len() == 0 { Err(RadError::EmptyArray) } else if input.value@.len() > 16 { Err(RadError::ParseInt) } else { Ok(RadonInteger { value: as_number(input.value@, e == RadonBytesEndianness::Big) }) }) }", subst=AR + [(r"bytes_array\[16 - input_value_len\.\.\]\.copy_from_slice\(&input\.value\(\)\)", "copy_tail(&mut bytes_array, 16 - input_value_len, &input.value())"), (r"i128::from_be_bytes", "true"), (r"i128::from_le_bytes", "false"), (r"decoder\(", "endian_value(decoder, ")], before=[(r"let decoder", "proof { assert(bytes_array@ =~= zeros(16 - input.value@.len()) + input.value@); }")])
    # -- strings are their bytes -----------------------------------------------------------------
    lit = dict(re.findall(r'const (DEFAULT_\w+): &str = "([^"\\\\]*)";', os_.text(0, len(os_.b))))
    u.emit("".join("#[verifier::external_body] fn %s_text() -> (r: String) ensures bytes(r) == seq![%s] { unimplemented!() }\n" % (k, ", ".join("%du8" % b for b in v.encode())) for k, v in lit.items()))
    u.emit("""
    type Bytes = Seq<u8>;
    pub uninterp spec fn bytes(s: String) -> Seq<u8>;
    // a position between two characters of UTF-8
    spec fn boundary(b: Bytes, i: int) -> bool { i == 0 || i == b.len() || (0 < i < b.len() && !(0x80 <= b[i] < 0xC0)) }
    uninterp spec fn replaced(b: Bytes, from: Bytes, to: Bytes) -> Bytes;
    uninterp spec fn lowered(b: Bytes) -> Bytes;
    uninterp spec fn raised(b: Bytes) -> Bytes;
    uninterp spec fn int_in(b: Bytes) -> Option<i128>;
    uninterp spec fn float_in(b: Bytes) -> Option<f64>;
    uninterp spec fn hex_in(b: Bytes) -> Option<Bytes>;
    uninterp spec fn b58_in(b: Bytes) -> Option<Bytes>;
    uninterp spec fn b64_in(b: Bytes) -> Option<Bytes>;
    uninterp spec fn hex_of(b: Bytes) -> Bytes;
    uninterp spec fn b58_of(b: Bytes) -> Bytes;
    uninterp spec fn b64_of(b: Bytes) -> Bytes;
    uninterp spec fn utf8(b: Bytes) -> bool;
    trait Text { fn length(&self) -> (r: usize) ensures r == bytes(self.t()).len(); spec fn t(&self) -> String;
        fn ends_in_newline(&self) -> (r: bool) ensures r == (bytes(self.t()).len() > 0 && bytes(self.t()).last() == 10);
        fn prefix(&self, n: usize) -> (r: String) requires n <= bytes(self.t()).len(), boundary(bytes(self.t()), n as int) ensures bytes(r) == bytes(self.t()).take(n as int);
        fn between(&self, i: usize, j: usize) -> (r: Option<String>) ensures match r { Some(x) => i <= j <= bytes(self.t()).len() && boundary(bytes(self.t()), i as int) && boundary(bytes(self.t()), j as int) && bytes(x) == bytes(self.t()).subrange(i as int, j as int), None => !(i <= j <= bytes(self.t()).len() && boundary(bytes(self.t()), i as int) && boundary(bytes(self.t()), j as int)) };
        fn has_0x(&self) -> (r: bool) ensures r == (bytes(self.t()).len() >= 2 && bytes(self.t())[0] == 48 && bytes(self.t())[1] == 120);
        fn from_char(&self, n: usize) -> (r: String) requires n <= bytes(self.t()).len(), forall|i: int| 0 <= i < n ==> #[trigger] bytes(self.t())[i] < 128 ensures bytes(r) == bytes(self.t()).skip(n as int);
        fn rep(&self, a: &String, b: String) -> (r: String) ensures bytes(r) == replaced(bytes(self.t()), bytes(*a), bytes(b));
        fn lower(&self) -> (r: String) ensures bytes(r) == lowered(bytes(self.t()));
        fn upper(&self) -> (r: String) ensures bytes(r) == raised(bytes(self.t()));
        fn raw(&self) -> (r: Vec<u8>) ensures r@ == bytes(self.t());
    }
    impl Text for String { spec fn t(&self) -> String { *self }
        #[verifier::external_body] fn length(&self) -> (r: usize) { unimplemented!() }
        #[verifier::external_body] fn ends_in_newline(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn prefix(&self, n: usize) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn between(&self, i: usize, j: usize) -> (r: Option<String>) { unimplemented!() }
        #[verifier::external_body] fn has_0x(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn from_char(&self, n: usize) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn rep(&self, a: &String, b: String) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn lower(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn upper(&self) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn raw(&self) -> (r: Vec<u8>) { unimplemented!() } }
    #[verifier::external_body] fn put_zero(s: &mut String) ensures bytes(*final(s)) == seq![48u8] + bytes(*old(s)) { unimplemented!() }
    #[verifier::external_body] fn empty_text() -> (r: String) ensures bytes(r) == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] fn parse_int(s: &String) -> (r: Result<i128, RadError>) ensures match r { Ok(n) => int_in(bytes(*s)) == Some(n), Err(e) => int_in(bytes(*s)) is None && e == RadError::ParseInt } { unimplemented!() }
    #[verifier::external_body] fn parse_float(s: &String) -> (r: Result<f64, RadError>) ensures match r { Ok(n) => float_in(bytes(*s)) == Some(n), Err(e) => float_in(bytes(*s)) is None && e == RadError::ParseFloat } { unimplemented!() }
    #[verifier::external_body] fn parse_bool(s: &String) -> (r: Result<bool, RadError>) ensures match r { Ok(b) => bytes(*s) == (if b { seq![116u8, 114, 117, 101] } else { seq![102u8, 97, 108, 115, 101] }), Err(e) => e == RadError::ParseBool && bytes(*s) != seq![116u8, 114, 117, 101] && bytes(*s) != seq![102u8, 97, 108, 115, 101] } { unimplemented!() }
    #[verifier::external_body] fn hex_decode(s: &String) -> (r: Result<Vec<u8>, Undecoded>) ensures match r { Ok(b) => hex_in(bytes(*s)) == Some(b@), Err(_) => hex_in(bytes(*s)) is None } { unimplemented!() }
    #[verifier::external_body] fn b58_decode(s: String) -> (r: Result<Vec<u8>, Undecoded>) ensures match r { Ok(b) => b58_in(bytes(s)) == Some(b@), Err(_) => b58_in(bytes(s)) is None } { unimplemented!() }
    #[verifier::external_body] fn b64_decode(s: String) -> (r: Result<Vec<u8>, Undecoded>) ensures match r { Ok(b) => b64_in(bytes(s)) == Some(b@), Err(_) => b64_in(bytes(s)) is None } { unimplemented!() }
    #[verifier::external_body] fn hex_encode(b: Vec<u8>) -> (r: String) ensures bytes(r) == hex_of(b@) { unimplemented!() }
    #[verifier::external_body] fn b58_encode(b: Vec<u8>) -> (r: String) ensures bytes(r) == b58_of(b@) { unimplemented!() }
    #[verifier::external_body] fn b64_encode(b: Vec<u8>) -> (r: String) ensures bytes(r) == b64_of(b@) { unimplemented!() }
    #[verifier::external_body] fn from_utf8_or_empty(b: Vec<u8>) -> (r: String) ensures bytes(r) == (if utf8(b@) { b@ } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] fn or_text(r: Result<String, Undecoded>, d: String) -> (x: String) ensures x == (match r { Ok(y) => y, Err(_) => d }) { unimplemented!() }
    #[verifier::external_body] fn to_index(i: i32) -> (r: Result<usize, Undecoded>) ensures match r { Ok(n) => i >= 0 && n == i, Err(_) => i < 0 } { unimplemented!() }
    fn small_index(i: usize) -> (r: i32) requires i <= i32::MAX ensures r == i { i as i32 }
    fn same<E>(e: E) -> (r: E) ensures r == e { e }
    spec fn sliced(b: Bytes, i: int, j: int) -> Result<Bytes, RadError> { let (s, e) = (clamped(i, b.len() as int), clamped(j, b.len() as int)); if s >= e { Ok(Seq::empty()) } else if boundary(b, s) && boundary(b, e) { Ok(b.subrange(s, e)) } else { Err(RadError::WrongArguments) } }
    spec fn is_text(r: Result<RadonString, RadError>, e: Result<Bytes, RadError>) -> bool { match r { Ok(x) => e matches Ok(y) && bytes(x.value) == y, Err(x) => e == Err::<Bytes, RadError>(x) } }
    spec fn trimmed(b: Bytes) -> Bytes { if b.len() > 0 && b.last() == 10 { b.drop_last() } else { b } }
    spec fn arg_text(a: Args, i: int, d: u8) -> Bytes { match nth::<String>(a, i) { Some(s) => bytes(s), None => seq![d] } }
    spec fn separators(a: Args) -> (Bytes, Bytes) { (if a.len() == 1 || a.len() == 2 { arg_text(a, 0, 44) } else { seq![44u8] }, if a.len() == 2 { arg_text(a, 1, 46) } else { seq![46u8] }) }
    spec fn normal(b: Bytes, a: Args) -> Bytes { replaced(replaced(b, separators(a).0, Seq::empty()), separators(a).1, seq![46u8]) }
    spec fn listed(a: Option<Vec<Value>>) -> Args { match a { Some(v) => v@, None => Seq::empty() } }
    #[verifier::external_body] fn list_of(a: &Option<Vec<Value>>) -> (r: &[Value]) ensures r@ == listed(*a) { unimplemented!() }
    spec fn an_int(o: Option<i128>) -> Result<RadonInteger, RadError> { match o { Some(n) => Ok(RadonInteger { value: n }), None => Err(RadError::ParseInt) } }
    spec fn a_float(o: Option<f64>) -> Result<RadonFloat, RadError> { match o { Some(n) => Ok(RadonFloat { value: n }), None => Err(RadError::ParseFloat) } }
    """)
    u.emit_impl(" RadonString", [u.fn(ts, "RadonString::value", trait="RadonType", ret="r", subst=[(r"self\.value\.clone\(\)", "cl(&self.value)")], spec="ensures r == self.value"), u.fn(ts, "RadonString::from", trait="From", self_text="From<String>", ret="r", spec="ensures r.value == value"),
        u.fn(ts, "RadonString::try_from", trait="TryFrom", self_text="TryFrom<Value>", name="in_argument", ret="r", desugar=D, sig_subst=[(r"Self::Error", "RadError")], subst=E, spec="ensures match String::read(value) { Some(s) => r is Ok && r->Ok_0.value == s, None => r == Err::<RadonString, RadError>(RadError::Decode) }")])
    u.emit_impl(" RadonFloat", [u.fn(tf, "RadonFloat::value", trait="RadonType", ret="r", spec="ensures r == self.value"), u.fn(tf, "RadonFloat::from", trait="From", self_text="From<f64>", ret="r", spec="ensures r.value == value")])
    TX = [(r"\.value\(\)\s*\.len\(\)", ".value().length()"), (r"\.ends_with\('\\n'\)", ".ends_in_newline()"), (r"(\w+\.value\(\))\[\.\.((?:[^\[\]])*)\]\.to_string\(\)", r"\1.prefix(\2)"), (r"\.as_str\(\)", ""), (r"\.as_bytes\(\)", ".raw()"), (r"\.to_lowercase\(\)", ".lower()"), (r"\.to_uppercase\(\)", ".upper()"), (r"(bool|i128|f64)::from_str\(", lambda m: dict(bool="parse_bool", i128="parse_int", f64="parse_float")[m.group(1)] + "("), (r"Into::into", "same"),
        (r"String::from\((DEFAULT_\w+)\)", r"\1_text()"), (r"args\.as_deref\(\)\.unwrap_or_default\(\)", "list_of(args)"), (r"hex::(encode|decode)\(", r"hex_\1("), (r"bs58::encode\(([^()]*\(\))\)\.into_string\(\)", r"b58_encode(\1)"), (r"base64::engine::general_purpose::STANDARD\s*\.(encode|decode)\(", r"b64_\1("), (r"bs58::decode\(([^()]*\(\))\)\s*\.into_vec\(\)", r"b58_decode(\1)"), (r"String::from_utf8\(((?:[^()]|\(\))*)\)\.unwrap_or_default\(\)", r"from_utf8_or_empty(\1)"), (r"RadonString::try_from\(Value", "RadonString::in_argument(Value")]
    u.result_fns.update(["parse_bool", "from_str", "hex_decode", "decode", "into_vec"])
    T = "bytes(input.value)"
    fn(oy, "to_string", "bytes_to_string", "is_text(r, match coded::<u8, RadonBytesEncoding>(*args, 0) { Err(e) => Err(e), Ok(RadonBytesEncoding::Hex) => Ok(hex_of(input.value@)), Ok(RadonBytesEncoding::Base58) => Ok(b58_of(input.value@)), Ok(RadonBytesEncoding::Base64) => Ok(b64_of(input.value@)), Ok(RadonBytesEncoding::Utf8) => Ok(if utf8(input.value@) { input.value@ } else { Seq::empty() }) })", subst=AR + TX)
    fn(oy, "to_string_legacy", "bytes_to_string_legacy", "is_text(r, Ok(hex_of(input.value@)))", subst=TX)
    fn(os_, "radon_trim", "radon_trim", "bytes(r) == trimmed(%s)" % T, subst=TX)
    fn(os_, "length", "string_length", "r.value == %s.len()" % T, subst=TX)
    fn(os_, "to_lowercase", "to_lowercase", "bytes(r.value) == lowered(%s)" % T, subst=TX)
    fn(os_, "to_uppercase", "to_uppercase", "bytes(r.value) == raised(%s)" % T, subst=TX)
    fn(os_, "as_bool", "as_bool", "match r { Ok(b) => trimmed(%s) == (if b.value { seq![116u8, 114, 117, 101] } else { seq![102u8, 97, 108, 115, 101] }), Err(e) => e == RadError::ParseBool && trimmed(%s) != seq![116u8, 114, 117, 101] && trimmed(%s) != seq![102u8, 97, 108, 115, 101] }" % (T, T, T), subst=TX)
    SEP = [(r"arg_of::<String>\(args\[(\d)\]\.clone\(\)\)\s*\.unwrap_or_else\((\w+)\)", r"or_text(arg_of::<String>(args[\1].clone()), \2(()))"), (r'\.replace\(&(\w+), ""\)', r".rep(&\1, empty_text())"), (r"\.replace\(&(\w+), (DEFAULT_\w+)\)", r".rep(&\1, \2_text())")]
    fn(os_, "default_thousands_separator", "default_thousands_separator", "bytes(r) == seq![44u8]", subst=TX, sig_subst=[(r"_: T", "_x: T")])
    fn(os_, "default_decimal_separator", "default_decimal_separator", "bytes(r) == seq![46u8]", subst=TX, sig_subst=[(r"_: T", "_x: T")])
    fn(os_, "read_separators_from_args", "read_separators_from_args", "bytes(r.0) == separators(args@).0, bytes(r.1) == separators(args@).1", subst=[E[1]] + SEP, sig_subst=[(r"serde_cbor::", "")])
    fn(os_, "replace_separators", "replace_separators", "bytes(r) == replaced(replaced(bytes(value), bytes(thousands_separator), Seq::empty()), bytes(decimal_separator), seq![46u8])", subst=SEP)
    fn(os_, "to_numeric_string", "to_numeric_string", "bytes(r) == normal(trimmed(%s), args@)" % T, subst=TX)
    fn(os_, "as_integer", "as_integer", "r == an_int(int_in(normal(trimmed(%s), listed(*args))))" % T, subst=TX)
    fn(os_, "as_float", "as_float", "r == a_float(float_in(normal(trimmed(%s), listed(*args))))" % T, subst=TX)
    fn(os_, "as_integer_before_wip0024", "as_integer_before_wip0024", "r == an_int(int_in(trimmed(%s)))" % T, subst=TX)
    fn(os_, "as_float_before_wip0024", "as_float_before_wip0024", "r == a_float(float_in(trimmed(%s)))" % T, subst=TX)
    fn(os_, "hash", "string_hash", "is_text(r, match hashed(%s, args@) { Ok(b) => Ok(hex_of(b)), Err(e) => Err(e) })" % T, subst=TX + [(r"hash_functions::hash\((\w+)", r"hash_with(\1.as_slice()")])
    fn(os_, "string_slice", "string_slice", """is_text(r, if %s.len() > i32::MAX { Err(RadError::InputTooBig) } else { match nth::<i32>(args@, 0) { None => Err(RadError::WrongArguments), Some(i) => sliced(%s, i as int, until(args@, %s.len() as int)) } })""" % (T, T, T),
        subst=TX + [(r"\.cloned\(\)", ".cpy()"), (r"(input\s*\.value\(\))\s*\.get\(([^{}]*?)\.\.([^{}]*?)\) \{", r"\1.between(\2, \3) {"), (r"\?\s*\.to_owned\(\)", "?"), (r"String::new\(\)", "empty_text()")])
    u.emit("""
    spec fn stripped(b: Bytes) -> Bytes { if b.len() >= 2 && b[0] == 48 && b[1] == 120 { b.skip(2) } else { b } }
    spec fn hex_digits(b: Bytes) -> Bytes { if stripped(b).len() % 2 == 1 { seq![48u8] + stripped(b) } else { stripped(b) } }
    spec fn parsed(b: Bytes, e: RadonBytesEncoding) -> Result<Bytes, RadError> { match (match e { RadonBytesEncoding::Hex => hex_in(hex_digits(b)), RadonBytesEncoding::Base58 => b58_in(b), RadonBytesEncoding::Base64 => b64_in(b), RadonBytesEncoding::Utf8 => Some(b) }) { Some(x) => Ok(x), None => Err(RadError::Decode) } }
    """)
    fn(os_, "as_bytes", "as_bytes", "is_bytes(r, match coded::<u8, RadonBytesEncoding>(*args, 0) { Err(e) => Err(e), Ok(e) => parsed(%s, e) })" % T, subst=[(r'input_string\.starts_with\("0x"\)', "input_string.has_0x()"), (r"input_string\.slice\(2\.\.\)", "input_string.from_char(2)"), (r"input_string\.len\(\)", "input_string.length()"), (r"input_string\.insert\(0, '0'\)", "put_zero(&mut input_string)"), (r"hex::decode\(input_string", "hex::decode(&input_string"), (r"RadonBytesEncoding::try_from", "<RadonBytesEncoding as Coded<u8>>::try_from")] + TX)
    # floats: the arithmetic is uninterpreted
    u.emit("""
    pub mod fl { use super::*;
        pub uninterp spec fn times(a: f64, b: f64) -> f64; pub uninterp spec fn modulo(a: f64, b: f64) -> f64; pub uninterp spec fn to_the(a: f64, b: f64) -> f64; pub uninterp spec fn minus(a: f64) -> f64; pub uninterp spec fn size(a: f64) -> f64;
        pub uninterp spec fn up(a: f64) -> f64; pub uninterp spec fn down(a: f64) -> f64; pub uninterp spec fn nearest(a: f64) -> f64; pub uninterp spec fn towards_zero(a: f64) -> f64; pub uninterp spec fn whole_part(a: f64) -> i128;
        pub uninterp spec fn more(a: f64, b: f64) -> bool; pub uninterp spec fn fewer(a: f64, b: f64) -> bool;
        pub broadcast group fax { f1, f2, f5, f6 }
        pub broadcast axiom fn f1(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
        pub broadcast axiom fn f2(a: f64, b: f64, r: f64) ensures #[trigger] vstd::std_specs::ops::mul_ensures(a, b, r) ==> r == times(a, b);
        pub broadcast axiom fn f5(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::gt_ensures(a, b, r) ==> r == more(a, b);
        pub broadcast axiom fn f6(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, r) ==> r == fewer(a, b);
        #[verifier::external_body] pub fn f_abs(a: f64) -> (r: f64) ensures r == size(a) { unimplemented!() }
        #[verifier::external_body] pub fn f_ceil(a: f64) -> (r: f64) ensures r == up(a) { unimplemented!() }
        #[verifier::external_body] pub fn f_floor(a: f64) -> (r: f64) ensures r == down(a) { unimplemented!() }
        #[verifier::external_body] pub fn f_round(a: f64) -> (r: f64) ensures r == nearest(a) { unimplemented!() }
        #[verifier::external_body] pub fn f_trunc(a: f64) -> (r: f64) ensures r == towards_zero(a) { unimplemented!() }
        #[verifier::external_body] pub fn f_powf(a: f64, b: f64) -> (r: f64) ensures r == to_the(a, b) { unimplemented!() }
        #[verifier::external_body] pub fn f_rem(a: f64, b: f64) -> (r: f64) ensures r == modulo(a, b) { unimplemented!() }
        #[verifier::external_body] pub fn f_neg(a: f64) -> (r: f64) ensures r == minus(a) { unimplemented!() }
        #[verifier::external_body] pub fn int_of(a: f64) -> (r: i128) ensures r == whole_part(a) { unimplemented!() }
    }
    use fl::*;
    """)
    FL = [(r"(input\.value\(\)\.\w+\(\)) as i128", r"int_of(\1)"), (r"input\.value\(\)\.(abs|ceil|floor|round|trunc)\(\)", r"f_\1(input.value())"), (r"input\.value\(\)\.powf\(", "f_powf(input.value(), "), (r"input\.value\(\) % (\w+)", r"f_rem(input.value(), \1)"), (r"\(-input\.value\(\)\)", "(f_neg(input.value()))")]
    fn(of, "absolute", "float_absolute", "r.value == size(input.value)", subst=FL)
    fn(of, "negate", "float_negate", "r.value == minus(input.value)", subst=FL)
    for n, w in (("ceiling", "up"), ("floor", "down"), ("round", "nearest"), ("truncate", "towards_zero")):
        fn(of, n, "float_" + n, "r.value == whole_part(%s(input.value))" % w, subst=FL)
    FO = "match nth::<f64>(args@, 0) { None => r == Err::<%s, RadError>(RadError::WrongArguments), Some(m) => r == Ok::<%s, RadError>(%s { value: %s }) }"
    for n, w in (("multiply", "times"), ("modulo", "modulo"), ("power", "to_the")):
        fn(of, n, "float_" + n, FO % ("RadonFloat", "RadonFloat", "RadonFloat", "%s(input.value, m)" % w), subst=FL)
    for n, w in (("greater_than", "more"), ("less_than", "fewer")):
        fn(of, n, "float_" + n, FO % ("RadonBoolean", "RadonBoolean", "RadonBoolean", "%s(input.value, m)" % w), subst=FL)
    # -- arrays and maps -------------------------------------------------------------------------
    u.emit_raw(u.struct_text(ta, "RadonArray", derive="").replace("struct", "pub struct").replace("pub pub", "pub").replace("    value:", "    pub value:").replace("    is_homogeneous:", "    pub is_homogeneous:"))
    u.emit_raw(u.struct_text(tm, "RadonMap", derive="").replace("struct", "pub struct").replace("pub pub", "pub").replace("    value:", "    pub value:"))
    u.emit_raw(u.struct_text(tt, "RadonTypes", derive="", subst=[(r"RadonError<RadError>", "RadonError")]).replace("enum", "pub enum").replace("pub pub", "pub"))
    kinds = codes(tt, "RadonTypesDiscriminant", "kind_no")
    u.emit("pub struct RadonError { pub inner: RadError }")
    for n in ("RadonTypes", "RadonArray", "RadonMap", "RadonError", "RadError", "RadonString", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger"):
        u.emit("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
    for n, v in (("RadonArray", "Array"), ("RadonBoolean", "Boolean"), ("RadonBytes", "Bytes"), ("RadonFloat", "Float"), ("RadonInteger", "Integer"), ("RadonMap", "Map"), ("RadonString", "String")):
        u.emit("impl vstd::std_specs::convert::FromSpecImpl<%s> for RadonTypes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: %s) -> Self { RadonTypes::%s(x) } }" % (n, n, v))
        u.emit("impl From<%s> for RadonTypes { " % n + u.fn(tt, "RadonTypes::from", trait="From", self_text="From<%s>" % n, ret="r", spec="") + " }")
    u.emit("""
    pub type Items = Seq<RadonTypes>;
    pub mod heap { use super::*;
    pub open spec fn kind(x: RadonTypes) -> RadonTypesDiscriminant { match x { RadonTypes::Array(_) => RadonTypesDiscriminant::Array, RadonTypes::Boolean(_) => RadonTypesDiscriminant::Boolean, RadonTypes::Bytes(_) => RadonTypesDiscriminant::Bytes, RadonTypes::RadonError(_) => RadonTypesDiscriminant::Error, RadonTypes::Float(_) => RadonTypesDiscriminant::Float, RadonTypes::Integer(_) => RadonTypesDiscriminant::Integer, RadonTypes::Map(_) => RadonTypesDiscriminant::Map, RadonTypes::String(_) => RadonTypesDiscriminant::String } }
    pub open spec fn homogeneous(v: Items) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> kind(#[trigger] v[i]) == kind(v[0]) }
    pub open spec fn sound(a: RadonArray) -> bool { a.is_homogeneous == homogeneous(a.value@) }
    pub uninterp spec fn array_from(v: Value) -> Option<RadonArray>;
    pub uninterp spec fn map_from(v: Value) -> Option<RadonMap>;
    pub uninterp spec fn pairs_of(m: RadonMap) -> Seq<(String, RadonTypes)>;
    pub uninterp spec fn clean(x: RadonTypes) -> bool;
        // no errors among the items of arrays and maps, and marks of homogeneous arrays that are right, at any depth
        pub broadcast group clean_ax { c1, c2, c3, c4, c5, c6 }
        pub broadcast axiom fn c1(x: RadonTypes) ensures #[trigger] clean(x) ==> !(x is RadonError);
        pub broadcast axiom fn c2(x: RadonTypes) ensures !(x is RadonError || x is Array || x is Map) ==> #[trigger] clean(x);
        pub broadcast axiom fn c3(a: RadonArray) ensures #[trigger] clean(RadonTypes::Array(a)) == (sound(a) && forall|i: int| 0 <= i < a.value@.len() ==> clean(#[trigger] a.value@[i]));
        pub broadcast axiom fn c4(m: RadonMap) ensures #[trigger] clean(RadonTypes::Map(m)) == (forall|i: int| 0 <= i < pairs_of(m).len() ==> clean((#[trigger] pairs_of(m)[i]).1));
        pub broadcast axiom fn c5(v: Value) ensures #[trigger] array_from(v) matches Some(a) ==> clean(RadonTypes::Array(a)) && sound(a);
        pub broadcast axiom fn c6(v: Value) ensures #[trigger] map_from(v) matches Some(m) ==> clean(RadonTypes::Map(m));
    }
    use heap::*;
    type Outcome = Result<RadonTypes, RadError>;
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RadonTypesDiscriminant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for RadonTypesDiscriminant { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    spec fn array_of(r: RadonArray, v: Items) -> bool { r.value@ == v && sound(r) }
    """)
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::discriminant", ret="r", spec="ensures r == kind(*self)")])
    u.emit_impl(" RadonArray", [u.fn(ta, "RadonArray::is_homogeneous", ret="r", spec="ensures r == self.is_homogeneous"), u.fn(ta, "RadonArray::value", trait="RadonType", ret="r", subst=[(r"self\.value\.clone\(\)", "cl(&self.value)")], spec="ensures r == self.value"),
        u.fn(ta, "RadonArray::from", trait="From", ret="r", desugar=["opt_map", "opt_map_or", "try_fold"], cty="Option<RadonTypesDiscriminant>", spec="ensures array_of(r, value@)",
            loops={0: dict(before="let ghost v = value@;", inv="v == value@, v.len() > 0, it0.seq().unref() == v.skip(1), it0.seq().len() == v.len() - 1", inv_except_break="__acc is Some ==> __acc == Some(kind(v[0])), __acc is Some ==> forall|i: int| 0 <= i <= it0.index@ ==> kind(#[trigger] v[i]) == kind(v[0]), __acc is None ==> !homogeneous(v)", ensures="__acc is Some == homogeneous(v)", start="proof { let i = it0.index@ as int; assert(it0.seq().unref()[i] == *current); assert(v.skip(1)[i] == v[i + 1]); assert(*current == v[i + 1]); }")})])
    # -- turning one kind into another -----------------------------------------------------------
    u.emit("""
    // arrays and maps as values of CBOR, and back: the external encoder's
    pub uninterp spec fn array_value(v: Items) -> Option<Value>;
    pub uninterp spec fn map_value(m: RadonMap) -> Option<Value>;
    pub uninterp spec fn float_of_int(n: i128) -> f64;
    pub uninterp spec fn int_shown(n: i128) -> String;
    pub uninterp spec fn float_shown(n: f64) -> String;
    pub uninterp spec fn bool_shown(n: bool) -> String;
    #[verifier::external_body] fn show_int(n: i128) -> (r: String) ensures r == int_shown(n) { unimplemented!() }
    #[verifier::external_body] fn show_float(n: f64) -> (r: String) ensures r == float_shown(n) { unimplemented!() }
    #[verifier::external_body] fn show_bool(n: bool) -> (r: String) ensures r == bool_shown(n) { unimplemented!() }
    #[verifier::external_body] fn int_to_float(n: i128) -> (r: f64) ensures r == float_of_int(n) { unimplemented!() }
    #[verifier::external_body] fn crashed<T>() -> T requires false { unimplemented!() }
    impl RadonArray { #[verifier::external_body] fn try_into(self) -> (r: Result<Value, RadError>) ensures match r { Ok(v) => array_value(self.value@) == Some(v), Err(_) => array_value(self.value@) is None } { unimplemented!() } }
    impl RadonMap { #[verifier::external_body] fn try_into(self) -> (r: Result<Value, RadError>) ensures match r { Ok(v) => map_value(self) == Some(v), Err(_) => map_value(self) is None } { unimplemented!() } }
    pub open spec fn in_value(x: RadonTypes) -> Option<Value> { match x { RadonTypes::Array(a) => array_value(a.value@), RadonTypes::Boolean(b) => Some(Value::Bool(b.value)), RadonTypes::Bytes(b) => Some(Value::Bytes(b.value)), RadonTypes::RadonError(_) => None, RadonTypes::Float(f) => Some(Value::Float(f.value)), RadonTypes::Integer(n) => Some(Value::Integer(n.value)), RadonTypes::Map(m) => map_value(m), RadonTypes::String(s) => Some(Value::Text(s.value)) } }
    trait FromVal: Sized { spec fn of(v: Value) -> Option<Self>; fn from_value(v: Value) -> (r: Result<Self, RadError>) ensures match r { Ok(x) => Self::of(v) == Some(x), Err(_) => Self::of(v) is None }; }
    trait FromItem: Sized { spec fn in_item(x: RadonTypes) -> Option<Self>; fn try_from(item: RadonTypes) -> (r: Result<Self, RadError>) requires !(item is RadonError) ensures match r { Ok(x) => Self::in_item(item) == Some(x), Err(_) => Self::in_item(item) is None }; }
    impl RadonTypes { #[verifier::external_body] fn radon_type_name(&self) -> &'static str { unimplemented!() }
        fn item_into<T: FromItem>(self) -> (r: Result<T, RadError>) requires !(self is RadonError) ensures match r { Ok(x) => T::in_item(self) == Some(x), Err(_) => T::in_item(self) is None } { T::try_from(self) } }
    impl Value { fn value_into<T: FromVal>(self) -> (r: Result<T, RadError>) ensures match r { Ok(x) => T::of(self) == Some(x), Err(_) => T::of(self) is None } { T::from_value(self) } }
    impl Arg for bool { closed spec fn read(v: Value) -> Option<Self> { match v { Value::Bool(b) => Some(b), _ => bool_like(v) } } }
    uninterp spec fn bool_like(v: Value) -> Option<bool>;
    """)
    VV = [(r"Value::from\(self\.value(\(\))?\)", lambda m: "VALUE")]
    u.result_fns.update(["try_into", "try_from"])
    VAL = {"RadonBoolean": "Bool", "RadonBytes": "Bytes", "RadonFloat": "Float", "RadonInteger": "Integer", "RadonString": "Text"}
    IN = E + [(r"\.try_into\(\)", ".value_into()"), (r"panic!\([^()]*\)", "crashed()"), (r"i128_value as f64", "int_to_float(i128_value)"), (r"string_value\.as_str\(\)", "&string_value"), (r"value\.value\(\)\.as_str\(\)", "&value.value()"), (r"Self::try_from\(&", "Self::in_text(&"), (r"RadonString::from\(rad_(bool|float|integer)\.value\(\)\.to_string\(\)\)", lambda m: "RadonString::from(show_%s(rad_%s.value()))" % (dict(bool="bool", float="float", integer="int")[m.group(1)], m.group(1))), (r"(i128|f64)::from_str\(", lambda m: dict(i128="parse_int", f64="parse_float")[m.group(1)] + "("), (r"Into::into", "same")]
    SG = [(r"Self::Error", "RadError")]
    for src, n in ((tb, "RadonBoolean"), (ty, "RadonBytes"), (tf, "RadonFloat"), (ti, "RadonInteger"), (ts, "RadonString")):
        v = VAL[n]
        u.emit_impl(" " + n, [u.fn(src, n + "::try_into", trait="TryInto", ret="r", sig_subst=SG, subst=[(r"Value::from\(self\.value(\(\))?\)", r"Value::%s(self.value\1)" % v)], spec="ensures r matches Ok(v) && v == Value::%s(self.value)" % v)])
    u.emit("impl Value { " + u.fn(tt, "Value::try_from", trait="TryFrom", self_text="TryFrom<RadonTypes>", ret="r", sig_subst=SG, subst=[(r"panic!\([^()]*\)", "crashed()")], spec="requires !(input is RadonError) ensures match r { Ok(v) => in_value(input) == Some(v), Err(_) => in_value(input) is None }") + " }")
    for src, n, e in ((ti, "RadonInteger", "an_int(int_in(bytes(*value)))"), (tf, "RadonFloat", "a_float(float_in(bytes(*value)))")):
        u.emit_impl(" " + n, [u.fn(src, n + "::try_from", trait="TryFrom", self_text="TryFrom<&str>", name="in_text", ret="r", sig_subst=SG + [(r"&str", "&String")], desugar=["opt_map", "opt_map_err"], subst=[(r"Ok\(Into::into\((\w+)\)\)", r"Ok(%s::from(\1))" % n)] + IN, spec="ensures r == " + e)])
    READS = dict(RadonBoolean="match bool::read(v) { Some(b) => Some(RadonBoolean { value: b }), None => None }", RadonBytes="match v { Value::Bytes(b) => Some(RadonBytes { value: b }), _ => None }", RadonInteger="match v { Value::Integer(n) => Some(RadonInteger { value: n }), Value::Text(s) => an_int(int_in(bytes(s))).ok(), _ => None }",
        RadonFloat="match v { Value::Float(f) => Some(RadonFloat { value: f }), Value::Integer(n) => Some(RadonFloat { value: float_of_int(n) }), Value::Text(s) => a_float(float_in(bytes(s))).ok(), _ => None }", RadonString="match String::read(v) { Some(s) => Some(RadonString { value: s }), None => None }", RadonArray="array_from(v)", RadonMap="map_from(v)")
    KN = dict(RadonBoolean="Boolean", RadonBytes="Bytes", RadonFloat="Float", RadonInteger="Integer", RadonString="String", RadonArray="Array", RadonMap="Map")
    for src, n in ((tb, "RadonBoolean"), (ty, "RadonBytes"), (tf, "RadonFloat"), (ti, "RadonInteger"), (ts, "RadonString"), (ta, "RadonArray"), (tm, "RadonMap")):
        body = "#[verifier::external_body] fn from_value(v: Value) -> (r: Result<Self, RadError>) { unimplemented!() }" if n in ("RadonArray", "RadonMap") else u.fn(src, n + "::try_from", trait="TryFrom", self_text="TryFrom<Value>", name="from_value", ret="r", desugar=D, sig_subst=SG, subst=IN + [(r"\|_\|", "|_x|")], spec="")
        u.emit_impl(" FromVal for " + n, ["closed spec fn of(v: Value) -> Option<Self> { %s }" % READS[n], body])
        of_ = "match in_value(x) { Some(v) => Self::of(v), None => None }"
        if n == "RadonString":
            of_ = "match x { RadonTypes::Boolean(b) => Some(RadonString { value: bool_shown(b.value) }), RadonTypes::Float(f) => Some(RadonString { value: float_shown(f.value) }), RadonTypes::Integer(n) => Some(RadonString { value: int_shown(n.value) }), RadonTypes::String(s) => Some(s), _ => %s }" % of_
        else:
            of_ = "match x { RadonTypes::%s(y) => Some(y), _ => %s }" % (KN[n], of_)
        u.emit_impl(" FromItem for " + n, ["closed spec fn in_item(x: RadonTypes) -> Option<Self> { %s }" % of_, u.fn(src, n + "::try_from", trait="TryFrom", self_text="TryFrom<RadonTypes>", ret="r", desugar=D, sig_subst=SG, subst=IN, spec="")])

    # -- items of arrays and maps ----------------------------------------------------------------
    u.emit("""
    spec fn got(v: Items, a: Args) -> Outcome { if a.len() != 1 { Err(RadError::WrongArguments) } else { match nth::<i32>(a, 0) { None => Err(RadError::WrongArguments), Some(i) => if 0 <= i < v.len() { Ok(v[i as int]) } else { Err(RadError::ArrayIndexOutOfBounds { index: i }) } } } }
    spec fn turned<O: FromItem>(x: Outcome) -> Result<O, RadError> { match x { Err(e) => Err(e), Ok(x) => match O::in_item(x) { Some(o) => Ok(o), None => Err(RadError::Decode) } } }
    spec fn clean_items(v: Items) -> bool { forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i] is RadonError) }
    // a map is its pairs, by key
    spec fn clean_pairs(m: RadonMap) -> bool { forall|i: int| 0 <= i < pairs_of(m).len() ==> !((#[trigger] pairs_of(m)[i]).1 is RadonError) }
    spec fn found(m: RadonMap, k: String) -> Option<RadonTypes> { if exists|i: int| 0 <= i < pairs_of(m).len() && bytes(#[trigger] pairs_of(m)[i].0) == bytes(k) { Some(pairs_of(m)[choose|i: int| 0 <= i < pairs_of(m).len() && bytes(#[trigger] pairs_of(m)[i].0) == bytes(k)].1) } else { None } }
    #[verifier::external_body] fn map_find(m: &RadonMap, k: &String) -> (r: Option<RadonTypes>) ensures r == found(*m, *k) { unimplemented!() }
    #[verifier::external_body] fn key_list(m: &RadonMap) -> (r: Vec<String>) ensures r@ == pairs_of(*m).map_values(|p: (String, RadonTypes)| p.0) { unimplemented!() }
    #[verifier::external_body] fn value_list(m: &RadonMap) -> (r: Vec<RadonTypes>) ensures r@ == pairs_of(*m).map_values(|p: (String, RadonTypes)| p.1) { unimplemented!() }
    spec fn mapped(m: RadonMap, a: Args) -> Outcome { match nth::<String>(a, 0) { None => Err(RadError::WrongArguments), Some(k) => match found(m, k) { Some(x) => Ok(x), None => Err(RadError::MapKeyNotFound { key: k }) } } }
    spec fn first(a: Args) -> Args { if a.len() > 0 { a.take(1) } else { Seq::empty() } }
    #[verifier::external_body] fn first_of(a: &[Value]) -> (r: &[Value]) ensures r@ == first(a@) { unimplemented!() }
    fn all_but_first(a: &[Value]) -> (r: &[Value]) requires a@.len() >= 1 ensures r@ == a@.skip(1) { vstd::slice::slice_subrange(a, 1, a.len()) }
    // numbers: from their normalized text
    trait FromText: Sized { spec fn in_bytes(b: Bytes) -> Result<Self, RadError>; fn from_text(value: RadonString) -> (r: Result<Self, RadError>) ensures r == Self::in_bytes(bytes(value.value)); }
    spec fn number<O: FromText>(x: Outcome, a: Args) -> Result<O, RadError> { match turned::<RadonString>(x) { Err(e) => Err(e), Ok(s) => O::in_bytes(normal(bytes(s.value), a)) } }
    spec fn old_number<O: FromItem>(x: Outcome, e: RadError) -> Result<O, RadError> { match x { Err(e) => Err(e), Ok(x) => match O::in_item(x) { Some(o) => Ok(o), None => Err(e) } } }
    """)
    for src, n, e in ((ti, "RadonInteger", "an_int(int_in(b))"), (tf, "RadonFloat", "a_float(float_in(b))")):
        u.emit_impl(" FromText for " + n, ["closed spec fn in_bytes(b: Bytes) -> Result<Self, RadError> { %s }" % e, u.fn(src, n + "::try_from", trait="TryFrom", self_text="TryFrom<RadonString>", name="from_text", ret="r", sig_subst=SG, subst=[(r"Self::try_from\(value\.value\(\)\.as_str\(\)\)", "Self::in_text(&value.value())")], spec="")])
    u.result_fns.update(["inner_get", "get", "get_array_item", "get_map_item", "array_get", "map_get_item", "get_numeric_string"])
    GT = [(r"item\.try_into\(\)", "item.item_into::<%s>()"), (r"O::try_from", "O::from_text"), (r"let original_type = item\.radon_type_name\(\);", ""), (r"args\.get\(\.\.1\)\.unwrap_or_default\(\)", "first_of(args)"), (r"&args\[1\.\.\]", "all_but_first(args)"), (r"\bstring::", ""), (r"\.cloned\(\)", ".cpy()")]
    fn(oa, "count", "count", "r.value == input.value@.len()")
    def getters(src, k, what, of_, owner, ok):
        ins = [(r"\binner_get\(", "%s_inner_get(" % k), (r"\bget_numeric_string\(", "%s_numeric_string(" % k), (r"\bget::<RadonString, _>\(", "%s_get::<RadonString>(" % k)]
        req = "requires %s ensures " % ok
        fn(src, "inner_get", k + "_inner_get", req + "r == %s, r matches Ok(x) ==> !(x is RadonError)" % of_.replace("A@", "args@"), subst=what + GT)
        g = lambda O: [(r"item\.try_into\(\)", "item.item_into::<%s>()" % O)] + ins + GT[1:]
        fn(src, "get", k + "_get", req + "r == turned::<O>(%s)" % of_.replace("A@", "args@"), sig="fn %s_get<O: FromItem>(input: &%s, args: &[Value]) -> (r: Result<O, RadError>)" % (k, owner), subst=g("O"))
        fn(src, "get_numeric_string", k + "_numeric_string", req + "match turned::<RadonString>(%s) { Ok(s) => r is Ok && bytes(r->Ok_0.value) == normal(bytes(s.value), args@.skip(1)), Err(e) => r == Err::<RadonString, RadError>(e) }" % of_.replace("A@", "first(args@)"), subst=g("O"))
        fn(src, "get_number", k + "_number", req + "r == number::<O>(%s, args@.skip(1))" % of_.replace("A@", "first(args@)"), sig="fn %s_number<O: FromText>(input: &%s, args: &[Value]) -> (r: Result<O, RadError>)" % (k, owner), subst=g("O"))
        for m, n in (("float", "RadonFloat"), ("integer", "RadonInteger")):
            fn(src, "get_%s_before_wip0024" % m, "%s_%s_before_wip0024" % (k, m), req + "r == old_number::<%s>(%s, RadError::%s)" % (n, of_.replace("A@", "args@"), dict(float="ParseFloat", integer="ParseInt")[m]), subst=g(n))
    getters(oa, "array", [(r"i32::try_from\(index\)\.unwrap\(\)", "small_index(index)"), (r"usize::try_from\(index\)", "to_index(index)")], "got(input.value@, A@)", "RadonArray", "clean_items(input.value@)")
    getters(om, "map", [(r"input\s*\.value\(\)\s*\.get\(&key\)\s*\.cloned\(\)", "map_find(input, &key)")], "mapped(*input, A@)", "RadonMap", "clean_pairs(*input)")

    fn(om, "keys", "map_keys", "array_of(r, pairs_of(*input).map_values(|p: (String, RadonTypes)| RadonTypes::String(RadonString { value: p.0 })))", desugar=["map", "collect"], subst=[(r"key\.to_string\(\)", "key.clone()")],
        loops={0: dict(before="let ghost gs = pairs_of(*input).map_values(|p: (String, RadonTypes)| p.0);", iter_as=lambda its, n, r: "key_list(input)", iter_of=["input.value().keys()"], cty="Vec<RadonTypes>", inv="gs == pairs_of(*input).map_values(|p: (String, RadonTypes)| p.0), it0.seq() == gs, __c@ == gs.take(it0.index@ as int).map_values(|k: String| RadonTypes::String(RadonString { value: k }))", start="proof { let i = it0.index@ as int; assert(gs.take(i + 1) =~= gs.take(i).push(gs[i])); }", after="proof { assert(gs.take(gs.len() as int) =~= gs); assert(__c@ =~= pairs_of(*input).map_values(|p: (String, RadonTypes)| RadonTypes::String(RadonString { value: p.0 }))); }")})
    fn(om, "values", "map_values", "array_of(r, pairs_of(*input).map_values(|p: (String, RadonTypes)| p.1))", subst=[(r"input\.value\(\)\.values\(\)\.cloned\(\)\.collect\(\)", "value_list(input)")])

    # -- operators by code -----------------------------------------------------------------------
    ck = u.src(CK)
    t = u.struct_text(u.src(VS), "ProtocolVersion", derive="Clone, Copy")
    it = u.src(VS).find_item(("item_enum",), "ProtocolVersion")
    vs = [v["name"] for v in it["variants"]]
    dv = [v["name"] for v in it["variants"] if any("default" in u.src(VS).text(a["s"], a["e"]) for a in v["attrs"])][0]
    u.emit("#[derive(Clone, Copy)] pub enum ProtocolVersion { %s }" % ", ".join(vs))
    u.emit("""
    pub open spec fn version_no(v: ProtocolVersion) -> int { match v { %s } }
    #[verifier::external_body] fn at_least(a: ProtocolVersion, b: ProtocolVersion) -> (r: bool) ensures r == (version_no(a) >= version_no(b)) { unimplemented!() }
    fn version_or_default(v: Option<ProtocolVersion>) -> (r: ProtocolVersion) ensures r == version_in(v) { match v { Some(v) => v, None => ProtocolVersion::%s } }
    spec fn version_in(v: Option<ProtocolVersion>) -> ProtocolVersion { match v { Some(v) => v, None => ProtocolVersion::%s } }
    pub struct ActiveWips { w24: bool, x: u64 }
    impl ActiveWips { #[verifier::external_body] fn wip0024(&self) -> (r: bool) ensures r == self.w24 { unimplemented!() } }
    #[verifier::external_body] struct Time { x: u64 }
    // a protocol that has what a given version brought
    pub struct Env { pub w24: bool, pub v21: bool, pub wips: Option<ActiveWips> }
    """ % (", ".join("ProtocolVersion::%s => %dint" % (v, i) for i, v in enumerate(vs)), dv, dv))
    u.emit("pub type RadonCall = (RadonOpCodes, Option<Vec<Value>>);")
    G = [(r"<RT>", ""), (r"\bRT\b", "RadonTypes"), (r"SystemTime", "Time")]
    rr = u.src(RR)
    u.emit_raw(u.struct_text(rr, "RetrievalMetadata", generics="", subst=G[1:], keep_fields=["subscript_partial_results"]))
    u.emit_raw(u.struct_text(rr, "TallyMetaData", keep_fields=["errors", "liars"], generics=""))
    u.emit_raw(u.struct_text(rr, "Stage", generics="", subst=G, keep_fields=["Aggregation", "Contextless", "Retrieval", "Tally"]))
    u.emit_raw(u.struct_text(rr, "ReportContext", keep_fields=["call_index", "stage", "active_wips", "protocol_version", "start_time", "completion_time"], generics="", subst=G))
    u.emit("""
    spec fn env(c: ReportContext) -> Env { Env { w24: match c.active_wips { Some(w) => w.w24, None => true }, v21: version_no(version_in(c.protocol_version)) >= version_no(ProtocolVersion::V2_1), wips: c.active_wips } }
    spec fn default_env() -> Env { Env { w24: true, v21: version_no(ProtocolVersion::%s) >= version_no(ProtocolVersion::V2_1), wips: None } }
    trait Out: Sized { spec fn out(r: Outcome) -> Option<Result<Self, RadError>>; }
    """ % dv)
    for n, v in KN.items():
        u.emit("impl Out for %s { closed spec fn out(r: Outcome) -> Option<Result<Self, RadError>> { match r { Ok(RadonTypes::%s(x)) => Some(Ok(x)), Err(e) => Some(Err(e)), _ => None } } }" % (n, v))
    u.emit("impl Out for RadonTypes { closed spec fn out(r: Outcome) -> Option<Outcome> { Some(r) } }")
    DEF = [v for v in u.src(VS).find_item(("item_enum",), "ProtocolVersion")["variants"]]
    u.emit_impl(" ReportContext", [u.fn(rr, "ReportContext::default", trait="Default", ret="r", subst=[(r"\b(call_arguments|call_argument_index|call_operator|script_index): None,", "")], spec="ensures env(r) == default_env(), r.stage == Stage::Contextless")])
    fn(oi, "to_float", "integer_to_float", "r == Ok::<RadonFloat, RadError>(RadonFloat { value: float_of_int(input.value) })", subst=[(r"RadonFloat::try_from\(Value", "RadonFloat::from_value(Value")])
    for src, k, h in ((oi, "integer", "int"), (ob, "boolean", "bool"), (of, "float", "float")):
        fn(src, "to_string", k + "_to_string", "r == Ok::<RadonString, RadError>(RadonString { value: %s_shown(input.value) })" % h, subst=[(r"RadonString::try_from\(Value", "RadonString::in_argument(Value"), (r"input\.value\(\)\.to_string\(\)", "show_%s(input.value())" % h)])
    fn(op, "identity", "identity", "r == Ok::<RadonTypes, RadError>(input)")
    # external: regular expressions, JSON, XML
    for name, a, r in (("string_match", "&[Value]", "RadonTypes"), ("parse_json_array", "&Option<Vec<Value>>", "RadonArray"), ("parse_json_map", "&Option<Vec<Value>>", "RadonMap"), ("parse_xml_map", None, "RadonMap"), ("string_replace", "&Option<Vec<Value>>", "RadonString"), ("string_split", "&Option<Vec<Value>>", "RadonArray")):
        gh = {"&[Value]": ", a: Args", "&Option<Vec<Value>>": ", a: Option<Vec<Value>>", None: ""}[a]
        c = {"&[Value]": ", args@", "&Option<Vec<Value>>": ", *args", None: ""}[a]
        w = {"RadonTypes": "x", "RadonArray": "RadonTypes::Array(x)", "RadonMap": "RadonTypes::Map(x)", "RadonString": "RadonTypes::String(x)"}[r]
        u.emit("uninterp spec fn ext_%s(s: RadonString%s) -> Result<%s, RadError>; #[verifier::external_body] fn %s(input: &RadonString%s) -> (r: Result<%s, RadError>) ensures r == ext_%s(*input%s), r matches Ok(x) ==> clean(%s) { unimplemented!() }" % (name, gh, r, name, ", args: " + a if a else "", r, name, c, w))
        SPECS[name] = "r == ext_%s(*input%s)" % (name, c)
    # which code is which operator, with arguments (S), without (N) or either way (A), and since when
    I, S_, Y, F, B, A_, M, T_ = "RadonInteger", "RadonString", "RadonBytes", "RadonFloat", "RadonBoolean", "RadonArray", "RadonMap", "RadonTypes"
    TABLE = {
        I: [("Absolute", "N", "integer_absolute", I), ("GreaterThan", "S", "integer_greater_than", B), ("LessThan", "S", "integer_less_than", B), ("Modulo", "S", "integer_modulo", I), ("Multiply", "S", "integer_multiply", I), ("Negate", "N", "integer_negate", I), ("Power", "S", "integer_power", I), ("ToBytes", "A", "integer_to_bytes", Y, "e.v21"), ("ToFloat", "N", "integer_to_float", F), ("ToString", "N", "integer_to_string", S_)],
        B: [("Negate", "N", "boolean_negate", B), ("AsString", "N", "boolean_to_string", S_)],
        F: [("Absolute", "N", "float_absolute", F), ("AsString", "N", "float_to_string", S_), ("Ceiling", "N", "float_ceiling", I), ("GreaterThan", "S", "float_greater_than", B), ("LessThan", "S", "float_less_than", B), ("Multiply", "S", "float_multiply", F), ("Modulo", "S", "float_modulo", F), ("Floor", "N", "float_floor", I), ("Negate", "N", "float_negate", F), ("Power", "S", "float_power", F), ("Round", "N", "float_round", I), ("Truncate", "N", "float_truncate", I)],
        Y: [("ToInteger", "A", "bytes_to_integer", I, "e.v21"), ("Length", "N", "bytes_length", I, "e.v21"), ("Hash", "S", "bytes_hash", Y), ("Slice", "S", "bytes_slice", Y, "e.v21"), ("ToString", "A", "bytes_to_string", S_, "e.v21"), ("ToString", "A", "bytes_to_string_legacy", S_, "!e.v21")],
        S_: [("AsFloat", "A", "as_float", F, "e.w24"), ("AsFloat", "A", "as_float_before_wip0024", F, "!e.w24"), ("AsInteger", "A", "as_integer", I, "e.w24"), ("AsInteger", "A", "as_integer_before_wip0024", I, "!e.w24"), ("AsBoolean", "N", "as_bool", B), ("AsBytes", "A", "as_bytes", Y), ("Length", "N", "string_length", I), ("Match", "S", "string_match", T_), ("ParseJSONArray", "A", "parse_json_array", A_), ("ParseJSONMap", "A", "parse_json_map", M), ("ParseXMLMap", "N", "parse_xml_map", M), ("Replace", "A", "string_replace", S_, "e.v21"), ("Slice", "S", "string_slice", S_, "e.v21"), ("Split", "A", "string_split", A_, "e.v21"), ("ToLowerCase", "N", "to_lowercase", S_), ("ToUpperCase", "N", "to_uppercase", S_)],
        M: [("Get" + k, "S", "map_get", n) for k, n in (("Array", A_), ("Boolean", B), ("Bytes", Y), ("Map", M), ("String", S_))] + [("GetInteger", "S", "map_number", I, "e.w24"), ("GetInteger", "S", "map_integer_before_wip0024", I, "!e.w24"), ("GetFloat", "S", "map_number", F, "e.w24"), ("GetFloat", "S", "map_float_before_wip0024", F, "!e.w24"), ("Keys", "N", "map_keys", A_), ("Values", "N", "map_values", A_)],
        A_: [("Count", "N", "count", I)] + [("Get" + k, "S", "array_get", n) for k, n in (("Array", A_), ("Boolean", B), ("Bytes", Y), ("Map", M), ("String", S_))] + [("GetInteger", "S", "array_number", I, "e.w24"), ("GetInteger", "S", "array_integer_before_wip0024", I, "!e.w24"), ("GetFloat", "S", "array_number", F, "e.w24"), ("GetFloat", "S", "array_float_before_wip0024", F, "!e.w24")],
    }
    plain = set(n for n, s_ in SPECS.items() if False)
    def outcome(ty_, kind):
        arms = []
        for row in TABLE[ty_]:
            op_, mode, name, out = row[:4]
            gate = row[4] if len(row) > 4 else None
            c = "c.0 is %s%s" % (KN[ty_], op_) + {"N": " && c.1 is None", "S": " && c.1 is Some", "A": ""}[mode] + (" && " + gate if gate else "")
            sp = SPECS[name]
            # functions that always give a value
            total = not re.search(r"Result|Err|is_bytes|is_text|exact|truth|an_int|a_float|turned|number|ext_|did_|whole\(", sp)
            sp = re.sub(r"\bargs@", "c.1->Some_0@", re.sub(r"\*args\b", "c.1", sp)).replace("::<O>", "::<%s>" % out)
            sp = re.sub(r"\*input\b", "x", re.sub(r"\binput\b(?!\()", "x", sp.replace("*input", "input")))
            if total:
                sp = "(match o { Ok(r) => %s, Err(_) => false })" % sp
            else:
                sp = "{ let r = o; %s }" % sp
            arms.append("if %s { match %s::out(r) { Some(o) => %s, None => false } }" % (c, out, sp))
        return " else ".join(["if c.0 is Identity && c.1 is None { r == Ok::<RadonTypes, RadError>(RadonTypes::%s(x)) }" % KN[ty_]] + arms)
    DISP = E + [(r"Into::into", "RadonTypes::from"), (r"(\w+_operators::(?:count|negate))\(self\)\.into\(\)", r"RadonTypes::from(\1(self))"), (r"protocol_version >= (?:ProtocolVersion::)?V2_1", "at_least(protocol_version, ProtocolVersion::V2_1)"), (r"context\.protocol_version\.unwrap_or_default\(\)", "version_or_default(context.protocol_version)"),
        (r"\.map\(ActiveWips::wip0024\)", ".map_wip()"), (r"string_operators::(length|hash)\(", r"string_\1("), (r"string_operators::(legacy::)?", ""), (r"array_operators::count", "count"), (r"(array|map)_operators::legacy::get_(\w+)\(", r"\1_\2("), (r"(array|map)_operators::get_number::<(\w+)>\(", r"\1_number::<\2>("), (r"(array|map)_operators::get::<(\w+), _>\(", r"\1_get::<\2>("), (r"(integer|bytes|boolean|float|map|array)_operators::(?:legacy::)?", r"\1_")]
    u.result_fns.update("absolute greater_than less_than modulo multiply negate power to_bytes to_float to_string to_integer hash slice to_string_legacy as_float as_float_before_wip0024 as_integer as_integer_before_wip0024 as_bool as_bytes parse_json_array parse_json_map parse_xml_map string_replace string_slice string_split get get_number get_integer_before_wip0024 get_float_before_wip0024 keys values".split())
    u.emit("""
    #[verifier::external_body] fn cl_call(x: &RadonCall) -> (r: RadonCall) ensures r == *x { unimplemented!() }
    trait MapWip { spec fn ws(&self) -> Option<bool>; fn map_wip(self) -> (r: Option<bool>) ensures r == self.ws(); }
    impl<'a> MapWip for Option<&'a ActiveWips> { spec fn ws(&self) -> Option<bool> { match self { Some(w) => Some(w.w24), None => None } } fn map_wip(self) -> (r: Option<bool>) { match self { Some(w) => Some(w.wip0024()), None => None } } }
    """)
    for src, n in ((ti, I), (tb, B), (tf, F), (ty, Y), (ts, S_), (tm, M)):
        k = KN[n].lower()
        u.emit("spec fn did_%s(x: %s, c: RadonCall, e: Env, r: Outcome) -> bool { %s else { r == Err::<RadonTypes, RadError>(RadError::UnsupportedOperator) } }" % (k, n, outcome(n, k)))
        req = "requires clean(RadonTypes::Map(*self)) " if n == M else ""
        RC = [(r"<RadonTypes>", ""), (r"_context:", "context:")]
        e0 = "env(*old(context))"
        f1 = u.fn(src, n + "::operate", trait="Operable", ret="r", desugar=D + ["res_map"], subst=DISP, spec=req + "ensures did_%s(*self, *call, %s, r), r matches Ok(x) ==> clean(x)" % (k, "default_env()" if n not in (B, F) else "default_env()"))
        f2 = u.fn(src, n + "::operate_in_context", trait="Operable", ret="r", desugar=D + ["res_map"], subst=DISP, sig_subst=RC, spec=req + "ensures did_%s(*self, *call, %s, r), *final(context) == *old(context), r matches Ok(x) ==> clean(x)" % (k, e0))
        u.emit_impl(" " + n, [f1, f2])

    # -- scripts ---------------------------------------------------------------------------------
    fm, rm = u.src("rad/src/filters/mod.rs"), u.src("rad/src/reducers/mod.rs")
    for src_, n in ((fm, "RadonFilters"), (rm, "RadonReducers")):
        kn = codes(src_, n, n.lower() + "_no")
        u.emit("impl %s { pub open spec fn of(x: u8) -> Option<Self> { match x { %s, _ => None } } #[verifier::external_body] fn try_from(x: u8) -> (r: Result<Self, Undecoded>) ensures match r { Ok(y) => Self::of(x) == Some(y), Err(_) => Self::of(x) is None } { unimplemented!() } }" % (n, ", ".join("%du8 => Some(%s::%s)" % (int(v, 0), n, c) for c, v in kn)))
    u.emit_raw(u.struct_text(sc, "RadonScriptExecutionSettings", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(rr, "RadonReport", keep_fields=["context", "partial_results", "result"], generics="", subst=G[1:] + [(r"ReportContext<\w+>", "ReportContext")]))
    u.emit_impl(" RadonError", [u.fn(u.src(RE), "RadonError::" + m, ret="r", sig_subst=[(r"\bIE\b", "RadError")], spec="ensures " + e) for m, e in (("new", "r.inner == inner"), ("inner", "*r == self.inner"), ("into_inner", "r == self.inner"))])
    u.emit("""
    uninterp spec fn radon_error(e: RadError) -> Result<RadonError, RadError>;
    #[verifier::external_body] fn try_radon_error(e: RadError) -> (r: Result<RadonError, RadError>) ensures r == radon_error(e) { unimplemented!() }
    spec fn caught(e: RadError) -> RadError { match radon_error(e) { Ok(x) => x.inner, Err(y) => RadError::UnhandledIntercept { inner: Some(Box::new(y)), message: None } } }
    spec fn as_value(o: Outcome) -> RadonTypes { match o { Ok(x) => x, Err(e) => RadonTypes::RadonError(RadonError { inner: caught(e) }) } }
    spec fn same_world(a: ReportContext, b: ReportContext) -> bool { env(a) == env(b) && (a.stage is Retrieval) == (b.stage is Retrieval) }
    // one call, as operate_in_context carries it out
    uninterp spec fn stepped(x: RadonTypes, c: RadonCall, e: Env, r: Outcome) -> bool;
    // a script: each call over the outcome of the one before, until an error
    spec fn path(x: RadonTypes, s: Seq<RadonCall>, e: Env, ps: Seq<Outcome>, o: Outcome) -> bool {
        &&& 1 <= ps.len() <= s.len() + 1 && ps[0] == Ok::<RadonTypes, RadError>(x) && o == ps.last() && (o is Ok ==> ps.len() == s.len() + 1)
        &&& forall|i: int| 0 <= i < ps.len() - 1 ==> ps[i] is Ok && #[trigger] stepped(ps[i]->Ok_0, s[i], e, ps[i + 1]) }
    spec fn ran(x: RadonTypes, s: Seq<RadonCall>, e: Env, o: Outcome) -> bool { exists|ps: Seq<Outcome>| #[trigger] path(x, s, e, ps, o) }
    // the script over every item: the outcomes up to the first error
    spec fn ran_all(v: Items, s: Seq<RadonCall>, e: Env, os: Seq<Outcome>) -> bool { os.len() <= v.len() && forall|i: int| 0 <= i < os.len() ==> #[trigger] ran(v[i], s, e, os[i]) }
    spec fn ok_before(os: Seq<Outcome>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] os[i]) is Ok }
    // packed calls
    spec fn is_call(r: Result<RadonCall, RadError>, c: RadonOpCodes, a: Args) -> bool { match r { Ok(x) => x.0 == c && (match x.1 { Some(b) => b@ == a, None => false }), Err(_) => false } }
    spec fn opcode_in(n: int) -> Option<RadonOpCodes> { RadonOpCodes::of(n as u8) }
    spec fn unpacked(v: Value, r: Result<RadonCall, RadError>) -> bool { match v {
        Value::Array(l) => if l@.len() == 0 { r == Err::<RadonCall, RadError>(RadError::NoOperatorInCompoundCall) } else { match u8::read(l@[0]) { None => r == Err::<RadonCall, RadError>(RadError::NotIntegerOperator), Some(n) => match RadonOpCodes::of(n) { None => r == Err::<RadonCall, RadError>(RadError::NotIntegerOperator), Some(c) => is_call(r, c, l@.skip(1)) } } },
        Value::Integer(n) => if n < 0 { r == Err::<RadonCall, RadError>(RadError::NotNaturalOperator) } else { match RadonOpCodes::of((n % 256) as u8) { None => r == Err::<RadonCall, RadError>(RadError::UnknownOperator), Some(c) => r == Ok::<RadonCall, RadError>((c, None)) } },
        _ => r == Err::<RadonCall, RadError>(RadError::NotIntegerOperator) } }
    spec fn calls_of(l: Args, s: Seq<RadonCall>, n: int) -> bool { s.len() == n <= l.len() && forall|i: int| 0 <= i < n ==> #[trigger] unpacked(l[i], Ok(s[i])) }
    spec fn unpacks(v: Value, r: Result<Seq<RadonCall>, RadError>) -> bool { match v { Value::Array(l) => match r { Ok(s) => calls_of(l@, s, l@.len() as int), Err(e) => exists|i: int, s: Seq<RadonCall>| #[trigger] calls_of(l@, s, i) && 0 <= i < l@.len() && unpacked(l@[i], Err(e)) }, _ => r == Err::<Seq<RadonCall>, RadError>(RadError::BadSubscriptFormat) } }
    spec fn seq_of(r: Result<Vec<RadonCall>, RadError>) -> Result<Seq<RadonCall>, RadError> { match r { Ok(s) => Ok(s@), Err(e) => Err(e) } }
    #[verifier::external_body] fn low_byte(n: i128) -> (r: u8) requires n >= 0 ensures r == n % 256 { n.to_le_bytes()[0] }
    #[verifier::external_body] fn split_head(a: &[Value]) -> (r: Option<(&Value, &[Value])>) ensures match r { None => a@.len() == 0, Some((h, t)) => a@.len() > 0 && *h == a@[0] && t@ == a@.skip(1) } { unimplemented!() }
    fn errorify(kind: RadError) -> (r: RadError) ensures r == kind { kind }
    """)
    u.result_fns.update(["unpack_radon_call", "unpack_subscript", "map", "arg_of", "from_value"])
    SCR = [(r"let \[raw_op_code, (?:_, )*_\] =\s*integer\.to_le_bytes\(\);", "let raw_op_code = low_byte(*integer);"), (r"array\s*\.split_first\(\)", "split_head(array)")]
    fn(sc, "unpack_compound_call", "unpack_compound_call", "(array@.len() == 0 ==> r == Err::<RadonCall, RadError>(RadError::NoOperatorInCompoundCall)) && (array@.len() > 0 ==> match u8::read(array@[0]) { None => r == Err::<RadonCall, RadError>(RadError::NotIntegerOperator), Some(n) => match RadonOpCodes::of(n) { None => r == Err::<RadonCall, RadError>(RadError::NotIntegerOperator), Some(c) => is_call(r, c, array@.skip(1)) } })", subst=SCR)
    fn(sc, "unpack_radon_call", "unpack_radon_call", "unpacked(*packed_call, r)", subst=SCR, desugar=D + ["res_map"])
    fn(sc, "unpack_subscript", "unpack_subscript", "unpacks(*value, seq_of(r))", loops={0: dict(inv="calls_of(value->Array_0@, subscript@, it0.index@ as int), value is Array, it0.seq().unref() == value->Array_0@, it0.seq().len() == value->Array_0@.len()", iter="it0", start="proof { let i = it0.index@ as int; assert(it0.seq().unref()[i] == *arg); }")})
    u.emit_impl(" RadonScriptExecutionSettings", [u.fn(sc, "RadonScriptExecutionSettings::" + m, ret="r", sig_subst=RC, spec="ensures " + e, subst=[(r"\.\.Self::enable_all\(\)", "..RadonScriptExecutionSettings::enable_all()")]) for m, e in (("enable_all", "r.partial_results, r.timing, r.breakpoints"), ("all_but_partial_results", "!r.partial_results, r.timing, r.breakpoints"), ("tailored_to_stage", "r.partial_results == stage is Retrieval"))])
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::intercept", trait="TypeLike", ret="r", sig_subst=[(r"Self::Error", "RadError")], subst=[(r"RadonError::try_from\(", "try_radon_error(")], desugar=["opt_unwrap_or_else"], spec="ensures r == as_value(result)")])

    for n in ("ReportContext", "RadonReport"):
        u.emit("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
    RP = [(r"\bRT::Error\b", "RadError"), (r"\bRT\b", "RadonTypes"), (r"<RadonTypes>", ""), (r"Vec<Result<RadonTypes", "Vec<Result<RadonTypes")]
    RPS = [(r"context\.clone\(\)", "cl(context)"), (r"running_time: context\.duration\(\),", ""), (r"RT::intercept", "RadonTypes::intercept"), (r"Vec<RT>", "Vec<RadonTypes>")]
    u.emit_impl(" RadonReport", [
        u.fn(rr, "RadonReport::from_result", ret="r", sig_subst=RP, subst=RPS, spec="ensures r.result == as_value(result), r.context == *context, r.partial_results is None"),
        u.fn(rr, "RadonReport::from_partial_results", ret="r", sig_subst=RP, subst=RPS + [(r"\(\*intercepted\s*\.last\(\)\s*\.expect\(\"[^\"]*\"\)\)\s*\.clone\(\)", "last_of(&intercepted)")], desugar=["map", "collect"], cty="Vec<RadonTypes>",
            loops={0: dict(before="let ghost v = partial_results@;", inv="it0.seq() == v, __c@ == v.take(it0.index@ as int).map_values(|o: Outcome| as_value(o))", start="proof { let i = it0.index@ as int; assert(v.take(i + 1) =~= v.take(i).push(v[i])); }", after="proof { assert(v.take(v.len() as int) =~= v); }")},
            spec="requires partial_results@.len() > 0 ensures r.result == as_value(partial_results@.last()), r.context == *context, r.partial_results is Some && r.partial_results->Some_0@ == partial_results@.map_values(|o: Outcome| as_value(o))")])
    u.emit("#[verifier::external_body] fn last_of(v: &Vec<RadonTypes>) -> (r: RadonTypes) requires v@.len() > 0 ensures r == v@.last() { unimplemented!() }")
    u.emit_impl(" ReportContext", [u.fn(rr, "ReportContext::" + m, subst=[(r"SystemTime::now\(\)", "now()")], spec="ensures same_world(*old(self), *final(self)), final(self).stage == old(self).stage") for m in ("start", "complete")])
    u.emit("#[verifier::external_body] fn now() -> Time { unimplemented!() }")
    u.emit("""
    // operate_in_context, with its name for what it does
    #[verifier::external_body] fn step(input: RadonTypes, call: &RadonCall, context: &mut ReportContext) -> (r: Outcome) requires clean(input) ensures stepped(input, *call, env(*old(context)), r), same_world(*old(context), *final(context)), r matches Ok(x) ==> clean(x) { unimplemented!() }
    """)
    fn(sc, "execute_radon_script", "execute_radon_script", "requires clean(input) ensures r is Ok, same_world(*old(context), *final(context)), exists|o: Outcome| #[trigger] ran(input, script@, env(*old(context)), o) && r->Ok_0.result == as_value(o) && (o matches Ok(x) ==> clean(x)) && (settings.partial_results ==> r->Ok_0.partial_results is Some && (o is Ok ==> r->Ok_0.partial_results->Some_0@.len() == script@.len() + 1))",
        desugar=["try_fold", "index"], cty="Outcome", sig_subst=RC, start="let ghost (x0, e, n, c0) = (input, env(*context), script@.len() as int, *context);", subst=[(r"input\.clone\(\)", "cl(&input)"), (r"partial_result\.clone\(\)", "cl(&partial_result)"), (r"operate_in_context\(", "step(")],
        before=[(r"let result = script", "let ghost mut ps: Seq<Outcome> = seq![Ok(x0)];")],
        loops={0: dict(inv_except_break="__i0 <= n, ps.len() == __i0 + 1, forall|i: int| 0 <= i < ps.len() - 1 ==> (#[trigger] ps[i]) is Ok", inv="n == script@.len(), e == env(*context), same_world(c0, *context), 1 <= ps.len() <= n + 1, ps[0] == Ok::<RadonTypes, RadError>(x0), ps.last() == __acc, __acc matches Ok(x) ==> clean(x), forall|i: int| 0 <= i < ps.len() - 1 ==> ps[i] is Ok && #[trigger] stepped(ps[i]->Ok_0, script@[i], e, ps[i + 1]), partial_results is Some == settings.partial_results, partial_results matches Some(p) ==> p@ == ps", dec="n - __i0", ensures="path(x0, script@, e, ps, __acc)",
            end="proof { ps = ps.push(__acc); }", after="proof { assert(path(x0, script@, e, ps, __acc)); assert(ran(x0, script@, e, __acc)); }")})

    # -- subscripts over arrays ------------------------------------------------------------------
    u.emit("""
    spec fn values_of(os: Seq<Outcome>) -> Items { os.map_values(|o: Outcome| match o { Ok(x) => x, Err(_) => arbitrary() }) }
    spec fn is_list(x: RadonTypes, v: Items) -> bool { x is Array && array_of(x->Array_0, v) }
    spec fn failed_with(o: Outcome, x: RadError) -> bool { match o { Err(y) => x == caught(y), Ok(_) => false } }
    // mapping: a list of the outcomes, or the first error
    spec fn mapping(v: Items, s: Seq<RadonCall>, e: Env, r: Outcome) -> bool { exists|os: Seq<Outcome>| #[trigger] ran_all(v, s, e, os) && match r {
        Ok(x) => os.len() == v.len() && ok_before(os, os.len() as int) && is_list(x, values_of(os)),
        Err(x) => os.len() > 0 && ok_before(os, os.len() - 1) && failed_with(os.last(), x) } }
    spec fn did_mapping(v: Items, a: Args, e: Env, r: Outcome) -> bool { if a.len() != 1 { r == Err::<RadonTypes, RadError>(RadError::WrongArguments) } else { (exists|x: RadError| #[trigger] unpacks(a[0], Err(x)) && r == Err::<RadonTypes, RadError>(RadError::Subscript)) || (exists|s: Seq<RadonCall>| #[trigger] unpacks(a[0], Ok(s)) && mapping(v, s, e, r)) } }
    // filtering: the items for which the outcome is true
    spec fn truth_of(o: Outcome) -> Option<bool> { match o { Ok(RadonTypes::Boolean(b)) => Some(b.value), _ => None } }
    spec fn kept(v: Items, os: Seq<Outcome>, n: int) -> Items decreases n { if n <= 0 { Seq::empty() } else { let q = kept(v, os, n - 1); if truth_of(os[n - 1]) == Some(true) { q.push(v[n - 1]) } else { q } } }
    spec fn all_truths(os: Seq<Outcome>, n: int) -> bool { forall|i: int| 0 <= i < n ==> truth_of(#[trigger] os[i]) is Some }
    spec fn filtering(v: Items, s: Seq<RadonCall>, e: Env, r: Outcome) -> bool { exists|os: Seq<Outcome>| #[trigger] ran_all(v, s, e, os) && match r {
        Ok(x) => os.len() == v.len() && all_truths(os, os.len() as int) && is_list(x, kept(v, os, os.len() as int)),
        Err(x) => os.len() > 0 && all_truths(os, os.len() - 1) && match os.last() { Err(y) => x == caught(y), Ok(_) => truth_of(os.last()) is None && x == RadError::ArrayFilterWrongSubscript } } }
    uninterp spec fn filtered(a: RadonArray, f: RadonFilters, x: Args, w: Option<ActiveWips>, r: Outcome) -> bool;
    uninterp spec fn reduced(a: RadonArray, f: RadonReducers, w: Option<ActiveWips>, r: Outcome) -> bool;
    spec fn did_filtering(a: RadonArray, x: Args, e: Env, r: Outcome) -> bool { if x.len() == 0 { r == Err::<RadonTypes, RadError>(RadError::WrongArguments) } else { match x[0] {
        Value::Array(_) => (exists|y: RadError| #[trigger] unpacks(x[0], Err(y)) && r == Err::<RadonTypes, RadError>(RadError::Subscript)) || (exists|s: Seq<RadonCall>| #[trigger] unpacks(x[0], Ok(s)) && filtering(a.value@, s, e, r)),
        Value::Integer(n) => if 0 <= n <= 255 && RadonFilters::of(n as u8) is Some { filtered(a, RadonFilters::of(n as u8)->Some_0, x.skip(1), e.wips, r) } else { r == Err::<RadonTypes, RadError>(RadError::UnknownFilter) },
        _ => r == Err::<RadonTypes, RadError>(RadError::WrongArguments) } } }
    spec fn did_reducing(a: RadonArray, x: Args, e: Env, r: Outcome) -> bool { if x.len() != 1 { r == Err::<RadonTypes, RadError>(RadError::WrongArguments) } else { match u8::read(x[0]) { None => r == Err::<RadonTypes, RadError>(RadError::WrongArguments), Some(n) => match RadonReducers::of(n) { None => r == Err::<RadonTypes, RadError>(RadError::WrongArguments), Some(f) => reduced(a, f, e.wips, r) } } } }
    // C01 decides what filters and reducers do
    #[verifier::external_body] fn filter_with(a: &RadonArray, f: RadonFilters, x: &[Value], context: &mut ReportContext) -> (r: Outcome) requires sound(*a) ensures filtered(*a, f, x@, old(context).active_wips, r), same_world(*old(context), *final(context)), clean(RadonTypes::Array(*a)) ==> (r matches Ok(x) ==> clean(x)) { unimplemented!() }
    #[verifier::external_body] fn reduce_with(a: &RadonArray, f: RadonReducers, context: &mut ReportContext) -> (r: Outcome) requires sound(*a) ensures reduced(*a, f, old(context).active_wips, r), same_world(*old(context), *final(context)), clean(RadonTypes::Array(*a)) ==> (r matches Ok(x) ==> clean(x)) { unimplemented!() }
    #[verifier::external_body] fn u8_try(n: i128) -> (r: Result<u8, Undecoded>) ensures match r { Ok(m) => m == n, Err(_) => !(0 <= n <= 255) } { unimplemented!() }
    #[verifier::external_body] fn split1(a: &[Value]) -> (r: (&[Value], &[Value])) requires a@.len() > 0 ensures r.0@ == a@.take(1), r.1@ == a@.skip(1) { unimplemented!() }
    // the partial results of a subscript: by operator, then by item
    spec fn complete(reports: Seq<RadonReport>, n: nat) -> bool { forall|i: int| 0 <= i < reports.len() ==> (#[trigger] reports[i]).partial_results is Some && reports[i].partial_results->Some_0@.len() == n }
    spec fn by_operator(reports: Seq<RadonReport>, n: nat, m: Seq<Vec<RadonTypes>>) -> bool { m.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] operator_row(reports, j, m[j]@) }
    spec fn operator_row(reports: Seq<RadonReport>, j: int, m: Items) -> bool { m.len() == reports.len() && forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == reports[i].partial_results->Some_0@[j] }
    #[verifier::external_body] fn indices(s: &[RadonCall]) -> (r: Vec<(usize, u8)>) ensures r@.len() == s@.len() + 1, forall|i: int| 0 <= i <= s@.len() ==> (#[trigger] r@[i]).0 == i { unimplemented!() }
    fn partial_at(r: &RadonReport, i: usize) -> (x: RadonTypes) requires r.partial_results is Some, i < r.partial_results->Some_0@.len() ensures x == r.partial_results->Some_0@[i as int] { match &r.partial_results { Some(p) => cl(&p[i]), None => crashed() } }
    """)
    AO = [(r"u8::try_from\(\*arg\)", "u8_try(*arg)"), (r"filters::filter\(", "filter_with("), (r"reducers::reduce\(", "reduce_with("), (r"args\.split_at\(1\)", "split1(args)"), (r"\breport\.result\.clone\(\)", "cl(&report.result)")]
    fn(oa, "reduce", "array_reduce", "requires sound(*input) ensures did_reducing(*input, args@, env(*old(context)), r), same_world(*old(context), *final(context)), clean(RadonTypes::Array(*input)) ==> (r matches Ok(x) ==> clean(x))", sig_subst=RC, subst=AO)
    u.no_inline.update(["partial_results_extract"])
    RUNS = "sub == args@[0], args@.len() > 0, unpacks(sub, Ok(subscript@)), c0 == *old(context), e == env(c0), it0.seq() == v, v == input.value@, e == env(*context), same_world(c0, *context), settings.partial_results == (c0.stage is Retrieval), reports@.len() == os.len(), ran_all(v, subscript@, e, os), os.len() == it0.index@, settings.partial_results ==> complete(reports@, subscript@.len() + 1), clean(RadonTypes::Array(*input)), forall|i: int| 0 <= i < os.len() ==> (#[trigger] os[i]) is Ok && clean(os[i]->Ok_0)"
    AFTER = [(r"let report =\s*execute_radon_script\([^;]*;", "proof { let o = choose|o: Outcome| #[trigger] ran(v[it0.index@ as int], subscript@, e, o) && report.result == as_value(o) && (o matches Ok(x) ==> clean(x)) && (settings.partial_results ==> report.partial_results is Some && (o is Ok ==> report.partial_results->Some_0@.len() == subscript@.len() + 1)); os = os.push(o); assert(ran_all(v, subscript@, e, os)); }")]
    START = "let ghost (v, e, c0, sub) = (input.value@, env(*context), *context, if args@.len() > 0 { args@[0] } else { Value::Null }); let ghost mut os: Seq<Outcome> = Seq::empty();"
    SUBERR = "requires sound(*input), clean(RadonTypes::Array(*input)) ensures %s, same_world(*old(context), *final(context)), r matches Ok(x) ==> clean(x)"
    fn(oa, "partial_results_extract", "partial_results_extract", "requires old(context).stage is Retrieval ==> complete(reports@, subscript@.len() + 1) ensures same_world(*old(context), *final(context)), match old(context).stage { Stage::Retrieval(m) => final(context).stage matches Stage::Retrieval(k) && k.subscript_partial_results@.len() == m.subscript_partial_results@.len() + 1 && k.subscript_partial_results@.drop_last() == m.subscript_partial_results@ && by_operator(reports@, subscript@.len() + 1, k.subscript_partial_results@.last()@), _ => final(context).stage == old(context).stage }", ret="", sig_subst=RC, desugar=["map", "collect", "index"], subst=[(r"\breport\.partial_results\s*\.as_ref\(\)\s*\.expect\(\"[^\"]*\"\)\s*\.get\(index\)\s*\.expect\(\"[^\"]*\"\)\s*\.clone\(\)", "partial_at(report, index)")],
        loops={0: dict(cty="Vec<Vec<RadonTypes>>", iter_of=["subscript.iter().chain(iter::once(&(RadonOpCodes::Fail, None))).enumerate()"], iter_as=lambda its, n, r: "indices(subscript)", inv="it0.seq().len() == subscript@.len() + 1, forall|i: int| 0 <= i <= subscript@.len() ==> (#[trigger] it0.seq()[i]).0 == i, complete(reports@, subscript@.len() + 1), __c@.len() == it0.index@, forall|j: int| 0 <= j < __c@.len() ==> #[trigger] operator_row(reports@, j, __c@[j]@)"),
            1: dict(cty="Vec<RadonTypes>", inv="__i1 <= reports@.len(), __c@.len() == __i1, index <= subscript@.len(), complete(reports@, subscript@.len() + 1), forall|i: int| 0 <= i < __c@.len() ==> #[trigger] __c@[i] == reports@[i].partial_results->Some_0@[index as int]", dec="reports@.len() - __i1")})
    fn(oa, "map", "array_map", SUBERR % "did_mapping(input.value@, args@, env(*old(context)), r)", sig_subst=RC, subst=AO, start=START, after=AFTER, before=[(r"return Err\(error\.clone", "proof { assert(failed_with(os.last(), error.inner)); assert(mapping(v, subscript@, e, Err(error.inner))); }")], loops={0: dict(inv=RUNS + ", args@.len() == 1, results@ == values_of(os)", end="proof { assert(results@ =~= values_of(os)); }")})
    fn(oa, "filter", "array_filter", SUBERR % "did_filtering(*input, args@, env(*old(context)), r)", sig_subst=RC, subst=AO, start=START, after=AFTER, before=[(r"return Err\(error\.clone", "proof { assert(failed_with(os.last(), error.inner)); assert(filtering(v, subscript@, e, Err(error.inner))); }"), (r"return Err\(RadError::ArrayFilterWrongSubscript", "proof { assert(truth_of(os.last()) is None); assert(filtering(v, subscript@, e, Err(RadError::ArrayFilterWrongSubscript))); }")],
        loops={0: dict(inv=RUNS + ", all_truths(os, os.len() as int), results@ == kept(v, os, os.len() as int), forall|i: int| 0 <= i < results@.len() ==> clean(#[trigger] results@[i])", start="let ghost os0 = os;", end="proof { assert(os.take(os0.len() as int) =~= os0); same_kept(v, os0, os, os0.len() as int); }")})
    u.emit("""
    proof fn same_kept(v: Items, a: Seq<Outcome>, b: Seq<Outcome>, n: int) requires 0 <= n <= a.len() <= b.len(), b.take(a.len() as int) == a ensures kept(v, a, n) == kept(v, b, n) decreases n
    { PROBE(same_kept); if n > 0 { same_kept(v, a, b, n - 1); assert(b.take(a.len() as int)[n - 1] == b[n - 1]); } }
    """)

    # -- sorting ---------------------------------------------------------------------------------
    u.emit("""
    // the order of texts and integers
    uninterp spec fn text_before(a: String, b: String) -> bool;
    spec fn key_before(a: RadonTypes, b: RadonTypes) -> bool { match (a, b) { (RadonTypes::String(x), RadonTypes::String(y)) => text_before(x.value, y.value), (RadonTypes::Integer(x), RadonTypes::Integer(y)) => x.value < y.value, _ => false } }
    spec fn permutes(p: Seq<int>, n: nat) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j] }
    // in order of the keys; items with equal keys stay in the order they were in
    spec fn in_order(k: Items, p: Seq<int>, up: bool) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> { let (a, b) = (k[#[trigger] p[i]], k[#[trigger] p[j]]); !key_before(if up { b } else { a }, if up { a } else { b }) && (key_before(a, b) || key_before(b, a) || p[i] < p[j]) } }
    spec fn rearranged(v: Items, p: Seq<int>) -> Items { Seq::new(p.len(), |i: int| v[p[i]]) }
    spec fn sorting(v: Items, k: Items, p: Seq<int>, up: bool, r: Items) -> bool { permutes(p, v.len()) && in_order(k, p, up) && r == rearranged(v, p) }
    spec fn all_of(k: Items, t: RadonTypesDiscriminant) -> bool { forall|i: int| 0 <= i < k.len() ==> kind(#[trigger] k[i]) == t }
    spec fn sorted_by(a: RadonArray, k: Items, r: Outcome) -> bool {
        if a.value@.len() == 0 { r == Ok::<RadonTypes, RadError>(RadonTypes::Array(a)) } else if !homogeneous(a.value@) { r == Err::<RadonTypes, RadError>(RadError::UnsupportedOpNonHomogeneous) }
        else if (k[0] is String || k[0] is Integer) && all_of(k, kind(k[0])) { exists|p: Seq<int>, o: Items| #[trigger] sorting(a.value@, k, p, true, o) && r is Ok && is_list(r->Ok_0, o) }
        else { r == Err::<RadonTypes, RadError>(RadError::UnsupportedSortOp) } }
    spec fn did_sorting(a: RadonArray, x: Args, e: Env, r: Outcome) -> bool { if x.len() > 1 { r == Err::<RadonTypes, RadError>(RadError::WrongArguments) } else { exists|y: Args, m: Outcome| #[trigger] did_mapping(a.value@, y, e, m) && sort_args(x, y) && match m { Err(f) => r == Err::<RadonTypes, RadError>(f), Ok(z) => z is Array && sorted_by(a, z->Array_0.value@, r) } } }
    // without an argument, items are their own keys
    spec fn sort_args(x: Args, y: Args) -> bool { if x.len() == 0 { y.len() == 1 && y[0] is Array && y[0]->Array_0@.len() == 0 } else { y == x } }
    #[verifier::external_body] fn slice_of(a: &[Value; 1]) -> (r: &[Value]) ensures r@ == a@ { a }
    #[verifier::external_body] fn zipped<'a>(a: &'a Vec<RadonTypes>, b: &'a Vec<RadonTypes>) -> (r: Vec<(&'a RadonTypes, &'a RadonTypes)>) ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i] { unimplemented!() }
    spec fn lefts<'a>(t: Seq<(&'a RadonTypes, &'a RadonTypes)>) -> Items { t.map_values(|x: (&'a RadonTypes, &'a RadonTypes)| *x.0) }
    spec fn rights<'a>(t: Seq<(&'a RadonTypes, &'a RadonTypes)>) -> Items { t.map_values(|x: (&'a RadonTypes, &'a RadonTypes)| *x.1) }
    pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
    // [T]::sort_by, a stable sort, over the keys of a kind
    #[verifier::external_body] fn sort_texts<'a>(t: &mut Vec<(&'a RadonTypes, &'a RadonTypes)>, up: bool) requires all_of(rights(old(t)@), RadonTypesDiscriminant::String) ensures exists|p: Seq<int>| #[trigger] sorting(lefts(old(t)@), rights(old(t)@), p, up, lefts(final(t)@)) { unimplemented!() }
    #[verifier::external_body] fn sort_integers<'a>(t: &mut Vec<(&'a RadonTypes, &'a RadonTypes)>, up: bool) requires all_of(rights(old(t)@), RadonTypesDiscriminant::Integer) ensures exists|p: Seq<int>| #[trigger] sorting(lefts(old(t)@), rights(old(t)@), p, up, lefts(final(t)@)) { unimplemented!() }
    """)
    SORT = [(r"tuple_array\.sort_by\(\|a, b\| match \(a\.1, b\.1\) \{\s*\(RadonTypes::(String|Integer)\((\w+)\), RadonTypes::\1\((\w+)\)\) => (?:(\2)\.cmp\(\3\)|\3\.cmp\(\2\)),?\s*_ => (?:unreachable|rt_panic)[!()]+,?\s*\}\)", lambda m: "%s(&mut tuple_array, %s)" % ("sort_texts" if m.group(1) == "String" else "sort_integers", "true" if m.group(4) else "false")),
        (r"&empty_array", "slice_of(&empty_array)"), (r"\*super_inner\.clone\(\)", "cl(&**super_inner)"), (r"error\.inner\(\)\.clone\(\)", "cl(error.inner())"), (r"\bmap\(input", "array_map(input"), (r"\binput\.clone\(\)", "cl(input)"), (r"\ba\.clone\(\)", "cl(a)")]
    fn(oa, "sort", "array_sort", SUBERR % "did_sorting(*input, args@, env(*old(context)), r)", sig_subst=RC, subst=SORT, desugar=D + ["map", "collect"], start="let ghost (e, x0) = (env(*context), args@);",
        after=[(r"let map_args = [^;]*;", "let ghost y = map_args@; proof { assert(sort_args(x0, y)); }"), (r"let mapped_array_value = [^;]*;", "let ghost (v, k) = (input_value@, mapped_array_value@); proof { assert(did_mapping(input.value@, y, e, Ok(RadonTypes::Array(mapped_array)))); }")],
        before=[(r"match &mapped_array_value", "let ghost t0 = tuple_array@; proof { assert(lefts(t0) =~= v); assert(rights(t0) =~= k); assert(k[0] is String ==> homogeneous(k) == all_of(k, RadonTypesDiscriminant::String)); assert(k[0] is Integer ==> homogeneous(k) == all_of(k, RadonTypesDiscriminant::Integer)); }"),
            (r"let result: Vec", "let ghost p = choose|p: Seq<int>| #[trigger] sorting(v, k, p, true, lefts(tuple_array@));")],
        loops={0: dict(cty="Vec<(&RadonTypes, &RadonTypes)>", iter_of=["input_value.iter().zip(mapped_array_value.iter())"], iter_as=lambda its, n, r: "zipped(&input_value, &mapped_array_value)", inv="it0.seq().len() == v.len(), v.len() == k.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] it0.seq()[i]).0 == v[i] && *it0.seq()[i].1 == k[i], __c@ == it0.seq().take(it0.index@ as int)"),
            1: dict(cty="Vec<RadonTypes>", before="let ghost w = lefts(tuple_array@);", inv="it1.seq().len() == w.len(), w == lefts(it1.seq()), __c@ == w.take(it1.index@ as int)", after="proof { assert(w.take(w.len() as int) =~= w); assert(sorting(v, k, p, true, w)); }")})
    # -- columns ---------------------------------------------------------------------------------
    u.emit("""
    spec fn rows(v: Items, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] v[i]) is Array && v[i]->Array_0.value@.len() == v[0]->Array_0.value@.len() }
    spec fn column(v: Items, j: int, c: Items) -> bool { c.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] c[i] == v[i]->Array_0.value@[j] }
    spec fn columns(v: Items, w: nat, c: Items) -> bool { c.len() == w && forall|j: int| 0 <= j < w ==> (#[trigger] c[j]) is Array && sound(c[j]->Array_0) && column(v, j, c[j]->Array_0.value@) }
    spec fn width(v: Items) -> nat { if v.len() > 0 { v[0]->Array_0.value@.len() } else { 0 } }
    spec fn transposed(v: Items, r: Result<RadonArray, RadError>) -> bool { match r { Ok(a) => rows(v, v.len() as int) && sound(a) && columns(v, width(v), a.value@),
        Err(x) => exists|i: int| 0 <= i < v.len() && rows(v, i) && (if (#[trigger] v[i]) is Array { i > 0 && v[i]->Array_0.value@.len() != width(v) && x == RadError::DifferentSizeArrays } else { x == RadError::MismatchingTypes }) } }
    """)
    u.emit("#[verifier::external_body] fn numbered<T>(v: Vec<T>) -> (r: Vec<(usize, T)>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1 == v@[k] { unimplemented!() }")
    COLS = "forall|j: int| 0 <= j < v@.len() ==> #[trigger] column(w.take(%s), j, v@[j]@)"
    fn(oa, "transpose", "transpose", "transposed(input.value@, r)", start="let ghost w = input.value@;", subst=[(r"let mut v = vec!\[\];", "let mut v: Vec<Vec<RadonTypes>> = vec![];"), (r"let mut prev_len = None;", "let mut prev_len: Option<usize> = None;")], desugar=D + ["map", "collect"],
        loops={0: dict(inv="it0.seq() == w, w == input.value@, rows(w, it0.index@ as int), prev_len is Some == (it0.index@ > 0), prev_len is Some ==> prev_len->Some_0 == width(w), v@.len() == (if it0.index@ > 0 { width(w) } else { 0 }), " + COLS % "it0.index@ as int"),
            1: dict(before="let ghost s = rad_value.value@;", inv="it1.seq() == s, v@.len() == it1.index@, forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j]@ == seq![s[j]]", end="proof { }", after="proof { assert(w.take(1)[0] == w[0]); assert forall|j: int| 0 <= j < v@.len() implies #[trigger] column(w.take(1), j, v@[j]@) by {} }"),
            2: dict(iter_of=["rad_value.value().into_iter().enumerate()"], iter_as=lambda its, n, r: "numbered(rad_value.value())", before="let ghost (s, v0, n) = (rad_value.value@, v@, it0.index@ as int);", inv="it2.seq().len() == s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] it2.seq()[k]).0 == k && it2.seq()[k].1 == s[k], s.len() == v0.len(), s == w[n]->Array_0.value@, 0 <= n < w.len(), v@.len() == v0.len(), forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j]@ == (if j < it2.index@ { v0[j]@.push(s[j]) } else { v0[j]@ })", after="proof { assert forall|j: int| 0 <= j < v@.len() implies #[trigger] column(w.take(n + 1), j, v@[j]@) by { assert(column(w.take(n), j, v0[j]@)); let t = w.take(n + 1); assert forall|i: int| 0 <= i < t.len() implies #[trigger] v@[j]@[i] == t[i]->Array_0.value@[j] by { if i < n { assert(v0[j]@[i] == w.take(n)[i]->Array_0.value@[j]); } } } }"),
            3: dict(cty="Vec<RadonTypes>", before="let ghost c = v@; proof { assert(w.take(w.len() as int) =~= w); }", inv="it3.seq() == c, __c@.len() == it3.index@, forall|j: int| 0 <= j < __c@.len() ==> (#[trigger] __c@[j]) is Array && array_of(__c@[j]->Array_0, c[j]@)", after="proof { assert forall|j: int| 0 <= j < c.len() implies (#[trigger] __c@[j]) is Array && sound(__c@[j]->Array_0) && column(w, j, __c@[j]->Array_0.value@) by { assert(column(w.take(w.len() as int), j, c[j]@)); } }")})
    # -- arrays, and every kind ------------------------------------------------------------------
    for m, d in (("map", "did_mapping(input.value@"), ("filter", "did_filtering(*input"), ("sort", "did_sorting(*input"), ("reduce", "did_reducing(*input")):
        SPECS["array_" + m] = d + ", args@, e, r)"
    TABLE[A_] += [(m.capitalize(), "S", "array_" + m, T_) for m in ("filter", "map", "reduce", "sort")]
    u.emit("spec fn did_array(x: RadonArray, c: RadonCall, e: Env, r: Outcome) -> bool { %s else { r == Err::<RadonTypes, RadError>(RadError::UnsupportedOperator) } }" % outcome(A_, "array"))
    u.result_fns.update(["filter", "map", "sort", "reduce"])
    ENS = "requires clean(%s) ensures %s(*self, *call, %s, r), r matches Ok(x) ==> clean(x)"
    u.emit_impl(" RadonArray", [u.fn(ta, "RadonArray::operate", trait="Operable", ret="r", subst=DISP, spec=ENS % ("RadonTypes::Array(*self)", "did_array", "default_env()")),
        u.fn(ta, "RadonArray::operate_in_context", trait="Operable", ret="r", desugar=D + ["res_map"], subst=DISP, sig_subst=RC, spec=ENS % ("RadonTypes::Array(*self)", "did_array", "env(*old(context))") + ", same_world(*old(context), *final(context))")])
    u.emit("// what one call makes of a value\nspec fn did(x: RadonTypes, c: RadonCall, e: Env, r: Outcome) -> bool { match x { %s, RadonTypes::RadonError(_) => false } }" % ", ".join("RadonTypes::%s(y) => did_%s(y, c, e, r)" % (v, v.lower()) for v in KN.values()))
    u.emit_impl(" RadonTypes", [u.fn(tt, "RadonTypes::as_operable", name="dispatched" + sx, ret="r", sig_subst=[(r"\(&self\)", "(&self, call: &RadonCall%s)" % ar), (r"&dyn Operable", "Outcome")], subst=[(r"=> inner,", "=> inner.operate%s(call%s)," % (sx, ca))], spec=ENS % ("*self", "did", en) + fr)
        for sx, ar, ca, en, fr in (("", "", "", "default_env()", ""), ("_in_context", ", context: &mut ReportContext", ", context", "env(*old(context))", ", same_world(*old(context), *final(context))"))])
    AS = [(r"input\.as_operable\(\)\.operate", "input.dispatched")]
    fn(op, "operate", "operate", "requires clean(input) ensures did(input, *call, default_env(), r), r matches Ok(x) ==> clean(x)", subst=AS)
    fn(op, "operate_in_context", "operate_in_context", "requires clean(input) ensures did(input, *call, env(*old(context)), r), r matches Ok(x) ==> clean(x), same_world(*old(context), *final(context))", subst=AS, sig_subst=RC)
    u.close()


def build(u):
    return """
use witnet_rad::{*, error::RadError, operators::*, script::*, types::{*, array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString}};
use witnet_data_structures::{chain::{*, tapi::*}, proto::versioning::ProtocolVersion, radon_report::*, radon_error::*};
"""


harness = dict(kind="crate", name="o01", build=build, main="o01.rs", setup=lambda w: radlib.crates(w, ["run_tally_report", "run_tally_with_context_report"]), edition="2024", lock=False)
