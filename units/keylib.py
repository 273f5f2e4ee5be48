"""Extended keys: crypto/src/key.rs under contract."""
KEY = "crypto/src/key.rs"
ASSUMPTIONS = [
    "bech32 (crate): decode(encode(hrp, to_base32(bytes))) gives back hrp and bytes; encode accepts the fixed prefix",
    "secp256k1 (C library) and HMAC-SHA512 are uninterpreted functions: SecretKey::from_slice accepts exactly the 32-byte strings for which sk_ok holds, PublicKey::serialize, add_tweak and HMAC are functions of their inputs",
    "io::Cursor and <&mut [u8] as Write> are replaced by a cursor and a slice writer written out here and verified, with the documented semantics",
    "Protected is a byte vector (its zeroing on drop is not observable here)",
    "texts of error messages are not part of the property"]

ENV = r"""
    use vstd::slice::*;
    use vstd::array::*;
    type Bs = Seq<u8>;
    uninterp spec fn sk_ok(b: Seq<u8>) -> bool;                               // 1 <= value < curve order
    uninterp spec fn pub33(b: Seq<u8>) -> Seq<u8>;                            // compressed public key
    uninterp spec fn mac512(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;          // HMAC-SHA512
    uninterp spec fn add_mod(a: Seq<u8>, b: Seq<u8>) -> Option<Seq<u8>>;      // sum of scalars, None when zero
    uninterp spec fn b32_dec(s: Seq<char>) -> Option<(Seq<char>, Seq<u8>)>;   // bech32 with its checksum: prefix and 5-bit groups
    uninterp spec fn b32_enc(hrp: Seq<char>, d: Seq<u8>) -> Seq<char>;
    uninterp spec fn to5(b: Seq<u8>) -> Seq<u8>;
    uninterp spec fn from5(b: Seq<u8>) -> Option<Seq<u8>>;
    #[verifier::external_body]
    proof fn bech32_inverse(hrp: Seq<char>, b: Seq<u8>)
        ensures b32_dec(b32_enc(hrp, to5(b))) == Some((hrp, to5(b))), from5(to5(b)) == Some(b) {}
    #[verifier::external_body]
    proof fn mac_len(k: Seq<u8>, d: Seq<u8>) ensures mac512(k, d).len() == 64 {}

    #[derive(Debug)] enum KeyError { Serialization(String), Deserialization(String) }
    #[derive(Debug)] enum MasterKeyGenError { InvalidKeyLength, InvalidSeedLength }
    #[derive(Debug)] struct Secp256k1Error {}
    #[derive(Debug)] enum KeyDerivationError { InvalidKeyLength, InvalidSeedLength, SecretLargerThanCurveOrder, Secp256k1Error(Secp256k1Error) }

    #[verifier::external_body]
    fn to_vec8(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
    trait ToBytes { spec fn bs(&self) -> Seq<u8>; fn to_bytes(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.bs(); }
    impl ToBytes for Vec<u8> { spec fn bs(&self) -> Seq<u8> { self@ } fn to_bytes(self) -> (r: Vec<u8>) { self } }
    impl<'a> ToBytes for &'a [u8] { spec fn bs(&self) -> Seq<u8> { self@ } fn to_bytes(self) -> (r: Vec<u8>) { to_vec8(self) } }
    impl<'a> ToBytes for &'a [u8; 32] { spec fn bs(&self) -> Seq<u8> { self@ } fn to_bytes(self) -> (r: Vec<u8>) { to_vec8(array_as_slice(self)) } }

    #[derive(Debug)] struct Protected(Vec<u8>);
    impl Protected {
        spec fn view(&self) -> Seq<u8> { self.0@ }
        fn new<T: ToBytes>(t: T) -> (r: Protected) ensures r@ == t.bs() { Protected(t.to_bytes()) }
        fn from<T: ToBytes>(t: T) -> (r: Protected) ensures r@ == t.bs() { Protected(t.to_bytes()) }
        fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { self.0.as_slice() }
        fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { self.0.as_slice() }
        fn clone(&self) -> (r: Protected) ensures r@ == self@ { Protected(to_vec8(self.0.as_slice())) }
    }
    #[derive(Debug, Clone, Copy)] struct SecretKey { b: [u8; 32] }
    type SK = SecretKey;
    impl SecretKey {
        spec fn view(&self) -> Seq<u8> { self.b@ }
        #[verifier::external_body]
        fn from_slice(s: &[u8]) -> (r: Result<SecretKey, Secp256k1Error>)
            ensures r is Ok <==> s@.len() == 32 && sk_ok(s@), r is Ok ==> r->Ok_0@ == s@ { unimplemented!() }
        fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { array_as_slice(&self.b) }
        fn secret_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { self.b }
        #[verifier::external_body]
        fn add_tweak(self, t: &Scalar) -> (r: Result<SecretKey, Secp256k1Error>)
            ensures r is Ok <==> add_mod(self@, t.b@) is Some, r is Ok ==> r->Ok_0@ == add_mod(self@, t.b@).unwrap() && r->Ok_0@.len() == 32 && sk_ok(r->Ok_0@) { unimplemented!() }
    }
    struct Scalar { b: [u8; 32] }
    impl Scalar {
        #[verifier::external_body]
        fn from_be_bytes(b: [u8; 32]) -> (r: Result<Scalar, Secp256k1Error>) ensures sk_ok(b@) ==> r is Ok, r is Ok ==> r->Ok_0.b == b { unimplemented!() }
    }
    #[derive(Debug, Clone, Copy)] struct PublicKey { b: [u8; 33] }
    type PK = PublicKey;
    impl PublicKey {
        #[verifier::external_body]
        fn from_secret_key_global(s: &SecretKey) -> (r: PublicKey) ensures r.b@ == pub33(s@) { unimplemented!() }
        fn serialize(&self) -> (r: [u8; 33]) ensures r@ == self.b@ { self.b }
    }
    struct Hmac { key: Ghost<Seq<u8>>, data: Ghost<Seq<u8>> }
    impl Hmac {
        fn new_varkey(k: &[u8]) -> (r: Result<Hmac, ()>) ensures r is Ok, r->Ok_0.key@ == k@, r->Ok_0.data@ == Seq::<u8>::empty()
        { Ok(Hmac { key: Ghost(k@), data: Ghost(Seq::empty()) }) }
        fn input(&mut self, d: &[u8]) ensures final(self).key == old(self).key, final(self).data@ == old(self).data@ + d@
        { self.data = Ghost(self.data@ + d@); }
        #[verifier::external_body]
        fn finish(self) -> (r: Vec<u8>) ensures r@ == mac512(self.key@, self.data@), r@.len() == 64 { unimplemented!() }
    }
    // big-endian words
    spec fn be4(s: Seq<u8>) -> int { ((s[0] as int * 256 + s[1]) * 256 + s[2]) * 256 + s[3] }
    proof fn be4_bound(s: Seq<u8>) requires s.len() == 4 ensures 0 <= be4(s) < 0x1_0000_0000 {}
    proof fn be4_inj(s: Seq<u8>, t: Seq<u8>) requires s.len() == 4, t.len() == 4, be4(s) == be4(t) ensures s =~= t {}
    trait BeBytes { spec fn num(&self) -> int; fn be_bytes(&self) -> (r: [u8; 4]) ensures be4(r@) == self.num(); }
    impl BeBytes for u32 { spec fn num(&self) -> int { *self as int }
        #[verifier::external_body] fn be_bytes(&self) -> (r: [u8; 4]) { self.to_be_bytes() } }
    spec fn flat(p: Seq<u32>) -> Seq<u8> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + word(p.last()) } }
    spec fn word(x: u32) -> Seq<u8> { choose|s: Seq<u8>| s.len() == 4 && be4(s) == x }
    proof fn word_is(x: u32, s: Seq<u8>) requires s.len() == 4, be4(s) == x ensures word(x) == s { be4_inj(word(x), s); }
    spec fn unflat(b: Seq<u8>, n: nat) -> Seq<u32> { Seq::new(n, |i: int| be4(b.subrange(4 * i, 4 * i + 4)) as u32) }
    proof fn flat_len(p: Seq<u32>) ensures flat(p).len() == 4 * p.len() decreases p.len()
    { if p.len() > 0 { flat_len(p.drop_last()); word_exists(p.last()); } }
    proof fn word_exists(x: u32) ensures word(x).len() == 4, be4(word(x)) == x
    {
        let a = (x / 16777216) as u8; let b = (x / 65536 % 256) as u8; let c = (x / 256 % 256) as u8; let d = (x % 256) as u8;
        let s = seq![a, b, c, d];
        assert(x / 65536 == (x / 65536) / 256 * 256 + x / 65536 % 256 && (x / 65536) / 256 == x / 16777216) by (bit_vector);
        assert(x / 256 == (x / 256) / 256 * 256 + x / 256 % 256 && (x / 256) / 256 == x / 65536) by (bit_vector);
        assert(x == x / 256 * 256 + x % 256);
        assert(s.len() == 4 && be4(s) == x);
    }
    proof fn flat_at(p: Seq<u32>, i: int) requires 0 <= i < p.len() ensures flat(p).len() == 4 * p.len(), be4(flat(p).subrange(4 * i, 4 * i + 4)) == p[i] decreases p.len()
    {
        flat_len(p); flat_len(p.drop_last()); word_exists(p.last());
        if i == p.len() - 1 { assert(flat(p).subrange(4 * i, 4 * i + 4) =~= word(p.last())); }
        else { flat_at(p.drop_last(), i); assert(flat(p).subrange(4 * i, 4 * i + 4) =~= flat(p.drop_last()).subrange(4 * i, 4 * i + 4)); }
    }
    proof fn unflat_flat(p: Seq<u32>) ensures unflat(flat(p), p.len()) == p, flat(p).len() == 4 * p.len()
    {
        flat_len(p);
        assert forall|i: int| 0 <= i < p.len() implies unflat(flat(p), p.len())[i] == p[i] by { flat_at(p, i); }
        assert(unflat(flat(p), p.len()) =~= p);
    }
    spec fn pview(p: Seq<KeyPathIndex>) -> Seq<u32> { p.map_values(|i: KeyPathIndex| i.0) }
"""

# io replacements, verified
IO = r"""
    #[derive(Debug)] struct Bech32Error {}
        #[verifier::external_body]
        fn bech32_decode(s: &str) -> (r: Result<(String, Vec<u8>), Bech32Error>)
            ensures r is Ok <==> b32_dec(s@) is Some, r is Ok ==> r->Ok_0.0@ == b32_dec(s@).unwrap().0 && r->Ok_0.1@ == b32_dec(s@).unwrap().1 { unimplemented!() }
        #[verifier::external_body]
        fn bech32_encode(hrp: &str, d: Vec<u8>) -> (r: Result<String, Bech32Error>) ensures hrp@ == "xprv"@ ==> r is Ok, r is Ok ==> r->Ok_0@ == b32_enc(hrp@, d@) { unimplemented!() }
    #[verifier::external_body]
    fn from_base32(d: &Vec<u8>) -> (r: Result<Vec<u8>, Bech32Error>) ensures r is Ok <==> from5(d@) is Some, r is Ok ==> r->Ok_0@ == from5(d@).unwrap() { unimplemented!() }
    #[verifier::external_body]
    fn to_base32(d: &[u8]) -> (r: Vec<u8>) ensures r@ == to5(d@) { unimplemented!() }
    #[verifier::external_body]
    fn str_ne(a: &str, b: &str) -> (r: bool) ensures r == (a@ != b@) { a != b }

    struct Cursor { buf: Vec<u8>, pos: usize }
    impl Cursor {
        spec fn rest(&self) -> Seq<u8> { self.buf@.skip(self.pos as int) }
        spec fn ok(&self) -> bool { self.pos <= self.buf@.len() }
        fn new(b: Vec<u8>) -> (r: Cursor) ensures r.ok(), r.rest() == b@ { proof { assert(b@.skip(0) =~= b@); } Cursor { buf: b, pos: 0 } }
        fn read_u8(&mut self) -> (r: Result<u8, KeyError>) requires old(self).ok()
            ensures final(self).ok(), r is Ok <==> old(self).rest().len() >= 1, r is Ok ==> r->Ok_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1)
        {
            if self.pos < self.buf.len() { let x = self.buf[self.pos]; self.pos = self.pos + 1; proof { assert(self.rest() =~= old(self).rest().skip(1)); } Ok(x) } else { Err(KeyError::Serialization(rt_string())) }
        }
        fn read_exact(&mut self, out: &mut Protected) -> (r: Result<(), KeyError>) requires old(self).ok()
            ensures final(self).ok(), r is Ok <==> old(self).rest().len() >= old(out)@.len(),
                r is Ok ==> final(out)@ == old(self).rest().take(old(out)@.len() as int) && final(self).rest() == old(self).rest().skip(old(out)@.len() as int)
        {
            let n = out.0.len();
            if self.buf.len() - self.pos < n { return Err(KeyError::Serialization(rt_string())); }
            let mut i: usize = 0; let mut v: Vec<u8> = Vec::new(); let bl = self.buf.len();
            while i < n invariant i <= n, bl == self.buf@.len(), n == old(out)@.len(), v@.len() == i, self.ok(), self.buf == old(self).buf, self.pos == old(self).pos, self.buf@.len() - self.pos >= n,
                forall|j: int| 0 <= j < i ==> v@[j] == self.buf@[self.pos + j] decreases n - i
            { v.push(self.buf[self.pos + i]); i = i + 1; }
            self.pos = self.pos + n;
            out.0 = v;
            proof { assert(out@ =~= old(self).rest().take(n as int)); assert(self.rest() =~= old(self).rest().skip(n as int)); }
            Ok(())
        }
        fn read_u32_into(&mut self, out: &mut Vec<u32>) -> (r: Result<(), KeyError>) requires old(self).ok(), old(out)@.len() < 0x1000_0000
            ensures final(self).ok(), r is Ok <==> old(self).rest().len() >= 4 * old(out)@.len(),
                r is Ok ==> final(out)@ == unflat(old(self).rest(), old(out)@.len()) && final(self).rest() == old(self).rest().skip(4 * old(out)@.len() as int)
        {
            let n = out.len();
            if self.buf.len() - self.pos < 4 * n { return Err(KeyError::Serialization(rt_string())); }
            let mut i: usize = 0; let mut v: Vec<u32> = Vec::new(); let bl = self.buf.len();
            while i < n invariant i <= n, bl == self.buf@.len(), n == old(out)@.len(), n < 0x1000_0000, v@.len() == i, self.ok(), self.buf == old(self).buf, self.pos == old(self).pos, self.buf@.len() - self.pos >= 4 * n,
                forall|j: int| 0 <= j < i ==> v@[j] == be4(self.rest().subrange(4 * j, 4 * j + 4)) as u32 decreases n - i
            {
                let p = self.pos + 4 * i;
                let (a, b, c, d) = (self.buf[p], self.buf[p + 1], self.buf[p + 2], self.buf[p + 3]);
                proof { let s = self.rest().subrange(4 * i as int, 4 * i as int + 4); assert(s[0] == a && s[1] == b && s[2] == c && s[3] == d); be4_bound(s); }
                v.push(((a as u32 * 256 + b as u32) * 256 + c as u32) * 256 + d as u32);
                i = i + 1;
            }
            proof { assert(v@ =~= unflat(old(self).rest(), n as nat)); }
            self.pos = self.pos + 4 * n;
            proof { assert(self.rest() =~= old(self).rest().skip(4 * n)); }
            *out = v;
            Ok(())
        }
    }
    // <&mut [u8] as Write>::write_all: copies to the front of the slice and moves past it, an error when it does not fit
    struct Writer<'a> { buf: &'a mut Protected, pos: usize }
    fn write_all(buf: &mut Protected, pos: &mut usize, d: &[u8]) -> (r: Result<(), KeyError>)
        requires *old(pos) <= old(buf)@.len()
        ensures *final(pos) <= final(buf)@.len(), final(buf)@.len() == old(buf)@.len(),
            r is Ok <==> old(buf)@.len() - *old(pos) >= d@.len(),
            r is Ok ==> *final(pos) == *old(pos) + d@.len() && final(buf)@.take(*final(pos) as int) == old(buf)@.take(*old(pos) as int) + d@
    {
        if buf.0.len() - *pos < d.len() { return Err(KeyError::Serialization(rt_string())); }
        let mut i: usize = 0; let bl = buf.0.len();
        while i < d.len() invariant i <= d@.len(), bl == buf@.len(), buf@.len() == old(buf)@.len(), *pos == *old(pos), *pos + d@.len() <= buf@.len(),
            buf@.take(*pos + i) == old(buf)@.take(*pos as int) + d@.take(i as int) decreases d@.len() - i
        {
            buf.0.set(*pos + i, d[i]);
            i = i + 1;
            proof { assert(buf@.take(*pos + i) =~= (old(buf)@.take(*pos as int) + d@.take(i - 1)).push(d@[i - 1])); assert(d@.take(i as int) =~= d@.take(i - 1).push(d@[i - 1]));
                assert(buf@.take(*pos + i) =~= old(buf)@.take(*pos as int) + d@.take(i as int)); }
        }
        *pos = *pos + d.len();
        proof { assert(d@.take(d@.len() as int) =~= d@); }
        Ok(())
    }
"""


def types(u):
    s = u.src(KEY)
    u.emit(ENV)
    u.emit_raw(u.struct_text(s, "KeyPathIndex", derive="Debug"))
    u.emit_raw(u.struct_text(s, "KeyPath", derive="Debug"))
    u.emit_raw(u.struct_text(s, "ExtendedSK", derive="Debug"))
    u.emit_raw(u.struct_text(s, "ExtendedPK", derive="Debug"))
    u.emit("""
    impl KeyPath { spec fn view(&self) -> Seq<u32> { pview(self.path@) } }
    impl ExtendedSK {
        // what every constructor of SecretKey guarantees, and the chain code is 32 bytes
        spec fn wf(&self) -> bool { self.secret_key@.len() == 32 && sk_ok(self.secret_key@) && self.chain_code@.len() == 32 }
        fn clone(&self) -> (r: ExtendedSK) ensures r.secret_key == self.secret_key, r.chain_code@ == self.chain_code@ { ExtendedSK { secret_key: self.secret_key, chain_code: self.chain_code.clone() } }
    }
    """)
    return s
