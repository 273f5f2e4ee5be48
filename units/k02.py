import keylib
from keylib import *
ID = "K02"
FILES = [KEY]
RULE = "seeds of 0..80 bytes, random and published BIP-32 vectors, paths of 0..8 steps over boundary indices (0, 2^31-1, 2^31, 2^32-1), each step compared with an independent BIP-32 derivation"
ASSUMPTIONS = keylib.ASSUMPTIONS + ["the left half of the master HMAC is a valid secret key (fails with probability 2^-127, then the code panics)"]

SPEC = """
    #[verifier::external_body]
    proof fn master_key_valid(k: Seq<u8>, seed: Seq<u8>) ensures sk_ok(mac512(k, seed).take(32)) {}
    spec fn hard(i: u32) -> bool { i >= 0x8000_0000 }
    // one derivation step: the message, then the child (secret, chain code) of BIP-32
    spec fn step_data(sk: Seq<u8>, i: u32) -> Seq<u8> { (if hard(i) { seq![0u8] + sk } else { pub33(sk) }) + word(i) }
    spec fn step(sk: Seq<u8>, cc: Seq<u8>, i: u32) -> Option<(Seq<u8>, Seq<u8>)> {
        let m = mac512(cc, step_data(sk, i));
        if sk_ok(m.take(32)) { match add_mod(m.take(32), sk) { Some(c) => Some((c, m.skip(32))), None => None } } else { None }
    }
    spec fn along(sk: Seq<u8>, cc: Seq<u8>, p: Seq<u32>) -> Option<(Seq<u8>, Seq<u8>)> decreases p.len() {
        if p.len() == 0 { Some((sk, cc)) } else { match along(sk, cc, p.drop_last()) { None => None, Some((s, c)) => step(s, c, p.last()) } }
    }
    proof fn along_fail(sk: Seq<u8>, cc: Seq<u8>, p: Seq<u32>, n: int) requires 0 <= n <= p.len(), along(sk, cc, p.take(n)) is None ensures along(sk, cc, p) is None decreases p.len() - n
    { if n == p.len() { assert(p.take(n) =~= p); } else { assert(p.take(n + 1).drop_last() =~= p.take(n)); along_fail(sk, cc, p, n + 1); } }
    proof fn hardened_bit(x: u32) ensures (x & 0x8000_0000u32 == 0x8000_0000u32) <==> hard(x) { assert((x & 0x8000_0000u32 == 0x8000_0000u32) <==> x >= 0x8000_0000u32) by (bit_vector); }
    spec const SEED_KEY: Seq<u8> = seq![0x42u8, 0x69, 0x74, 0x63, 0x6f, 0x69, 0x6e, 0x20, 0x73, 0x65, 0x65, 0x64]; // "Bitcoin seed"
"""


def verus(u):
    u.file("bip32")
    s = types(u)
    u.emit(SPEC)
    sub = [(r"\bhmac512: Hmac<sha2::Sha512>", "hmac512: Hmac"), (r"Hmac::<sha2::Sha512>::new_varkey", "Hmac::new_varkey"), (r"Hmac::new_varkey\(&self\.chain_code\)", "Hmac::new_varkey(self.chain_code.as_ref())"),
           (r"\.to_be_bytes\(\)", ".be_bytes()"), (r"&self\.secret_key\[\.\.\]", "self.secret_key.as_slice()"), (r"\.result\(\)\.code\(\)", ".finish()"),
           (r"\.input\(&\[([^\]]*)\]\)", r".input(array_as_slice(&[\1]))"), (r"\.input\(&(PublicKey::[\w()&. ]+\(\))\)", r".input(array_as_slice(&\1))"),
           (r"get_chain_code_and_secret\(&(\w+),", r"get_chain_code_and_secret(array_as_slice(&\1),"), (r"secp256k1::Scalar", "Scalar"), (r"secp256k1::Error", "Secp256k1Error"),
           (r"Self::HARDENED_KEY_INDEX|KeyPath::HARDENED_KEY_INDEX", "HARDENED_KEY_INDEX")]
    it = s.find_fn("KeyPath::hardened")
    u.emit_raw(s.assoc_const("HARDENED_KEY_INDEX"))
    u.emit_impl(" KeyPathIndex", [u.fn(s, "KeyPathIndex::as_ref", trait="AsRef", spec="ensures *r == self.0"),
        u.fn(s, "KeyPathIndex::is_hardened", subst=sub, spec="ensures r == hard(self.0)", start="proof { hardened_bit(self.0); }")])
    u.emit_impl(" KeyPath", [
        u.fn(s, "KeyPath::iter", subst=[(r"slice::Iter", "std::slice::Iter")], spec="ensures r.remaining().unref() == self.path@, r.obeys_prophetic_iter_laws(), r.decrease() is Some"),
        u.fn(s, "KeyPath::depth", spec="ensures r == self.path@.len()"),
        u.fn(s, "KeyPath::is_master", spec="ensures r == (self@.len() == 0)"),
        u.fn(s, "KeyPath::hardened", subst=sub, spec="requires !hard(idx) ensures r@ == self@.push((idx + 0x8000_0000) as u32)",
             end="proof { assert(__ret@ =~= self@.push((idx + 0x8000_0000) as u32)); }"),
        u.fn(s, "KeyPath::index", subst=sub, spec="requires !hard(index) ensures r@ == self@.push(index)",
             end="proof { assert(__ret@ =~= self@.push(index)); }"),
    ])
    u.emit_fn(s, "get_chain_code_and_secret", subst=sub, desugar=["opt_map_err"], sig_subst=[(r"mut hmac512", "hmac512")], start="let mut hmac512 = hmac512;", spec="""
        ensures
            r is Ok <==> sk_ok(mac512(hmac512.key@, hmac512.data@ + seed@).take(32)),
            r is Ok ==> r->Ok_0.0@ == mac512(hmac512.key@, hmac512.data@ + seed@).skip(32) && r->Ok_0.1@ == mac512(hmac512.key@, hmac512.data@ + seed@).take(32) && r->Ok_0.0@.len() == 32
        """)
    u.emit_impl(" ExtendedSK", [
        u.fn(s, "ExtendedSK::new", spec="ensures r.secret_key == secret_key, r.chain_code == chain_code"),
        u.fn(s, "ExtendedSK::child", subst=sub, desugar=["opt_map_err"], spec="""
            requires self.wf()
            ensures r is Ok <==> step(self.secret_key@, self.chain_code@, index.0) is Some,
                r is Ok ==> r->Ok_0.wf() && Some((r->Ok_0.secret_key@, r->Ok_0.chain_code@)) == step(self.secret_key@, self.chain_code@, index.0)
            """, after=[(r"let \(chain_code, mut secret_key\)", "")],
             before=[(r"let \(chain_code, mut secret_key\)", """proof { word_is(index.0, index_bytes@); let sk = self.secret_key@;
                 assert(Seq::<u8>::empty() + seq![0u8] + sk + index_bytes@ =~= seq![0u8] + sk + index_bytes@);
                 assert(hmac512.data@ + index_bytes@ =~= step_data(sk, index.0)); }""")]),
        u.fn(s, "ExtendedSK::derive", subst=sub, skel=["for"], spec="""
            requires self.wf()
            ensures r is Ok <==> along(self.secret_key@, self.chain_code@, path@) is Some,
                r is Ok ==> r->Ok_0.wf() && Some((r->Ok_0.secret_key@, r->Ok_0.chain_code@)) == along(self.secret_key@, self.chain_code@, path@)
            """, loops={0: dict(bind="v0", before="let ghost s0 = v0.remaining(); proof { assert(path@.take(0) =~= Seq::empty()); }", inv="""
                it0.seq() == s0, s0.unref() == path.path@, extended_sk.wf(), self.wf(),
                Some((extended_sk.secret_key@, extended_sk.chain_code@)) == along(self.secret_key@, self.chain_code@, path@.take(it0.index@))
                """, start="""proof { let i = it0.index@; assert(s0.unref()[i] == *index); assert(path@.take(i + 1).drop_last() =~= path@.take(i)); assert(path@.take(i + 1).last() == path@[i]);
                    if along(self.secret_key@, self.chain_code@, path@.take(i + 1)) is None { along_fail(self.secret_key@, self.chain_code@, path@, i + 1); } }""",
                after="proof { assert(path@.take(path@.len() as int) =~= path@); }")}),
        u.fn(s, "ExtendedSK::concat", subst=sub + [(r"Vec::from\(", "to_vec8("), (r"extend_from_slice\(&self\.chain_code\)", "extend_from_slice(self.chain_code.as_ref())")], spec="ensures r@ == self.secret_key@ + self.chain_code@"),
        u.fn(s, "ExtendedSK::secret", subst=sub, spec="ensures r@ == self.secret_key@"),
        u.fn(s, "ExtendedSK::chain_code", subst=sub, spec="ensures r@ == self.chain_code@"),
    ])
    u.emit_impl(" ExtendedPK", [
        u.fn(s, "ExtendedPK::from_secret_key", subst=sub, spec="ensures r.key.b@ == pub33(key.secret_key@), r.chain_code@ == key.chain_code@"),
    ])
    # master key generation
    u.emit("struct MasterKeyGen<'a> { seed: Vec<u8>, key: &'a [u8] }\nconst MIN_SEED: usize = 16;")
    u.notes.add("MasterKeyGen's seed type S: AsRef<[u8]> is instantiated at Vec<u8>")
    u.emit_impl("<'a> MasterKeyGen<'a>", [
        u.fn(s, "MasterKeyGen::with_key", spec="ensures r.key == key, r.seed == self.seed"),
        u.fn(s, "MasterKeyGen::generate", subst=sub + [(r"self\.seed\.as_ref\(\)", "self.seed.as_slice()"), (r"\((\d+)\.\.=(\d+)\)\.contains\(&(\w+)\)", r"(\1 <= \3 && \3 <= \2)")], desugar=["opt_map_err"], spec="""
            ensures r is Ok <==> 16 <= self.seed@.len() <= 64,
                r is Ok ==> r->Ok_0.wf() && r->Ok_0.secret_key@ == mac512(self.key@, self.seed@).take(32) && r->Ok_0.chain_code@ == mac512(self.key@, self.seed@).skip(32)
            """, start="proof { master_key_valid(self.key@, self.seed@); }", before=[(r"let result =", "proof { assert(mac.data@ =~= self.seed@); }")]),
    ])
    u.close()


harness = dict(kind="crate", name="k02", deps={"witnet_crypto": "crypto", "witnet_protected": "protected"}, extern={"hmac": '"0.7.1"', "sha2": '"0.8.1"'}, main="k02.rs")
