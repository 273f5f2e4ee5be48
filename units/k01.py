import keylib
from keylib import *
ID = "K01"
FILES = [KEY]
RULE = "random keys and paths of 0..300 steps round-tripped; exported text altered (case, characters, truncation, prefix, payload re-encoded with wrong depth, extra or missing bytes, bad secret prefix, zero or too large secret)"
ASSUMPTIONS = keylib.ASSUMPTIONS

LAYOUT = """
    // depth, path words, chain code, zero byte, secret
    spec fn layout(p: Seq<u32>, cc: Seq<u8>, sk: Seq<u8>) -> Seq<u8> { seq![p.len() as u8] + flat(p) + cc + seq![0u8] + sk }
    spec fn parse(b: Seq<u8>) -> Option<(Seq<u32>, Seq<u8>, Seq<u8>)> {
        if b.len() >= 1 && b.len() == 66 + 4 * b[0] {
            let d = b[0] as int; let r = b.skip(1); let q = r.skip(4 * d); let cc = q.take(32); let t = q.skip(32); let sk = t.skip(1).take(32);
            if t[0] == 0 && sk_ok(sk) { Some((unflat(r, d as nat), cc, sk)) } else { None }
        } else { None }
    }
    proof fn parse_layout(p: Seq<u32>, cc: Seq<u8>, sk: Seq<u8>) requires p.len() <= 255, cc.len() == 32, sk.len() == 32, sk_ok(sk)
        ensures parse(layout(p, cc, sk)) == Some((p, cc, sk))
    {
        let b = layout(p, cc, sk); unflat_flat(p);
        let d = p.len() as int; let r = b.skip(1); let q = r.skip(4 * d); let t = q.skip(32);
        assert(q.take(32) =~= cc);
        assert(t.skip(1).take(32) =~= sk);
        assert forall|i: int| 0 <= i < d implies unflat(r, d as nat)[i] == p[i] by { assert(r.subrange(4 * i, 4 * i + 4) =~= flat(p).subrange(4 * i, 4 * i + 4)); assert(unflat(flat(p), p.len())[i] == p[i]); }
        assert(unflat(r, d as nat) =~= p);
    }
    spec fn import(s: Seq<char>) -> Option<(Seq<u32>, Seq<u8>, Seq<u8>)> {
        match b32_dec(s) { None => None, Some((hrp, d)) => if hrp == "xprv"@ { match from5(d) { None => None, Some(b) => parse(b) } } else { None } }
    }
"""


def verus(u):
    u.file("slip32")
    s = types(u)
    u.emit(IO + LAYOUT)
    ERR = (r'"(?:[^"\\]|\\.)*"\.into\(\)', "rt_string()")
    sub = [ERR, (r"\.to_be_bytes\(\)", ".be_bytes()"), (r"\berr\.to_string\(\)", "rt_string()"), (r"\bbech32::(decode|encode)\(", r"bech32_\1("), (r"\bSK::from_slice\(([^;?]*?)\)\?", r"(match SecretKey::from_slice(\1) { Ok(__x) => Ok(__x), Err(__e) => Err(KeyError::Deserialization(rt_string())) })?"),
           (r"([\w.]+\.as_str\(\)) != (\"\w*\")", r"str_ne(\1, \2)"), (r"FromBase32::from_base32\(", "from_base32("), (r"([\w.]+\.as_ref\(\))\.to_base32\(\)", r"to_base32(\1)"),
           (r"\bio::Cursor::new\(", "Cursor::new("), (r"read_u32_into::<BigEndian>\((\w+)\.as_mut\(\)\)", r"read_u32_into(&mut \1)"), (r"read_exact\((\w+)\.as_mut\(\)\)", r"read_exact(&mut \1)"),
           (r"&self\.secret_key\[\.\.\]", "self.secret_key.as_slice()"), (r"path\.into\(\)", "KeyPath::from(path)"),
           (r"let mut slice = (\w+)\.as_mut\(\);", r"let mut slice_pos: usize = 0;"), (r"\bslice\s*\.write_all\(", "write_all(&mut bytes, &mut slice_pos, "),
           (r"u8::try_from\((\w+)\)", r"usize_to_u8(\1)"), (r"write_all\((&mut bytes, &mut slice_pos), &\[([^\]]*)\]\)", r"write_all(\1, array_as_slice(&[\2]))"),
           (r"write_all\((&mut bytes, &mut slice_pos), &([\w.]+\(\)\.be_bytes\(\))\)", r"write_all(\1, array_as_slice(&\2))")]
    u.emit("""
    #[verifier::external_body]
    fn usize_to_u8(x: usize) -> (r: Result<u8, ()>) ensures r is Ok <==> x <= 255, r is Ok ==> r->Ok_0 == x { unimplemented!() }
    """)
    u.emit_impl(" KeyPathIndex", [u.fn(s, "KeyPathIndex::as_ref", trait="AsRef", spec="ensures *r == self.0")])
    u.emit_impl(" KeyPath", [
        u.fn(s, "KeyPath::iter", subst=[(r"slice::Iter", "std::slice::Iter")], spec="ensures r.remaining().unref() == self.path@, r.obeys_prophetic_iter_laws(), r.decrease() is Some"),
        u.fn(s, "KeyPath::depth", spec="ensures r == self.path@.len()"),
        u.fn(s, "KeyPath::from", trait="From", desugar=["map", "collect"], cty="Vec<KeyPathIndex>", spec="ensures r@ == path@", loops={0: dict(bind="v0", before="let ghost s0 = path@;", inv="it0.seq() == s0, s0 == path@, __c@.len() == it0.index@, forall|i: int| 0 <= i < __c@.len() ==> __c@[i].0 == s0[i]")},
             end="proof { assert(__ret@ =~= path@); }"),
    ])
    u.emit_impl(" ExtendedSK", [
        u.fn(s, "ExtendedSK::new", spec="ensures r.secret_key == secret_key, r.chain_code == chain_code"),
        u.fn(s, "ExtendedSK::secret", subst=sub, spec="ensures r@ == self.secret_key@"),
        u.fn(s, "ExtendedSK::chain_code", subst=sub, spec="ensures r@ == self.chain_code@"),
        u.fn(s, "ExtendedSK::from_slip32", subst=sub, desugar=["opt_map_err"], spec="""
            ensures r is Ok <==> import(slip32@) is Some,
                r is Ok ==> (r->Ok_0.1)@ == import(slip32@).unwrap().0 && r->Ok_0.0.chain_code@ == import(slip32@).unwrap().1 && r->Ok_0.0.secret_key@ == import(slip32@).unwrap().2 && r->Ok_0.0.wf()
            """),
        u.fn(s, "ExtendedSK::to_slip32", subst=sub, desugar=["opt_map_err"], skel=["for"], spec="""
            requires self.wf()
            ensures r is Ok <==> path.path@.len() <= 255, r is Ok ==> r->Ok_0@ == b32_enc("xprv"@, to5(layout(path@, self.chain_code@, self.secret_key@)))
            """, loops={0: dict(bind="v0", before="let ghost s0 = v0.remaining(); proof { assert(path@.take(0) =~= Seq::empty()); assert(bytes@.take(1) =~= seq![depth] + flat(path@.take(0))); }", inv="""
                it0.seq() == s0, s0.unref() == path.path@, path.path@.len() == depth, bytes@.len() == 66 + 4 * depth, slice_pos == 1 + 4 * it0.index@,
                bytes@.take(slice_pos as int) == seq![depth] + flat(path@.take(it0.index@))
                """, start="proof { assert(s0.unref()[it0.index@] == *index); }",
                end="""proof { let i = it0.index@; assert(path@.take(i + 1).drop_last() =~= path@.take(i)); assert(path@.take(i + 1).last() == path@[i]);
                   let w = bytes@.subrange(1 + 4 * i, 5 + 4 * i);
                }""", after="proof { assert(path@.take(path@.len() as int) =~= path@); unflat_flat(path@); }")},
            before=[(r"let encoded", "proof { assert(bytes@.take(slice_pos as int) =~= bytes@); assert(bytes@ =~= layout(path@, self.chain_code@, self.secret_key@)); }")]),
    ])
    u.emit("""
    fn round_trip(k: &ExtendedSK, path: &KeyPath) requires k.wf(), path.path@.len() <= 255 {
        let t = k.to_slip32(path).unwrap();
        proof { bech32_inverse("xprv"@, layout(path@, k.chain_code@, k.secret_key@)); parse_layout(path@, k.chain_code@, k.secret_key@); }
        let r = ExtendedSK::from_slip32(t.as_str());
        let (k2, p2) = r.unwrap();
        assert(k2.secret_key@ == k.secret_key@ && k2.chain_code@ == k.chain_code@ && p2@ == path@);
    }
    """)
    u.close()


harness = dict(kind="crate", name="k01", deps={"witnet_crypto": "crypto", "witnet_protected": "protected"}, extern={"bech32": '"0.7.2"'}, main="k01.rs")
