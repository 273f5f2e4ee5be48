from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "B02"
SB, CH = "data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs"
FILES = [SB]
RULE = "lists of 1 to 300 identities, committee sizes at and around the number of identities and its divisors, any superblock hash and index, both partition schemes; committees read back through the votes they accept"
ASSUMPTIONS = ["the eligible identities are distinct and fewer than 2^32", "the committee size is positive", "SHA-256 and the remainder of a 256-bit number are external: any digest, and a remainder below the divisor",
               "std HashSet behaves as a set (derived Eq and Hash agree)"]
NOTE = "Choosing the committee is proved; that build_superblock asks for it with the previous period's identities is searched only."


def verus(u):
    s, ch = u.src(SB), u.src(CH)
    u.file("committee", LIGHT_PRELUDE)
    u.need_derives(ch, "PublicKeyHash", ["Eq", "Hash", "PartialEq", "Copy"])
    u.emit("global size_of usize == 8; type Epoch = u32; type SHA256 = [u8; 32];")
    for t in ("Hash", "PublicKeyHash"):
        u.emit_raw(u.struct_text(ch, t, derive="Clone, Copy, PartialEq, Eq, Hash").replace("Hash)]", "std::hash::Hash)]", 1))
    u.emit_raw(u.struct_text(s, "ARSIdentities"))
    u.emit("""
    #[derive(Clone, Copy)] enum Environment { Development, Mainnet, Testnet }
    mod km { use super::*; pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKeyHash>(); }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, km::k1};
    type Pk = PublicKeyHash;
    #[verifier::external_body] fn cl<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
    #[verifier::external_body] fn set_of(v: &Vec<Pk>) -> (r: HashSet<Pk>) ensures r@ == v@.to_set() { v.iter().cloned().collect() }
    #[verifier::external_body] fn copy_vec(v: &Vec<Pk>) -> (r: Vec<Pk>) ensures r@ == v@ { v.to_vec() }
    struct Sha256 { x: [u8; 32] }
    #[verifier::external_body] fn calculate_sha256(b: &[u8]) -> Sha256 { unimplemented!() }
    #[verifier::external_body] fn seed_bytes(h: &Hash, i: u32) -> Vec<u8> { unimplemented!() }
    #[verifier::external_body] fn be_bytes(i: u32) -> [u8; 4] { i.to_be_bytes() }
    #[verifier::external_body] fn hash_from(x: Sha256) -> Hash { unimplemented!() }
    #[verifier::external_body] fn first_byte(h: &Hash) -> u8 { unimplemented!() }
    #[verifier::external_body] fn get_environment() -> Environment { unimplemented!() }
    #[verifier::external_body] fn after_second_hard_fork(e: Epoch, v: Environment) -> bool { unimplemented!() }
    impl Hash {
        #[verifier::external_body] fn div_mod(&self, n: u64) -> (r: (Hash, u64)) requires n > 0 ensures r.1 < n { unimplemented!() }
        #[verifier::external_body] fn bytes(&self) -> (r: &[u8]) ensures r@.len() == 32 { unimplemented!() }
    }
    // numbers closer together than n have different remainders
    proof fn apart(a: int, b: int, n: int) requires 0 <= a < b, b - a < n ensures a % n != b % n
    {
        PROBE(apart);
        lemma_fundamental_div_mod(a, n); lemma_fundamental_div_mod(b, n);
        if a % n == b % n {
            let q = b / n - a / n;
            assert(b - a == n * q) by (nonlinear_arith) requires b == n * (b / n) + b % n, a == n * (a / n) + a % n, a % n == b % n, q == b / n - a / n;
            assert(q <= 0 || n * q >= n) by (nonlinear_arith) requires n > 0;
            assert(q > 0 || n * q <= 0) by (nonlinear_arith) requires n > 0;
        }
    }
    proof fn step_mod(x: int, y: int, n: int) requires n > 0, x >= 0, y >= 0 ensures (x % n + y) % n == (x + y) % n { lemma_add_mod_noop(x, y, n); lemma_add_mod_noop(x % n, y, n); lemma_mod_twice(x, n); lemma_mod_mod(x, n); }
    proof fn lemma_mod_mod(x: int, n: int) requires n > 0 ensures (x % n) % n == x % n { lemma_mod_twice(x, n); }
    proof fn fit(n: int, size: int) requires 1 <= size <= n ensures n / size >= 1, (n / size) * size <= n, n / size <= n
    { PROBE(fit); lemma_fundamental_div_mod(n, size); lemma_div_is_ordered(size, n, size); assert(size / size == 1) by { lemma_div_by_self(size); }
      assert((n / size) * size == size * (n / size)) by (nonlinear_arith); assert((n / size) <= n) by (nonlinear_arith) requires (n / size) * size <= n, size >= 1, n / size >= 1; }
    // what is taken: one element of each stretch of each places
    spec fn spot(first: int, each: int, n: int, i: int, off: int) -> int { (first + i * each + off) % n }
    spec fn taken(r: Seq<Pk>, v: Seq<Pk>, first: int, each: int, off: Seq<int>) -> bool {
        &&& r.len() == off.len()
        &&& forall|i: int| 0 <= i < r.len() ==> 0 <= #[trigger] off[i] < each && r[i] == v[spot(first, each, v.len() as int, i, off[i])]
    }
    proof fn all_distinct(r: Seq<Pk>, v: Seq<Pk>, first: int, each: int, off: Seq<int>)
        requires taken(r, v, first, each, off), v.no_duplicates(), 0 <= first, each >= 1, each * r.len() <= v.len()
        ensures r.no_duplicates(), r.to_set().subset_of(v.to_set()), r.to_set().len() == r.len()
    {
        PROBE(all_distinct);
        let n = v.len() as int;
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
            let a = first + i * each + off[i]; let b = first + j * each + off[j];
            assert((i + 1) * each <= j * each) by (nonlinear_arith) requires i + 1 <= j, each >= 1;
            assert((i + 1) * each == i * each + each) by (nonlinear_arith);
            assert((j + 1) * each == j * each + each) by (nonlinear_arith);
            assert((j + 1) * each <= r.len() * each) by (nonlinear_arith) requires j + 1 <= r.len(), each >= 1;
            assert(r.len() * each == each * r.len()) by (nonlinear_arith);
            assert(i * each >= 0) by (nonlinear_arith) requires i >= 0, each >= 1;
            apart(a, b, n);
            assert(0 <= a % n < n && 0 <= b % n < n) by { lemma_mod_bound(a, n); lemma_mod_bound(b, n); }
            assert(v[a % n] != v[b % n]);
        }
        assert forall|p: Pk| r.to_set().contains(p) implies v.to_set().contains(p) by {
            let i = r.index_of(p); let a = first + i * each + off[i];
            assert(i * each >= 0) by (nonlinear_arith) requires i >= 0, each >= 1;
            assert(each * r.len() >= 1) by (nonlinear_arith) requires each >= 1, r.len() >= 1; lemma_mod_bound(a, n); assert(v[a % n] == p);
        }
        r.unique_seq_to_set();
    }
    """)
    T = dict(sig_subst=[(r"<T: Clone>", ""), (r"<T>", ""), (r"where\s*T: Clone,", ""), (r"\bT\b", "Pk"), (r"Vec(?=\s*$|\s*\{)", "Vec<Pk>")])
    C = [(r"(\bv\[\w+\])\.clone\(\)", r"cl(&\1)")]
    u.notes.add("the element type of the partitions is fixed to PublicKeyHash, the one used")
    u.notes.add("u32 to usize conversions (try_into, try_from) become casts: they cannot fail on 64-bit machines")
    sg = "v: &[Pk], first: usize, size: usize"
    def add(t):
        return t
    u.emit_fn(s, "magic_partition", sig="fn magic_partition(v: &[Pk], first: usize, size: usize) -> (r: Vec<Pk>)", subst=C, skel=["while"], spec="""requires first < v@.len(), 1 <= size <= v@.len(), v@.no_duplicates(), v@.len() <= 0x4000_0000_0000_0000
        ensures r@.len() == size, r@.no_duplicates(), r@.to_set().subset_of(v@.to_set()), r@.to_set().len() == size""",
        before=[(r"let mut a\b", "let ghost n = v@.len() as int; let ghost mut off: Seq<int> = seq![0int]; proof { fit(n, size as int); assert(0 * each == 0) by (nonlinear_arith); assert((first + 0) % n == first) by { lemma_small_mod(first as nat, n as nat); } assert(taken(v_subset@, v@, first as int, each as int, off)); }")],
        loops={0: dict(inv="""n == v@.len(), first < n, n <= 0x4000_0000_0000_0000, 1 <= size <= n, each >= 1, each * size <= n, v@.no_duplicates(), 1 <= v_subset@.len() <= size, taken(v_subset@, v@, first as int, each as int, off), a == spot(first as int, each as int, n, v_subset@.len() as int, 0)""",
                       dec="size - v_subset@.len()", before="proof { assert(a == spot(first as int, each as int, n, 1, 0)) by { assert(1 * each == each) by (nonlinear_arith); } }",
                       start="""let ghost k = v_subset@.len() as int; proof { off = off.push(0int); assert(k * each >= 0) by (nonlinear_arith) requires k >= 0, each >= 1; lemma_mod_bound(first + k * each, n);
                           assert((k + 1) * each == k * each + each) by (nonlinear_arith); step_mod(first + k * each, each as int, n); assert(each <= n) by (nonlinear_arith) requires each * size <= n, size >= 1, each >= 1; }""",
                       )},
        end="proof { assert(each * __ret@.len() <= n) by (nonlinear_arith) requires each * size <= n, __ret@.len() == size; all_distinct(__ret@, v@, first as int, each as int, off); }")
    u.emit_fn(s, "magic_partition_2", sig="fn magic_partition_2(v: &[Pk], first: usize, size: usize, rand_distribution: &[u8]) -> (r: Vec<Pk>)", subst=C, cty="Vec<Pk>", skel=["for"], spec="""requires first < v@.len(), 1 <= size <= v@.len(), v@.no_duplicates(), v@.len() <= 0x4000_0000_0000_0000, rand_distribution@.len() > 0
        ensures r@.len() == size, r@.no_duplicates(), r@.to_set().subset_of(v@.to_set()), r@.to_set().len() == size""",
        before=[(r"let mut v_subset", "let ghost n = v@.len() as int; let ghost mut off: Seq<int> = seq![]; proof { fit(n, size as int); }")],
        loops={0: dict(inv="""n == v@.len(), v_len == n, first < n, n <= 0x4000_0000_0000_0000, 1 <= size <= n, each >= 1, each * size <= n, v@.no_duplicates(), v_subset@.len() == i, taken(v_subset@, v@, first as int, each as int, off),
                       rand_len == rand_distribution@.len(), rand_len > 0""",
                       start="""let ghost k = i as int; proof { assert((k + 1) * each == k * each + each) by (nonlinear_arith); assert((k + 1) * each <= size * each) by (nonlinear_arith) requires k + 1 <= size, each >= 1; assert(size * each == each * size) by (nonlinear_arith); assert(k * each >= 0) by (nonlinear_arith) requires k >= 0, each >= 1; }""",
                       end="""proof { off = off.push(rand_offset as int); }""")},
        end="proof { assert(each * __ret@.len() <= n) by (nonlinear_arith) requires each * size <= n, __ret@.len() == size; all_distinct(__ret@, v@, first as int, each as int, off); }")
    CC = [(r"\[\s*superblock_hash\.as_ref\(\),\s*current_superblock_index\.to_be_bytes\(\)\.as_ref\(\),?\s*\]\s*\.concat\(\)", "seed_bytes(&superblock_hash, current_superblock_index)"),
          (r"\*(\w+)\.as_ref\(\)\.first\(\)\.unwrap\(\)", r"first_byte(&\1)"), (r"(\w+)\.iter\(\)\.cloned\(\)\.collect\(\)", r"set_of(&\1)"), (r"&(\w+)\.to_be_bytes\(\)", r"be_bytes(\1).as_slice()"),
          (r"Hash::from\(", "hash_from("), (r"(\w+)\.as_ref\(\)", r"\1.bytes()"), (r"usize::try_from\((\w+)\)\s*\.unwrap\(\)", r"(\1 as usize)"), (r"(\w+)\.try_into\(\)\s*\.unwrap\(\)", r"(\1 as usize)"),
          (r"&(\w[\w.]*)\.to_vec\(\)", r"copy_vec(&\1).as_slice()"), (r"&ars_identities\.ordered_identities,", "ars_identities.ordered_identities.as_slice(),")]
    u.emit_impl(" ARSIdentities", [u.fn(s, "ARSIdentities::len", spec="ensures r == self.identities@.len()"),
        u.fn(s, "ARSIdentities::new", subst=[(r"(\w+)\.iter\(\)\.cloned\(\)\.collect\(\)", r"set_of(&\1)")], spec="requires ordered_identities@.no_duplicates(), ordered_identities@.len() < 0x1_0000_0000 ensures r.inv(), r.ordered_identities == ordered_identities"),
        "spec fn inv(&self) -> bool { self.ordered_identities@.no_duplicates() && self.identities@ == self.ordered_identities@.to_set() && self.ordered_identities@.len() < 0x1_0000_0000 }"])
    u.emit_fn(s, "calculate_superblock_signing_committee", subst=CC, spec="""requires ars_identities.inv(), signing_committee_size >= 1
        ensures r@.subset_of(ars_identities.identities@),
            r@.len() == (if ars_identities.identities@.len() < signing_committee_size { ars_identities.identities@.len() } else { signing_committee_size as nat })""",
        start="proof { ars_identities.ordered_identities@.unique_seq_to_set(); }")
    u.close()


def build(u):
    x = Extract([SB, CH], mods=["tapi", "chain"], stubs=["PublicKeyHash", "PublicKey", "Signature", "Bn256Signature", "SuperBlock", "BlockHeader", "AltKeys", "Bn256PublicKey", "ProtocolVersion", "Environment", "get_environment", "Epoch",
                "hash_key_leaves", "mining_build_superblock", "in_emergency_period", "after_second_hard_fork", "SuperBlockVote::secp256k1_signature_message", "Hash::div_mod"],
                traits=["Display", "Debug"], no=["From<Sha256> for Hash", "From<Hash> for Sha256", "SuperBlockVote::new_unsigned", "FromStr for Hash"])
    import os
    return HEADER + open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/sb_stub.rs").read() + x.build(["SuperBlockState::*", "SuperBlockVotesMempool::*", "ARSIdentities::*", "SuperBlockVote", "SuperBlockConsensus", "AddSuperBlockVote", "Hash", "calculate_superblock_signing_committee"])


harness = dict(kind="extract", name="b02", build=build, main="b02.rs")
