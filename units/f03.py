from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "F03"
VA, TF, TX, CH, ER, VE = "validations/src/validations.rs", "data_structures/src/transaction_factory.rs", "data_structures/src/transaction.rs", "data_structures/src/chain/mod.rs", "data_structures/src/error.rs", "data_structures/src/proto/versioning.rs"
FILES = [VA, TX, TF]
CONST_FNS = ("validate_mint_transaction", "block_reward", "transaction_outputs_sum", "with_external_address")
RULE = "rewards and fees of every bit length, halvings, shares from 0 to 100 percent; the built mint and mutations of it in value, number and size of its outputs and epoch, before and since wit/2"
ASSUMPTIONS = ["which error is returned is not part of the property: errors are one opaque value",
               "fees and reward of a block fit in 64 bits together (all coins do), the halving period is positive, and a share is at most 100 percent, as the configuration enforces",
               "the protocol version of an epoch is an uninterpreted function"]
D = ["opt_ok_or_else", "opt_ok_or", "opt_map"]
SL = lambda its, n, r: its if "(" in its else its.strip() + ".iter()"


def verus(u):
    va, tf, tx, ch, er, ve = u.src(VA), u.src(TF), u.src(TX), u.src(CH), u.src(ER), u.src(VE)
    u.no_inline.update(["from_epoch", "hash", "block_reward", "transaction_outputs_sum"])
    u.need_derives(tx, "MintTransaction", ["Default", "PartialEq"])
    u.need_derives(ch, "ValueTransferOutput", ["PartialEq"])
    u.file("mints", LIGHT_PRELUDE)
    u.emit("""
    type Epoch = u32;
    #[derive(Clone, Copy)] pub struct PublicKeyHash { x: u64 }
    impl PublicKeyHash { #[verifier::external_body] fn default() -> PublicKeyHash { unimplemented!() } }
    #[derive(Clone, Copy)] pub struct Hash { x: u64 }
    struct AnyError {}
    impl From<TransactionError> for AnyError { #[verifier::external_body] fn from(e: TransactionError) -> AnyError { AnyError {} } }
    impl From<BlockError> for AnyError { #[verifier::external_body] fn from(e: BlockError) -> AnyError { AnyError {} } }
    """)
    u.emit_raw(u.struct_text(ve, "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit_raw(u.struct_text(ch, "ValueTransferOutput", derive="Clone, Copy").replace("struct V", "pub struct V"))
    u.emit("""
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Memoized<T> { h: Option<T> }
    impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for Memoized<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { true } }
    """)
    # a memoized hash never makes transactions differ
    u.emit_impl("<T> PartialEq for Memoized<T>", [u.fn(tx, "Memoized::eq", trait="PartialEq", spec="")])
    u.emit_raw(u.struct_text(tx, "MintTransaction", keep_fields=["epoch", "outputs"]).replace("struct M", "pub struct M"))
    u.emit_raw(u.struct_text(er, "TransactionError", derive="Clone, Copy", keep_fields=["OutputValueOverflow", "ZeroValueOutput"]))
    u.emit_raw(u.struct_text(er, "BlockError", derive="Clone, Copy", keep_fields=["InvalidMintEpoch", "MismatchedMintValue", "TooSplitMint", "InvalidMintTransaction"]))
    u.emit("""
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn age(v: ProtocolVersion) -> int { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 1, ProtocolVersion::V2_0 => 2, ProtocolVersion::V2_1 => 3 } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for ProtocolVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProtocolVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(age(*self), age(*o))) } }
    impl PartialOrd for ProtocolVersion { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
    uninterp spec fn version_at(e: Epoch) -> ProtocolVersion;
    impl ProtocolVersion { #[verifier::external_body] fn from_epoch(e: Epoch) -> (r: Self) ensures r == version_at(e) { unimplemented!() } }
    pub closed spec fn same_mint(a: MintTransaction, b: MintTransaction) -> bool { a.epoch == b.epoch && a.outputs@ =~= b.outputs@ }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for MintTransaction { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { same_mint(*self, *o) } }
    impl PartialEq for MintTransaction { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl MintTransaction {
        #[verifier::external_body] fn default() -> (r: Self) ensures r.epoch == 0, r.outputs@.len() == 0 { unimplemented!() }
        #[verifier::external_body] fn hash(&self) -> Hash { unimplemented!() }
    }
    trait OrValue<T> { fn or_value(self, d: T) -> T; }
    impl<T, E> OrValue<T> for Result<T, E> { fn or_value(self, d: T) -> (r: T) ensures r == (match self { Ok(x) => x, Err(_) => d }) { match self { Ok(x) => x, Err(_) => d } } }
    // the reward after i halvings
    spec fn halved(x: nat, i: nat) -> nat decreases i { if i == 0 { x } else { halved(x, (i - 1) as nat) / 2 } }
    // the reward of an epoch, for a positive halving period
    spec fn reward(x: nat, p: nat, e: nat) -> nat { halved(x, e / p) }

    proof fn shifted(x: u64, h: u32) requires h < 64 ensures (x >> h) as nat == halved(x as nat, h as nat) decreases h
    {
        PROBE(shifted);
        if h == 0 { assert(x >> 0u32 == x) by (bit_vector); }
        else { shifted(x, (h - 1) as u32); let g = (h - 1) as u32; assert((x >> h) == (x >> g) / 2) by (bit_vector) requires 0 < h < 64, g == h - 1; }
    }
    proof fn at_64(x: nat, i: nat) requires x <= u64::MAX, i >= 64 ensures halved(x, i) == 0
    { PROBE(at_64); below(x, 64, i); assert(halved(x, 64) == 0) by { pow_bound(x, 64); assert(pow2n(64) == 0x1_0000_0000_0000_0000) by (compute); } }
    spec fn pow2n(i: nat) -> nat decreases i { if i == 0 { 1 } else { 2 * pow2n((i - 1) as nat) } }
    proof fn pow_bound(x: nat, i: nat) ensures halved(x, i) * pow2n(i) <= x, pow2n(i) > 0, x < pow2n(i) ==> halved(x, i) == 0 decreases i
    {
        PROBE(pow_bound);
        if i > 0 {
            pow_bound(x, (i - 1) as nat);
            let h = halved(x, (i - 1) as nat) as int; let q = pow2n((i - 1) as nat) as int;
            assert((h / 2) * (2 * q) <= h * q) by (nonlinear_arith) requires h >= 0, q > 0;
            if x < pow2n(i) && halved(x, i) > 0 { let y = halved(x, i) as int; let z = pow2n(i) as int; assert(y * z >= z) by (nonlinear_arith) requires y >= 1, z > 0; }
        } else { assert(halved(x, 0) * pow2n(0) == x) by { assert(pow2n(0) == 1); assert(halved(x, 0) == x); } }
    }
    // rewards never increase
    proof fn below(x: nat, i: nat, j: nat) requires i <= j ensures halved(x, j) <= halved(x, i) decreases j
    { PROBE(below); if i < j { below(x, i, (j - 1) as nat); } }

    // the value of a list of outputs
    spec fn outs_sum(s: Seq<ValueTransferOutput>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { outs_sum(s.drop_last()) + s.last().value as nat } }
    proof fn outs_step(s: Seq<ValueTransferOutput>, i: int) requires 0 <= i < s.len() ensures outs_sum(s.take(i + 1)) == outs_sum(s.take(i)) + s[i].value, outs_sum(s.take(i + 1)) <= outs_sum(s) decreases s.len() - i
    { PROBE(outs_step); assert(s.take(i + 1).drop_last() =~= s.take(i)); if i + 1 < s.len() { outs_step(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
    spec fn no_zero(s: Seq<ValueTransferOutput>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).value != 0 }
    // what may be minted in a block: since wit/2 nothing, before exactly what the block is worth, in up to two outputs
    spec fn right(m: MintTransaction, worth: int, at: Epoch) -> bool {
        &&& m.epoch == at
        &&& if age(version_at(at)) < 2 { outs_sum(m.outputs@) == worth && m.outputs@.len() <= 2 && no_zero(m.outputs@) } else { m.outputs@.len() == 0 }
    }
    // the share of the external address, rounded down
    spec fn share(all: u64, p: int) -> int { all as int * p / 100 }
    spec fn pays(o: ValueTransferOutput, p: PublicKeyHash, v: int) -> bool { o.pkh == p && o.value == v && o.time_lock == 0 }
    // the outputs of a mint: the own address first, then the external one, each if it gets anything
    spec fn split(s: Seq<ValueTransferOutput>, all: u64, own: PublicKeyHash, ext: Option<PublicKeyHash>, p: int) -> bool {
        let out = match ext { Some(_) => share(all, p), None => 0 };
        let rest = all - out;
        let a: int = if rest > 0 { 1 } else { 0 };
        &&& s.len() == a + (if out > 0 { 1int } else { 0 })
        &&& rest > 0 ==> pays(s[0], own, rest)
        &&& out > 0 ==> pays(s[a], ext->0, out)
    }
    proof fn share_fits(all: u64, p: int) requires 0 <= p <= 100 ensures 0 <= share(all, p) <= all
    { PROBE(share_fits); let a = all as int; assert(0 <= a * p <= a * 100) by (nonlinear_arith) requires 0 <= p <= 100, a >= 0; assert(a * 100 / 100 == a); }
    // what is built for a block worth that much is what the block may have
    proof fn built_is_right(m: MintTransaction, all: u64, own: PublicKeyHash, ext: Option<PublicKeyHash>, p: int, at: Epoch)
        requires 0 <= p <= 100, m.epoch == at, split(m.outputs@, all, own, ext, p), age(version_at(at)) < 2
        ensures right(m, all as int, at)
    {
        PROBE(built_is_right); share_fits(all, p); let s = m.outputs@;
        assert(s.take(0) =~= Seq::empty()); assert(s.take(s.len() as int) =~= s);
        if s.len() > 0 { outs_step(s, 0); } if s.len() > 1 { outs_step(s, 1); }
    }
    """)
    A = [(r"anyhow::Error", "AnyError")]
    u.emit_fn(va, "block_reward", spec="requires halving_period > 0 ensures r == reward(initial_block_reward as nat, halving_period as nat, epoch as nat)",
              start="proof { if epoch / halving_period < 64 { shifted(initial_block_reward, epoch / halving_period); } else { at_64(initial_block_reward as nat, (epoch / halving_period) as nat); } }")
    u.emit_fn(tf, "transaction_outputs_sum", desugar=D, skel=["for"], spec="ensures r is Ok <==> outs_sum(outputs@) <= u64::MAX, r is Ok ==> r->Ok_0 == outs_sum(outputs@)",
        loops={0: dict(inv="it0.seq().unref() == outputs@, total_value == outs_sum(outputs@.take(it0.index@))", iter_as=SL, before="proof { assert(outputs@.take(0) =~= Seq::empty()); }",
            start="proof { outs_step(outputs@, it0.index@); }", after="proof { assert(outputs@.take(outputs@.len() as int) =~= outputs@); }")})
    u.emit_impl(" MintTransaction", [
        u.fn(tx, "MintTransaction::new", subst=[(r",?\s*hash: MemoHash::new\(\),?", "")], spec="ensures r == (MintTransaction { epoch, outputs })"),
        u.fn(tx, "MintTransaction::with_external_address", subst=[(r"\.unwrap_or\(", ".or_value(")], start="proof { share_fits(reward, external_percentage as int); let w = reward as int; let p = external_percentage as int; assert(0 <= w * p <= 0xffff_ffff_ffff_ffff * 100) by (nonlinear_arith) requires 0 <= w <= 0xffff_ffff_ffff_ffff, 0 <= p <= 100; }",
             spec="requires external_percentage <= 100 ensures r.epoch == epoch, split(r.outputs@, reward, own_pkh, external_address, external_percentage as int)"),
    ])
    u.emit_fn(va, "validate_mint_transaction", desugar=D + ["index"], sig_subst=A, subst=A, skel=["for"],
        spec="requires halving_period > 0, total_fees + reward(initial_block_reward as nat, halving_period as nat, block_epoch as nat) <= u64::MAX ensures r is Ok <==> right(*mint_tx, total_fees + reward(initial_block_reward as nat, halving_period as nat, block_epoch as nat), block_epoch)",
        loops={0: dict(inv="__i0 <= mint_tx.outputs@.len(), forall|i: int| 0 <= i < __i0 ==> (#[trigger] mint_tx.outputs@[i]).value != 0", dec="mint_tx.outputs@.len() - __i0")})
    u.close()


def build(u):
    x = Extract([VA, TF, TX, CH, ER], mods=["transaction_factory", "chain"], stubs=["PublicKeyHash", "ProtocolVersion", "Epoch", "BlockError", "TransactionError", "Hash"], traits=["PartialEq", "Eq"])
    return HEADER + x.build(["validate_mint_transaction", "MintTransaction::with_external_address", "MintTransaction::new"])


harness = dict(kind="extract", name="f03", build=build, main="f03.rs", edition="2024")
