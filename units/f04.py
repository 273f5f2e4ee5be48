import f01
from f01 import *
ID = "F04"
FILES = [VA, TF]
DRQ, VE, SK = "data_structures/src/data_request.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/staking/stakes.rs"
CONST_FNS = ("validate_vt_transaction", "validate_genesis_vt_transaction", "validate_dr_transaction", "validate_data_request_output", "validate_stake_transaction", "validate_unstake_transaction", "validate_unstake_timelock", "validate_unstake_signature", "validate_transaction_signature", "validate_pkh_signature", "add_secp_tx_signature_to_verify") + f01.CONST_FNS
RULE = "transactions of every kind over a set of outputs and stakes, valid ones and mutations of them: signatures, owners, weights, values, limits and versions"
ASSUMPTIONS = f01.ASSUMPTIONS + ["the weight of a transaction is decided by W01, its hash is a function of it, and the RADON part of a request is valid or not (C01, O01)",
    "whether bytes are a public key or a signature, and whether a signature verifies, is up to the crypto library",
    "the entry of a validator and a withdrawer, if there is one, is the first and only answer to a query by that key (StakesTracker)", "the configured maximum of a stake is less than u64::MAX"]
CONV = [(r"let fte = \|e: (?:anyhow::Error|AnyError)\| TransactionError::VerifyTransactionSignatureFail \{[^{}]*\};", ""), (r"\.map_err\(fte\)", ""),
        (r"([\w.]+\.public_key)\.clone\(\)\.try_into\(\)", r"to_key(&\1)"), (r"([\w.]+\.signature)\.clone\(\)\.try_into\(\)", r"to_sig(&\1)"),
        (r"match tx_hash \{\s*Hash::SHA256\(x\) => x\.to_vec\(\),?\s*\}", "hash_bytes(&tx_hash)"), (r"\bdata\.to_vec\(\)", "bytes_of(data)"),
        (r"(\w[\w.]*)\s*\.iter\(\)\s*\.collect\(\)", r"refs(&\1)"), (r"\.unwrap_or_default\(\)", ".or_default()"), (r"\.unwrap_or\(", ".or_value("),
        (r"Box::new\(([\w.]+)\.clone\(\)\)", r"boxed(&\1)"), (r"\(\((\d+)\.\.(\d+)\)\.contains\(&([\w.]+)\)\)", r"(\1 <= \3 && \3 < \2)")]
QUERY = [(r"stake_entry\s*\.first\(\)\s*\.map\(\|stake\| stake\.value\.coins\)\s*\.unwrap\(\)\s*\.into\(\)", "stake_entry.first().unwrap().value.coins.0"),
         (r"stake_entry\s*\.first\(\)\s*\.map\(\|stake\| stake\.value\.nonce\)\s*\.unwrap\(\)", "stake_entry.first().unwrap().value.nonce")]
ERRS = ["ValueTransferWeightLimitExceeded", "NoInputs", "ZeroValueOutput", "InputsInGenesis", "MismatchingSignaturesNumber", "NoOutputsInGenesis", "DataRequestWeightLimitExceeded", "WrongNumberOutputs", "ZeroAmount", "PublicKeyHashMismatch",
        "InvalidCollateral", "InsufficientWitnesses", "NoReward", "InvalidMinConsensus", "RewardTooLow", "NoStakeTransactionsAllowed", "StakeBelowMinimum", "NoStakeFound", "StakeAboveMaximum", "NoUnstakeTransactionsAllowed",
        "UnstakingMoreThanStaked", "UnstakeInvalidNonce", "InvalidUnstakeTimelock", "InvalidUnstakeSignature", "VerifyTransactionSignatureFail"]
FIELDS = {"TransactionError": ERRS, "StakeOutput": ["key"], "DataRequestOutput": ["collateral", "min_consensus_percentage", "data_request"], "UnstakeTransactionBody": ["operator", "nonce"],
          "VTTransaction": ["signatures"], "DRTransaction": ["signatures"], "StakeTransaction": ["signatures"], "UnstakeTransaction": ["signature"]}


def before(u):
    u.no_inline.update(["from_epoch", "hash", "versioned_hash", "weight", "pkh", "from_public_key", "get_protocol_version", "query_stakes", "check_validator_withdrawer", "validate_rad_request", "verify"])
    u.need_derives(u.src(CH), "PublicKeyHash", ["PartialEq"])
    u.emit_raw(u.struct_text(u.src(VE), "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit("""
    impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    struct RADRequest { x: u8 }
    #[derive(Clone, Copy)] struct PublicKey { x: u8 }
    #[derive(Clone, Copy)] struct Signature { x: u8 }
    #[derive(Clone, Copy)] struct SecpKey { x: u8 }
    #[derive(Clone, Copy)] struct SecpSig { x: u8 }
    #[derive(Clone, Copy)] struct StakeKey { validator: PublicKeyHash, withdrawer: PublicKeyHash }
    #[derive(Clone, Copy)] struct Wit(u64);
    #[derive(Clone, Copy)] struct Stake { coins: Wit, nonce: u64 }
    #[derive(Clone, Copy)] struct StakeEntry { key: StakeKey, value: Stake }
    enum QueryStakesKey { Key(StakeKey), Validator(PublicKeyHash) }
    struct StakesError {}
    struct ActiveWips {}
    """)
    u.emit_raw(u.struct_text(u.src(CH), "KeyedSignature"))
    u.emit_raw(u.struct_text(u.src(CH), "SignaturesToVerify", keep_fields=["SecpTx"], subst=[(r"Secp256k1_PublicKey", "SecpKey"), (r"Secp256k1_Signature", "SecpSig")]))


def model(u, kinds, stakes=True):
    """Versions, keys, signatures and stakes; the functions that queue signatures."""
    va = u.src(VA)
    u.emit("""
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn age(v: ProtocolVersion) -> int { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 1, ProtocolVersion::V2_0 => 2, ProtocolVersion::V2_1 => 3 } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for ProtocolVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProtocolVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(age(*self), age(*o))) } }
    impl PartialOrd for ProtocolVersion { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
    uninterp spec fn version_at(e: Option<Epoch>) -> ProtocolVersion;
    #[verifier::external_body] fn get_protocol_version(e: Option<Epoch>) -> (r: ProtocolVersion) ensures r == version_at(e) { unimplemented!() }
    impl From<StakesError> for AnyError { #[verifier::external_body] fn from(e: StakesError) -> AnyError { AnyError {} } }
    // keys and signatures
    impl PublicKey { uninterp spec fn owner(&self) -> PublicKeyHash; uninterp spec fn secp(&self) -> Option<SecpKey>;
        #[verifier::external_body] fn pkh(&self) -> (r: PublicKeyHash) ensures r == self.owner() { unimplemented!() } }
    impl PublicKeyHash { #[verifier::external_body] fn from_public_key(k: &PublicKey) -> (r: PublicKeyHash) ensures r == k.owner() { unimplemented!() } }
    impl Signature { uninterp spec fn secp(&self) -> Option<SecpSig>; }
    #[verifier::external_body] fn to_key(k: &PublicKey) -> (r: Result<SecpKey, AnyError>) ensures r is Ok <==> k.secp() is Some, r is Ok ==> r->Ok_0 == k.secp()->0 { unimplemented!() }
    #[verifier::external_body] fn to_sig(k: &Signature) -> (r: Result<SecpSig, AnyError>) ensures r is Ok <==> k.secp() is Some, r is Ok ==> r->Ok_0 == k.secp()->0 { unimplemented!() }
    uninterp spec fn verifies(k: SecpKey, m: Seq<u8>, s: SecpSig) -> bool;
    #[verifier::external_body] fn verify(k: &SecpKey, m: &[u8], s: &SecpSig) -> (r: Result<(), AnyError>) ensures r is Ok <==> verifies(*k, m@, *s) { unimplemented!() }
    spec fn hashed(h: Hash) -> Seq<u8> { match h { Hash::SHA256(x) => x@ } }
    #[verifier::external_body] fn hash_bytes(h: &Hash) -> (r: Vec<u8>) ensures r@ == hashed(*h) { unimplemented!() }
    #[verifier::external_body] fn bytes_of(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
    // list.iter().collect()
    #[verifier::external_body] fn refs<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.unref() == v@ { unimplemented!() }
    // a.iter().zip(b.iter())
    #[verifier::external_body] fn both<'a>(a: &'a [Input], b: &'a [KeyedSignature]) -> (r: Vec<(&'a Input, &'a KeyedSignature)>) requires a@.len() == b@.len()
        ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i] { unimplemented!() }
    #[verifier::external_body] fn boxed(d: &DataRequestOutput) -> Box<DataRequestOutput> { unimplemented!() }
    trait OrValue<T> { fn or_value(self, d: T) -> T; }
    impl<T, E> OrValue<T> for Result<T, E> { fn or_value(self, d: T) -> (r: T) ensures r == (match self { Ok(x) => x, Err(_) => d }) { match self { Ok(x) => x, Err(_) => d } } }
    uninterp spec fn usual() -> ProtocolVersion;
    trait OrDefault { fn or_default(self) -> ProtocolVersion; }
    impl OrDefault for Option<ProtocolVersion> { #[verifier::external_body] fn or_default(self) -> (r: ProtocolVersion) ensures r == (match self { Some(v) => v, None => usual() }) { unimplemented!() } }
    impl From<std::convert::Infallible> for AnyError { #[verifier::external_body] fn from(e: std::convert::Infallible) -> AnyError { AnyError {} } }
    impl ActiveWips { uninterp spec fn is22(&self) -> bool; #[verifier::external_body] fn wip0022(&self) -> (r: bool) ensures r == self.is22() { unimplemented!() } }
    uninterp spec fn rad_ok(r: RADRequest, w: ActiveWips) -> bool;
    #[verifier::external_body] fn validate_rad_request(r: &RADRequest, w: &ActiveWips) -> (o: Result<(), AnyError>) ensures o is Ok <==> rad_ok(*r, *w) { unimplemented!() }
    // every output a signed input refers to belongs to whoever signed
    spec fn owned(m: Outs, i: Input, k: KeyedSignature) -> bool { m.contains_key(i.output_pointer) ==> m[i.output_pointer].0.pkh == k.public_key.owner() }
    spec fn signed(m: Outs, ins: Seq<Input>, ks: Seq<KeyedSignature>) -> bool {
        &&& ins.len() == ks.len()
        &&& forall|i: int| 0 <= i < ins.len() ==> owned(m, #[trigger] ins[i], ks[i])
        &&& forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).public_key.secp() is Some && ks[i].signature.secp() is Some
    }
    spec fn check_of(k: KeyedSignature, h: Hash, s: SignaturesToVerify) -> bool { s is SecpTx && s->SecpTx_public_key == k.public_key.secp()->0 && s->SecpTx_signature == k.signature.secp()->0 && s->SecpTx_data@ == hashed(h) }
    // one check per signature is added, of this hash, in order, after those already there
    spec fn queued(a: Seq<SignaturesToVerify>, b: Seq<SignaturesToVerify>, ks: Seq<KeyedSignature>, h: Hash, n: int) -> bool {
        &&& b.len() == a.len() + n
        &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
        &&& forall|i: int| 0 <= i < n ==> check_of(#[trigger] ks[i], h, b[a.len() + i])
    }
    spec fn no_zero(s: Seq<ValueTransferOutput>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).value != 0 }
    spec fn ceil(a: int, b: int) -> int { a / b + if a % b > 0 { 1int } else { 0 } }
    spec fn request_ok(d: DataRequestOutput, min: u64, ratio: u64, w: ActiveWips) -> bool {
        &&& d.witnesses >= 1 && d.witness_reward >= 1 && 51 <= d.min_consensus_percentage <= 99
        &&& w.is22() ==> ceil(if d.collateral == 0 { min as int } else { d.collateral as int }, d.witness_reward as int) <= ratio
    }
    // the fee of a transaction that may be accepted: it is not more than what the inputs are worth
    spec fn fee_some(m: Outs, s: Seq<Input>, e: Epoch, c: EpochConstants, spent: int) -> bool { ins_ok(m, s, e, c) && spent <= ins_sum(m, s) }
    """)
    if stakes:
        u.emit("""
    // stakes
    struct StakesTracker { x: u8 }
    impl StakesTracker {
        uninterp spec fn has(&self, v: PublicKeyHash) -> bool;
        uninterp spec fn entry(&self, v: PublicKeyHash, w: PublicKeyHash) -> Option<Stake>;
        #[verifier::external_body] fn check_validator_withdrawer(&self, v: PublicKeyHash, w: PublicKeyHash) -> (r: Result<(), StakesError>) ensures r is Ok <==> !self.has(v) || self.entry(v, w) is Some { unimplemented!() }
        #[verifier::external_body] fn query_stakes(&self, q: QueryStakesKey) -> (r: Result<Vec<StakeEntry>, StakesError>)
            ensures q is Key ==> (r is Ok <==> self.entry(q->Key_0.validator, q->Key_0.withdrawer) is Some), q is Key && r is Ok ==> r->Ok_0@.len() == 1 && r->Ok_0@[0].value == self.entry(q->Key_0.validator, q->Key_0.withdrawer)->0 { unimplemented!() }
    }
    """)
    for t in kinds:
        u.emit("impl %s { uninterp spec fn size(&self) -> u32; uninterp spec fn name(&self) -> Hash; uninterp spec fn named(&self, v: ProtocolVersion) -> Hash; #[verifier::external_body] fn weight(&self) -> (r: u32) ensures r == self.size() { unimplemented!() } #[verifier::external_body] fn hash(&self) -> (r: Hash) ensures r == self.name() { unimplemented!() } #[verifier::external_body] fn versioned_hash(&self, v: ProtocolVersion) -> (r: Hash) ensures r == self.named(v) { unimplemented!() } }" % t)
    S = [(r"&PublicKey\b", "&SecpKey"), (r"&Signature\b", "&SecpSig")]
    u.emit_fn(va, "add_secp_tx_signature_to_verify", sig_subst=S, subst=CONV, spec="""ensures final(signatures_to_verify)@.len() == old(signatures_to_verify)@.len() + 1, forall|i: int| 0 <= i < old(signatures_to_verify)@.len() ==> #[trigger] final(signatures_to_verify)@[i] == old(signatures_to_verify)@[i],
        ({ let s = final(signatures_to_verify)@[old(signatures_to_verify)@.len() as int]; s is SecpTx && s->SecpTx_public_key == *public_key && s->SecpTx_signature == *sig && s->SecpTx_data@ == data@ })""")


def rules(u):
    va, tf, tx, ch, dr, ve = u.src(VA), u.src(TF), u.src(TX), u.src(CH), u.src(DRQ), u.src(VE)
    model(u, ("VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction"))
    A = [(r"anyhow::Error", "AnyError")]
    DD = D + ["index"]
    NM = [d for d in DD if d != "opt_map"]
    u.emit_fn(va, "validate_pkh_signature", sig_subst=A, spec="requires utxo_diff.inv() ensures r is Ok <==> owned(utxo_diff@, *input, *keyed_signature)")
    u.emit_fn(va, "validate_transaction_signature", sig_subst=A, subst=CONV, skel=["for"], start="let ghost a = signatures_to_verify@;",
        loops={0: dict(iter_of=["inputs.iter().zip(signatures.iter())"], iter_as=lambda its, n, r: "both(inputs, signatures)", inv="""utxo_set.inv(), inputs@.len() == signatures@.len(), it0.seq().len() == inputs@.len(), forall|i: int| 0 <= i < inputs@.len() ==> *(#[trigger] it0.seq()[i]).0 == inputs@[i] && *it0.seq()[i].1 == signatures@[i],
            tx_hash_bytes@ == hashed(tx_hash), queued(a, signatures_to_verify@, signatures@, tx_hash, it0.index@ as int), forall|i: int| 0 <= i < it0.index@ ==> owned(utxo_set@, #[trigger] inputs@[i], signatures@[i]),
            forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] signatures@[i]).public_key.secp() is Some && signatures@[i].signature.secp() is Some""",
            start="proof { assert(it0.seq()[it0.index@ as int] == (input, keyed_signature)); assert(*input == inputs@[it0.index@ as int]); assert(*keyed_signature == signatures@[it0.index@ as int]); }")},
        spec="requires utxo_set.inv() ensures r is Ok <==> signed(utxo_set@, inputs@, signatures@), r is Ok ==> queued(old(signatures_to_verify)@, final(signatures_to_verify)@, signatures@, tx_hash, signatures@.len() as int)")
    ZERO = lambda v: {0: dict(inv="__i0 <= %s@.len(), forall|i: int| 0 <= i < __i0 ==> (#[trigger] %s@[i]).value != 0" % (v, v), dec="%s@.len() - __i0" % v)}
    V = "(match protocol_version { Some(v) => v, None => usual() })"
    def common(t, spent, extra):
        ok = "signed(utxo_diff@, %s.body.inputs@, %s.signatures@) && %s.body.inputs@.len() > 0 && fee_some(utxo_diff@, %s.body.inputs@, epoch, epoch_constants, %s) && %s" % (t, t, t, t, spent, extra)
        return "requires utxo_diff.inv() ensures r is Ok <==> %s, r is Ok ==> queued(old(signatures_to_verify)@, final(signatures_to_verify)@, %s.signatures@, %s, %s.signatures@.len() as int)" % (ok, t, "HASH", t)
    u.emit_fn(va, "validate_vt_transaction", desugar=DD, sig_subst=A, subst=CONV, skel=["for"], loops=ZERO("vt_tx.body.outputs"),
        spec=common("vt_tx", "outs_sum(vt_tx.body.outputs@) as int", "vt_tx.size() <= max_vt_weight && no_zero(vt_tx.body.outputs@)").replace("HASH", "vt_tx.named(%s)" % V) +
             ", r is Ok ==> r->Ok_0.0@.unref() == vt_tx.body.inputs@ && r->Ok_0.1@.unref() == vt_tx.body.outputs@ && r->Ok_0.2 == ins_sum(utxo_diff@, vt_tx.body.inputs@) - outs_sum(vt_tx.body.outputs@)")
    u.emit_fn(va, "validate_genesis_vt_transaction", desugar=DD, subst=CONV, skel=["for"], loops=ZERO("vt_tx.body.outputs"),
        spec="ensures r is Ok <==> vt_tx.body.inputs@.len() == 0 && vt_tx.signatures@.len() == 0 && vt_tx.body.outputs@.len() > 0 && no_zero(vt_tx.body.outputs@) && outs_sum(vt_tx.body.outputs@) <= u64::MAX, r is Ok ==> r->Ok_0.0@.unref() == vt_tx.body.outputs@ && r->Ok_0.1 == outs_sum(vt_tx.body.outputs@)")
    u.emit_fn(dr, "saturating_div_ceil", start="proof { if rhs > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(lhs as int, rhs as int); assert(lhs / rhs <= lhs) by (nonlinear_arith) requires rhs > 0; if lhs % rhs > 0 { assert(lhs / rhs < u64::MAX) by (nonlinear_arith) requires rhs > 0, lhs == rhs * (lhs / rhs) + lhs % rhs, lhs % rhs > 0, lhs <= u64::MAX; } } }",
              spec="ensures r == (if rhs == 0 { u64::MAX as int } else { ceil(lhs as int, rhs as int) })")
    u.emit_fn(dr, "calculate_reward_collateral_ratio", spec="ensures ({ let c = if collateral == 0 { collateral_minimum } else { collateral }; r == (if witness_reward == 0 { u64::MAX as int } else { ceil(c as int, witness_reward as int) }) })")
    u.emit_fn(va, "validate_data_request_output", subst=CONV, spec="ensures r is Ok <==> request_ok(*request, collateral_minimum, required_reward_collateral_ratio, *active_wips)")
    u.emit_fn(va, "validate_dr_transaction", desugar=DD, sig_subst=A, subst=CONV,
        spec=common("dr_tx", "outs_sum(dr_tx.body.outputs@) + dr_tx.body.dr_output.total()", """dr_tx.body.dr_output.total_ok() && dr_tx.size() <= max_dr_weight && dr_tx.body.outputs@.len() <= 1 && no_zero(dr_tx.body.outputs@)
            && (dr_tx.body.outputs@.len() == 1 ==> dr_tx.body.outputs@[0].pkh == utxo_diff@[dr_tx.body.inputs@[0].output_pointer].0.pkh)
            && request_ok(dr_tx.body.dr_output, collateral_minimum, required_reward_collateral_ratio, *active_wips) && (dr_tx.body.dr_output.collateral == 0 || dr_tx.body.dr_output.collateral >= collateral_minimum) && rad_ok(dr_tx.body.dr_output.data_request, *active_wips)""").replace("HASH", "dr_tx.named(%s)" % V) +
             ", r is Ok ==> r->Ok_0.0@.unref() == dr_tx.body.inputs@ && r->Ok_0.1@.unref() == dr_tx.body.outputs@ && r->Ok_0.2 == ins_sum(utxo_diff@, dr_tx.body.inputs@) - outs_sum(dr_tx.body.outputs@) - dr_tx.body.dr_output.total()")
    u.emit("type ValidatedStakeTransaction<'a> = (Vec<&'a Input>, &'a StakeOutput, u64, u32, &'a Option<ValueTransferOutput>);")
    SP = "(st_tx.body.output.value + (match st_tx.body.change { Some(c) => c.value as int, None => 0 }))"
    KEY = "st_tx.body.output.key.validator, st_tx.body.output.key.withdrawer"
    u.emit_fn(va, "validate_stake_transaction", desugar=NM, sig_subst=A, subst=CONV + QUERY,
        spec=common("st_tx", SP, """age(version_at(Some(epoch))) > 0 && st_tx.body.output.value >= min_stake_nanowits && (!stakes.has(st_tx.body.output.key.validator) || stakes.entry(%s) is Some)
            && st_tx.body.output.value + (match stakes.entry(%s) { Some(s) => s.coins.0 as int, None => 0 }) <= max_stake_nanowits""" % (KEY, KEY)).replace("requires utxo_diff.inv()", "requires utxo_diff.inv(), max_stake_nanowits < u64::MAX").replace("HASH", "st_tx.name()") +
             ", r is Ok ==> r->Ok_0.0@.unref() == st_tx.body.inputs@ && *r->Ok_0.1 == st_tx.body.output && r->Ok_0.2 == ins_sum(utxo_diff@, st_tx.body.inputs@) - %s && r->Ok_0.3 == st_tx.size() && *r->Ok_0.4 == st_tx.body.change" % SP)
    VS = [(r"\.map_err\(\|e\| \{\s*TransactionError::VerifyTransactionSignatureFail \{\s*hash: \{[^{}]*\},\s*msg: e\.to_string\(\),\s*\}\s*\}\)", "")] + CONV + [(r"message\.as_ref\(\)", "message.as_slice()")]
    u.emit("""
    spec fn sig_ok(t: UnstakeTransaction) -> bool {
        &&& t.signature.public_key.owner() == t.body.withdrawal.pkh
        &&& t.signature.public_key.secp() is Some && t.signature.signature.secp() is Some && verifies(t.signature.public_key.secp()->0, hashed(t.name()), t.signature.signature.secp()->0)
    }
    """)
    u.emit_fn(va, "validate_unstake_timelock", sig_subst=A, spec="ensures r is Ok <==> ut_tx.body.withdrawal.time_lock >= unstake_delay")
    u.emit_fn(va, "validate_unstake_signature", sig_subst=A, subst=VS, spec="ensures r is Ok <==> sig_ok(*ut_tx)")
    u.emit_fn(va, "validate_unstake_transaction", desugar=NM, sig_subst=A, subst=CONV + QUERY, spec="""ensures r is Ok <==> ({
            let e = stakes.entry(ut_tx.body.operator, ut_tx.signature.public_key.owner()); let all = ut_tx.body.withdrawal.value + ut_tx.body.fee; let coins = e->0.coins.0 as int;
            let taken = if age(version_at(Some(epoch))) >= 3 && all == 0 { coins } else { all };
            age(version_at(Some(epoch))) >= 2 && e is Some && all <= coins && ut_tx.body.nonce == e->0.nonce && (taken == coins || coins - taken >= min_stake_nanowits) && ut_tx.body.withdrawal.time_lock >= unstake_delay && sig_ok(*ut_tx) }),
        r is Ok ==> r->Ok_0.0 == ut_tx.body.fee && r->Ok_0.1 == ut_tx.size() && r->Ok_0.2@.len() == 1 && *r->Ok_0.2@[0] == ut_tx.body.withdrawal""")


def verus(u):
    f01.verus(u, "rules", before, FIELDS, rules)


def build(u):
    x = Extract([TF, VA, TX, CH, ER, UT, DB, DRQ, "storage/src/storage.rs"], mods=["utxo_pool", "utxo_db", "transaction_factory", "storage", "chain"],
                stubs=["Result", "SHA256", "PublicKey", "Signature", "KeyedSignature", "Secp256k1_PublicKey", "Secp256k1_Signature", "RADRequest", "Memoized", "StakeKey", "OldUnspentOutputsPool", "SignaturesToVerify", "validate_rad_request", "verify", "StakesTracker", "QueryStakesKey",
                       "ProtocolVersion", "get_protocol_version", "ActiveWips", "Epoch"],
                traits=["Display", "Debug", "FromStr"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db",
                    "StakeTransactionBody::authorization_is_valid", "PublicKeyHash::from_public_key"],
                subst=[(r"public_key: &PublicKey,(\s*)data: &\[u8\],(\s*)sig: &Signature", r"public_key: &SecpKey,\1data: &[u8],\2sig: &SecpSig")])
    return HEADER + x.build(["UtxoDiff::*", "Diff::*", "UnspentOutputsPool::*", "validate_vt_transaction", "validate_genesis_vt_transaction", "validate_dr_transaction", "validate_stake_transaction", "validate_unstake_transaction", "EpochConstants::*", "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash"])


harness = dict(kind="extract", name="f04", build=build, main="f04.rs", edition="2024")
