import f01, f04
from f04 import *
ID = "F05"
FILES = [VA, TX, CH]
CONST_FNS = ("validate_commit_collateral", "validate_commit_transaction", "validate_reveal_transaction", "validate_commit_reveal_signature", "add_dr_vrf_signature_to_verify", "add_secp_tx_signature_to_verify", "transaction_outputs_sum")
RULE = "commits with collateral of every kind (young, locked, repeated, foreign, created in the same block), reveals, and mutations of them, over requests in every stage"
ASSUMPTIONS = [a for a in f04.ASSUMPTIONS if "weight" not in a and "maximum" not in a and "first and only" not in a] + ["hashes of transactions and signatures are functions of them", "std HashMap behaves as a map",
    "an eligible witness has a stake entry (witnessing_eligibility starts from its power); who is eligible, with which target, is the eligibility code's",
    "the balance of a committer older than two superblocks, as visit_with_pkh adds it up, is a function of its arguments (searched, not proved)",
    "no output is newer than the block, nobody has u64::MAX staked, and witnesses and backup witnesses of a request fit in 16 bits (the weight limit of requests)"]
NOTE = "Whether a committer is eligible (reputation, stake ranks) is taken as given: B03 and the eligibility code. For the unscheduled version V2_1 nothing is claimed about collateral."
MORE = {"TransactionError": ["CollateralBelowMinimumStake", "OutputNotFound", "UnqualifiedCommitter", "CollateralPkhMismatch", "TimeLock", "CollateralNotMature", "InputValueOverflow", "NegativeCollateral", "IncorrectCollateral", "DataRequestNotFound", "ValidatorNotEligible", "SeveralCommitOutputs",
        "ZeroValueOutput", "PublicKeyHashMismatch", "DuplicatedReveal", "CommitNotFound", "MismatchedCommitment", "SignatureNotFound", "MismatchingSignaturesNumber"], "DataRequestOutput": ["collateral", "min_consensus_percentage", "data_request"], "StakeOutput": ["key"], "UnstakeTransactionBody": ["operator"]}
BALANCE = [(r"let mut balance = 0;\s*utxo_diff\.get_utxo_set\(\)\.visit_with_pkh\(\s*committer,\s*\|_\| \(\),\s*\|\(output_pointer, \(vto, _\)\)\| \{\s*if let Some\(utxo_block_number\) =\s*utxo_diff\.included_in_block_number\(output_pointer\)\s*(?:&&|\{ if)\s*utxo_block_number\s*< block_number\.saturating_sub\(\(2 \* superblock_period\)\.into\(\)\)\s*\{\s*balance \+= vto\.value;?\s*\}(?:\s*\})?\s*\},?\s*\);",
            "let balance = matured(utxo_diff, committer, block_number, superblock_period);")]
CONV5 = [(r"\.unwrap_or_default\(\)", ".entries_or_none()"), (r"\b(seen\w*)\.contains\(\s*(?!&)", r"\1.contains(&"), (r"\.coins\.nanowits\(\)", ".coins.0"), (r"let (\w+): u64 = (\w+)(\[0\]|\.first\(\)\.unwrap\(\))\.value\.coins\.into\(\)", r"let \1: u64 = \2\3.value.coins.0"), (r"\.first\(\)\s*\.map\(\|stake\| stake\.value\.coins\)\s*\.unwrap\(\)\s*\.into\(\)", ".first().unwrap().value.coins.0"), (r"&message,", "message.as_slice(),"), (r"tx_keyed_signature\s*\.signature\s*\.clone\(\)\s*\.try_into\(\)\s*\.map_err\(fte\)", "to_sig(&tx_keyed_signature.signature)"), (r"tx_keyed_signature\s*\.public_key\s*\.clone\(\)\s*\.try_into\(\)\s*\.map_err\(fte\)", "to_key(&tx_keyed_signature.public_key)"),
         (r"proof: proof\.clone\(\)", "proof: copied(proof)")] + BALANCE


def before(u):
    ch, tx = u.src(CH), u.src(TX)
    u.no_inline.update(["data_request_state", "backup_witnesses", "witnessing_eligibility", "calculate_reppoe_threshold", "wip_0008", "min", "copied"])
    u.need_derives(ch, "PublicKeyHash", ["PartialEq"])
    u.need_derives(ch, "Hash", ["PartialEq"])
    u.need_derives(ch, "DataRequestStage", ["PartialEq"])
    u.emit_raw(u.struct_text(u.src(VE), "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit_raw(u.struct_text(ch, "DataRequestStage", derive="Clone, Copy"))
    u.emit("""
    impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Hash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for DataRequestStage { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for DataRequestStage { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    struct RADRequest { time_lock: u64 }
    #[derive(Clone, Copy)] struct PublicKey { x: u8 }
    #[derive(Clone, Copy)] struct Signature { x: u8 }
    #[derive(Clone, Copy)] struct SecpKey { x: u8 }
    #[derive(Clone, Copy)] struct SecpSig { x: u8 }
    #[derive(Clone, Copy)] struct VrfProof { x: u8 }
    #[derive(Clone, Copy)] struct CheckpointVRF { x: u8 }
    #[derive(Clone, Copy)] struct StakeKey { validator: PublicKeyHash, withdrawer: PublicKeyHash }
    #[derive(Clone, Copy)] struct Wit(u64);
    #[derive(Clone, Copy)] struct Stake { coins: Wit, nonce: u64 }
    #[derive(Clone, Copy)] struct StakeEntry { key: StakeKey, value: Stake }
    enum QueryStakesKey { Key(StakeKey), Validator(PublicKeyHash) }
    enum Eligible { Yes, No(u8) }
    enum DataRequestError { NotCommitStage, NotRevealStage }
    struct StakesError {}
    struct ActiveWips {}
    struct ReputationEngine {}
    """)
    u.emit_raw(u.struct_text(ch, "KeyedSignature"))
    u.emit_raw(u.struct_text(u.src("data_structures/src/vrf.rs"), "DataRequestEligibilityClaim", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(ch, "SignaturesToVerify", keep_fields=["SecpTx", "VrfDr"], subst=[(r"Secp256k1_PublicKey", "SecpKey"), (r"Secp256k1_Signature", "SecpSig")]))
    for t, f in (("CommitTransactionBody", ["dr_pointer", "commitment", "proof", "collateral", "outputs"]), ("CommitTransaction", ["body", "signatures"]), ("RevealTransactionBody", ["dr_pointer", "pkh"]), ("RevealTransaction", ["body", "signatures"])):
        u.emit_raw(u.struct_text(tx, t, keep_fields=f))


def commits(u):
    va, ch = u.src(VA), u.src(CH)
    f04.model(u, ("CommitTransaction", "RevealTransaction"), False)
    u.emit(u.const_text(u.src("data_structures/src/wit.rs"), "NANOWITS_PER_WIT"))
    u.emit("struct Book<V> { x: Option<V> }")
    u.emit_raw(u.struct_text(ch, "DataRequestInfo", keep_fields=["commits", "reveals", "current_commit_round"], subst=[(r"HashMap<PublicKeyHash, (\w+)>", r"Book<\1>")]))
    u.emit_raw(u.struct_text(ch, "DataRequestState", keep_fields=["data_request", "info", "stage", "epoch"]))
    u.notes.add("HashMap<PublicKeyHash, _> is an external type with a map as its view")
    u.emit("""
    impl<T> OrValue<T> for Option<T> { fn or_value(self, d: T) -> (r: T) ensures r == (match self { Some(x) => x, None => d }) { match self { Some(x) => x, None => d } } }
    struct StakesTracker { x: u8 }
    impl<V> Book<V> {
        uninterp spec fn view(&self) -> Map<PublicKeyHash, V>;
        #[verifier::external_body] fn contains_key(&self, k: &PublicKeyHash) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        #[verifier::external_body] fn get(&self, k: &PublicKeyHash) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
        #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r <==> self@.len() == 0 { unimplemented!() }
    }
    impl From<DataRequestError> for AnyError { #[verifier::external_body] fn from(e: DataRequestError) -> AnyError { AnyError {} } }
    struct DataRequestPool { x: u8 }
    impl DataRequestPool { uninterp spec fn state(&self, h: Hash) -> Option<DataRequestState>;
        #[verifier::external_body] fn data_request_state(&self, h: &Hash) -> (r: Option<&DataRequestState>) ensures r is Some <==> self.state(*h) is Some, r is Some ==> *r->0 == self.state(*h)->0 { unimplemented!() } }
    impl DataRequestState { uninterp spec fn backups(&self) -> u16; #[verifier::external_body] fn backup_witnesses(&self) -> (r: u16) ensures r == self.backups() { unimplemented!() } }
    impl VrfProof { uninterp spec fn owner(&self) -> PublicKeyHash; #[verifier::external_body] fn pkh(&self) -> (r: PublicKeyHash) ensures r == self.owner() { unimplemented!() } }
    impl Signature { uninterp spec fn name(&self) -> Hash; #[verifier::external_body] fn hash(&self) -> (r: Hash) ensures r == self.name() { unimplemented!() } }
    uninterp spec fn lowest() -> Hash;
    impl Hash { #[verifier::external_body] fn min() -> (r: Hash) ensures r == lowest() { unimplemented!() } }
    impl ActiveWips { uninterp spec fn is8(&self) -> bool; #[verifier::external_body] fn wip_0008(&self) -> (r: bool) ensures r == self.is8() { unimplemented!() } }
    #[verifier::external_body] fn copied<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
    trait EntriesOrNone { fn entries_or_none(self) -> Vec<StakeEntry>; }
    impl EntriesOrNone for Result<Vec<StakeEntry>, StakesError> { #[verifier::external_body] fn entries_or_none(self) -> (r: Vec<StakeEntry>) ensures self is Ok ==> r == self->Ok_0, self is Err ==> r@.len() == 0 { unimplemented!() } }
    impl StakesTracker {
        // the stakes of a validator, in the order of the tracker
        uninterp spec fn of(&self, v: PublicKeyHash) -> Seq<StakeEntry>;
        // the target of an eligible witness
        uninterp spec fn chosen(&self, v: PublicKeyHash, e: Epoch, n: u16, round: u16, max: u16) -> Option<Hash>;
        #[verifier::external_body] fn query_stakes(&self, q: QueryStakesKey) -> (r: Result<Vec<StakeEntry>, StakesError>)
            ensures q is Validator ==> (r is Ok <==> self.of(q->Validator_0).len() > 0), q is Validator && r is Ok ==> r->Ok_0@ == self.of(q->Validator_0) { unimplemented!() }
        #[verifier::external_body] fn witnessing_eligibility(&self, v: PublicKeyHash, e: Epoch, n: u16, round: u16, max: u16) -> (r: Result<(Eligible, Hash, u64), StakesError>)
            ensures r is Ok && r->Ok_0.0 is Yes <==> self.chosen(v, e, n, round, max) is Some, r is Ok && r->Ok_0.0 is Yes ==> r->Ok_0.1 == self.chosen(v, e, n, round, max)->0 && self.of(v).len() > 0 { unimplemented!() }
    }
    uninterp spec fn reppoe(r: ReputationEngine, p: PublicKeyHash, n: u16, d: u32, w: ActiveWips) -> Hash;
    #[verifier::external_body] fn calculate_reppoe_threshold(r: &ReputationEngine, p: &PublicKeyHash, n: u16, d: u32, w: &ActiveWips) -> (o: (Hash, u64)) ensures o.0 == reppoe(*r, *p, n, d, *w) { unimplemented!() }
    uninterp spec fn balance_of(d: UtxoDiff, p: PublicKeyHash, b: u32, s: u16) -> u64;
    // visit_with_pkh(..): the outputs of an address older than two superblocks, added up
    #[verifier::external_body] fn matured(d: &UtxoDiff, p: PublicKeyHash, b: u32, s: u16) -> (r: u64) ensures r == balance_of(*d, p, b, s) { unimplemented!() }
    // the block an output is from: the one being built if it is created there
    spec fn block_of(d: UtxoDiff, k: OutputPointer, now: u32) -> int { if d.diff.utxos_to_add@.contains_key(k) { now as int } else { d@[k].1 as int } }
    spec fn limit(now: u32, age: u32) -> int { if now >= age { now - age } else { 0 } }
    spec fn not_future(d: UtxoDiff, now: u32) -> bool { forall|k: OutputPointer| #[trigger] d@.contains_key(k) ==> block_of(d, k, now) <= now }
    spec fn sane(s: StakesTracker) -> bool { forall|v: PublicKeyHash, i: int| 0 <= i < s.of(v).len() ==> (#[trigger] s.of(v)[i]).value.coins.0 < u64::MAX }
    // an output that may be used as collateral by its owner
    spec fn usable(d: UtxoDiff, k: OutputPointer, who: PublicKeyHash, e: Epoch, now: u32, maturity: u32, period: u16, v: ProtocolVersion) -> bool {
        &&& d@[k].0.pkh == who && block_of(d, k, now) <= limit(now, maturity)
        &&& age(v) < 2 && e > 2_245_000 ==> balance_of(d, who, now, period) >= 100_000_000_000
    }
    spec fn collateral_ok(t: CommitTransaction, d: UtxoDiff, e: Epoch, c: EpochConstants, required: u64, now: u32, maturity: u32, period: u16, v: ProtocolVersion, s: StakesTracker, min: u64) -> bool {
        let who = t.body.proof.proof.owner(); let left = ins_sum(d@, t.body.collateral@) - outs_sum(t.body.outputs@);
        &&& ins_ok(d@, t.body.collateral@, e, c)
        &&& forall|i: int| 0 <= i < t.body.collateral@.len() ==> usable(d, (#[trigger] t.body.collateral@[i]).output_pointer, who, e, now, maturity, period, v)
        &&& left == required || (v is V2_0 && left == 0)
        &&& age(v) >= 2 ==> s.of(who)[0].value.coins.0 >= min + required
    }
    spec fn one_signature(ks: Seq<KeyedSignature>) -> bool { ks.len() == 1 && ks[0].public_key.secp() is Some && ks[0].signature.secp() is Some }
    spec fn commit_ok(t: CommitTransaction, st: DataRequestState, w: ActiveWips, e: Epoch, c: EpochConstants, v: ProtocolVersion, s: StakesTracker, rounds: u16) -> bool {
        let who = t.body.proof.proof.owner();
        &&& st.stage is COMMIT
        &&& age(v) >= 2 ==> s.chosen(who, e, st.data_request.witnesses, st.info.current_commit_round, rounds) is Some
        &&& t.body.outputs@.len() <= 1 && (t.body.outputs@.len() == 1 ==> t.body.outputs@[0].value != 0 && t.body.outputs@[0].pkh == who)
        &&& !w.is8() ==> c.start(e) is Some && st.data_request.data_request.time_lock <= i64::MAX && st.data_request.data_request.time_lock as int <= c.start(e)->0
        &&& one_signature(t.signatures@) && t.signatures@[0].public_key.owner() == who
    }
    spec fn locked(d: DataRequestOutput, min: u64) -> u64 { if d.collateral == 0 { min } else { d.collateral } }
    """)
    A = [(r"anyhow::Error", "AnyError")]
    NC = [d for d in D if d != "opt_map"]
    u.emit_impl("<'a> UtxoDiff<'a>", [u.fn(u.src(UT), "UtxoDiff::included_in_block_number", desugar=D, spec="requires self.inv() ensures self@.contains_key(*output_pointer) ==> r == (if self.diff.utxos_to_add@.contains_key(*output_pointer) { None } else { Some(self@[*output_pointer].1) })")])
    u.emit_fn(va, "validate_commit_reveal_signature", desugar=[d for d in D if d != "opt_map_err"], sig_subst=A, subst=CONV5 + f04.CONV, spec="""ensures r is Ok <==> one_signature(signatures@), r is Ok ==> *r->Ok_0 == signatures@[0] && queued(old(signatures_to_verify)@, final(signatures_to_verify)@, signatures@, tx_hash, 1)""")
    u.emit_fn(va, "add_dr_vrf_signature_to_verify", subst=CONV5, spec="""ensures final(signatures_to_verify)@ == old(signatures_to_verify)@.push(SignaturesToVerify::VrfDr { proof: *proof, vrf_input, dr_hash, target_hash, withdrawer, inclusion_epoch })""")
    REQ = "requires utxo_diff.inv(), not_future(*utxo_diff, block_number), sane(*stakes)"
    C = "collateral_ok(*co_tx, *utxo_diff, epoch, epoch_constants, %s, block_number, collateral_age, superblock_period, protocol_version, *stakes, %s)"
    u.emit_fn(va, "validate_commit_collateral", desugar=NC, sig_subst=A, subst=CONV5 + f04.CONV, skel=["for"],
        spec=REQ + ", age(protocol_version) >= 2 ==> stakes.of(co_tx.body.proof.proof.owner()).len() > 0 ensures !(protocol_version is V2_1) ==> (r is Ok <==> %s)" % (C % ("required_collateral", "min_stake")),
        start="let ghost m = utxo_diff@; let ghost s = co_tx.body.collateral@;",
        loops={0: dict(iter_of=["&co_tx.body.collateral"], iter_as=lambda its, n, r: "co_tx.body.collateral.iter()", inv="""it0.seq().unref() == s, s == co_tx.body.collateral@, m == utxo_diff@, utxo_diff.inv(), not_future(*utxo_diff, block_number), in_value == ins_sum(m, s.take(it0.index@)),
            commit_pkh == co_tx.body.proof.proof.owner(), block_number_limit == limit(block_number, collateral_age), qualification_requirement == 100_000_000_000,
            age(protocol_version) >= 2 ==> stakes.of(commit_pkh)[0].value.coins.0 >= min_stake + required_collateral,
            forall|i: int| 0 <= i < it0.index@ ==> m.contains_key((#[trigger] s[i]).output_pointer) && unlocked(m[s[i].output_pointer].0, epoch, epoch_constants) && usable(*utxo_diff, s[i].output_pointer, commit_pkh, epoch, block_number, collateral_age, superblock_period, protocol_version),
            forall|i: int, j: int| 0 <= i < j < it0.index@ ==> (#[trigger] s[i]).output_pointer != (#[trigger] s[j]).output_pointer,
            forall|p: &OutputPointer| #[trigger] seen_output_pointers@.contains(p) <==> exists|i: int| 0 <= i < it0.index@ && (#[trigger] s[i]).output_pointer == *p""", before="proof { assert(s.take(0) =~= Seq::empty()); }",
            start="proof { ins_step(m, s, it0.index@); assert(*input == s[it0.index@]); }", after="proof { assert(s.take(s.len() as int) =~= s); }")})
    u.emit_fn(va, "validate_commit_transaction", desugar=D, sig_subst=A, subst=CONV5 + f04.CONV,
        spec=REQ + """, ({ let s = dr_pool.state(co_tx.body.dr_pointer); s is Some ==> s->0.data_request.witnesses + s->0.backups() <= u16::MAX }) ensures ({
            let s = dr_pool.state(co_tx.body.dr_pointer); let who = co_tx.body.proof.proof.owner();
            &&& !(protocol_version is V2_1) ==> (r is Ok <==> s is Some && commit_ok(*co_tx, s->0, *active_wips, epoch, epoch_constants, protocol_version, *stakes, max_rounds) && COLL)
            &&& r is Ok ==> r->Ok_0 == (co_tx.body.dr_pointer, s->0.data_request.witnesses, s->0.data_request.commit_and_reveal_fee)
            &&& r is Ok ==> ({ let (a, b) = (old(signatures_to_verify)@, final(signatures_to_verify)@);
                b.len() == a.len() + 2 && b[a.len() as int + 1] == (SignaturesToVerify::VrfDr { proof: co_tx.body.proof, vrf_input, dr_hash: co_tx.body.dr_pointer,
                    target_hash: if age(protocol_version) < 2 { reppoe(*rep_eng, who, (s->0.data_request.witnesses + s->0.backups()) as u16, minimum_reppoe_difficulty, *active_wips) } else { stakes.chosen(who, epoch, s->0.data_request.witnesses, s->0.info.current_commit_round, max_rounds)->0 },
                    withdrawer: if age(protocol_version) < 2 { None } else { Some(stakes.of(who)[0].key.withdrawer) }, inclusion_epoch: Some(s->0.epoch) })
                && queued(a, b.drop_last(), co_tx.signatures@, co_tx.name(), 1) })
        })""".replace("COLL", C % ("locked(s->0.data_request, collateral_minimum)", "min_stake")))
    u.emit_fn(va, "validate_reveal_transaction", desugar=D, sig_subst=A, subst=CONV5 + f04.CONV, spec="""ensures ({ let s = dr_pool.state(re_tx.body.dr_pointer); let who = re_tx.body.pkh;
            &&& r is Ok <==> s is Some && s->0.stage is REVEAL && one_signature(re_tx.signatures@) && re_tx.signatures@[0].public_key.owner() == who && !s->0.info.reveals@.contains_key(who)
                && s->0.info.commits@.contains_key(who) && s->0.info.commits@[who].body.commitment == re_tx.signatures@[0].signature.name()
            &&& r is Ok ==> r->Ok_0 == s->0.data_request.commit_and_reveal_fee && queued(old(signatures_to_verify)@, final(signatures_to_verify)@, re_tx.signatures@, re_tx.name(), 1) })""")


def verus(u):
    f01.verus(u, "commits", before, MORE, commits)


def build(u):
    x = Extract([TF, VA, TX, CH, ER, UT, DB, DRQ, "data_structures/src/vrf.rs", "data_structures/src/wit.rs", "storage/src/storage.rs"], mods=["utxo_pool", "utxo_db", "transaction_factory", "storage", "chain"],
                stubs=["Result", "SHA256", "PublicKey", "Signature", "KeyedSignature", "Secp256k1_PublicKey", "Secp256k1_Signature", "RADRequest", "Memoized", "StakeKey", "OldUnspentOutputsPool", "SignaturesToVerify", "StakesTracker", "QueryStakesKey", "ProtocolVersion", "get_protocol_version", "ActiveWips", "Epoch",
                       "Eligible", "ReputationEngine", "calculate_reppoe_threshold", "DataRequestPool", "VrfProof", "CheckpointVRF", "Bn256PublicKey", "TallyTransaction"],
                traits=["Display", "Debug", "FromStr", "Default"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db",
                    "PublicKeyHash::from_public_key", "Hash::min"],
                subst=[(r"public_key: &PublicKey,(\s*)data: &\[u8\],(\s*)sig: &Signature", r"public_key: &SecpKey,\1data: &[u8],\2sig: &SecpSig")])
    return HEADER + x.build(["UtxoDiff::*", "Diff::*", "UnspentOutputsPool::*", "validate_commit_transaction", "validate_reveal_transaction", "DataRequestState", "DataRequestState::backup_witnesses", "DataRequestInfo", "DataRequestEligibilityClaim", "EpochConstants::*", "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash"])


harness = dict(kind="extract", name="f05", build=build, main="f05.rs", edition="2024")
