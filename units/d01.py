from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "D01"
CH, DR, TX, VE, EN = "data_structures/src/chain/mod.rs", "data_structures/src/data_request.rs", "data_structures/src/transaction.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/error.rs"
FILES = [CH, DR]
RULE = "pools with 0, 1, 3 or 18 extra rounds; histories of up to 40 requests (signed or not), commits, reveals, tallies (for known and unknown requests, in every stage), own reveals and epoch ends (with and without an epoch, few or many validators, before and after 2.0)"
ASSUMPTIONS = ["std HashMap, HashSet and BTreeMap behave as maps and sets", "a data request enters the pool once (its hash is new)",
               "every transaction handed to the pool carries a signature (validated before)", "the number of extra rounds is below 65535",
               "cloning a transaction gives an equal transaction"]
NOTE = "Building a block's transactions and their validation against the pool are not part of it (the crates that do so do not build here). get_dr_output_pointers_by_epoch is only searched; get_all_reveals is not covered (get_reveals: D02)."
G = [(r"(\w[\w.]*)\s*\.data_request_pool\s*\.get_mut\(", r"get_mut_in(&mut \1.data_request_pool, "),
     (r"((?:\w+\s*\.\s*)+\w+)\s*\.entry\(([^()]*)\)\s*\.or_default\(\)", r"entry_or_default(&mut \1, \2)"),
     (r"anyhow::Error", "AnyError")]
CL = [(r"\b(transaction|commit_transaction|reveal_transaction|tally_transaction|dr_transaction)\.clone\(\)", r"cl(\1)")]
S = "DataRequestState::"
P = "DataRequestPool::"


def verus(u):
    c, d, tx, ve = u.src(CH), u.src(DR), u.src(TX), u.src(VE)
    u.no_inline.update(["versioned_hash", "from_public_key", "from_epoch", "pkh", "hash", "from_epoch_opt", "get_environment"])
    u.file("requests", LIGHT_PRELUDE)
    u.need_derives(c, "DataRequestStage", ["PartialEq", "Clone", "Copy"])
    opaque = lambda n, e="": "#[derive(Clone, Copy)] pub struct %s { x: u64 }\n" % n
    u.emit("global size_of usize == 8; type Epoch = u32;")
    for n in ("Hash", "PublicKeyHash"):
        u.emit(opaque(n) + """
    impl vstd::std_specs::cmp::PartialEqSpecImpl for %(n)s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for %(n)s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for %(n)s {}
    impl std::hash::Hash for %(n)s { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    """ % dict(n=n))
    u.emit_raw(u.struct_text(ve, "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit("""
    mod km { use super::*;
        pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Hash>();
        pub broadcast axiom fn k2() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKeyHash>();
    }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms, km::k1, km::k2};
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    #[verifier::external_body] fn take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
    // HashMap::get_mut
    #[verifier::external_body]
    fn get_mut_in<'a, K, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ }
    { unimplemented!() }
    #[verifier::external_body]
    fn map_keys_vec<V>(m: &HashMap<Hash, V>) -> (r: Vec<Hash>) ensures r@.no_duplicates(), forall|k: Hash| r@.contains(k) <==> m@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    fn pairs<V>(m: &HashMap<Hash, V>) -> (r: Vec<(&Hash, &V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(*(#[trigger] r@[i]).0) && m@[*r@[i].0] == *r@[i].1,
            forall|h: Hash| m@.contains_key(h) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == h { unimplemented!() }
    // BTreeMap::entry(k).or_default()
    #[verifier::external_body]
    fn entry_or_default<'a>(m: &'a mut BTreeMap<Epoch, HashSet<Hash>>, k: Epoch) -> (r: &'a mut HashSet<Hash>)
        ensures r@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Set::<Hash>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
    // anyhow::Error: one opaque value
    pub struct AnyError {}
    impl From<DataRequestError> for AnyError { #[verifier::external_body] fn from(e: DataRequestError) -> AnyError { AnyError {} } }
    impl From<TransactionError> for AnyError { #[verifier::external_body] fn from(e: TransactionError) -> AnyError { AnyError {} } }
    #[derive(Clone, Copy)] pub struct PublicKey { x: u64 }
    uninterp spec fn pkh_of(k: PublicKey) -> PublicKeyHash;
    impl PublicKeyHash { #[verifier::external_body] fn from_public_key(k: &PublicKey) -> (r: Self) ensures r == pkh_of(*k) { unimplemented!() } }
    impl PublicKey { #[verifier::external_body] fn pkh(&self) -> (r: PublicKeyHash) ensures r == pkh_of(*self) { unimplemented!() } }
    uninterp spec fn version_at(e: Option<Epoch>) -> ProtocolVersion;
    impl ProtocolVersion {
        #[verifier::external_body] fn from_epoch(e: Epoch) -> (r: Self) ensures r == version_at(Some(e)) { unimplemented!() }
        #[verifier::external_body] fn from_epoch_opt(e: Option<Epoch>) -> (r: Self) ensures r == version_at(e) { unimplemented!() }
    }
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn age(v: ProtocolVersion) -> int { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 1, ProtocolVersion::V2_0 => 2, ProtocolVersion::V2_1 => 3 } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for ProtocolVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProtocolVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(age(*self), age(*o))) } }
    impl PartialOrd for ProtocolVersion { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
    """)
    u.emit_raw(u.struct_text(c, "Environment", derive="Clone, Copy"))
    u.emit("""
    uninterp spec fn environment() -> Environment;
    #[verifier::external_body] fn get_environment() -> (r: Environment) ensures r == environment() { unimplemented!() }
    """)
    u.emit_raw(u.struct_text(u.src(EN), "DataRequestError", keep_fields=["AddCommitFail", "AddRevealFail", "AddTallyFail", "NotCommitStage", "NotRevealStage", "NotTallyStage"]))
    u.emit_raw(u.struct_text(u.src(EN), "TransactionError", keep_fields=["SignatureNotFound", "FeeOverflow"], derive="Debug"))
    u.emit_raw(u.struct_text(c, "KeyedSignature", keep_fields=["public_key"]))
    u.emit_raw(u.struct_text(c, "DataRequestOutput", keep_fields=["witness_reward", "witnesses", "commit_and_reveal_fee", "collateral"]))
    for t, f in (("CommitTransactionBody", ["dr_pointer"]), ("RevealTransactionBody", ["dr_pointer"]), ("DRTransactionBody", ["dr_output"])):
        u.emit_raw(u.struct_text(tx, t, keep_fields=f))
    for t in ("CommitTransaction", "RevealTransaction", "DRTransaction"):
        u.emit_raw(u.struct_text(tx, t, keep_fields=["body", "signatures"]))
        u.emit("impl %s { uninterp spec fn name(&self, v: ProtocolVersion) -> Hash; #[verifier::external_body] fn versioned_hash(&self, v: ProtocolVersion) -> (r: Hash) ensures r == self.name(v) { unimplemented!() } }" % t)
    u.emit_raw(u.struct_text(tx, "TallyTransaction", keep_fields=["dr_pointer"]))
    for t in ("CommitTransaction", "RevealTransaction", "DRTransaction", "TallyTransaction", "DataRequestOutput"):
        u.emit("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }" % t)
    u.emit("impl TallyTransaction { #[verifier::external_body] fn hash(&self) -> Hash { unimplemented!() } }")
    u.emit_raw(u.struct_text(c, "DataRequestStage", derive="Clone, Copy, PartialEq, Eq, Structural"))
    u.emit_raw(u.struct_text(c, "DataRequestInfo"))
    u.emit_raw(u.struct_text(c, "DataRequestState"))
    u.emit_raw(u.struct_text(d, "DataRequestPool"))
    u.emit("""
    type Stage = DataRequestStage;
    spec fn empty_info(i: DataRequestInfo) -> bool { i.commits@ == Map::<PublicKeyHash, CommitTransaction>::empty() && i.reveals@ == Map::<PublicKeyHash, RevealTransaction>::empty() && i.tally is None && i.block_hash_tally_tx is None }
    impl DataRequestState {
        // where an epoch end takes a request
        spec fn next_stage(&self, extra: u16, too_many: bool) -> Stage {
            match self.stage {
                Stage::COMMIT => if self.info.commits@.len() > 0 { Stage::REVEAL } else if !too_many && self.info.current_commit_round <= extra { Stage::COMMIT } else { Stage::TALLY },
                Stage::REVEAL => if self.info.reveals@.len() < self.data_request.witnesses && self.info.current_reveal_round <= extra { Stage::REVEAL } else { Stage::TALLY },
                Stage::TALLY => Stage::TALLY,
            }
        }
        spec fn stepped(&self, extra: u16, too_many: bool) -> Self {
            let s = self.next_stage(extra, too_many);
            DataRequestState { stage: s, info: DataRequestInfo { current_stage: Some(s),
                current_commit_round: if self.stage is COMMIT && s is COMMIT { (self.info.current_commit_round + 1) as u16 } else { self.info.current_commit_round },
                current_reveal_round: if self.stage is COMMIT && s is REVEAL { 1 } else if self.stage is REVEAL && s is REVEAL { (self.info.current_reveal_round + 1) as u16 } else { self.info.current_reveal_round },
                ..self.info }, ..*self }
        }
        spec fn ok(&self, extra: u16) -> bool {
            let i = self.info;
            &&& i.current_stage == Some(self.stage) && i.tally is None
            &&& i.current_commit_round <= extra + 1 && i.current_reveal_round <= extra + 1
            &&& self.stage is COMMIT ==> i.reveals@.len() == 0 && i.current_reveal_round == 0
            &&& self.stage is REVEAL ==> i.current_reveal_round >= 1 && i.commits@.len() > 0
        }
        // what a commit, a reveal and a tally do
        spec fn with_commit(&self, next: &Self, k: PublicKeyHash, t: CommitTransaction) -> bool {
            *next == (DataRequestState { info: DataRequestInfo { commits: next.info.commits, ..self.info }, ..*self }) && next.info.commits@ == self.info.commits@.insert(k, t)
        }
        spec fn with_reveal(&self, next: &Self, k: PublicKeyHash, t: RevealTransaction) -> bool {
            *next == (DataRequestState { info: DataRequestInfo { reveals: next.info.reveals, ..self.info }, ..*self }) && next.info.reveals@ == self.info.reveals@.insert(k, t)
        }
        spec fn finished(&self, t: TallyTransaction, h: Hash) -> DataRequestInfo { DataRequestInfo { tally: Some(t), block_hash_tally_tx: Some(h), current_stage: None, ..self.info } }
    }
    """)
    u.emit_impl(" DataRequestInfo", [u.fn(c, "DataRequestInfo::default", trait="Default", ret="r", subst=[(r"\bDefault::default\(\)", "HashMap::new()")], spec="ensures empty_info(r), r.current_commit_round == 0, r.current_reveal_round == 0, r.current_stage == Some(Stage::COMMIT), r.block_hash_dr_tx is None")])
    u.emit_impl(" DataRequestState", [
        u.fn(c, S + "new", ret="r", spec="ensures empty_info(r.info), r.stage is COMMIT, r.data_request == data_request, r.pkh == pkh, r.epoch == epoch, r.info.block_hash_dr_tx == block_hash_dr_tx, forall|x: u16| r.ok(x)"),
        u.fn(c, S + "add_commit", ret="r", subst=G, spec="ensures match r { Ok(_) => old(self).stage is COMMIT && old(self).with_commit(final(self), pkh, commit), Err(_) => !(old(self).stage is COMMIT) && *final(self) == *old(self) }"),
        u.fn(c, S + "add_reveal", ret="r", subst=G, spec="ensures match r { Ok(_) => old(self).stage is REVEAL && old(self).with_reveal(final(self), pkh, reveal), Err(_) => !(old(self).stage is REVEAL) && *final(self) == *old(self) }"),
        u.fn(c, S + "add_tally", ret="r", subst=G, spec="ensures match r { Ok(i) => self.stage is TALLY && i == self.finished(tally, *block_hash_tally_tx), Err(_) => !(self.stage is TALLY) }"),
        u.fn(c, S + "update_stage", spec="requires extra_rounds < u16::MAX, old(self).stage is TALLY ==> old(self).info.tally is None ensures *final(self) == old(self).stepped(extra_rounds, too_many_witnesses)"),
        u.fn(c, S + "set_stage", spec="ensures *final(self) == (DataRequestState { stage, info: DataRequestInfo { current_stage: Some(stage), ..old(self).info }, ..*old(self) })"),
    ])
    u.emit("""
    pub assume_specification [u16::saturating_pow] (b: u16, e: u32) -> (r: u16) ensures r == (if vstd::arithmetic::power::pow(b as int, e as nat) > u16::MAX { u16::MAX as int } else { vstd::arithmetic::power::pow(b as int, e as nat) });
    // witnesses for a commit round: half of 2^(round - 1) times the requested ones, in 16 bits
    spec fn min16(x: int) -> int { if x > 65535 { 65535 } else { x } }
    spec fn backup(w: u16, round: u16) -> int { min16(w * min16(vstd::arithmetic::power::pow(2, (if round == 0 { 0 } else { round - 1 }) as nat))) / 2 }
    """)
    u.emit_fn(c, "calculate_backup_witnesses", ret="r", start="proof { vstd::arithmetic::power::lemma_pow_positive(2, (if commit_round == 0 { 0 } else { commit_round - 1 }) as nat); vstd::arithmetic::mul::lemma_mul_nonnegative(witnesses as int, min16(vstd::arithmetic::power::pow(2, (if commit_round == 0 { 0 } else { commit_round - 1 }) as nat))); }", spec="ensures r == backup(witnesses, commit_round)")
    u.emit_impl(" DataRequestState", [u.fn(c, S + "backup_witnesses", ret="r", spec="ensures r == backup(self.data_request.witnesses, self.info.current_commit_round)")])
    u.emit_raw(u.const_text(u.src("data_structures/src/lib.rs"), "DEFAULT_VALIDATOR_COUNT_FOR_TESTS"))
    u.emit("""
    spec fn too_many(o: DataRequestOutput, n: usize, e: Option<Epoch>) -> bool { age(version_at(e)) >= 2 && o.witnesses > n / (if environment() is Mainnet { 4 } else { 2 }) }
    // whether the node has a reveal to send for this request
    spec fn sends(s: DataRequestState, t: RevealTransaction) -> bool { let k = pkh_of(t.signatures@[0].public_key); s.stage is REVEAL && s.info.commits@.contains_key(k) && !s.info.reveals@.contains_key(k) }
    struct PV { pool: Map<Hash, DataRequestState>, waiting: Map<Hash, RevealTransaction>, stored: Seq<DataRequestInfo>, extra: u16 }
    type Listing = Map<Epoch, HashSet<Hash>>;
    spec fn listed(l: Listing, e: Epoch, h: Hash) -> bool { l.contains_key(e) && l[e]@.contains(h) }
    spec fn open_in(p: Map<Hash, DataRequestState>, e: Epoch, h: Hash) -> bool { p.contains_key(h) && p[h].stage is COMMIT && p[h].epoch == e }
    // the requests listed as open for commits are exactly those in the commit stage, under their epoch
    spec fn pool_ok(v: PV, l: Listing) -> bool {
        &&& v.extra < u16::MAX
        &&& forall|h: Hash| #[trigger] v.pool.contains_key(h) ==> v.pool[h].ok(v.extra)
        &&& forall|e: Epoch, h: Hash| #[trigger] listed(l, e, h) <==> open_in(v.pool, e, h)
        &&& forall|e: Epoch| #[trigger] l.contains_key(e) ==> l[e]@.len() > 0
        &&& forall|h: Hash| #[trigger] v.waiting.contains_key(h) ==> v.waiting[h].signatures@.len() > 0
    }
    impl DataRequestPool {
        spec fn v(&self) -> PV { PV { pool: self.data_request_pool@, waiting: self.waiting_for_reveal@, stored: self.to_be_stored@, extra: self.extra_rounds } }
        spec fn l(&self) -> Listing { self.data_requests_by_epoch@ }
        spec fn ok(&self) -> bool { pool_ok(self.v(), self.l()) }
        spec fn only_pool(&self, next: &Self) -> bool { next.l() == self.l() && next.v() == (PV { pool: next.v().pool, ..self.v() }) }
    }
    """)
    u.emit("""
    // t is the reveal to send for a request in done
    spec fn due(pool: Map<Hash, DataRequestState>, waiting: Map<Hash, RevealTransaction>, done: Set<Hash>, t: RevealTransaction) -> bool { exists|h: Hash| #[trigger] done.contains(h) && waiting.contains_key(h) && sends(pool[h], waiting[h]) && waiting[h] == t }
    proof fn took(s: Seq<Hash>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1).to_set() == s.take(i).to_set().insert(s[i])
    {
        PROBE(took);
        assert forall|h: Hash| #[trigger] s.take(i + 1).to_set().contains(h) <==> s.take(i).to_set().insert(s[i]).contains(h) by {
            if s.take(i).contains(h) { let j = choose|j: int| 0 <= j < i && #[trigger] s.take(i)[j] == h; assert(s.take(i + 1)[j] == h); }
            if h == s[i] { assert(s.take(i + 1)[i] == h); }
            if s.take(i + 1).contains(h) { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] s.take(i + 1)[j] == h; if j < i { assert(s.take(i)[j] == h); } }
        }
        assert(s.take(i + 1).to_set() =~= s.take(i).to_set().insert(s[i]));
    }
    // the sweep at an epoch end, after the requests in done
    spec fn swept(o: PV, pool: Map<Hash, DataRequestState>, listing: Listing, waiting: Map<Hash, RevealTransaction>, out: Seq<RevealTransaction>, done: Set<Hash>, n: usize, e: Option<Epoch>) -> bool {
        &&& pool.dom() == o.pool.dom()
        &&& forall|h: Hash| #[trigger] pool.contains_key(h) ==> pool[h] == (if done.contains(h) { o.pool[h].stepped(o.extra, too_many(o.pool[h].data_request, n, e)) } else { o.pool[h] })
        &&& forall|x: Epoch, h: Hash| #[trigger] listed(listing, x, h) <==> open_in(o.pool, x, h) && pool[h].stage is COMMIT
        &&& forall|x: Epoch| #[trigger] listing.contains_key(x) ==> listing[x]@.len() > 0
        &&& forall|h: Hash| #[trigger] waiting.contains_key(h) <==> o.waiting.contains_key(h) && !(done.contains(h) && pool[h].stage is TALLY)
        &&& forall|h: Hash| #[trigger] waiting.contains_key(h) ==> waiting[h] == o.waiting[h]
        &&& forall|h: Hash| #[trigger] done.contains(h) && waiting.contains_key(h) && sends(pool[h], waiting[h]) ==> out.contains(waiting[h])
        &&& forall|i: int| 0 <= i < out.len() ==> due(pool, waiting, done, #[trigger] out[i])
    }
    """)
    u.emit("""
    spec fn unlisted(l: Listing, m: Listing, e: Epoch, k: Hash) -> bool {
        &&& forall|x: Epoch, h: Hash| #[trigger] listed(m, x, h) <==> listed(l, x, h) && !(x == e && h == k)
        &&& (forall|x: Epoch| #[trigger] l.contains_key(x) ==> l[x]@.len() > 0) ==> forall|x: Epoch| #[trigger] m.contains_key(x) ==> m[x]@.len() > 0
    }
    proof fn sweep_step(o: PV, l: Listing, p: Map<Hash, DataRequestState>, q: Map<Hash, DataRequestState>, m: Listing, w: Map<Hash, RevealTransaction>, x: Map<Hash, RevealTransaction>, out: Seq<RevealTransaction>, put: Seq<RevealTransaction>, done: Set<Hash>, k: Hash, n: usize, e: Option<Epoch>)
        requires swept(o, p, l, w, out, done, n, e), !done.contains(k), o.pool.contains_key(k), forall|h: Hash| done.contains(h) ==> o.pool.contains_key(h), o.pool[k].ok(o.extra), o.extra < u16::MAX,
            q == p.insert(k, o.pool[k].stepped(o.extra, too_many(o.pool[k].data_request, n, e))),
            q[k].stage is COMMIT ==> m == l, !(q[k].stage is COMMIT) ==> unlisted(l, m, q[k].epoch, k) || !(o.pool[k].stage is COMMIT) && m == l,
            x == (if q[k].stage is TALLY { w.remove(k) } else { w }),
            put == (if w.contains_key(k) && sends(q[k], w[k]) { out.push(w[k]) } else { out }),
        ensures swept(o, q, m, x, put, done.insert(k), n, e)
    {
        PROBE(sweep_step);
        assert(q.dom() =~= p.dom()); assert(q[k] == o.pool[k].stepped(o.extra, too_many(o.pool[k].data_request, n, e))); assert(put =~= out || put =~= out.push(w[k]));
        assert forall|h: Hash| #[trigger] x.contains_key(h) <==> o.waiting.contains_key(h) && !(done.insert(k).contains(h) && q[h].stage is TALLY) by { assert(w.contains_key(h) <==> o.waiting.contains_key(h) && !(done.contains(h) && p[h].stage is TALLY)); }
        assert forall|y: Epoch, h: Hash| #[trigger] listed(m, y, h) <==> open_in(o.pool, y, h) && q[h].stage is COMMIT by { assert(listed(l, y, h) <==> open_in(o.pool, y, h) && p[h].stage is COMMIT); }
        assert forall|h: Hash| #[trigger] done.insert(k).contains(h) && x.contains_key(h) && sends(q[h], x[h]) implies put.contains(x[h]) by {
            if h == k { assert(put[out.len() as int] == x[h]); } else { assert(done.contains(h)); let i = choose|i: int| 0 <= i < out.len() && out[i] == w[h]; assert(put[i] == w[h]); }
        }
        assert forall|i: int| 0 <= i < put.len() implies due(q, x, done.insert(k), #[trigger] put[i]) by {
            if i == out.len() { assert(done.insert(k).contains(k)); }
            else { assert(put[i] == out[i]); assert(due(p, w, done, out[i])); let h = choose|h: Hash| #[trigger] done.contains(h) && w.contains_key(h) && sends(p[h], w[h]) && w[h] == out[i]; assert(done.insert(k).contains(h)); }
        }
    }
    """)
    u.emit_fn(d, "data_request_has_too_many_witnesses", ret="r", spec="ensures r == too_many(*dr_output, validator_count, epoch)")
    COM = """ensures final(self).ok(), old(self).only_pool(final(self)), match r {
            Ok(_) => old(self).v().pool.contains_key({h}) && old(self).v().pool[{h}].stage is {S} && final(self).v().pool.dom() == old(self).v().pool.dom() && old(self).v().pool[{h}].with_{k}(&final(self).v().pool[{h}], {p}, {t})
                && (forall|x: Hash| x != {h} && old(self).v().pool.contains_key(x) ==> final(self).v().pool[x] == old(self).v().pool[x]),
            Err(_) => final(self).v().pool == old(self).v().pool && !(old(self).v().pool.contains_key({h}) && old(self).v().pool[{h}].stage is {S}) }"""
    def com(k, S, t, p):
        x = COM
        for a, b in (("{h}", t + ".body.dr_pointer"), ("{S}", S), ("{k}", k), ("{t}", t), ("{p}", p)):
            x = x.replace(a, b)
        return x
    NEW = """ensures final(self).ok(), match r {
            Ok(_) => {t}.signatures@.len() > 0 && (exists|s: DataRequestState| final(self).v() == (PV { pool: old(self).v().pool.insert({t}.name(version_at(Some(epoch))), s), ..old(self).v() })
                && empty_info(s.info) && s.stage is COMMIT && s.data_request == {t}.body.dr_output && s.pkh == pkh_of({t}.signatures@[0].public_key) && s.epoch == epoch && s.info.block_hash_dr_tx == {b}),
            Err(_) => {t}.signatures@.len() == 0 && *final(self) == *old(self) }"""
    NEW_END = """proof { assert(self.v().waiting == old(self).v().waiting); assert forall|e: Epoch, h: Hash| #[trigger] listed(self.l(), e, h) <==> open_in(self.v().pool, e, h) by { assert(listed(old(self).l(), e, h) <==> open_in(old(self).v().pool, e, h)); assert(listed(old(self).l(), epoch, h) <==> open_in(old(self).v().pool, epoch, h)); } }"""
    TAL = """ensures final(self).ok(), match r {
            Ok(_) => old(self).v().pool.contains_key({t}.dr_pointer) && old(self).v().pool[{t}.dr_pointer].stage is TALLY && final(self).l() == old(self).l()
                && final(self).v() == (PV { pool: old(self).v().pool.remove({t}.dr_pointer), stored: old(self).v().stored.push(old(self).v().pool[{t}.dr_pointer].finished({t}, *{b})), ..old(self).v() }),
            Err(_) => final(self).v() == old(self).v() && final(self).l() == old(self).l() && !(old(self).v().pool.contains_key({t}.dr_pointer) && old(self).v().pool[{t}.dr_pointer].stage is TALLY) }"""
    N = "match validator_count { Some(n) => n, None => DEFAULT_VALIDATOR_COUNT_FOR_TESTS }"
    UPD = """requires old(self).ok() ensures final(self).ok(), final(self).v().stored == old(self).v().stored, final(self).v().extra == old(self).v().extra,
            forall|h: Hash| #[trigger] final(self).v().pool.contains_key(h) <==> old(self).v().pool.contains_key(h),
            forall|h: Hash| #[trigger] final(self).v().pool.contains_key(h) ==> final(self).v().pool[h] == old(self).v().pool[h].stepped(old(self).v().extra, too_many(old(self).v().pool[h].data_request, %(n)s, epoch)),
            forall|h: Hash| #[trigger] final(self).v().waiting.contains_key(h) <==> old(self).v().waiting.contains_key(h) && !(final(self).v().pool.contains_key(h) && final(self).v().pool[h].stage is TALLY),
            forall|h: Hash| #[trigger] final(self).v().waiting.contains_key(h) ==> final(self).v().waiting[h] == old(self).v().waiting[h],
            forall|h: Hash| #[trigger] final(self).v().pool.contains_key(h) && final(self).v().waiting.contains_key(h) && sends(final(self).v().pool[h], final(self).v().waiting[h]) ==> r@.contains(final(self).v().waiting[h]),
            forall|i: int| 0 <= i < r@.len() ==> due(final(self).v().pool, final(self).v().waiting, final(self).v().pool.dom(), #[trigger] r@[i]),
            """ % dict(n=N)
    LOOP = """__i0 <= __ks0@.len(), __ks0@.no_duplicates(), forall|h: Hash| __ks0@.contains(h) <==> old(self).data_request_pool@.contains_key(h), old(self).ok(),
        extra_rounds == old(self).extra_rounds, self.extra_rounds == old(self).extra_rounds, self.to_be_stored == old(self).to_be_stored,
        swept(old(self).v(), self.data_request_pool@, data_requests_by_epoch@, waiting_for_reveal@, __c@, __ks0@.take(__i0 as int).to_set(), validator_count, epoch)"""
    START = """let ghost (p0, l0, w0, c0) = (self.data_request_pool@, data_requests_by_epoch@, waiting_for_reveal@, __c@); proof { assert(__ks0@.take(__i0 as int + 1) =~= __ks0@.take(__i0 as int).push(__ks0@[__i0 as int])); assert(__ks0@.contains(__ks0@[__i0 as int]));
        assert(!__ks0@.take(__i0 as int).to_set().contains(__ks0@[__i0 as int])); }"""
    END = """proof { let k = __ks0@[__i0 as int - 1]; let done = __ks0@.take(__i0 as int - 1).to_set(); took(__ks0@, __i0 as int - 1); assert forall|h: Hash| done.contains(h) implies old(self).data_request_pool@.contains_key(h) by { assert(__ks0@.contains(h)); }
        sweep_step(old(self).v(), l0, p0, self.data_request_pool@, data_requests_by_epoch@, w0, waiting_for_reveal@, c0, __c@, done, k, validator_count, epoch); }"""
    AFTER = """proof { assert(__ks0@.take(__i0 as int) =~= __ks0@); assert(__ks0@.to_set() =~= self.data_request_pool@.dom()); }"""
    READY = """forall|h: Hash| __c@.contains(h) <==> exists|i: int| 0 <= i < it0.index@ && *(#[trigger] it0.seq()[i]).0 == h && it0.seq()[i].1.stage is TALLY"""
    SAME = "proof { assert(self.v().waiting == old(self).v().waiting); assert forall|e: Epoch, h: Hash| #[trigger] listed(self.l(), e, h) <==> open_in(self.v().pool, e, h) by { assert(listed(old(self).l(), e, h) <==> open_in(old(self).v().pool, e, h)); } }"
    u.emit("""
    // the values of a map, in the order of some listing of its keys
    spec fn lists<V>(ks: Seq<Hash>, m: Map<Hash, V>, vs: Seq<&V>) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() && vs.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == m[ks[i]] }
    #[verifier::external_body] fn values_vec<'a, V>(m: &'a HashMap<Hash, V>) -> (r: (Vec<&'a V>, Ghost<Seq<Hash>>)) ensures lists(r.1@, m@, r.0@) { unimplemented!() }
    spec fn price(o: DataRequestOutput) -> int { (o.witness_reward + o.commit_and_reveal_fee + o.commit_and_reveal_fee) * o.witnesses }
    spec fn priced(o: DataRequestOutput) -> bool { price(o) <= u64::MAX && o.witness_reward + 2 * o.commit_and_reveal_fee <= u64::MAX }
    spec fn sat(x: int) -> int { if x > u64::MAX { u64::MAX as int } else if x < 0 { 0 } else { x } }
    // what is held for a request: its price until it has commits, then also the collaterals and no longer the fees paid
    spec fn held(s: DataRequestState, min: u64) -> int {
        let c = if s.data_request.collateral == 0 { min } else { s.data_request.collateral };
        let (f, n, m) = (s.data_request.commit_and_reveal_fee, s.info.commits@.len() as int, s.info.reveals@.len() as int);
        if s.stage is COMMIT { price(s.data_request) } else { sat(sat(sat(price(s.data_request) + sat(n * c)) - sat(n * f)) - sat(m * f)) }
    }
    spec fn total(p: Map<Hash, DataRequestState>, min: u64) -> int decreases p.dom().len() {
        if p.dom().len() == 0 { 0 } else { let k = p.dom().choose(); held(p[k], min) + total(p.remove(k), min) }
    }
    spec fn total_of(vs: Seq<&DataRequestState>, min: u64) -> int decreases vs.len() { if vs.len() == 0 { 0 } else { total_of(vs.drop_last(), min) + held(*vs.last(), min) } }
    proof fn held_bound(s: DataRequestState, min: u64) ensures 0 <= held(s, min) { PROBE(held_bound); assert(price(s.data_request) >= 0) by (nonlinear_arith) requires price(s.data_request) == (s.data_request.witness_reward + s.data_request.commit_and_reveal_fee + s.data_request.commit_and_reveal_fee) * s.data_request.witnesses; }
    proof fn total_without(p: Map<Hash, DataRequestState>, k: Hash, min: u64) requires p.contains_key(k) ensures total(p, min) == held(p[k], min) + total(p.remove(k), min) decreases p.dom().len()
    {
        PROBE(total_without);
        let j = p.dom().choose();
        assert(p.dom().contains(j)); assert(p.dom().len() > 0) by { if p.dom().len() == 0 { assert(p.dom() =~= Set::<Hash>::empty()); } }
        if j != k {
            total_without(p.remove(j), k, min); total_without(p.remove(k), j, min);
            assert(p.remove(j).remove(k) =~= p.remove(k).remove(j));
        }
    }
    proof fn total_nonneg(p: Map<Hash, DataRequestState>, min: u64) ensures total(p, min) >= 0 decreases p.dom().len()
    { PROBE(total_nonneg); if p.dom().len() > 0 { let k = p.dom().choose(); assert(p.dom().contains(k)); held_bound(p[k], min); total_nonneg(p.remove(k), min); } }
    proof fn total_is(ks: Seq<Hash>, p: Map<Hash, DataRequestState>, vs: Seq<&DataRequestState>, min: u64) requires lists(ks, p, vs) ensures total(p, min) == total_of(vs, min) decreases vs.len()
    {
        PROBE(total_is);
        if vs.len() == 0 { assert(ks =~= Seq::<Hash>::empty()); assert(p.dom() =~= Set::<Hash>::empty()) by { assert forall|h: Hash| !(#[trigger] p.dom().contains(h)) by { assert(ks.to_set().contains(h) == ks.contains(h)); } } }
        else {
            let k = ks.last();
            assert(ks.contains(k)); assert(ks.to_set().contains(k));
            let (l, w, q) = (ks.drop_last(), vs.drop_last(), p.remove(k));
            assert(l.to_set() =~= q.dom()) by { assert forall|h: Hash| #[trigger] l.to_set().contains(h) <==> q.dom().contains(h) by {
                if l.contains(h) { let i = choose|i: int| 0 <= i < l.len() && l[i] == h; assert(ks[i] == h); assert(ks.to_set().contains(h)); }
                if q.dom().contains(h) { assert(ks.to_set().contains(h)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == h; assert(l[i] == h); }
            } }
            assert forall|i: int| 0 <= i < l.len() implies *(#[trigger] w[i]) == q[l[i]] by { assert(*vs[i] == p[ks[i]]); }
            total_is(l, q, w, min); total_without(p, k, min);
            assert(*vs[vs.len() - 1] == p[k]);
        }
    }
    proof fn total_take(vs: Seq<&DataRequestState>, i: int, min: u64) requires 0 <= i <= vs.len() ensures 0 <= total_of(vs.take(i), min) <= total_of(vs, min) decreases vs.len()
    {
        PROBE(total_take);
        if i == vs.len() { assert(vs.take(i) =~= vs); if i > 0 { total_take(vs.drop_last(), i - 1, min); held_bound(*vs.last(), min); } }
        else { total_take(vs.drop_last(), i, min); assert(vs.drop_last().take(i) =~= vs.take(i)); held_bound(*vs.last(), min); }
    }
    """)
    u.emit_impl(" DataRequestOutput", [u.fn(c, "DataRequestOutput::checked_total_value", ret="r", desugar=["opt_and_then"], subst=[(r"u64::from\(self\.witnesses\)", "(self.witnesses as u64)")],
        spec="ensures match r { Ok(v) => v == price(*self), Err(_) => price(*self) > u64::MAX || self.witness_reward + 2 * self.commit_and_reveal_fee > u64::MAX }")])
    u.emit_impl(" DataRequestPool", [
        u.fn(d, P + "locked_wits_by_requests", ret="r", subst=[(r"let mut total = 0;", "let mut total: u64 = 0; let (__vs, __g) = values_vec(&self.data_request_pool);"), (r"u64::try_from\((dr_state\.info\.\w+\.len\(\))\)\.unwrap\(\)", r"(\1 as u64)")],
            loops={0: dict(iter_of=["self.data_request_pool.values()"], iter_as=lambda its, n, r: "__vs", inv="it0.seq() == __vs@, lists(__g@, self.data_request_pool@, __vs@), total_of(__vs@, collateral_minimum) <= u64::MAX, total == total_of(__vs@.take(it0.index@), collateral_minimum), forall|h: Hash| #[trigger] self.data_request_pool@.contains_key(h) ==> priced(self.data_request_pool@[h].data_request)",
                start="proof { let i = it0.index@; assert(__vs@.take(i + 1).drop_last() =~= __vs@.take(i)); total_take(__vs@, i + 1, collateral_minimum); assert(__g@.contains(__g@[i])); assert(__g@.to_set().contains(__g@[i])); }",
                before="proof { total_is(__g@, self.data_request_pool@, __vs@, collateral_minimum); assert(__vs@.take(0) =~= Seq::empty()); }", after="proof { assert(__vs@.take(__vs@.len() as int) =~= __vs@); }")},
            spec="requires forall|h: Hash| #[trigger] self.v().pool.contains_key(h) ==> priced(self.v().pool[h].data_request), total(self.v().pool, collateral_minimum) <= u64::MAX ensures r == total(self.v().pool, collateral_minimum)"),
        u.fn(d, P + "get_dr_output", ret="r", subst=[(r"dr_state\.data_request\.clone\(\)", "cl(&dr_state.data_request)")], desugar=["opt_map"], spec="ensures r == (if self.v().pool.contains_key(*dr_pointer) { Some(self.v().pool[*dr_pointer].data_request) } else { None })"),
        u.fn(d, P + "insert_reveal", end=SAME.replace("assert(self.v().waiting == old(self).v().waiting);", ""), spec="requires old(self).ok(), reveal.signatures@.len() > 0 ensures final(self).ok(), final(self).l() == old(self).l(), final(self).v() == (PV { waiting: old(self).v().waiting.insert(dr_pointer, reveal), ..old(self).v() })"),
        u.fn(d, P + "add_commit", ret="r", subst=G, end=SAME, spec="requires old(self).ok() " + com("commit", "COMMIT", "commit", "pkh")),
        u.fn(d, P + "add_reveal", ret="r", subst=G, end=SAME, spec="requires old(self).ok() " + com("reveal", "REVEAL", "reveal", "pkh")),
        u.fn(d, P + "process_commit", ret="r", subst=G + CL, spec="requires old(self).ok(), commit_transaction.signatures@.len() > 0 " + com("commit", "COMMIT", "(*commit_transaction)", "pkh_of(commit_transaction.signatures@[0].public_key)")),
        u.fn(d, P + "process_reveal", ret="r", subst=G + CL, spec="requires old(self).ok(), reveal_transaction.signatures@.len() > 0 " + com("reveal", "REVEAL", "(*reveal_transaction)", "pkh_of(reveal_transaction.signatures@[0].public_key)")),
        u.fn(d, P + "add_data_request", ret="r", subst=G, end=NEW_END, spec="requires old(self).ok(), !old(self).v().pool.contains_key(data_request.name(version_at(Some(epoch)))) " + NEW.replace("{t}", "data_request").replace("{b}", "block_hash")),
        u.fn(d, P + "process_data_request", ret="r", subst=G + CL, spec="requires old(self).ok(), !old(self).v().pool.contains_key(dr_transaction.name(version_at(Some(epoch)))) " + NEW.replace("{t}", "(*dr_transaction)").replace("{b}", "block_hash")),
        u.fn(d, P + "resolve_data_request", ret="r", subst=G, desugar=["opt_ok_or_else"], spec="""ensures match r {
            Ok(i) => old(data_request_pool)@.contains_key(tally_tx.dr_pointer) && old(data_request_pool)@[tally_tx.dr_pointer].stage is TALLY && final(data_request_pool)@ == old(data_request_pool)@.remove(tally_tx.dr_pointer) && i == old(data_request_pool)@[tally_tx.dr_pointer].finished(tally_tx, *block_hash),
            Err(_) => final(data_request_pool)@ == old(data_request_pool)@ && !(old(data_request_pool)@.contains_key(tally_tx.dr_pointer) && old(data_request_pool)@[tally_tx.dr_pointer].stage is TALLY) }"""),
        u.fn(d, P + "add_tally", ret="r", subst=G, end=SAME, spec="requires old(self).ok() " + TAL.replace("{t}", "tally").replace("{b}", "block_hash")),
        u.fn(d, P + "process_tally", ret="r", subst=G + CL, spec="requires old(self).ok() " + TAL.replace("{t}", "(*tally_transaction)").replace("{b}", "block_hash")),
        u.fn(d, P + "update_data_request_stages", ret="r", subst=G + CL + [(r"crate::DEFAULT", "DEFAULT")], cty="Vec<RevealTransaction>", desugar=["filter_map", "collect", "map_iter_mut"], loops={0: dict(inv=LOOP, dec="__ks0@.len() - __i0", after=AFTER, start=START, end=END)}, spec=UPD),
        u.fn(d, P + "finished_data_requests", ret="r", subst=[(r"\b(?:std::)?mem::take\(", "take_vec(")], spec="ensures r@ == old(self).v().stored, final(self).v() == (PV { stored: Seq::<DataRequestInfo>::empty(), ..old(self).v() }), final(self).l() == old(self).l()"),
        u.fn(d, P + "get_tally_ready_drs", ret="r", cty="HashSet<Hash>", desugar=["filter_map", "collect", "collect_set"], loops={0: dict(iter_of=["self.data_request_pool.iter()"], iter_as=lambda its, n, r: "pairs(&self.data_request_pool)", inv=READY)}, spec="ensures forall|h: Hash| r@.contains(h) <==> self.v().pool.contains_key(h) && self.v().pool[h].stage is TALLY"),
    ])
    u.close()


def build(u):
    x = Extract([CH, DR, TX, EN], stubs=["Hash", "PublicKeyHash", "RADRequest", "CommitTransaction", "RevealTransaction", "DRTransaction", "TallyTransaction", "ProtocolVersion", "get_environment", "Environment", "ActiveWips", "TransactionError", "RADType",
                                     "concatenate_and_hash", "get_protocol_version_activation_epoch", "DEFAULT_VALIDATOR_COUNT_FOR_TESTS", "Epoch", "RadonReport", "Stage", "Hashable", "VersionedHashable", "DataRequestError", "ValueTransferOutput", "calculate_sha256", "Serialize", "Deserialize", "log"],
                traits=["Debug"], no=["get_all_reveals", "DataRequestPool::get_all_reveals", "DataRequestPool::get_reveals"])
    t = x.build(["DataRequestPool", "DataRequestPool::*", "DataRequestState", "DataRequestState::*", "DataRequestInfo", "DataRequestStage", "data_request_has_too_many_witnesses", "calculate_backup_witnesses"])
    return HEADER + t


harness = dict(kind="extract", name="d01", build=build, main="d01.rs", edition="2024")
