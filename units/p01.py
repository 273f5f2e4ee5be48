from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "P01"
CH, TX, DR = "data_structures/src/chain/mod.rs", "data_structures/src/transaction.rs", "data_structures/src/data_request.rs"
FILES = [CH, DR]
RULE = "histories of up to 60 operations over pools with and without limits and minimum fees: insertions of all six kinds (sharing inputs, repeated, conflicting, spending an input twice), removals with and without consolidation, evictions, unconfirmed transactions, commits and reveals of up to four requests"
ASSUMPTIONS = ["std HashMap and BTreeSet behave as a map and as an ordered set", "the hash of a transaction determines its kind, its weight and what it spends (collision resistance), and, for commits and reveals, their request and author",
               "commits handed to the pool are signed by the author of their proof (validated before)", "the weights of the transactions in a pool add up to less than 2^62",
               "cloning a transaction gives an equal transaction", "the order of fees per weight is taken as an order on pairs of fee per weight and hash (its floating-point arithmetic is searched, not proved)"]
NOTE = "remove_commits, get_reveals, the sorted iterators and vt_retain are only searched; mint and tally transactions never enter a pool (insert panics on them by contract)."
T = "TransactionsPool::"
KINDS = dict(vt=("VTTransaction", "ValueTransfer"), dr=("DRTransaction", "DataRequest"), st=("StakeTransaction", "Stake"), ut=("UnstakeTransaction", "Unstake"))
MAPS = dict(vt="vt_transactions", dr="dr_transactions", st="st_transactions", ut="ut_transactions")
TOT = dict(vt="total_vt_weight", dr="total_dr_weight", st="total_st_weight", ut="total_ut_weight")


def verus(u):
    c, tx, dr = u.src(CH), u.src(TX), u.src(DR)
    u.no_inline.update(["hash", "weight", "pkh", "from_public_key", "is_empty", "vt_contains", "dr_contains", "st_contains", "ut_contains", "commit_contains", "reveal_contains", "clear_commits", "clear_reveals", "total_transactions_weight", "calculate_reward_collateral_ratio", "saturating_div_ceil", "get"])
    u.file("mempool", LIGHT_PRELUDE)
    u.emit("global size_of usize == 8;")
    eq = """
    impl vstd::std_specs::cmp::PartialEqSpecImpl for %(n)s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for %(n)s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for %(n)s {}
    impl std::hash::Hash for %(n)s { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    """
    for n in ("Hash", "PublicKeyHash"):
        u.emit("#[derive(Clone, Copy)] pub struct %s { x: u64 }\n" % n + eq % dict(n=n))
    u.emit_raw(u.struct_text(c, "OutputPointer", derive="Clone, Copy"))
    u.emit(eq % dict(n="OutputPointer"))
    u.emit_raw(u.struct_text(c, "Input", derive="Clone, Copy"))
    u.emit("""
    // a fee per weight, as the pool orders by it
    #[derive(Clone, Copy)] pub struct Rate { x: u64 }
    uninterp spec fn rate_of(fee: u64, weight: u32) -> Rate;
    #[verifier::external_body] fn fee_per_weight(fee: u64, weight: u32) -> (r: Rate) ensures r == rate_of(fee, weight) { unimplemented!() }
    // BTreeSet<PrioritizedHash>
    uninterp spec fn before(a: (Rate, Hash), b: (Rate, Hash)) -> bool;
    #[verifier::external_body] pub struct SortedIndex { x: u64 }
    impl View for SortedIndex { type V = Set<(Rate, Hash)>; uninterp spec fn view(&self) -> Set<(Rate, Hash)>; }
    impl SortedIndex {
        #[verifier::external_body] fn insert(&mut self, x: (Rate, Hash)) -> (r: bool) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
        #[verifier::external_body] fn remove(&mut self, x: &(Rate, Hash)) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x) { unimplemented!() }
        #[verifier::external_body] fn clear(&mut self) ensures final(self)@ == Set::<(Rate, Hash)>::empty() { unimplemented!() }
        // iter().map(|(_, h)| *h).next()
        #[verifier::external_body] fn lowest(&self) -> (r: Option<Hash>)
            ensures match r { Some(h) => exists|p: Rate| self@.contains((p, h)) && (forall|q: (Rate, Hash)| self@.contains(q) && q != (p, h) ==> before((p, h), q)), None => self@ == Set::<(Rate, Hash)>::empty() } { unimplemented!() }
    }
    #[derive(Clone, Copy)] pub struct PublicKey { x: u64 }
    uninterp spec fn pkh_of(k: PublicKey) -> PublicKeyHash;
    impl PublicKeyHash { #[verifier::external_body] fn from_public_key(k: &PublicKey) -> (r: Self) ensures r == pkh_of(*k) { unimplemented!() } }
    pub struct VrfProof { x: u64 }
    impl VrfProof { #[verifier::external_body] fn pkh(&self) -> (r: PublicKeyHash) ensures r == prover(*self) { unimplemented!() } }
    pub struct DataRequestEligibilityClaim { proof: VrfProof }
    pub struct KeyedSignature { public_key: PublicKey, x: u64 }
    pub struct MintTransaction { x: u64 } pub struct TallyTransaction { x: u64 }
    pub enum TransactionError { NotValidTransaction, DuplicatedCommit { pkh: PublicKeyHash, dr_pointer: Hash }, DuplicatedReveal { pkh: PublicKeyHash, dr_pointer: Hash } }
    """)
    u.emit_raw(u.struct_text(c, "DataRequestOutput", keep_fields=["collateral", "witness_reward"]))
    u.emit_raw(u.struct_text(tx, "VTTransactionBody", keep_fields=["inputs", "outputs"], subst=[]).replace("Vec<ValueTransferOutput>", "u64"))
    u.emit_raw(u.struct_text(tx, "DRTransactionBody", keep_fields=["inputs", "dr_output"]))
    u.emit_raw(u.struct_text(tx, "StakeTransactionBody", keep_fields=["inputs"]))
    u.emit_raw(u.struct_text(tx, "CommitTransactionBody", keep_fields=["dr_pointer", "proof"]))
    u.emit_raw(u.struct_text(tx, "RevealTransactionBody", keep_fields=["dr_pointer", "pkh"]))
    u.emit("pub struct UnstakeTransactionBody { x: u64 }")
    for n in ("VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction", "CommitTransaction", "RevealTransaction"):
        u.emit_raw(u.struct_text(tx, n, keep_fields=["body", "signatures"] if n != "UnstakeTransaction" else ["body"]))
    u.emit_raw(u.struct_text(tx, "Transaction"))
    u.emit("""
    #[derive(Clone, Copy, PartialEq, Eq)] pub enum Kind { Vt, Dr, Co, Re, St, Ut, Other }
    trait Tx: Sized { spec fn id(&self) -> Hash; }
    """)
    for n in ("VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction", "CommitTransaction", "RevealTransaction", "Transaction"):
        u.emit("""
    impl Tx for %(n)s { spec fn id(&self) -> Hash { id_%(n)s(*self) } }
    impl Clone for %(n)s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl %(n)s {
        #[verifier::external_body] fn hash(&self) -> (r: Hash) ensures r == self.id() { unimplemented!() }
        #[verifier::external_body] fn weight(&self) -> (r: u32) ensures r == weight_of(self.id()) { unimplemented!() }
    }
    """ % dict(n=n))
    u.emit("""
    mod ax { use super::*;
    // what a hash determines
        pub(crate) uninterp spec fn kind_of(h: Hash) -> Kind;
        pub(crate) uninterp spec fn ins_of(h: Hash) -> Seq<OutputPointer>;
        pub(crate) uninterp spec fn weight_of(h: Hash) -> u32;
        pub(crate) uninterp spec fn request_of(h: Hash) -> Hash;
        pub(crate) uninterp spec fn author_of(h: Hash) -> PublicKeyHash;
        pub(crate) uninterp spec fn prover(p: VrfProof) -> PublicKeyHash;
        pub(crate) uninterp spec fn other_id(t: Transaction) -> Hash;
        pub(crate) uninterp spec fn id_VTTransaction(t: VTTransaction) -> Hash;
        pub(crate) uninterp spec fn id_DRTransaction(t: DRTransaction) -> Hash;
        pub(crate) uninterp spec fn id_StakeTransaction(t: StakeTransaction) -> Hash;
        pub(crate) uninterp spec fn id_UnstakeTransaction(t: UnstakeTransaction) -> Hash;
        pub(crate) uninterp spec fn id_CommitTransaction(t: CommitTransaction) -> Hash;
        pub(crate) uninterp spec fn id_RevealTransaction(t: RevealTransaction) -> Hash;
        pub(crate) uninterp spec fn id_Transaction(t: Transaction) -> Hash;
        pub(crate) open spec fn ptrs(i: Seq<Input>) -> Seq<OutputPointer> { i.map(|k: int, x: Input| x.output_pointer) }
        pub(crate) open spec fn inner(t: Transaction) -> Hash { match t { Transaction::ValueTransfer(x) => id_VTTransaction(x), Transaction::DataRequest(x) => id_DRTransaction(x), Transaction::Commit(x) => id_CommitTransaction(x), Transaction::Reveal(x) => id_RevealTransaction(x), Transaction::Stake(x) => id_StakeTransaction(x), Transaction::Unstake(x) => id_UnstakeTransaction(x), _ => other_id(t) } }
        pub(crate) broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Hash>();
        pub(crate) broadcast axiom fn k2() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKeyHash>();
        pub(crate) broadcast axiom fn k3() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<OutputPointer>();
        pub(crate) broadcast axiom fn vt(t: VTTransaction) ensures kind_of(#[trigger] id_VTTransaction(t)) == Kind::Vt, ins_of(id_VTTransaction(t)) == ptrs(t.body.inputs@);
        pub(crate) broadcast axiom fn dr(t: DRTransaction) ensures kind_of(#[trigger] id_DRTransaction(t)) == Kind::Dr, ins_of(id_DRTransaction(t)) == ptrs(t.body.inputs@);
        pub(crate) broadcast axiom fn st(t: StakeTransaction) ensures kind_of(#[trigger] id_StakeTransaction(t)) == Kind::St, ins_of(id_StakeTransaction(t)) == ptrs(t.body.inputs@);
        pub(crate) broadcast axiom fn ut(t: UnstakeTransaction) ensures kind_of(#[trigger] id_UnstakeTransaction(t)) == Kind::Ut, ins_of(id_UnstakeTransaction(t)) == Seq::<OutputPointer>::empty();
        pub(crate) broadcast axiom fn co(t: CommitTransaction) ensures kind_of(#[trigger] id_CommitTransaction(t)) == Kind::Co, request_of(id_CommitTransaction(t)) == t.body.dr_pointer, author_of(id_CommitTransaction(t)) == prover(t.body.proof.proof);
        pub(crate) broadcast axiom fn re(t: RevealTransaction) ensures kind_of(#[trigger] id_RevealTransaction(t)) == Kind::Re, request_of(id_RevealTransaction(t)) == t.body.dr_pointer, author_of(id_RevealTransaction(t)) == t.body.pkh;
        // Transaction::hash
        pub(crate) broadcast axiom fn any(t: Transaction) ensures #[trigger] id_Transaction(t) == inner(t);
    }
    use ax::{kind_of, ins_of, weight_of, request_of, author_of, prover, other_id, ptrs, inner, id_VTTransaction, id_DRTransaction, id_StakeTransaction, id_UnstakeTransaction, id_CommitTransaction, id_RevealTransaction, id_Transaction};
    broadcast use {vstd::std_specs::hash::group_hash_axioms, ax::k1, ax::k2, ax::k3, ax::vt, ax::dr, ax::st, ax::ut, ax::co, ax::re, ax::any};
    // how often a sequence holds something
    spec fn cnt<A>(s: Seq<A>, x: A) -> nat decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } } }
    proof fn cnt_pos<A>(s: Seq<A>, x: A) ensures cnt(s, x) > 0 <==> s.contains(x) decreases s.len()
    {
        if s.len() > 0 {
            cnt_pos(s.drop_last(), x);
            if s.contains(x) && s.last() != x { let i = s.index_of(x); assert(s.drop_last()[i] == x); }
            if s.drop_last().contains(x) { let i = s.drop_last().index_of(x); assert(s[i] == x); }
            if s.last() == x { assert(s[s.len() - 1] == x); }
        }
    }
    proof fn in_push<A>(s: Seq<A>, y: A, x: A) ensures s.push(y).contains(x) <==> s.contains(x) || x == y { cnt_pos(s, x); cnt_pos(s.push(y), x); cnt_push(s, y, x); }
    proof fn cnt_push<A>(s: Seq<A>, y: A, x: A) ensures cnt(s.push(y), x) == cnt(s, x) + if x == y { 1nat } else { 0 } { assert(s.push(y).drop_last() =~= s); }
    proof fn cnt_update<A>(s: Seq<A>, i: int, y: A, x: A) requires 0 <= i < s.len()
        ensures cnt(s.update(i, y), x) + (if s[i] == x { 1nat } else { 0 }) == cnt(s, x) + if x == y { 1nat } else { 0 } decreases s.len()
    {
        let m = s.update(i, y);
        if i == s.len() - 1 { assert(m.drop_last() =~= s.drop_last()); } else { cnt_update(s.drop_last(), i, y, x); assert(m.drop_last() =~= s.drop_last().update(i, y)); }
    }
    // what swap_remove leaves
    proof fn cnt_swap<A>(s: Seq<A>, i: int, x: A) requires 0 <= i < s.len()
        ensures cnt(s.update(i, s.last()).drop_last(), x) + (if s[i] == x { 1nat } else { 0 }) == cnt(s, x)
    {
        PROBE(cnt_swap);
        cnt_update(s, i, s.last(), x);
        let m = s.update(i, s.last());
        assert(m.last() == s.last());
    }
    proof fn cnt_take<A>(s: Seq<A>, i: int, x: A) requires 0 <= i < s.len() ensures cnt(s.take(i + 1), x) == cnt(s.take(i), x) + if s[i] == x { 1nat } else { 0 }
    { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    proof fn cnt_mono<A>(s: Seq<A>, i: int, x: A) requires 0 <= i <= s.len() ensures cnt(s.take(i), x) <= cnt(s, x) decreases s.len() - i
    { if i < s.len() { cnt_mono(s, i + 1, x); cnt_take(s, i, x); } else { assert(s.take(i) =~= s); } }
    // the weights of a set of transactions
    spec fn wsum(s: Set<Hash>) -> nat decreases s.len() { if s.is_empty() { 0 } else { let k = s.choose(); weight_of(k) as nat + wsum(s.remove(k)) } }
    proof fn wsum_remove(s: Set<Hash>, k: Hash) requires s.contains(k) ensures wsum(s) == weight_of(k) + wsum(s.remove(k)) decreases s.len()
    {
        let d = s.choose();
        assert(s.contains(d));
        if d != k { wsum_remove(s.remove(d), k); wsum_remove(s.remove(k), d); assert(s.remove(d).remove(k) =~= s.remove(k).remove(d)); }
    }
    proof fn wsum_insert(s: Set<Hash>, k: Hash) requires !s.contains(k) ensures wsum(s.insert(k)) == weight_of(k) + wsum(s) { wsum_remove(s.insert(k), k); assert(s.insert(k).remove(k) =~= s); }
    type Held<X> = Map<Hash, (Rate, X)>;
    // the books of one kind of transaction
    spec fn books<X: Tx>(m: Held<X>, ix: Set<(Rate, Hash)>, total: u64) -> bool {
        &&& forall|h: Hash| #[trigger] m.contains_key(h) ==> m[h].1.id() == h
        &&& forall|p: Rate, h: Hash| #[trigger] ix.contains((p, h)) <==> m.contains_key(h) && m[h].0 == p
        &&& total == wsum(m.dom())
    }
    proof fn books_removed<X: Tx>(m: Held<X>, ix: Set<(Rate, Hash)>, total: u64, k: Hash) requires books(m, ix, total), m.contains_key(k)
        ensures total >= weight_of(k), books(m.remove(k), ix.remove((m[k].0, k)), (total - weight_of(k)) as u64)
    { wsum_remove(m.dom(), k); assert(m.remove(k).dom() =~= m.dom().remove(k)); }
    proof fn books_added<X: Tx>(m: Held<X>, ix: Set<(Rate, Hash)>, total: u64, k: Hash, p: Rate, t: X) requires books(m, ix, total), !m.contains_key(k), t.id() == k, total + weight_of(k) <= u64::MAX
        ensures books(m.insert(k, (p, t)), ix.insert((p, k)), (total + weight_of(k)) as u64)
    { wsum_insert(m.dom(), k); assert(m.insert(k, (p, t)).dom() =~= m.dom().insert(k)); }
    // commits, or reveals, by request and author
    spec fn listed_once<X: Tx>(ix: Map<Hash, X>, by: Map<Hash, HashMap<PublicKeyHash, Hash>>) -> bool {
        &&& forall|h: Hash| #[trigger] ix.contains_key(h) ==> ix[h].id() == h && by.contains_key(request_of(h)) && by[request_of(h)]@.contains_key(author_of(h)) && by[request_of(h)]@[author_of(h)] == h
        &&& forall|d: Hash, p: PublicKeyHash| by.contains_key(d) && #[trigger] by[d]@.contains_key(p) ==> ix.contains_key(by[d]@[p]) && request_of(by[d]@[p]) == d && author_of(by[d]@[p]) == p
        &&& forall|d: Hash| #[trigger] by.contains_key(d) ==> by[d]@.dom().len() > 0
    }
    // HashMap::get_mut, entry(k).or_default(), keys().copied(), values().copied()
    #[verifier::external_body]
    fn get_mut_in<'a, K, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ }
    { unimplemented!() }
    #[verifier::external_body]
    fn list_of<'a>(m: &'a mut HashMap<OutputPointer, Vec<Hash>>, k: OutputPointer) -> (r: &'a mut Vec<Hash>)
        ensures r@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Seq::<Hash>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn authors_of<'a>(m: &'a mut HashMap<Hash, HashMap<PublicKeyHash, Hash>>, k: Hash) -> (r: &'a mut HashMap<PublicKeyHash, Hash>)
        ensures r@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Map::<PublicKeyHash, Hash>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn keys_of<V>(m: &HashMap<Hash, V>) -> (r: Vec<Hash>) ensures r@.no_duplicates(), forall|k: Hash| r@.contains(k) <==> m@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    fn values_of(m: &HashMap<PublicKeyHash, Hash>) -> (r: Vec<&Hash>) ensures forall|k: Hash| #![trigger r@.unref().contains(k)] r@.unref().contains(k) <==> exists|p: PublicKeyHash| m@.contains_key(p) && m@[p] == k { unimplemented!() }
    // v.iter().position(|x| x == w)
    #[verifier::external_body]
    fn position_of(v: &Vec<Hash>, w: &Hash) -> (r: Option<usize>)
        ensures match r { Some(i) => i < v@.len() && v@[i as int] == *w, None => !v@.contains(*w) } { unimplemented!() }
    #[verifier::external_body] fn append(v: &mut Vec<Hash>, w: &Vec<Hash>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
    #[verifier::external_body] fn swap_lists(a: &mut Vec<Hash>, b: &mut Vec<Hash>) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { unimplemented!() }
    // the choice between evicting value transfers and data requests
    #[verifier::external_body] fn more_vtts(vt: u64, dr: u64, factor: f64) -> bool { unimplemented!() }
    """)
    PT = [(r"BTreeSet<PrioritizedHash>", "SortedIndex")] + [(r"Prioritized%s" % n, "(Rate, %s)" % n) for n in ("VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction")]
    import re
    u.emit_raw(u.struct_text(c, "UnconfirmedTransactions"))
    t = u.struct_text(c, "TransactionsPool")
    for a, b in PT:
        t = re.sub(a, b, t)
    u.emit_raw(t)
    u.notes.add("OrderedFloat<f64> is an opaque fee per weight and BTreeSet<(fee per weight, hash)> an opaque sorted set in the proof of P01")
    frame = lambda keep: " && ".join("self.%s == o.%s" % (f, f) for f in keep)
    CFG = ["weight_limit", "vt_to_dr_factor", "minimum_vtt_fee", "collateral_minimum", "required_reward_collateral_ratio", "minimum_st_fee", "minimum_ut_fee"]
    CR = ["co_hash_index", "co_transactions", "re_hash_index", "re_transactions"]
    PART = dict((k, [MAPS[k], "sorted_%s_index" % k, TOT[k]]) for k in MAPS)
    u.emit("""
    impl TransactionsPool {
        spec fn vts(&self) -> Held<VTTransaction> { self.vt_transactions@ }
        spec fn drs(&self) -> Held<DRTransaction> { self.dr_transactions@ }
        spec fn sts(&self) -> Held<StakeTransaction> { self.st_transactions@ }
        spec fn uts(&self) -> Held<UnstakeTransaction> { self.ut_transactions@ }
        spec fn opm(&self) -> Map<OutputPointer, Vec<Hash>> { self.output_pointer_map@ }
        // the transactions that spend outputs
        spec fn holds(&self, h: Hash) -> bool { self.vts().contains_key(h) || self.drs().contains_key(h) || self.sts().contains_key(h) }
        spec fn spent(&self, o: OutputPointer, h: Hash) -> nat { if self.holds(h) { cnt(ins_of(h), o) } else { 0 } }
        spec fn kept(&self) -> bool { books(self.vts(), self.sorted_vt_index@, self.total_vt_weight) && books(self.drs(), self.sorted_dr_index@, self.total_dr_weight) && books(self.sts(), self.sorted_st_index@, self.total_st_weight) && books(self.uts(), self.sorted_ut_index@, self.total_ut_weight) }
        // who spends an output is listed there, once per use
        spec fn pointed(&self) -> bool { forall|o: OutputPointer, h: Hash| #[trigger] listed(self.opm(), o, h) == self.spent(o, h) }
        spec fn written(&self) -> bool { listed_once(self.co_hash_index@, self.co_transactions@) && listed_once(self.re_hash_index@, self.re_transactions@) }
        spec fn inv(&self) -> bool { self.kept() && self.pointed() && self.written() }
        spec fn waiting(&self) -> Seq<Hash> { self.unconfirmed_transactions.current@ + self.unconfirmed_transactions.previous@ }
        spec fn same_uvalues(&self, o: &Self) -> bool { forall|h: Hash| #[trigger] self.uts().contains_key(h) ==> o.uts().contains_key(h) && self.uts()[h] == o.uts()[h] }
        // these leave, and nobody else
        spec fn left(&self, o: &Self, x: Seq<Hash>) -> bool {
            &&& forall|h: Hash| #[trigger] self.vts().contains_key(h) <==> o.vts().contains_key(h) && !x.contains(h)
            &&& forall|h: Hash| #[trigger] self.drs().contains_key(h) <==> o.drs().contains_key(h) && !x.contains(h)
            &&& forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> o.sts().contains_key(h) && !x.contains(h)
            &&& forall|h: Hash| #[trigger] self.uts().contains_key(h) <==> o.uts().contains_key(h) && !x.contains(h)
        }
        spec fn room(&self) -> bool { self.total_vt_weight < 0x4000_0000_0000_0000 && self.total_dr_weight < 0x4000_0000_0000_0000 && self.total_st_weight < 0x4000_0000_0000_0000 && self.total_ut_weight < 0x4000_0000_0000_0000 }
        spec fn lighter(&self, o: &Self) -> bool { self.total_vt_weight <= o.total_vt_weight && self.total_dr_weight <= o.total_dr_weight && self.total_st_weight <= o.total_st_weight && self.total_ut_weight <= o.total_ut_weight }
        spec fn same_cfg(&self, o: &Self) -> bool { %s }
        spec fn same_cr(&self, o: &Self) -> bool { %s }
        spec fn same_un(&self, o: &Self) -> bool { self.unconfirmed_transactions == o.unconfirmed_transactions }
        spec fn same_vt(&self, o: &Self) -> bool { %s }
        spec fn same_dr(&self, o: &Self) -> bool { %s }
        spec fn same_st(&self, o: &Self) -> bool { %s }
        spec fn same_ut(&self, o: &Self) -> bool { %s }
        spec fn same_op(&self, o: &Self) -> bool { self.output_pointer_map == o.output_pointer_map }
        // everything but one kind, and who spends what
        spec fn only(&self, o: &Self, k: Kind) -> bool { self.same_cfg(o) && self.same_cr(o) && self.same_un(o) && (k != Kind::Vt ==> self.same_vt(o)) && (k != Kind::Dr ==> self.same_dr(o)) && (k != Kind::St ==> self.same_st(o)) && (k != Kind::Ut ==> self.same_ut(o)) }
        // these leave, and who spends one of these outputs, and nobody else
        spec fn without(&self, o: &Self, x: Set<Hash>, i: Seq<OutputPointer>) -> bool {
            &&& forall|h: Hash| #[trigger] self.vts().contains_key(h) <==> o.vts().contains_key(h) && !x.contains(h) && !meets(h, i)
            &&& forall|h: Hash| #[trigger] self.drs().contains_key(h) <==> o.drs().contains_key(h) && !x.contains(h) && !meets(h, i)
            &&& forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> o.sts().contains_key(h) && !x.contains(h) && !meets(h, i)
            &&& self.same_values(o)
        }
        spec fn same_values(&self, o: &Self) -> bool {
            &&& forall|h: Hash| #[trigger] self.vts().contains_key(h) ==> o.vts().contains_key(h) && self.vts()[h] == o.vts()[h]
            &&& forall|h: Hash| #[trigger] self.drs().contains_key(h) ==> o.drs().contains_key(h) && self.drs()[h] == o.drs()[h]
            &&& forall|h: Hash| #[trigger] self.sts().contains_key(h) ==> o.sts().contains_key(h) && self.sts()[h] == o.sts()[h]
        }
        // everything but the transactions that spend outputs, and who spends what
        spec fn spending_only(&self, o: &Self) -> bool { self.same_cfg(o) && self.same_cr(o) && self.same_un(o) && self.same_ut(o) }
        // exact but for lists of outputs about to be spent, which may name transactions already taken out
        spec fn loose(&self, q: Seq<OutputPointer>) -> bool {
            forall|o: OutputPointer, h: Hash| #[trigger] listed(self.opm(), o, h) == self.spent(o, h) || (q.contains(o) && !self.holds(h) && ins_of(h).contains(o))
        }
    }
    type Spenders = Map<OutputPointer, Vec<Hash>>;
    spec fn listed(m: Spenders, o: OutputPointer, h: Hash) -> nat { if m.contains_key(o) { cnt(m[o]@, h) } else { 0 } }
    // the spending of one transaction is taken out of the lists
    spec fn withdrawn(m: Spenders, n: Spenders, k: Hash, used: Seq<OutputPointer>) -> bool {
        &&& forall|p: OutputPointer, h: Hash| #[trigger] listed(n, p, h) == (if h == k && m.contains_key(p) { (listed(m, p, h) - cnt(used, p)) as nat } else { listed(m, p, h) })
        &&& forall|p: OutputPointer| #[trigger] n.contains_key(p) ==> m.contains_key(p)
    }
    spec fn can_withdraw(m: Spenders, k: Hash, used: Seq<OutputPointer>) -> bool { forall|p: OutputPointer| m.contains_key(p) ==> #[trigger] listed(m, p, k) >= cnt(used, p) }
    spec fn meets(h: Hash, i: Seq<OutputPointer>) -> bool { exists|k: int| 0 <= k < i.len() && ins_of(h).contains(#[trigger] i[k]) }
    """ % tuple(" && ".join("self.%s == o.%s" % (f, f) for f in x) for x in (CFG, CR, PART["vt"], PART["dr"], PART["st"], PART["ut"])))
    D = ["opt_map", "opt_and_then", "opt_or_else", "opt_map_or"]
    GM = [(r"self\s*\.(\w+)\s*\.get_mut\(", r"get_mut_in(&mut self.\1, ")]
    f = lambda n, **kw: u.fn(c, T + n, desugar=kw.pop("desugar", D), **kw)
    POS = [(r"(\w+)\s*\.iter\(\)\s*\.position\(\|x\| x == key\)", r"position_of(&*\1, key)"), (r"(\w+)\.swap_remove\(idx\);", r"\1.swap_remove(idx); proof { at = idx as int; }")]
    u.emit_impl(" UnconfirmedTransactions", [
        u.fn(c, "UnconfirmedTransactions::update", subst=[(r"std::mem::swap\(", "swap_lists(")], spec="ensures final(self).previous@ == old(self).current@, final(self).current@ == Seq::<Hash>::empty()"),
        u.fn(c, "UnconfirmedTransactions::insert", spec="ensures final(self).previous@ == old(self).previous@, final(self).current@ == old(self).current@.push(h)"),
        u.fn(c, "UnconfirmedTransactions::clear", spec="ensures final(self).previous@ == Seq::<Hash>::empty(), final(self).current@ == Seq::<Hash>::empty()"),
        u.fn(c, "UnconfirmedTransactions::remove_all", ret="r", subst=[(r"(\w+)\.extend\((self\.\w+)\.iter\(\)\)", r"append(&mut \1, &\2)"), (r"vec!\[\]", "Vec::new()")],
             spec="ensures r@ == old(self).current@ + old(self).previous@, final(self).previous@ == Seq::<Hash>::empty(), final(self).current@ == Seq::<Hash>::empty()"),
    ])
    look = lambda n, m: f(n, ret="r", spec="ensures r == self.%s@.contains_key(*key)" % m)
    twin = lambda n, by, err: f(n, ret="r", spec="""
        requires self.written()
        ensures match r { Ok(b) => b == self.%(ix)s@.contains_key(*tx_hash) || (request_of(*tx_hash) != *dr_pointer || author_of(*tx_hash) != *pkh) && !b, Err(_) => true },
            r is Err <==> self.%(by)s@.contains_key(*dr_pointer) && self.%(by)s@[*dr_pointer]@.contains_key(*pkh) && self.%(by)s@[*dr_pointer]@[*pkh] != *tx_hash,
            r is Ok && r->Ok_0 <==> self.%(by)s@.contains_key(*dr_pointer) && self.%(by)s@[*dr_pointer]@.contains_key(*pkh) && self.%(by)s@[*dr_pointer]@[*pkh] == *tx_hash
        """ % dict(by=by, ix=by.replace("transactions", "hash_index")))
    rm = lambda k: f("%s_remove_inner" % k, ret="r", start="proof { if old(self).%(m)ss().contains_key(*key) { books_removed(old(self).%(m)ss(), old(self).sorted_%(m)s_index@, old(self).total_%(m)s_weight, *key); } else { assert(old(self).%(m)ss().remove(*key) =~= old(self).%(m)ss()); } }" % dict(m=k), end="proof { if old(self).%(m)ss().contains_key(*key) { books_removed(old(self).%(m)ss(), old(self).sorted_%(m)s_index@, old(self).total_%(m)s_weight, *key); assert(self.%(m)ss() =~= old(self).%(m)ss().remove(*key)); } else { assert(old(self).%(m)ss().remove(*key) =~= old(self).%(m)ss()); } }" % dict(m=k),
        spec="""
        requires old(self).kept()%s
        ensures final(self).kept(), final(self).%ss() == old(self).%ss().remove(*key), r == (if old(self).%ss().contains_key(*key) { Some(old(self).%ss()[*key].1) } else { None }),
            final(self).only(old(self), Kind::%s), final(self).lighter(old(self))%s
        """ % (", !consolidated && old(self).%ss().contains_key(*key) ==> can_withdraw(old(self).opm(), *key, ins_of(*key))" % k if k != "ut" else "", k, k, k, k, k.capitalize(),
               """,
            consolidated || !old(self).%ss().contains_key(*key) ==> final(self).same_op(old(self)), !consolidated && old(self).%ss().contains_key(*key) ==> withdrawn(old(self).opm(), final(self).opm(), *key, ins_of(*key))""" % (k, k) if k != "ut" else ", final(self).same_op(old(self))"))
    u.emit_impl(" TransactionsPool", [
        look("vt_contains", "vt_transactions"), look("dr_contains", "dr_transactions"), look("st_contains", "st_transactions"), look("ut_contains", "ut_transactions"),
        twin("commit_contains", "co_transactions", "DuplicatedCommit"), twin("reveal_contains", "re_transactions", "DuplicatedReveal"),
        f("total_transactions_weight", ret="r", spec="requires self.room() ensures r == self.total_vt_weight + self.total_dr_weight + self.total_st_weight"),
        f("remove_tx_from_output_pointer_map", subst=GM + POS, skel=["for"], spec="""
        requires can_withdraw(old(self).opm(), *key, ptrs(inputs@))
        ensures withdrawn(old(self).opm(), final(self).opm(), *key, ptrs(inputs@)), final(self).only(old(self), Kind::Other)
        """, start="proof { assert(ptrs(inputs@).take(0) =~= Seq::empty()); }",
          loops={0: dict(iter="it", inv="""
            it.seq().unref() == inputs@, self.only(old(self), Kind::Other), can_withdraw(old(self).opm(), *key, ptrs(inputs@)),
            withdrawn(old(self).opm(), self.opm(), *key, ptrs(inputs@).take(it.index@ as int)),
            """, after="proof { assert(ptrs(inputs@).take(ptrs(inputs@).len() as int) =~= ptrs(inputs@)); }", start="""let ghost m0 = self.opm(); let ghost i = it.index@ as int; let ghost q = ptrs(inputs@); let ghost o = input.output_pointer;
                proof { assert(q[i] == o); cnt_take(q, i, o); cnt_mono(q, i + 1, o); assert(listed(old(self).opm(), o, *key) >= cnt(q, o) || !old(self).opm().contains_key(o)); let z = listed(m0, o, *key); if m0.contains_key(o) { cnt_pos(m0[o]@, *key); } }
                let ghost l = if m0.contains_key(o) { m0[o]@ } else { Seq::empty() }; let ghost mut at = 0int;""",
            end="""proof {
                assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == (if h == *key && old(self).opm().contains_key(p) { (listed(old(self).opm(), p, h) - cnt(q.take(i + 1), p)) as nat } else { listed(old(self).opm(), p, h) }) by {
                    cnt_take(q, i, p); let z = listed(m0, p, h);
                    if p == o && m0.contains_key(o) {
                        assert(l.contains(*key)); let j = at; assert(l[j] == *key); cnt_swap(l, j, h); cnt_mono(q, i, p);
                    }
                }
            }""")}),
    ] + [rm(k) for k in ("vt", "dr", "st", "ut")])
    RM = lambda k: f("%s_remove" % k, ret="r", end="proof { let k = tx.id(); let q = ptrs(tx.body.inputs@); assert forall|h: Hash| !#[trigger] meets(h, q) && h == k implies q.len() == 0 by { if q.len() > 0 { assert(ins_of(k).contains(q[0])); } } }", spec="""
        requires old(self).inv()
        ensures final(self).inv(), final(self).spending_only(old(self)), final(self).lighter(old(self)), final(self).without(old(self), set![tx.id()], ptrs(tx.body.inputs@)),
            r == (if old(self).%(m)ss().contains_key(tx.id()) { Some(old(self).%(m)ss()[tx.id()].1) } else { None })
        """ % dict(m=k), after=[(r"let transaction = self\.%s_remove_inner\(&key, true\);" % k, """
        proof { let q = ptrs(tx.body.inputs@); assert(ins_of(key) == q);
            assert forall|o: OutputPointer, h: Hash| #[trigger] listed(self.opm(), o, h) == self.spent(o, h) || (q.contains(o) && !self.holds(h) && ins_of(h).contains(o)) by {
                assert(listed(old(self).opm(), o, h) == old(self).spent(o, h)); cnt_pos(ins_of(h), o);
            } }""")])
    u.emit_impl(" TransactionsPool", [
        f("remove_inputs", subst=[], skel=["for", "for"], spec="""
        requires old(self).kept(), old(self).loose(ptrs(inputs@))
        ensures final(self).kept(), final(self).pointed(), final(self).spending_only(old(self)), final(self).lighter(old(self)), final(self).without(old(self), set![], ptrs(inputs@))
        """, start="let ghost q = ptrs(inputs@); proof { assert(q.take(0) =~= Seq::empty()); }",
          loops={0: dict(inv="""
            it0.seq().unref() == inputs@, q == ptrs(inputs@), self.kept(), self.loose(q), self.spending_only(old(self)), self.lighter(old(self)), self.without(old(self), set![], q.take(it0.index@ as int)),
            forall|j: int| 0 <= j < it0.index@ ==> !self.opm().contains_key(#[trigger] q[j])""",
            start="let ghost p1 = *self; let ghost i = it0.index@ as int; let ghost o = input.output_pointer; let ghost mut hs = Seq::<Hash>::empty(); proof { assert(q[i] == o); }",
            end="""proof {
                assert forall|h: Hash| meets(h, q.take(i + 1)) <==> meets(h, q.take(i)) || ins_of(h).contains(o) by {
                    if meets(h, q.take(i + 1)) { let k = choose|k: int| 0 <= k < i + 1 && ins_of(h).contains(#[trigger] q.take(i + 1)[k]); if k < i { assert(q.take(i)[k] == q[k]); } }
                    if meets(h, q.take(i)) { let k = choose|k: int| 0 <= k < i && ins_of(h).contains(#[trigger] q.take(i)[k]); assert(q.take(i + 1)[k] == q[k]); }
                    if ins_of(h).contains(o) { assert(q.take(i + 1)[i] == o); }
                }
                assert forall|h: Hash| p1.holds(h) && ins_of(h).contains(o) implies hs.contains(h) by {
                    cnt_pos(ins_of(h), o); assert(listed(p1.opm(), o, h) == p1.spent(o, h)); cnt_pos(hs, h);
                }
                assert(!self.opm().contains_key(o));
                assert forall|h: Hash| ins_of(h).contains(o) implies !self.holds(h) by { if p1.holds(h) { assert(hs.contains(h)); } }
                assert forall|h: Hash| #[trigger] self.vts().contains_key(h) <==> p1.vts().contains_key(h) && !ins_of(h).contains(o) by { if hs.contains(h) { let k = hs.index_of(h); assert(ins_of(hs[k]).contains(o)); } }
                assert forall|h: Hash| #[trigger] self.drs().contains_key(h) <==> p1.drs().contains_key(h) && !ins_of(h).contains(o) by { if hs.contains(h) { let k = hs.index_of(h); assert(ins_of(hs[k]).contains(o)); } }
                assert forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> p1.sts().contains_key(h) && !ins_of(h).contains(o) by { if hs.contains(h) { let k = hs.index_of(h); assert(ins_of(hs[k]).contains(o)); } }
                assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == self.spent(p, h) || (q.contains(p) && !self.holds(h) && ins_of(h).contains(p)) by { cnt_pos(ins_of(h), p); if p != o { assert(listed(p1.opm(), p, h) == p1.spent(p, h) || (q.contains(p) && !p1.holds(h) && ins_of(h).contains(p))); } }
            }""", after="""proof {
                assert(q.take(q.len() as int) =~= q);
                assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == self.spent(p, h) by {
                    if q.contains(p) { let j = q.index_of(p); assert(!self.opm().contains_key(q[j])); cnt_pos(ins_of(h), p); if self.holds(h) && ins_of(h).contains(p) { assert(ins_of(h).contains(q[j])); assert(meets(h, q)); } }
                }
            }"""),
            1: dict(before="""proof { hs = hashes@; assert forall|k: int| 0 <= k < hs.len() implies ins_of(#[trigger] hs[k]).contains(o) by {
                    let h = hs[k]; cnt_pos(hs, h); cnt_pos(ins_of(h), o); assert(listed(p1.opm(), o, h) == p1.spent(o, h) || ins_of(h).contains(o)); }
                assert forall|p: OutputPointer, h: Hash| p != o implies (#[trigger] listed(self.opm(), p, h) == self.spent(p, h) || (q.contains(p) && !self.holds(h) && ins_of(h).contains(p))) by { assert(listed(p1.opm(), p, h) == listed(self.opm(), p, h)); } }""",
              inv="""
                it1.seq().unref() == hashes@, hs == hashes@, self.kept(), p1.loose(q), q.contains(o), forall|p: OutputPointer| #[trigger] self.opm().contains_key(p) ==> p1.opm().contains_key(p) && p != o, self.spending_only(&p1), self.lighter(&p1), self.same_values(&p1),
                forall|p: OutputPointer, h: Hash| p != o ==> (#[trigger] listed(self.opm(), p, h) == self.spent(p, h) || (q.contains(p) && !self.holds(h) && ins_of(h).contains(p))),
                forall|k: int| 0 <= k < hs.len() ==> ins_of(#[trigger] hs[k]).contains(o),
                forall|h: Hash| #[trigger] self.vts().contains_key(h) <==> p1.vts().contains_key(h) && !hs.take(it1.index@ as int).contains(h),
                forall|h: Hash| #[trigger] self.drs().contains_key(h) <==> p1.drs().contains_key(h) && !hs.take(it1.index@ as int).contains(h),
                forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> p1.sts().contains_key(h) && !hs.take(it1.index@ as int).contains(h)""",
              start="""let ghost j = it1.index@ as int; let ghost p2 = *self; proof { assert(*hash == hs[j]); assert(hs.take(j + 1) =~= hs.take(j).push(hs[j])); assert forall|h: Hash| #[trigger] hs.take(j + 1).contains(h) <==> hs.take(j).contains(h) || h == hs[j] by { in_push(hs.take(j), hs[j], h); }
                assert forall|p: OutputPointer| self.opm().contains_key(p) && self.holds(*hash) implies #[trigger] listed(self.opm(), p, *hash) >= cnt(ins_of(*hash), p) by { } }""",
              end="""proof { assert forall|p: OutputPointer, h: Hash| p != o implies (#[trigger] listed(self.opm(), p, h) == self.spent(p, h) || (q.contains(p) && !self.holds(h) && ins_of(h).contains(p))) by {
                    assert(listed(p2.opm(), p, h) == p2.spent(p, h) || (q.contains(p) && !p2.holds(h) && ins_of(h).contains(p))); } }""",
              after="proof { assert(hs.take(hs.len() as int) =~= hs); }")}),
        RM("vt"), RM("dr"), RM("st"),
        f("ut_remove", ret="r", end="proof { assert forall|o: OutputPointer, h: Hash| #[trigger] listed(self.opm(), o, h) == self.spent(o, h) by { assert(listed(old(self).opm(), o, h) == old(self).spent(o, h)); } }", spec="""
        requires old(self).inv()
        ensures final(self).inv(), final(self).only(old(self), Kind::Ut), final(self).same_op(old(self)), final(self).lighter(old(self)), final(self).uts() == old(self).uts().remove(tx.id()), r == (if old(self).uts().contains_key(tx.id()) { Some(old(self).uts()[tx.id()].1) } else { None })"""),
    ])
    u.emit("""
    impl TransactionsPool {
        proof fn same_spent(&self, o: &Self) requires o.pointed(), self.opm() == o.opm(), forall|h: Hash| #[trigger] self.holds(h) <==> o.holds(h) ensures self.pointed()
        { assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == self.spent(p, h) by { assert(listed(o.opm(), p, h) == o.spent(p, h)); assert(self.holds(h) <==> o.holds(h)); } }
        // one transaction is taken out
        proof fn taken(&self, o: &Self, k: Hash) requires o.pointed(), withdrawn(o.opm(), self.opm(), k, ins_of(k)), forall|h: Hash| #[trigger] self.holds(h) <==> o.holds(h) && h != k, o.holds(k) ensures self.pointed()
        { assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == self.spent(p, h) by { assert(listed(o.opm(), p, h) == o.spent(p, h)); assert(self.holds(h) <==> o.holds(h) && h != k); } }
        proof fn ready(&self, k: Hash) requires self.pointed(), self.holds(k) ensures can_withdraw(self.opm(), k, ins_of(k))
        { assert forall|p: OutputPointer| self.opm().contains_key(p) implies #[trigger] listed(self.opm(), p, k) >= cnt(ins_of(k), p) by { assert(listed(self.opm(), p, k) == self.spent(p, k)); } }
        spec fn count(&self) -> nat { self.vts().dom().len() + self.drs().dom().len() + self.sts().dom().len() }
        // these transactions, and no others, have left
        spec fn evicted(&self, o: &Self, r: Seq<Transaction>) -> bool {
            &&& forall|h: Hash| #[trigger] self.vts().contains_key(h) <==> o.vts().contains_key(h) && !ids(r).contains(h)
            &&& forall|h: Hash| #[trigger] self.drs().contains_key(h) <==> o.drs().contains_key(h) && !ids(r).contains(h)
            &&& forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> o.sts().contains_key(h) && !ids(r).contains(h)
            &&& self.same_values(o) && ids(r).no_duplicates()
            &&& forall|i: int| 0 <= i < r.len() ==> o.has(#[trigger] r[i])
        }
        spec fn has(&self, t: Transaction) -> bool { match t {
            Transaction::ValueTransfer(x) => self.vts().contains_key(x.id()) && self.vts()[x.id()].1 == x, Transaction::DataRequest(x) => self.drs().contains_key(x.id()) && self.drs()[x.id()].1 == x,
            Transaction::Stake(x) => self.sts().contains_key(x.id()) && self.sts()[x.id()].1 == x, _ => false } }
        // of each kind, the lowest fees per weight leave first
        spec fn cheapest(&self, o: &Self) -> bool {
            &&& forall|h: Hash, k: Hash| o.vts().contains_key(h) && !self.vts().contains_key(h) && self.vts().contains_key(k) ==> before((#[trigger] o.vts()[h].0, h), (#[trigger] o.vts()[k].0, k))
            &&& forall|h: Hash, k: Hash| o.drs().contains_key(h) && !self.drs().contains_key(h) && self.drs().contains_key(k) ==> before((#[trigger] o.drs()[h].0, h), (#[trigger] o.drs()[k].0, k))
            &&& forall|h: Hash, k: Hash| o.sts().contains_key(h) && !self.sts().contains_key(h) && self.sts().contains_key(k) ==> before((#[trigger] o.sts()[h].0, h), (#[trigger] o.sts()[k].0, k))
        }
        spec fn total(&self) -> int { self.total_vt_weight + self.total_dr_weight + self.total_st_weight }
    }
    spec fn ids(r: Seq<Transaction>) -> Seq<Hash> { r.map(|i: int, t: Transaction| id_Transaction(t)) }
    """)
    LOW = [(r"self\s*\.sorted_(\w\w)_index\s*\.iter\(\)\s*\.map\(\|\(_fee_weight, tx_hash\)\| \*tx_hash\)\s*\.next\(\)", r"self.sorted_\1_index.lowest()"),
           (r"self\.total_vt_weight as f64 >= self\.total_dr_weight as f64 \* self\.vt_to_dr_factor", "more_vtts(self.total_vt_weight, self.total_dr_weight, self.vt_to_dr_factor)"), (r"vec!\[\]", "Vec::new()")]
    out = lambda k, v: (r"let tx = self\.%s_remove_inner\(&tx_hash, false\)\.unwrap\(\);" % k, "proof { self.taken(&p1, tx_hash); assert(%(k)s_out(p1.%(k)ss(), tx_hash)); assert(tx.id() == tx_hash); assert(ids(rs.push(Transaction::%(v)s(tx))) =~= ids(rs).push(tx_hash)); assert forall|h: Hash| #[trigger] ids(rs).push(tx_hash).contains(h) <==> ids(rs).contains(h) || h == tx_hash by { in_push(ids(rs), tx_hash, h); } }" % dict(k=k, v=v))
    u.emit("\n".join("    spec fn %s_out(m: Held<%s>, k: Hash) -> bool { m.remove(k).dom() =~= m.dom().remove(k) && m.dom().contains(k) }" % (k, KINDS[k][0]) for k in ("vt", "dr", "st")))
    u.emit_impl(" TransactionsPool", [
        f("remove_transactions_for_size_limit", ret="r", desugar=[], subst=LOW, skel=["while"], spec="""
        requires old(self).inv(), old(self).room()
        ensures final(self).inv(), final(self).lighter(old(self)), final(self).total() <= final(self).weight_limit, final(self).spending_only(old(self)), final(self).evicted(old(self), r@), final(self).cheapest(old(self)),
            old(self).total() <= old(self).weight_limit ==> r@.len() == 0
        """, loops={0: dict(inv="""
            self.inv(), self.room(), self.lighter(old(self)), self.spending_only(old(self)), self.evicted(old(self), removed_transactions@), self.cheapest(old(self)), old(self).total() <= old(self).weight_limit ==> removed_transactions@.len() == 0 && self.total() == old(self).total()""", dec="self.count()",
            start="""let ghost p1 = *self; let ghost rs = removed_transactions@; proof { assert(self.total() > 0); if self.vts().dom().is_empty() { assert(wsum(self.vts().dom()) == 0); } else { let z = self.vts().dom().choose(); assert(self.vts().contains_key(z)); assert(self.sorted_vt_index@.contains((self.vts()[z].0, z))); } if self.drs().dom().is_empty() { assert(wsum(self.drs().dom()) == 0); } else { let z = self.drs().dom().choose(); assert(self.drs().contains_key(z)); assert(self.sorted_dr_index@.contains((self.drs()[z].0, z))); } if self.sts().dom().is_empty() { assert(wsum(self.sts().dom()) == 0); } else { let z = self.sts().dom().choose(); assert(self.sts().contains_key(z)); assert(self.sorted_st_index@.contains((self.sts()[z].0, z))); } }""")},
          after=[out("vt", "ValueTransfer"), out("dr", "DataRequest"), out("st", "Stake")] + [(r"let tx_hash = self\s*\.sorted_%s_index[^;]*;" % k, "proof { let p = choose|p: Rate| self.sorted_%(k)s_index@.contains((p, tx_hash)); assert(self.sorted_%(k)s_index@.contains((p, tx_hash))); assert(self.%(k)ss().contains_key(tx_hash)); self.ready(tx_hash); }" % dict(k=k)) for k in ("vt", "dr", "st")]),
    ])
    u.emit("""
    impl TransactionsPool {
        spec fn empty_of_spending(&self) -> bool { self.vts().dom().is_empty() && self.drs().dom().is_empty() && self.sts().dom().is_empty() }
        // the pool with one more transaction
        spec fn with(&self, o: &Self, t: Transaction, fee: u64) -> bool {
            let h = id_Transaction(t);
            match t {
                Transaction::ValueTransfer(x) => self.vts() == o.vts().insert(h, (rate_of(fee, weight_of(h)), x)) && self.drs() == o.drs() && self.sts() == o.sts() && self.same_ut(o) && self.same_cr(o),
                Transaction::DataRequest(x) => self.drs() == o.drs().insert(h, (rate_of(fee, weight_of(h)), x)) && self.vts() == o.vts() && self.sts() == o.sts() && self.same_ut(o) && self.same_cr(o),
                Transaction::Stake(x) => self.sts() == o.sts().insert(h, (rate_of(fee, weight_of(h)), x)) && self.vts() == o.vts() && self.drs() == o.drs() && self.same_ut(o) && self.same_cr(o),
                Transaction::Unstake(x) => self.uts() == o.uts().insert(h, (rate_of(fee, weight_of(h)), x)) && self.vts() == o.vts() && self.drs() == o.drs() && self.sts() == o.sts() && self.same_cr(o),
                _ => false,
            }
        }
        spec fn known(&self, h: Hash) -> bool { self.holds(h) || self.uts().contains_key(h) }
        // kinds of transactions that ask for a minimum, and what they ask
        spec fn refused(&self, t: Transaction, fee: u64) -> bool { match t {
            Transaction::ValueTransfer(_) => fee < self.minimum_vtt_fee, Transaction::Stake(_) => fee < self.minimum_st_fee, Transaction::Unstake(_) => fee < self.minimum_ut_fee,
            Transaction::DataRequest(x) => ratio(if x.body.dr_output.collateral == 0 { self.collateral_minimum } else { x.body.dr_output.collateral }, x.body.dr_output.witness_reward) > self.required_reward_collateral_ratio,
            _ => false } }
        proof fn added(&self, o: &Self, k: Hash, used: Seq<OutputPointer>) requires o.pointed(), !o.holds(k), used == ins_of(k), forall|h: Hash| #[trigger] self.holds(h) <==> o.holds(h) || h == k, joined(o.opm(), self.opm(), k, used) ensures self.pointed()
        { assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == self.spent(p, h) by { assert(listed(o.opm(), p, h) == o.spent(p, h)); assert(self.holds(h) <==> o.holds(h) || h == k); } }
    }
    spec fn joined(m: Spenders, n: Spenders, k: Hash, used: Seq<OutputPointer>) -> bool { forall|p: OutputPointer, h: Hash| #[trigger] listed(n, p, h) == listed(m, p, h) + if h == k { cnt(used, p) } else { 0 } }
    spec fn ratio(c: u64, r: u64) -> u64 { if r == 0 { u64::MAX } else { ((c + r - 1) / r as int) as u64 } }
    """)
    u.emit_fn(dr, "saturating_div_ceil", ret="r", start="proof { if rhs != 0 { ceil(lhs as int, rhs as int); } }", spec="ensures r == ratio(lhs, rhs)")
    u.emit("""
    proof fn ceil(c: int, r: int) requires 0 <= c <= u64::MAX, 0 < r <= u64::MAX ensures (c + r - 1) / r == c / r + (if c % r > 0 { 1int } else { 0 }), 0 <= (c + r - 1) / r <= u64::MAX, 0 <= c / r <= c, c % r > 0 ==> c / r < c
    {
        PROBE(ceil);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, r);
        let (d, m) = (c / r, c % r);
        let q = if m > 0 { d + 1 } else { d }; let s = if m > 0 { m - 1 } else { r - 1 };
        assert(0 <= d <= c) by(nonlinear_arith) requires c == r * d + m, 0 <= m < r, 0 <= c;
        assert(m > 0 ==> d < c) by(nonlinear_arith) requires c == r * d + m, 0 <= m < r, 0 <= c, 0 <= d;
        assert(c + r - 1 == r * q + s) by(nonlinear_arith) requires c == r * d + m, q == (if m > 0 { d + 1 } else { d }), s == (if m > 0 { m - 1 } else { r - 1 }), 0 <= m;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c + r - 1, r, q, s);
    }
    """)
    u.emit_fn(dr, "calculate_reward_collateral_ratio", ret="r", spec="ensures r == ratio(if collateral == 0 { collateral_minimum } else { collateral }, witness_reward)")
    EN = [(r"self\s*\.output_pointer_map\s*\.entry\(([^()]*)\)\s*\.or_default\(\)", r"list_of(&mut self.output_pointer_map, \1)"), (r"self\s*\.(\w\w)_transactions\s*\.entry\(([^()]*)\)\s*\.or_default\(\)", r"authors_of(&mut self.\1_transactions, \2)"),
          (r"let weight = f64::from\((\w+)\.weight\(\)\);", r"let weight = \1.weight();"), (r"OrderedFloat\(fee as f64 / weight\)", "fee_per_weight(fee, weight)"), (r"return vec!\[(Transaction::\w+\(\w+\))\];", r"return one(\1);"), (r"vec!\[\]", "Vec::new()"),
          (r"if let (Some\(\w+\)) = (\w+)\s*&& ([^{;]*?)\{([^{}]*)\}", r"if let \1 = \2 { if \3 {\4} }")]
    lp = lambda v: dict(inv="""
            it%(i)d.seq().unref() == %(v)s.body.inputs@, joined(old(self).opm(), self.opm(), key, ptrs(%(v)s.body.inputs@).take(it%(i)d.index@ as int)), %(v)s.id() == key, self.same_but(old(self))""" % dict(v=v[0], i=v[1]),
        start="let ghost i = it%(i)d.index@ as int; let ghost m0 = self.opm(); let ghost o = input.output_pointer; let ghost q = ptrs(%(v)s.body.inputs@); proof { assert(q[i] == o); assert(q.take(0) =~= Seq::empty()); }" % dict(v=v[0], i=v[1]),
        end="proof { let l = if m0.contains_key(o) { m0[o]@ } else { Seq::empty() }; assert forall|p: OutputPointer, h: Hash| #[trigger] listed(self.opm(), p, h) == listed(old(self).opm(), p, h) + (if h == key { cnt(q.take(i + 1), p) } else { 0 }) by { cnt_take(q, i, p); cnt_push(l, key, h); assert(listed(m0, p, h) == listed(old(self).opm(), p, h) + if h == key { cnt(q.take(i), p) } else { 0 }); } }",
        before="proof { assert(ptrs(%(v)s.body.inputs@).take(0) =~= Seq::empty()); }" % dict(v=v[0]), after="proof { let q = ptrs(%(v)s.body.inputs@); assert(q.take(q.len() as int) =~= q); assert(joined(old(self).opm(), self.opm(), key, ins_of(key))); }" % dict(v=v[0]))
    arm = lambda k, t, x: "Transaction::%(t)s(x) => { books_added(old(self).%(k)ss(), old(self).sorted_%(k)s_index@, old(self).total_%(k)s_weight, k, self.%(k)ss()[k].0, x); assert(self.%(k)ss() =~= old(self).%(k)ss().insert(k, (self.%(k)ss()[k].0, x))); assert(self.sorted_%(k)s_index@ =~= old(self).sorted_%(k)s_index@.insert((self.%(k)ss()[k].0, k))); assert(self.kept()); %(a)s }" % dict(k=k, t=t, a="self.added(old(self), k, ins_of(k));" if x else "self.same_spent(old(self));")
    DONE = "proof { let k = id_Transaction(t0); match t0 { %s _ => {} } }" % " ".join(arm(k, KINDS[k][1], k != "ut") for k in KINDS)
    u.emit("""
    #[verifier::external_body] fn one(t: Transaction) -> (r: Vec<Transaction>) ensures r@ == seq![t] { unimplemented!() }
    impl TransactionsPool { spec fn same_but(&self, o: &Self) -> bool { self.vt_transactions == o.vt_transactions && self.dr_transactions == o.dr_transactions && self.st_transactions == o.st_transactions && self.ut_transactions == o.ut_transactions && self.sorted_vt_index == o.sorted_vt_index && self.sorted_dr_index == o.sorted_dr_index && self.sorted_st_index == o.sorted_st_index && self.sorted_ut_index == o.sorted_ut_index && self.same_cfg(o) && self.same_cr(o) && self.same_un(o) && self.total_ut_weight == o.total_ut_weight
            } }
    """)
    u.emit_impl(" TransactionsPool", [
        f("insert", ret="r", start="let ghost t0 = transaction;", subst=EN + [(r"(self\.remove_transactions_for_size_limit\(\))", r"{ let ghost m = *self; %s let __r = \1; proof { if !(t0 is Commit) && !(t0 is Reveal) { assert(m.with(old(self), t0, fee)); } } __r }" % DONE)], skel=["for", "for", "for"], spec="""
        requires old(self).inv(), old(self).room(), old(self).total() < 0x3000_0000_0000_0000, old(self).total_ut_weight < 0x3000_0000_0000_0000, !(transaction is Mint), !(transaction is Tally), transaction matches Transaction::Commit(t) ==> t.signatures@.len() > 0 && pkh_of(t.signatures@[0].public_key) == prover(t.body.proof.proof)
        ensures final(self).inv(), final(self).same_cfg(old(self)), final(self).same_un(old(self)),
            // already there
            old(self).known(id_Transaction(transaction)) ==> *final(self) == *old(self) && r@.len() == 0,
            // refused
            !old(self).known(id_Transaction(transaction)) && old(self).refused(transaction, fee) ==> *final(self) == *old(self) && r@ == seq![transaction],
            // within the limit
            !(transaction is Commit) && !(transaction is Reveal) && !old(self).known(id_Transaction(transaction)) && !old(self).refused(transaction, fee) ==>
                (exists|m: TransactionsPool| #[trigger] m.with(old(self), transaction, fee) && m.inv() && final(self).evicted(&m, r@) && final(self).cheapest(&m) && final(self).total() <= final(self).weight_limit && final(self).same_cr(old(self)) && final(self).same_ut(&m) && (m.total() <= m.weight_limit ==> r@.len() == 0)),
            transaction matches Transaction::Commit(t) ==> final(self).co_transactions@.contains_key(t.body.dr_pointer) && final(self).co_transactions@[t.body.dr_pointer]@.contains_key(prover(t.body.proof.proof)) && final(self).co_transactions@[t.body.dr_pointer]@[prover(t.body.proof.proof)] == t.id(),
            transaction matches Transaction::Reveal(t) ==> final(self).re_transactions@.contains_key(t.body.dr_pointer) && final(self).re_transactions@[t.body.dr_pointer]@.contains_key(t.body.pkh) && final(self).re_transactions@[t.body.dr_pointer]@[t.body.pkh] == t.id()
        """, loops={0: lp(("vt_tx", 0)), 1: lp(("dr_tx", 1)), 2: lp(("st_tx", 2))}),
    ])
    u.emit_impl(" TransactionsPool", [
        f("is_empty", ret="r", spec="requires self.written() ensures r <==> self.empty_of_spending() && self.uts().dom().is_empty() && self.co_hash_index@.dom().is_empty() && self.re_hash_index@.dom().is_empty()",
          end="proof { %s }" % " ".join("if self.%(k)s_hash_index@.dom().is_empty() { if !self.%(k)s_transactions@.dom().is_empty() { let d = self.%(k)s_transactions@.dom().choose(); assert(self.%(k)s_transactions@.contains_key(d)); let p = self.%(k)s_transactions@[d]@.dom().choose(); assert(self.%(k)s_transactions@[d]@.contains_key(p)); let h = self.%(k)s_transactions@[d]@[p]; assert(self.%(k)s_hash_index@.dom().contains(h)); } } else { let h = self.%(k)s_hash_index@.dom().choose(); assert(self.%(k)s_hash_index@.contains_key(h)); assert(self.%(k)s_transactions@.dom().contains(request_of(h))); }" % dict(k=k) for k in ("co", "re"))),
        f("vt_len", ret="r", spec="ensures r == self.vts().dom().len()"), f("dr_len", ret="r", spec="ensures r == self.drs().dom().len()"), f("st_len", ret="r", spec="ensures r == self.sts().dom().len()"), f("ut_len", ret="r", spec="ensures r == self.uts().dom().len()"),
        f("set_minimum_vtt_fee", spec="ensures *final(self) == (TransactionsPool { minimum_vtt_fee: minimum_vtt_fee, ..*old(self) })"),
        f("set_collateral_minimum", spec="requires collateral_minimum <= u64::MAX / 20 ensures *final(self) == (TransactionsPool { collateral_minimum: (20 * collateral_minimum) as u64, ..*old(self) })"),
        f("set_required_reward_collateral_ratio", spec="ensures *final(self) == (TransactionsPool { required_reward_collateral_ratio: required_reward_collateral_ratio, ..*old(self) })"),
        f("set_total_weight_limit", ret="r", after=[(r"self\.vt_to_dr_factor = vt_to_dr_factor;", "proof { self.same_spent(old(self)); }")], spec="""
        requires old(self).inv(), old(self).room()
        ensures final(self).inv(), final(self).total() <= weight_limit, final(self).weight_limit == weight_limit, final(self).evicted(old(self), r@), final(self).cheapest(old(self)), final(self).same_ut(old(self)), final(self).same_cr(old(self))"""),
        f("clear", spec="ensures final(self).inv(), final(self).same_cfg(old(self)), final(self).empty_of_spending(), final(self).uts().dom().is_empty(), final(self).co_hash_index@.dom().is_empty(), final(self).re_hash_index@.dom().is_empty(), final(self).waiting().len() == 0"),
        f("clear_commits", spec="requires old(self).written() ensures final(self).written(), final(self).co_hash_index@.dom().is_empty(), final(self).co_transactions@.dom().is_empty(), *final(self) == (TransactionsPool { co_hash_index: final(self).co_hash_index, co_transactions: final(self).co_transactions, ..*old(self) })"),
        f("clear_reveals", spec="requires old(self).written() ensures final(self).written(), final(self).re_hash_index@.dom().is_empty(), final(self).re_transactions@.dom().is_empty(), *final(self) == (TransactionsPool { re_hash_index: final(self).re_hash_index, re_transactions: final(self).re_transactions, ..*old(self) })"),
        f("clear_unstake_transactions", end="proof { self.same_spent(old(self)); assert(wsum(self.uts().dom()) == 0); }", spec="requires old(self).inv() ensures final(self).inv(), final(self).only(old(self), Kind::Ut), final(self).same_op(old(self)), final(self).uts().dom().is_empty()"),
        f("clear_stake_transactions", skel=["for"], subst=[(r"self\.st_transactions\.keys\(\)\.copied\(\)\.collect\(\)", "keys_of(&self.st_transactions)")],
          spec="requires old(self).inv() ensures final(self).inv(), final(self).only(old(self), Kind::St), final(self).sts().dom().is_empty()",
          loops={0: dict(inv="it0.seq().unref() == hashes@, self.inv(), self.only(old(self), Kind::St), forall|h: Hash| #[trigger] self.sts().contains_key(h) ==> hashes@.skip(it0.index@ as int).contains(h)",
            before="proof { assert(hashes@.skip(0) =~= hashes@); }",
            start="let ghost p1 = *self; let ghost i = it0.index@ as int; proof { assert(*hash == hashes@[i]); if self.sts().contains_key(*hash) { self.ready(*hash); } }",
            end="""proof { if p1.sts().contains_key(*hash) { self.taken(&p1, *hash); } else { self.same_spent(&p1); }
                assert forall|h: Hash| #[trigger] self.sts().contains_key(h) implies hashes@.skip(i + 1).contains(h) by { let l = hashes@.skip(i); let k = l.index_of(h); assert(k != 0); assert(hashes@.skip(i + 1)[k - 1] == h); } }""",
            after="proof { assert(hashes@.skip(hashes@.len() as int) =~= Seq::empty()); }")}),
        f("remove_invalid_stake_transactions", skel=["for"], spec="requires old(self).inv() ensures final(self).inv(), final(self).only(old(self), Kind::St), forall|h: Hash| #[trigger] final(self).sts().contains_key(h) <==> old(self).sts().contains_key(h) && !transactions@.contains(h), final(self).same_values(old(self))",
          loops={0: dict(inv="it0.seq().unref() == transactions@, self.inv(), self.only(old(self), Kind::St), self.same_values(old(self)), forall|h: Hash| #[trigger] self.sts().contains_key(h) <==> old(self).sts().contains_key(h) && !transactions@.take(it0.index@ as int).contains(h)",
            start="let ghost p1 = *self; let ghost i = it0.index@ as int; proof { assert(*st_tx_hash == transactions@[i]); assert(transactions@.take(i + 1) =~= transactions@.take(i).push(transactions@[i])); assert forall|h: Hash| #[trigger] transactions@.take(i + 1).contains(h) <==> transactions@.take(i).contains(h) || h == transactions@[i] by { in_push(transactions@.take(i), transactions@[i], h); } if self.sts().contains_key(*st_tx_hash) { self.ready(*st_tx_hash); } }",
            end="proof { if p1.sts().contains_key(*st_tx_hash) { self.taken(&p1, *st_tx_hash); } else { self.same_spent(&p1); } }",
            after="proof { assert(transactions@.take(transactions@.len() as int) =~= transactions@); }")}),
        f("remove_invalid_unstake_transactions", skel=["for"], spec="requires old(self).inv() ensures final(self).inv(), final(self).only(old(self), Kind::Ut), final(self).same_op(old(self)), forall|h: Hash| #[trigger] final(self).uts().contains_key(h) <==> old(self).uts().contains_key(h) && !transactions@.contains(h)",
          loops={0: dict(inv="it0.seq().unref() == transactions@, self.inv(), self.only(old(self), Kind::Ut), self.same_op(old(self)), forall|h: Hash| #[trigger] self.uts().contains_key(h) <==> old(self).uts().contains_key(h) && !transactions@.take(it0.index@ as int).contains(h)",
            start="let ghost p1 = *self; let ghost i = it0.index@ as int; proof { assert(*ut_tx_hash == transactions@[i]); assert(transactions@.take(i + 1) =~= transactions@.take(i).push(transactions@[i])); assert forall|h: Hash| #[trigger] transactions@.take(i + 1).contains(h) <==> transactions@.take(i).contains(h) || h == transactions@[i] by { in_push(transactions@.take(i), transactions@[i], h); } }",
            after="proof { assert(transactions@.take(transactions@.len() as int) =~= transactions@); }")}),
        f("remove_one_reveal", ret="r", subst=GM, spec="""
        requires old(self).written(), old(self).re_hash_index@.contains_key(*re_tx_hash) ==> request_of(*re_tx_hash) == *data_request_hash && author_of(*re_tx_hash) == *reveal_pkh
        ensures final(self).written(), final(self).re_hash_index@ == old(self).re_hash_index@.remove(*re_tx_hash), r == (if old(self).re_hash_index@.contains_key(*re_tx_hash) { Some(old(self).re_hash_index@[*re_tx_hash]) } else { None }),
            *final(self) == (TransactionsPool { re_hash_index: final(self).re_hash_index, re_transactions: final(self).re_transactions, ..*old(self) })""",
          end="proof { if !old(self).re_hash_index@.contains_key(*re_tx_hash) { assert(old(self).re_hash_index@.remove(*re_tx_hash) =~= old(self).re_hash_index@); } }"),
        f("clear_reveals_from_finished_dr", skel=["for"], spec="""
        requires old(self).written()
        ensures final(self).written(), forall|h: Hash| #[trigger] final(self).re_hash_index@.contains_key(h) <==> old(self).re_hash_index@.contains_key(h) && request_of(h) != *data_request_hash,
            forall|h: Hash| #[trigger] final(self).re_hash_index@.contains_key(h) ==> final(self).re_hash_index@[h] == old(self).re_hash_index@[h],
            *final(self) == (TransactionsPool { re_hash_index: final(self).re_hash_index, re_transactions: final(self).re_transactions, ..*old(self) })""",
          loops={0: dict(iter_as=lambda its, n, r: "values_of(&reveals)" if its.strip() == "reveals.values()" else its, bind="vs", before="let ghost l = vs@.unref(); let ghost p0 = *self;", inv="""it0.seq() == vs@, l == vs@.unref(), self.re_transactions@ == old(self).re_transactions@.remove(*data_request_hash), *self == (TransactionsPool { re_hash_index: self.re_hash_index, re_transactions: self.re_transactions, ..*old(self) }),
            forall|h: Hash| #[trigger] self.re_hash_index@.contains_key(h) <==> old(self).re_hash_index@.contains_key(h) && !l.take(it0.index@ as int).contains(h), forall|h: Hash| #[trigger] self.re_hash_index@.contains_key(h) ==> self.re_hash_index@[h] == old(self).re_hash_index@[h]""",
            start="let ghost i = it0.index@ as int; proof { assert(*re_tx_hash == l[i]); assert(l.take(i + 1) =~= l.take(i).push(l[i])); assert forall|h: Hash| #[trigger] l.take(i + 1).contains(h) <==> l.take(i).contains(h) || h == l[i] by { in_push(l.take(i), l[i], h); } }",
            after="proof { assert(l.take(l.len() as int) =~= l); }")}),
        f("vt_get", ret="r", spec="ensures match r { Some(t) => self.vts().contains_key(*key) && *t == self.vts()[*key].1, None => !self.vts().contains_key(*key) }"),
        f("get", ret="r", spec="""requires self.inv() ensures match r {
            Some(t) => id_Transaction(t) == *hash && match t { Transaction::ValueTransfer(x) => self.vts().contains_key(*hash) && x == self.vts()[*hash].1, Transaction::DataRequest(x) => self.drs().contains_key(*hash) && x == self.drs()[*hash].1, Transaction::Stake(x) => self.sts().contains_key(*hash) && x == self.sts()[*hash].1, Transaction::Unstake(x) => self.uts().contains_key(*hash) && x == self.uts()[*hash].1,
                Transaction::Commit(x) => self.co_hash_index@.contains_key(*hash) && x == self.co_hash_index@[*hash], Transaction::Reveal(x) => self.re_hash_index@.contains_key(*hash) && x == self.re_hash_index@[*hash], _ => false },
            None => !self.known(*hash) && !self.co_hash_index@.contains_key(*hash) && !self.re_hash_index@.contains_key(*hash) }"""),
        f("contains", ret="r", spec="""requires self.inv() ensures match transaction {
            Transaction::ValueTransfer(_) => r is Ok && r->Ok_0 == self.vts().contains_key(id_Transaction(*transaction)), Transaction::DataRequest(_) => r is Ok && r->Ok_0 == self.drs().contains_key(id_Transaction(*transaction)),
            Transaction::Stake(_) => r is Ok && r->Ok_0 == self.sts().contains_key(id_Transaction(*transaction)), Transaction::Unstake(_) => r is Ok && r->Ok_0 == self.uts().contains_key(id_Transaction(*transaction)),
            Transaction::Commit(x) => r is Ok && r->Ok_0 <==> self.co_hash_index@.contains_key(id_Transaction(*transaction)), Transaction::Reveal(x) => r is Ok && r->Ok_0 <==> self.re_hash_index@.contains_key(id_Transaction(*transaction)),
            _ => r is Err }"""),
        f("remove_unconfirmed_transactions", ret="r", skel=["for"], subst=[(r"vec!\[\]", "Vec::new()")], spec="""
        requires old(self).inv()
        ensures final(self).inv(), final(self).same_cfg(old(self)), final(self).co_hash_index@.dom().is_empty(), final(self).re_hash_index@.dom().is_empty(), final(self).unconfirmed_transactions.current@.len() == 0, final(self).unconfirmed_transactions.previous@.len() == 0,
            final(self).same_values(old(self)), final(self).same_uvalues(old(self)), final(self).left(old(self), old(self).waiting()),
            forall|j: int| 0 <= j < r@.len() ==> old(self).known(#[trigger] id_Transaction(r@[j])) && old(self).waiting().contains(id_Transaction(r@[j])),
            forall|h: Hash| old(self).waiting().contains(h) && #[trigger] old(self).known(h) ==> exists|j: int| 0 <= j < r@.len() && id_Transaction(r@[j]) == h""",
          loops={0: dict(indexed=True, named=True, dec="__v0.len() - __i0", before="let ghost U = old(self).waiting(); let ghost mut i = 0int; proof { assert(U.take(0) =~= Seq::empty()); self.same_spent(old(self)); }", inv="""__v0@ == U, U == old(self).waiting(), __i0 <= __v0@.len(), self.inv(), self.same_cfg(old(self)), self.same_cr(old(self)), self.same_values(old(self)), self.same_uvalues(old(self)), self.left(old(self), U.take(__i0 as int)), self.unconfirmed_transactions.current@.len() == 0, self.unconfirmed_transactions.previous@.len() == 0,
            forall|j: int| 0 <= j < v@.len() ==> old(self).known(#[trigger] id_Transaction(v@[j])) && U.contains(id_Transaction(v@[j])),
            forall|h: Hash| U.take(__i0 as int).contains(h) && #[trigger] old(self).known(h) ==> exists|j: int| 0 <= j < v@.len() && id_Transaction(v@[j]) == h""",
            start="""let ghost p1 = *self; let ghost i = __i0 as int; let ghost v1 = v@; let ghost g = __v0@[i]; proof { assert(U.take(i + 1) =~= U.take(i).push(g)); assert forall|h: Hash| #[trigger] U.take(i + 1).contains(h) <==> U.take(i).contains(h) || h == g by { in_push(U.take(i), g, h); } assert(U.contains(g)) by { assert(U[i] == g); }
                assert(old(self).known(g) && !U.take(i).contains(g) ==> self.known(g)); assert(self.known(g) ==> kind_of(g) != Kind::Co && kind_of(g) != Kind::Re); if self.holds(g) { self.ready(g); } }""",
            end="""proof { if p1.holds(g) { self.taken(&p1, g); } else { self.same_spent(&p1); }
                assert forall|h: Hash| U.take(i + 1).contains(h) && #[trigger] old(self).known(h) implies exists|j: int| 0 <= j < v@.len() && id_Transaction(v@[j]) == h by {
                    if U.take(i).contains(h) { let j = choose|j: int| 0 <= j < v1.len() && id_Transaction(v1[j]) == h; assert(v@[j] == v1[j]); } else { assert(id_Transaction(v@[v@.len() - 1]) == h); } } }""",
            after="let ghost p9 = *self; proof { assert(U.take(U.len() as int) =~= U); }")}, end="proof { self.same_spent(&p9); }"),
        f("update_unconfirmed_transactions", spec="ensures *final(self) == (TransactionsPool { unconfirmed_transactions: final(self).unconfirmed_transactions, ..*old(self) }), final(self).unconfirmed_transactions.previous@ == old(self).unconfirmed_transactions.current@, final(self).unconfirmed_transactions.current@ == Seq::<Hash>::empty()"),
        f("insert_unconfirmed_transactions", spec="ensures *final(self) == (TransactionsPool { unconfirmed_transactions: final(self).unconfirmed_transactions, ..*old(self) }), final(self).unconfirmed_transactions.previous@ == old(self).unconfirmed_transactions.previous@, final(self).unconfirmed_transactions.current@ == old(self).unconfirmed_transactions.current@.push(h)"),
    ])
    u.close()


def build(u):
    x = Extract([CH, DR, TX], stubs=["Hash", "PublicKeyHash", "VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction", "CommitTransaction", "RevealTransaction", "MintTransaction", "TallyTransaction", "Transaction", "TransactionError",
                                     "DataRequestPool", "DataRequestOutput", "OrderedFloat", "Hashable", "VersionedHashable", "ProtocolVersion"], traits=["Debug", "Display"], no=["Debug for PublicKeyHash", "Display for PublicKeyHash", "Debug for Hash", "Display for Hash"])
    return HEADER + x.build(["TransactionsPool", "TransactionsPool::*", "UnconfirmedTransactions", "UnconfirmedTransactions::*", "OutputPointer", "Input", "calculate_reward_collateral_ratio"])


harness = dict(kind="extract", name="p01", build=build, main="p01.rs", edition="2024")
