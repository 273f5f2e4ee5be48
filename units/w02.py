from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "W02"
MO, WA, UT, CH = "wallet/src/model.rs", "wallet/src/repository/wallet/mod.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/chain/mod.rs"
TF, ER = "data_structures/src/transaction_factory.rs", "data_structures/src/error.rs"
FILES = [MO, WA, TF]
RULE = "wallets with outputs of several transactions, values, addresses and locks, some unconfirmed, some selected by hand, some in use until before, at or after now, some of the uses of outputs long spent; the outputs offered under every strategy, then spent, cleared and offered again"
ASSUMPTIONS = ["std HashMap and HashSet over output pointers of the wallet behave as maps and sets over the transaction hash and index (derived Eq and Hash)",
               "sorted_by_key is a sort by the key", "the own outputs are worth less than 2^64 together (the supply is)", "transaction hashes kept by the wallet have 32 bytes", "the clock reads the same throughout a cleaning, and is not before 1970"]

SPEC = """
    broadcast use {vstd::std_specs::hash::group_hash_axioms, ax::key_model};
    mod ax {
        use super::*;
        pub(crate) broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Hash>();
        // two hashes with the same bytes are the same
        pub(crate) axiom fn same_bytes(a: [u8; 32], b: [u8; 32]) requires a@ == b@ ensures a == b;
    }
    // an output pointer, whichever way it is kept
    pub type Id = (Seq<u8>, u32);
    spec fn bytes_of(h: Hash) -> Seq<u8> { match h { Hash::SHA256(b) => b@ } }
    spec fn pid(p: OutputPointer) -> Id { (bytes_of(p.transaction_id), p.output_index) }
    impl OutPtr { pub closed spec fn id(&self) -> Id { (self.txn_hash@, self.output_index) } }
    proof fn pid_unique(p: OutputPointer, q: OutputPointer) requires pid(p) == pid(q) ensures p == q
    { PROBE(pid_unique); match (p.transaction_id, q.transaction_id) { (Hash::SHA256(a), Hash::SHA256(b)) => { ax::same_bytes(a, b); } } }
    #[verifier::external_body] fn same<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r <==> *a == *b { a == b }
    #[verifier::external_body] fn copied(x: Option<&u64>) -> (r: Option<u64>) ensures r == (match x { Some(v) => Some(*v), None => None }) { x.copied() }
    fn umax(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
    // HashMap<OutPtr, V>
    #[verifier::external_body] #[verifier::reject_recursive_types(V)]
    struct PMap<V> { m: std::marker::PhantomData<V> }
    spec fn lists<V>(ids: Seq<Id>, m: Map<Id, V>) -> bool { ids.no_duplicates() && forall|k: Id| #[trigger] ids.contains(k) <==> m.contains_key(k) }
    impl<V> PMap<V> {
        uninterp spec fn view(&self) -> Map<Id, V>;
        // the order in which it is iterated over: any
        uninterp spec fn slots(&self) -> Seq<Id>;
        #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<Id, V>::empty() { unimplemented!() }
        #[verifier::external_body] fn get(&self, k: &OutPtr) -> (r: Option<&V>) ensures r == (if self@.contains_key(k.id()) { Some(&self@[k.id()]) } else { None }) { unimplemented!() }
        #[verifier::external_body] fn contains_key(&self, k: &OutPtr) -> (r: bool) ensures r == self@.contains_key(k.id()) { unimplemented!() }
        #[verifier::external_body] fn insert(&mut self, k: OutPtr, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.id(), v) { unimplemented!() }
        #[verifier::external_body] fn iter(&self) -> (r: Vec<(&OutPtr, &V)>)
            ensures lists(self.slots(), self@), r@.len() == self.slots().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0.id() == self.slots()[i] && *r@[i].1 == self@[self.slots()[i]] { unimplemented!() }
    }
    // HashSet<OutPtr>
    #[verifier::external_body] struct PSet { m: u8 }
    impl PSet {
        uninterp spec fn view(&self) -> Set<Id>;
        #[verifier::external_body] fn contains(&self, k: &OutPtr) -> (r: bool) ensures r == self@.contains(k.id()) { unimplemented!() }
        #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Id>::empty()) { unimplemented!() }
    }
    uninterp spec fn clock() -> i64;
    #[verifier::external_body] fn get_timestamp() -> (r: i64) ensures r == clock(), r >= 0 { unimplemented!() }
    // the sort
    spec fn places(p: Seq<int>, n: int) -> bool { p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n }
    spec fn sorted_as<T>(r: Seq<T>, v: Seq<(i128, T)>, p: Seq<int>) -> bool {
        &&& places(p, v.len() as int) && r.len() == v.len()
        &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == v[p[i]].1
        &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] p.contains(i)
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> v[#[trigger] p[i]].0 <= v[#[trigger] p[j]].0
    }
    #[verifier::external_body]
    fn keyed_sort<T>(v: Vec<(i128, T)>) -> (r: Vec<T>) ensures exists|p: Seq<int>| sorted_as(r@, v@, p) { unimplemented!() }
    // those of a list that satisfy a condition, in order
    spec fn sieve(s: Seq<Id>, f: spec_fn(Id) -> bool) -> Seq<Id> decreases s.len() { if s.len() == 0 { s } else if f(s.last()) { sieve(s.drop_last(), f).push(s.last()) } else { sieve(s.drop_last(), f) } }
    proof fn sieve_step(s: Seq<Id>, f: spec_fn(Id) -> bool, i: int) requires 0 <= i < s.len() ensures sieve(s.take(i + 1), f) == (if f(s[i]) { sieve(s.take(i), f).push(s[i]) } else { sieve(s.take(i), f) })
    { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    proof fn sieve_all(s: Seq<Id>, f: spec_fn(Id) -> bool) ensures forall|k: Id| #[trigger] sieve(s, f).contains(k) <==> s.contains(k) && f(k), s.no_duplicates() ==> sieve(s, f).no_duplicates(), sieve(s, f).len() <= s.len() decreases s.len()
    {
        PROBE(sieve_all);
        if s.len() > 0 {
            let (d, l) = (s.drop_last(), s.last());
            sieve_all(d, f);
            let (a, b) = (sieve(d, f), sieve(s, f));
            assert forall|k: Id| #[trigger] s.contains(k) <==> d.contains(k) || k == l by {
                if d.contains(k) { let i = d.index_of(k); assert(s[i] == k); }
                if k == l { assert(s[s.len() - 1] == k); }
                if s.contains(k) { let i = s.index_of(k); if i < d.len() { assert(d[i] == k); } }
            }
            assert forall|k: Id| #[trigger] b.contains(k) <==> s.contains(k) && f(k) by {
                if f(l) {
                    if a.contains(k) { let i = a.index_of(k); assert(b[i] == k); }
                    if k == l { assert(b[a.len() as int] == k); }
                    if b.contains(k) { let i = b.index_of(k); if i < a.len() { assert(a[i] == k); } }
                }
            }
            if s.no_duplicates() {
                assert(!d.contains(l)) by { if d.contains(l) { let i = d.index_of(l); assert(s[i] == s[s.len() - 1]); } }
                assert(a.no_duplicates());
                assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if f(l) { if i == a.len() { assert(a.contains(a[j])); } else if j == a.len() { assert(a.contains(a[i])); } } }
            }
        }
    }
    fn then_some<T>(b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None }) { if b { Some(x) } else { None } }
    spec fn amount_of(m: Map<Id, OutputInfo>, k: Id) -> int { m[k].amount as int }
    spec fn by_amount(m: Map<Id, OutputInfo>, s: Seq<Id>, big: bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> if big { amount_of(m, #[trigger] s[i]) >= amount_of(m, #[trigger] s[j]) } else { amount_of(m, s[i]) <= amount_of(m, s[j]) } }
    proof fn sieve_sorted(m: Map<Id, OutputInfo>, s: Seq<Id>, f: spec_fn(Id) -> bool, big: bool) requires by_amount(m, s, big) ensures by_amount(m, sieve(s, f), big) decreases s.len()
    {
        PROBE(sieve_sorted);
        if s.len() > 0 {
            let d = s.drop_last();
            assert(by_amount(m, d, big)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies if big { amount_of(m, #[trigger] d[i]) >= amount_of(m, #[trigger] d[j]) } else { amount_of(m, d[i]) <= amount_of(m, d[j]) } by { assert(s[i] == d[i] && s[j] == d[j]); } }
            sieve_sorted(m, d, f, big); sieve_all(d, f);
            let (a, b) = (sieve(d, f), sieve(s, f));
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies if big { amount_of(m, #[trigger] b[i]) >= amount_of(m, #[trigger] b[j]) } else { amount_of(m, b[i]) <= amount_of(m, b[j]) } by {
                if f(s.last()) && j == a.len() { assert(a.contains(a[i])); let k = d.index_of(a[i]); assert(s[k] == b[i] && s[s.len() - 1] == b[j]); } else { assert(a[i] == b[i] && a[j] == b[j]); }
            }
        }
    }
    spec fn allowed(from: Option<PublicKeyHash>, p: PublicKeyHash) -> bool { match from { None => true, Some(f) => f == p } }
    spec fn ofr(x: Option<&PublicKeyHash>) -> Option<PublicKeyHash> { match x { None => None, Some(f) => Some(*f) } }
    spec fn from_of(st: UtxoSelectionStrategy) -> Option<PublicKeyHash> { match st { UtxoSelectionStrategy::Random { from } => from, UtxoSelectionStrategy::BigFirst { from } => from, UtxoSelectionStrategy::SmallFirst { from } => from } }
    spec fn ids(v: Seq<&OutPtr>) -> Seq<Id> { Seq::new(v.len(), |i: int| v[i].id()) }
    spec fn pids(v: Seq<OutputPointer>) -> Seq<Id> { Seq::new(v.len(), |i: int| pid(v[i])) }
    spec fn ids_in<X>(v: Seq<(&OutPtr, X)>) -> Seq<Id> { Seq::new(v.len(), |i: int| v[i].0.id()) }
    spec fn of_addr(m: Map<Id, OutputInfo>, from: Option<PublicKeyHash>) -> spec_fn(Id) -> bool { |k: Id| allowed(from, m[k].pkh) }
    type Kept<'a> = (&'a OutPtr, &'a OutputInfo);
    spec fn keyed_ids(v: Seq<(i128, Kept)>) -> Seq<Id> { Seq::new(v.len(), |i: int| v[i].1.0.id()) }
    proof fn sort_ok(m: &PMap<OutputInfo>, from: Option<PublicKeyHash>, kv: Seq<(i128, Kept)>, so: Seq<Kept>, big: bool)
        requires exists|p: Seq<int>| sorted_as(so, kv, p), lists(m.slots(), m@), keyed_ids(kv) == sieve(m.slots(), of_addr(m@, from)),
            forall|i: int| 0 <= i < kv.len() ==> (#[trigger] kv[i]).0 == (if big { -amount_of(m@, kv[i].1.0.id()) } else { amount_of(m@, kv[i].1.0.id()) })
        ensures ids_in(so).no_duplicates(), forall|k: Id| #[trigger] ids_in(so).contains(k) <==> m@.contains_key(k) && allowed(from, m@[k].pkh), by_amount(m@, ids_in(so), big)
    {
        PROBE(sort_ok);
        let p = choose|p: Seq<int>| sorted_as(so, kv, p);
        let f = of_addr(m@, from);
        let (a, s) = (keyed_ids(kv), ids_in(so));
        sieve_all(m.slots(), f);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == a[p[i]] by { assert(so[i] == kv[p[i]].1); }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(p[i] != p[j]); assert(a[p[i]] != a[p[j]]); }
        assert forall|k: Id| #[trigger] s.contains(k) <==> m@.contains_key(k) && allowed(from, m@[k].pkh) by {
            if s.contains(k) { let i = s.index_of(k); assert(a[p[i]] == k); assert(a.contains(k)); assert(m.slots().contains(k)); }
            if m@.contains_key(k) && allowed(from, m@[k].pkh) { assert(m.slots().contains(k)); assert(a.contains(k)); let j = a.index_of(k); assert(p.contains(j)); let i = p.index_of(j); assert(s[i] == k); }
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies if big { amount_of(m@, #[trigger] s[i]) >= amount_of(m@, #[trigger] s[j]) } else { amount_of(m@, s[i]) <= amount_of(m@, s[j]) } by { assert(kv[p[i]].0 <= kv[p[j]].0); assert(so[i] == kv[p[i]].1 && so[j] == kv[p[j]].1); }
    }
    // the keys of a set of outputs are whole hashes
    spec fn whole(m: Map<Id, OutputInfo>) -> bool { forall|k: Id| #[trigger] m.contains_key(k) ==> k.0.len() == 32 }
    // what a wallet offers: its own outputs of confirmed transactions, only those selected if any are, only those of the address asked for
    spec fn offers(w: &WalletUtxos, from: Option<PublicKeyHash>, k: Id) -> bool {
        w.utxo_set@.contains_key(k) && allowed(from, w.utxo_set@[k].pkh) && open_to(w, k)
    }
    spec fn open_to(w: &WalletUtxos, k: Id) -> bool { !settling(w.unconfirmed_transactions@, k.0) && (w.selected_utxos@ == Set::<Id>::empty() || w.selected_utxos@.contains(k)) }
    spec fn settling(un: Set<Hash>, b: Seq<u8>) -> bool { exists|h: Hash| #[trigger] un.contains(h) && bytes_of(h) == b }
    proof fn settling_is(un: Set<Hash>, h: Hash) ensures settling(un, bytes_of(h)) <==> un.contains(h)
    { PROBE(settling_is); if settling(un, bytes_of(h)) { let g = choose|g: Hash| #[trigger] un.contains(g) && bytes_of(g) == bytes_of(h); pid_unique(OutputPointer { transaction_id: g, output_index: 0 }, OutputPointer { transaction_id: h, output_index: 0 }); } }
    spec fn openf(w: &WalletUtxos) -> spec_fn(Id) -> bool { |k: Id| open_to(w, k) }
    spec fn bigf(st: UtxoSelectionStrategy) -> Option<bool> { match st { UtxoSelectionStrategy::BigFirst { from: _ } => Some(true), UtxoSelectionStrategy::SmallFirst { from: _ } => Some(false), _ => None } }
    spec fn bothf(w: &WalletUtxos, from: Option<PublicKeyHash>) -> spec_fn(Id) -> bool { |k: Id| offers(w, from, k) }
    // the outputs spent are held until a time, and nothing else changes
    spec fn held(a: Map<Id, u64>, b: Map<Id, u64>, ins: Seq<Input>, n: int, ts: u64) -> bool {
        &&& forall|i: int| 0 <= i < n ==> b.contains_key(pid(#[trigger] ins[i].output_pointer)) && b[pid(ins[i].output_pointer)] == ts
        &&& forall|k: Id| (forall|i: int| 0 <= i < n ==> pid(#[trigger] ins[i].output_pointer) != k) ==> (#[trigger] b.contains_key(k) <==> a.contains_key(k)) && (a.contains_key(k) ==> b[k] == a[k])
    }
    // uses of outputs that are gone and uses that are over are forgotten, and no others
    spec fn cleaned(a: Map<Id, u64>, own: Map<Id, OutputInfo>, b: Map<Id, u64>, now: int) -> bool {
        &&& forall|k: Id| #[trigger] b.contains_key(k) ==> a.contains_key(k) && b[k] == a[k] && own.contains_key(k) && b[k] >= now
        &&& forall|k: Id| #[trigger] a.contains_key(k) && own.contains_key(k) && a[k] > now ==> b.contains_key(k)
    }
    // -- what is taken of it -----------------------------------------------------------------------------
    spec fn vsum(m: Map<Id, OutputInfo>, s: Seq<Id>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { vsum(m, s.drop_last()) + m[s.last()].amount as nat } }
    proof fn vsum_push(m: Map<Id, OutputInfo>, s: Seq<Id>, k: Id) ensures vsum(m, s.push(k)) == vsum(m, s) + m[k].amount as nat { assert(s.push(k).drop_last() =~= s); }
    proof fn vsum_step(m: Map<Id, OutputInfo>, s: Seq<Id>, i: int) requires 0 <= i < s.len() ensures vsum(m, s.take(i + 1)) == vsum(m, s.take(i)) + m[s[i]].amount as nat { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    spec fn modest(m: Map<Id, OutputInfo>) -> bool { forall|s: Seq<Id>| s.no_duplicates() && (forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i])) ==> #[trigger] vsum(m, s) <= u64::MAX }
    proof fn sieve_prefix(s: Seq<Id>, f: spec_fn(Id) -> bool, i: int) requires 0 <= i <= s.len()
        ensures sieve(s.take(i), f).len() <= sieve(s, f).len(), sieve(s.take(i), f) == sieve(s, f).take(sieve(s.take(i), f).len() as int) decreases s.len() - i
    {
        let (a, b) = (sieve(s.take(i), f), sieve(s, f));
        if i == s.len() { assert(s.take(i) =~= s); assert(b.take(b.len() as int) =~= b); }
        else { sieve_prefix(s, f, i + 1); sieve_step(s, f, i); let c = sieve(s.take(i + 1), f); assert(c == b.take(c.len() as int)); if f(s[i]) { assert(a =~= c.take(a.len() as int)); } assert(a =~= b.take(a.len() as int)); }
    }
    proof fn step(m: Map<Id, OutputInfo>, s: Seq<Id>, f: spec_fn(Id) -> bool, i: int) requires 0 <= i < s.len(), modest(m), s.no_duplicates(), forall|k: Id| #[trigger] s.contains(k) ==> m.contains_key(k)
        ensures sieve(s.take(i + 1), f) == (if f(s[i]) { sieve(s.take(i), f).push(s[i]) } else { sieve(s.take(i), f) }), vsum(m, s.take(i + 1)) == vsum(m, s.take(i)) + m[s[i]].amount, vsum(m, s.take(i + 1)) <= u64::MAX, m.contains_key(s[i]),
            vsum(m, sieve(s.take(i), f).push(s[i])) == vsum(m, sieve(s.take(i), f)) + m[s[i]].amount, sieve(s.take(i), f).push(s[i]).drop_last() == sieve(s.take(i), f)
    {
        PROBE(step);
        sieve_step(s, f, i); vsum_step(m, s, i); vsum_push(m, sieve(s.take(i), f), s[i]);
        assert(s.contains(s[i]));
        assert(sieve(s.take(i), f).push(s[i]).drop_last() =~= sieve(s.take(i), f));
        assert forall|j: int| 0 <= j < i + 1 implies m.contains_key(#[trigger] s.take(i + 1)[j]) by { assert(s.contains(s[j])); }
        assert(s.take(i + 1).no_duplicates());
    }
    proof fn done(m: Map<Id, OutputInfo>, s: Seq<Id>, f: spec_fn(Id) -> bool, i: int, q: Seq<Id>) requires 0 <= i <= s.len(), q == sieve(s.take(i), f)
        ensures q.len() <= sieve(s, f).len(), q == sieve(s, f).take(q.len() as int), q.len() > 0 ==> q.drop_last() == sieve(s, f).take(q.len() - 1), i == s.len() ==> q == sieve(s, f)
    { PROBE(done); sieve_prefix(s, f, i); assert(s.take(s.len() as int) =~= s); if q.len() > 0 { assert(q.drop_last() =~= sieve(s, f).take(q.len() - 1)); } }
    spec fn on_offer(own: Map<Id, OutputInfo>, un: Set<Hash>, sel: Set<Id>, from: Option<PublicKeyHash>, k: Id) -> bool { own.contains_key(k) && allowed(from, own[k].pkh) && !settling(un, k.0) && (sel == Set::<Id>::empty() || sel.contains(k)) }
    // an order in which a strategy offers what is on offer
    spec fn orders(own: Map<Id, OutputInfo>, un: Set<Hash>, sel: Set<Id>, st: UtxoSelectionStrategy, s: Seq<Id>) -> bool {
        s.no_duplicates() && (forall|k: Id| #[trigger] s.contains(k) <==> on_offer(own, un, sel, from_of(st), k)) && match bigf(st) { Some(b) => by_amount(own, s, b), None => true }
    }
    // the wallet does not know the blocks of its outputs: with a limit on them it has nothing to spend
    spec fn freef(own: Map<Id, OutputInfo>, used: Map<Id, u64>, now: u64, lim: Option<u32>) -> spec_fn(Id) -> bool { |k: Id| spendable(own, used, k, now) && lim is None }
    // the shortest beginning of what can be spent that is worth the amount, or nothing if all of it is not
    spec fn takes(own: Map<Id, OutputInfo>, e: Seq<Id>, amount: u64, r: Result<CollectedOutputs, TransactionError>) -> bool {
        match r {
            Ok(c) => {
                let n = c.pointers@.len() as int;
                &&& amount > 0 && 0 < n <= e.len() && pids(c.pointers@) == e.take(n) && c.total_value == vsum(own, e.take(n)) && c.total_value >= amount && vsum(own, e.take(n - 1)) < amount
                &&& c.resolved@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] c.resolved@[i] == info(own[e[i]])
            }
            Err(x) => x is NoMoney && vsum(own, e) < amount && x->available_balance == vsum(own, e) && x->transaction_value == amount,
        }
    }
    spec fn info(x: OutputInfo) -> ValueTransferOutput { ValueTransferOutput { pkh: x.pkh, value: x.amount, time_lock: x.time_lock } }
    // when an output can be spent: it is unlocked, and no transaction under way spends it
    spec fn until(own: Map<Id, OutputInfo>, used: Map<Id, u64>, k: Id) -> Option<u64> {
        if own.contains_key(k) { Some(if used.contains_key(k) && used[k] > own[k].time_lock { used[k] } else { own[k].time_lock }) } else if used.contains_key(k) { Some(used[k]) } else { None }
    }
    spec fn spendable(own: Map<Id, OutputInfo>, used: Map<Id, u64>, k: Id, now: u64) -> bool { own.contains_key(k) && until(own, used, k)->0 <= now }
"""


def verus(u):
    mo, wa, ut, ch = (u.src(x) for x in (MO, WA, UT, CH))
    u.file("wallet_outputs", LIGHT_PRELUDE)
    M = [(r"\bmodel::", "")]
    u.emit_raw("type SHA256 = [u8; 32];")
    u.emit_raw(u.struct_text(ch, "Hash", derive="Clone, Copy, PartialEq, Eq, Hash").replace("Hash)]", "std::hash::Hash)]"))
    u.emit("impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }")
    for t in ("PublicKeyHash", "OutputPointer", "Input", "ValueTransferOutput"):
        u.emit_raw(u.struct_text(ch, t, derive="Clone, Copy, PartialEq, Eq"))
    u.emit_raw(u.struct_text(mo, "OutPtr", derive=""))
    u.emit_raw("impl Clone for OutPtr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() } }")
    u.emit_raw(u.struct_text(mo, "OutputInfo", derive="Clone, Copy, PartialEq, Eq"))
    u.emit_raw(u.struct_text(ut, "UtxoSelectionStrategy"))
    tf, er = u.src(TF), u.src(ER)
    u.emit_raw(u.struct_text(er, "TransactionError", keep_fields=["OutputValueOverflow", "NoMoney", "ZeroAmount"]))
    u.emit_raw(u.struct_text(tf, "CollectedOutputs"))
    u.emit_raw(u.struct_text(wa, "WalletUtxos", subst=[(r"HashSet<model::OutPtr>", "PSet"), (r"model::UtxoSet", "PMap<OutputInfo>"), (r"model::UsedOutputs", "PMap<u64>")]))
    u.notes.add("HashMap<OutPtr, _> and HashSet<OutPtr> are external types with maps and sets of (hash bytes, index) as views")
    u.emit(SPEC)
    u.emit_impl(" Hash", [u.fn(ch, "Hash::as_ref", trait="AsRef", self_text="Hash", subst=[(r"bytes\.as_ref\(\)", "bytes.as_slice()")], spec="ensures r@ == bytes_of(*self)")])
    u.emit_impl(" Input", [u.fn(ch, "Input::output_pointer", spec="ensures *r == self.output_pointer")])
    u.emit_impl(" OutPtr", [
        u.fn(mo, "OutPtr::transaction_id", subst=[(r"let mut array_bytes = \[0; 32\]", "let mut array_bytes: [u8; 32] = [0; 32]"), (r"array_bytes\.copy_from_slice\(&([\w.]+)\)", r"copy_bytes(&mut array_bytes, &\1)")], spec="requires self.txn_hash@.len() == 32 ensures bytes_of(r) == self.txn_hash@"),
        u.fn(mo, "OutPtr::from", trait="From", self_text="From<&OutputPointer>", name="of_pointer", subst=[(r"(p\.transaction_id\.as_ref\(\))\.to_vec\(\)", r"bytes_vec(\1)")], spec="ensures r.id() == pid(*p)"),
    ])
    u.emit("""
    #[verifier::external_body] fn copy_bytes(a: &mut [u8; 32], b: &Vec<u8>) requires b@.len() == 32 ensures final(a)@ == b@ { a.copy_from_slice(b) }
    #[verifier::external_body] fn bytes_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
    fn info_out(x: Option<&OutputInfo>) -> (r: Option<ValueTransferOutput>) ensures r == (match x { Some(i) => Some(info(*i)), None => None }) { match x { Some(i) => Some(ValueTransferOutput::of_info(*i)), None => None } }
    """)
    u.emit_impl(" OutputPointer", [u.fn(mo, "OutputPointer::from", trait="From", self_text="From<&OutPtr>", name="of_ptr", spec="requires out_ptr.txn_hash@.len() == 32 ensures pid(r) == out_ptr.id()")])
    u.emit_impl(" ValueTransferOutput", [u.fn(mo, "ValueTransferOutput::from", trait="From", self_text="From<OutputInfo>", name="of_info", sig="fn of_info(x: OutputInfo) -> (r: ValueTransferOutput)", start="let OutputInfo { amount, pkh, time_lock } = x;", spec="ensures r == info(x)")])
    # comparisons of addresses behind references
    FROM = [(r"(?<![\w.*])(\w+) == &(\w+)\.pkh\b", r"same(\1, &\2.pkh)"), (r"(?<![\w.*])(\w+) != &(\w+)\.pkh\b", r"!same(\1, &\2.pkh)"), (r"&(\w+)\.pkh == (\w+)\b", r"same(&\1.pkh, \2)"), (r"&(\w+)\.pkh != (\w+)\b", r"!same(&\1.pkh, \2)")]
    # -- uses --------------------------------------------------------------------------------------------
    u.emit_fn(mo, "clean_used_outputs", ret="r", desugar=["ref_pat"], sig_subst=[(r"\bUsedOutputs\b", "PMap<u64>"), (r"\bUtxoSet\b", "PMap<OutputInfo>")], subst=[(r"\bUsedOutputs::(default|new)\(\)", "PMap::<u64>::new()")], spec="""
        ensures cleaned(used_outputs@, utxo_set@, r@, clock() as int)""",
        loops={0: dict(bind="us", inv="""it0.seq() == us@, lists(used_outputs.slots(), used_outputs@), us@.len() == used_outputs.slots().len(), now == clock(), clock() >= 0,
            forall|i: int| 0 <= i < us@.len() ==> (#[trigger] us@[i]).0.id() == used_outputs.slots()[i] && *us@[i].1 == used_outputs@[used_outputs.slots()[i]],
            forall|k: Id| #[trigger] new_hm@.contains_key(k) ==> used_outputs@.contains_key(k) && new_hm@[k] == used_outputs@[k] && utxo_set@.contains_key(k) && new_hm@[k] >= clock(),
            forall|i: int| 0 <= i < it0.index@ ==> (utxo_set@.contains_key(#[trigger] used_outputs.slots()[i]) && used_outputs@[used_outputs.slots()[i]] > clock() ==> new_hm@.contains_key(used_outputs.slots()[i]))""",
            start="proof { let i = it0.index@ as int; assert(used_outputs.slots().contains(used_outputs.slots()[i])); }",
            after="proof { assert forall|k: Id| #[trigger] used_outputs@.contains_key(k) && utxo_set@.contains_key(k) && used_outputs@[k] > clock() implies new_hm@.contains_key(k) by { assert(used_outputs.slots().contains(k)); let i = used_outputs.slots().index_of(k); assert(used_outputs.slots()[i] == k); } }")})
    # -- order -------------------------------------------------------------------------------------------
    u.emit_fn(wa, "sort_utxo_set", ret="r", sig_subst=M + [(r"impl Iterator<Item = &'a (?:model::)?OutPtr> \+ 'a", "Vec<&'a OutPtr>"), (r"\bUtxoSet\b", "PMap<OutputInfo>")], desugar=["filter", "filter_map", "map", "sorted_by_key", "closure", "tail_list", "opt_map_or"], subst=M + FROM + [(r"\bi128::from\(([\w.]+)\)", r"(\1 as i128)")],
        spec="ensures ids(r@).no_duplicates(), forall|k: Id| #[trigger] ids(r@).contains(k) <==> utxo_set@.contains_key(k) && allowed(ofr(from), utxo_set@[k].pkh), by_amount(utxo_set@, ids(r@), bigger_first)",
        start="let ghost mut kv: Seq<(i128, (&OutPtr, &OutputInfo))> = Seq::empty();", loops={
            0: dict(cty="Vec<&'a OutPtr>", bind="so", inv="""
                it0.seq() == so@, exists|p: Seq<int>| sorted_as(so@, kv, p), it0.index@ <= so@.len(), __c@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] __c@[i]).id() == so@[i].0.id()""",
                after="proof { assert(ids(__c@) =~= ids_in(so@)); sort_ok(utxo_set, ofr(from), kv, so@, bigger_first); }"),
            1: dict(cty="Vec<(i128, (&OutPtr, &OutputInfo))>", bind="us", inv="""
                it1.seq() == us@, lists(utxo_set.slots(), utxo_set@), us@.len() == utxo_set.slots().len(), it1.index@ <= us@.len(),
                forall|i: int| 0 <= i < us@.len() ==> (#[trigger] us@[i]).0.id() == utxo_set.slots()[i] && *us@[i].1 == utxo_set@[utxo_set.slots()[i]],
                keyed_ids(__c@) == sieve(utxo_set.slots().take(it1.index@ as int), of_addr(utxo_set@, ofr(from))),
                forall|i: int| 0 <= i < __c@.len() ==> (#[trigger] __c@[i]).0 == (if bigger_first { -amount_of(utxo_set@, __c@[i].1.0.id()) } else { amount_of(utxo_set@, __c@[i].1.0.id()) })""",
                start="proof { sieve_step(utxo_set.slots(), of_addr(utxo_set@, ofr(from)), it1.index@ as int); assert(forall|s: int, x: int| s == 1 ==> #[trigger] (s * x) == x) by(nonlinear_arith); assert(forall|s: int, x: int| s == -1 ==> #[trigger] (s * x) == -x) by(nonlinear_arith); }",
                end="proof { assert(keyed_ids(__c@) =~= sieve(utxo_set.slots().take(it1.index@ + 1), of_addr(utxo_set@, ofr(from)))); }",
                after="proof { assert(utxo_set.slots().take(us@.len() as int) =~= utxo_set.slots()); kv = __c@; }")})
    # -- what is offered ---------------------------------------------------------------------------------
    TO0 = [(r"\b(?:model::)?OutPtr::from\(", "OutPtr::of_pointer("), (r"\bOutputPointer::from\(", "OutputPointer::of_ptr("), (r"&(\w+)\.pointer\(\)\.into\(\)", r"&OutPtr::of_pointer(\1.pointer())")]
    w = lambda n, **kw: u.fn(wa, "WalletUtxos::" + n, trait="OutputsCollection", **kw)
    TO = TO0 + [(r"&(\w+)\.into\(\)", r"&OutPtr::of_pointer(\1)"), (r"let (\w+): OutputPointer = (\w+)\.into\(\)", r"let \1: OutputPointer = OutputPointer::of_ptr(\2)"), (r"(\w+\.output_pointer\(\))\.into\(\)", r"OutPtr::of_pointer(\1)"),
          (r"((?:self\.utxo_set)\.get\((?:[^()]|\([^()]*\))*\))\.cloned\(\)\.map\(Into::into\)", r"info_out(\1)"), (r"((?:self\.used_outputs)\.get\((?:[^()]|\([^()]*\))*\))\.copied\(\)", r"copied(\1)"), (r"\bstd::cmp::max\(", "umax("), (r"\(((?:\w|[ &|!])+)\)\.then_some\(", r"then_some(\1, ")]
    SORTED = """it%d.seq() == %s@, ids(%s@).no_duplicates(), forall|k: Id| #[trigger] ids(%s@).contains(k) <==> self.utxo_set@.contains_key(k) && allowed(from_of(*strategy), self.utxo_set@[k].pkh), by_amount(self.utxo_set@, ids(%s@), %s),
        whole(self.utxo_set@), it%d.index@ <= %s@.len(), pids(__c@) == sieve(ids(%s@).take(it%d.index@ as int), openf(self))"""
    def sorted_loop(k, b, big):
        return dict(cty="Vec<OutputPointer>", bind=b, inv=SORTED % (k, b, b, b, b, big, k, b, b, k),
                    start="proof { let i = it%d.index@ as int; sieve_step(ids(%s@), openf(self), i); assert(ids(%s@).contains(ids(%s@)[i])); assert forall|h: Hash| settling(self.unconfirmed_transactions@, #[trigger] bytes_of(h)) <==> self.unconfirmed_transactions@.contains(h) by { settling_is(self.unconfirmed_transactions@, h); } }" % (k, b, b, b),
                    end="proof { assert(pids(__c@) =~= sieve(ids(%s@).take(it%d.index@ + 1), openf(self))); }" % (b, k),
                    after="proof { assert(ids(%s@).take(%s@.len() as int) =~= ids(%s@)); sieve_all(ids(%s@), openf(self)); sieve_sorted(self.utxo_set@, ids(%s@), openf(self), %s); }" % (b, b, b, b, b, big))
    u.emit("impl<'a> WalletUtxos<'a> { spec fn uses(&self) -> Map<Id, u64> { self.used_outputs@ } }")
    u.emit_impl("<'a> WalletUtxos<'a>", [
        w("sort_by", ret="r", desugar=["filter", "filter_map", "map", "collect", "closure", "opt_map_or"], subst=M + FROM + TO, spec="""
            requires whole(self.utxo_set@)
            ensures pids(r@).no_duplicates(), forall|k: Id| #[trigger] pids(r@).contains(k) <==> offers(self, from_of(*strategy), k), match bigf(*strategy) { Some(b) => by_amount(self.utxo_set@, pids(r@), b), None => true }""",
            loops={0: sorted_loop(0, "bs", "true"), 1: sorted_loop(1, "ss", "false"),
                   2: dict(cty="Vec<OutputPointer>", bind="us", inv="""it2.seq() == us@, lists(self.utxo_set.slots(), self.utxo_set@), us@.len() == self.utxo_set.slots().len(), it2.index@ <= us@.len(), whole(self.utxo_set@), *from == from_of(*strategy),
                        forall|i: int| 0 <= i < us@.len() ==> (#[trigger] us@[i]).0.id() == self.utxo_set.slots()[i] && *us@[i].1 == self.utxo_set@[self.utxo_set.slots()[i]],
                        pids(__c@) == sieve(self.utxo_set.slots().take(it2.index@ as int), bothf(self, *from))""",
                        start="proof { let i = it2.index@ as int; sieve_step(self.utxo_set.slots(), bothf(self, *from), i); assert(self.utxo_set.slots().contains(self.utxo_set.slots()[i])); assert forall|h: Hash| settling(self.unconfirmed_transactions@, #[trigger] bytes_of(h)) <==> self.unconfirmed_transactions@.contains(h) by { settling_is(self.unconfirmed_transactions@, h); } }",
                        end="proof { assert(pids(__c@) =~= sieve(self.utxo_set.slots().take(it2.index@ + 1), bothf(self, *from))); }",
                        after="proof { assert(self.utxo_set.slots().take(us@.len() as int) =~= self.utxo_set.slots()); sieve_all(self.utxo_set.slots(), bothf(self, *from)); }")}),
        w("get", ret="r", subst=M + TO, spec="ensures r == (if self.utxo_set@.contains_key(pid(*outptr)) { Some(info(self.utxo_set@[pid(*outptr)])) } else { None })"),
        w("get_usage_timeout", ret="r", desugar=["opt_map"], subst=M + TO, spec="ensures r == until(self.utxo_set@, self.uses(), pid(*outptr))"),
        w("get_value", ret="r", desugar=["opt_map"], subst=M + TO, spec="ensures r == (if self.utxo_set@.contains_key(pid(*outptr)) { Some(self.utxo_set@[pid(*outptr)].amount) } else { None })"),
        w("get_included_block_number", ret="r", spec="ensures r is None"),
        w("set_used_output_pointer", ret=None, sig_subst=[(r"impl Iterator<Item = Input>", "Vec<Input>")], subst=M + TO, spec="""
            ensures final(self).utxo_set == old(self).utxo_set, final(self).unconfirmed_transactions == old(self).unconfirmed_transactions, final(self).selected_utxos == old(self).selected_utxos,
                held(old(self).uses(), final(self).uses(), inputs@, inputs@.len() as int, ts)""",
            loops={0: dict(bind="is", inv="""it0.seq() == is@, is@ == inputs@, self.utxo_set == old(self).utxo_set, self.unconfirmed_transactions == old(self).unconfirmed_transactions, self.selected_utxos == old(self).selected_utxos, it0.index@ <= is@.len(),
                held(old(self).uses(), self.uses(), inputs@, it0.index@ as int, ts)""")}),
    ])
    u.emit("impl<'a> WalletUtxos<'a> { spec fn lists_as(&self, st: UtxoSelectionStrategy, s: Seq<Id>) -> bool { orders(self.utxo_set@, self.unconfirmed_transactions@, self.selected_utxos@, st, s) } }")
    CHAIN = [(r"if let (Some\(\w+\)) = ([^{;]*?)\s*&& ([^{;]*?)\{\s*continue;\s*\}", r"if let \1 = \2 { if \3 { continue; } }")]
    FREE = "freef(%s.utxo_set@, %s.uses(), timestamp, block_number_limit)"
    u.emit_impl("<'a> WalletUtxos<'a>", [
        u.fn(tf, "OutputsCollection::take_enough_utxos", ret="r", desugar=["index", "opt_ok_or"], subst=CHAIN, skel=["for"], end="""proof {
                let e = sieve(ord, f); let n = pointers@.len() as int;
                assert(f == %s); assert(old(self).lists_as(*utxo_strategy, ord)); assert(n == pids(pointers@).len());
                if __ret is Ok { let c = __ret->Ok_0; assert(c.pointers@ == pointers@); if n == 0 { assert(pids(pointers@) =~= Seq::empty()); } assert forall|i: int| 0 <= i < n implies #[trigger] c.resolved@[i] == info(own[e[i]]) by { assert(e.take(n)[i] == pid(pointers@[i])); } }
                else { assert(pids(pointers@) == e); }
                assert(takes(own, e, amount, __ret));
            }""" % (FREE % ("old(self)", "old(self)")), spec="""
            requires whole(old(self).utxo_set@), modest(old(self).utxo_set@)
            ensures *final(self) == *old(self), amount == 0 ==> r is Err && r->Err_0 is ZeroAmount, amount > 0 ==> exists|s: Seq<Id>| #[trigger] old(self).lists_as(*utxo_strategy, s) && takes(old(self).utxo_set@, sieve(s, %s), amount, r)""" % (FREE % ("old(self)", "old(self)")),
            after=[(r"let utxo_iter", "let ghost ord = pids(utxo_iter@); let ghost f = %s; let ghost own = self.utxo_set@; proof { assert(self.lists_as(*utxo_strategy, ord)); assert(ord.take(0) =~= Seq::empty()); }" % (FREE % ("self", "self")))],
            loops={0: dict(inv="""*self == *old(self), amount > 0, own == self.utxo_set@, modest(own), whole(own), ord == pids(utxo_iter@), old(self).lists_as(*utxo_strategy, ord), f == %s, __i0 <= ord.len(), ord.len() == utxo_iter@.len(),
                pids(pointers@) == sieve(ord.take(__i0 as int), f), outputs@.len() == pointers@.len(), forall|i: int| 0 <= i < outputs@.len() ==> #[trigger] outputs@[i] == info(own[pid(pointers@[i])]),
                total == vsum(own, ord.take(__i0 as int)), total_value == vsum(own, pids(pointers@)), total_value <= total""" % (FREE % ("self", "self")), inv_except_break="total_value < amount",
                ensures="pointers@.len() == 0 || vsum(own, pids(pointers@).drop_last()) < amount, __i0 == ord.len() || total_value >= amount", dec="ord.len() - __i0",
                start="""proof { step(own, ord, f, __i0 as int); done(own, ord, f, __i0 as int, pids(pointers@)); done(own, ord, f, __i0 + 1, sieve(ord.take(__i0 + 1), f)); assert(forall|p: OutputPointer| pids(pointers@.push(p)) =~= pids(pointers@).push(pid(p)));
                    let e = sieve(ord, f); let q = pids(pointers@).push(ord[__i0 as int]); assert(f == %s);
                    if f(ord[__i0 as int]) { assert(q == e.take(q.len() as int)); assert(q[q.len() - 1] == ord[__i0 as int]); assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == e[j] by { assert(e.take(q.len() as int)[j] == e[j]); } assert forall|j: int| 0 <= j < pointers@.len() implies e[j] == pid(#[trigger] pointers@[j]) by { assert(q[j] == pids(pointers@)[j]); } } }""" % (FREE % ("old(self)", "old(self)")), after="proof { done(own, ord, f, __i0 as int, pids(pointers@)); }")}),
    ])
    u.emit("""
    // what a transaction spends cannot be spent before the time is up, whatever is cleaned up meanwhile; nothing else changes
    proof fn not_twice(own: Map<Id, OutputInfo>, a: Map<Id, u64>, b: Map<Id, u64>, c: Map<Id, u64>, ins: Seq<Input>, ts: u64, now: u64, k: Id)
        requires held(a, b, ins, ins.len() as int, ts), cleaned(b, own, c, now as int)
        ensures (exists|i: int| 0 <= i < ins.len() && pid(#[trigger] ins[i].output_pointer) == k) && now < ts ==> !spendable(own, c, k, now),
            (forall|i: int| 0 <= i < ins.len() ==> pid(#[trigger] ins[i].output_pointer) != k) ==> (spendable(own, c, k, now) <==> spendable(own, a, k, now))
    {
        PROBE(not_twice);
        if forall|i: int| 0 <= i < ins.len() ==> pid(#[trigger] ins[i].output_pointer) != k { assert(b.contains_key(k) <==> a.contains_key(k)); }
        assert(c.contains_key(k) ==> b.contains_key(k) && c[k] == b[k]);
        assert(b.contains_key(k) && own.contains_key(k) && b[k] > now ==> c.contains_key(k));
    }
    """)
    u.close()


def build(u):
    TF, TX, ER, FE, WI, PR, DB = ("data_structures/src/" + x for x in ("transaction_factory.rs", "transaction.rs", "error.rs", "fee.rs", "wit.rs", "chain/priority.rs", "utxo_pool/utxo_db.rs"))
    x = Extract([TF, TX, CH, ER, UT, DB, FE, WI, PR, "storage/src/storage.rs", MO, WA], mods=["model", "utxo_pool", "utxo_db", "transaction_factory", "storage", "fee", "wit", "priority", "chain"],
                stubs=["Result", "SHA256", "KeyedSignature", "RADRequest", "Memoized", "StakeKey", "OldUnspentOutputsPool", "OrderedFloat", "get_timestamp"],
                traits=["Display", "Debug", "FromStr", "Zero"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db", "StakeTransactionBody::authorization_is_valid"])
    return HEADER + x.build(["WalletUtxos", "OutputsCollection", "sort_utxo_set", "clean_used_outputs", "UtxoSet", "UsedOutputs", "OutPtr::*", "OutputInfo", "UtxoSelectionStrategy", "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash", "Fee::absolute_from_nanowits", "Wit::from_nanowits", "Priority::derive_fee_wit", "Input::*"])


harness = dict(kind="extract", name="w02", build=build, main="w02.rs", edition="2024")
