from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
import t01
from t01 import ST, CA, WI, SS, ER, HE
ID = "T02"
EL, CH = "validations/src/eligibility/current.rs", "data_structures/src/chain/mod.rs"
FILES = [EL, SS]
CONST_FNS = ()
RULE = "sets of up to 14 stakes, many of equal power; for every validator, replication factors, witnesses, rounds and epochs at and around every limit"
ASSUMPTIONS = ["the iterators of the standard library and itertools (map, sorted_by, rev, take, find, nth, max) do what they say, and the shared entries are not changed while they are read", "the power of an entry is what T01 proves of it",
               "there are fewer than 2^62 entries; a data request has at least one witness and its rounds count from 1 to at most 16, the node's being 4", "the generic code is verified for the types the node uses; addresses are a totally ordered type",
               "the probability that goes with the target, a floating point number that is only logged, is external"]
NOTE = "The search compares the probability, too, and checks the real tracker, whose bookkeeping (which entries there are) is T01's."
GEN = [(r"StakesResult<(.*), Address, Coins, Epoch>", r"Result<\1, StakesError>"), (r"<ISK>", ""), (r"\bISK\b", "PublicKeyHash"), (r"\bEpoch\b", "u32"), (r"let validator(?:: Address)? = validator\.into\(\);", ""), (r"\bAddress\b", "PublicKeyHash")]
PAIR = "(StakeKey, u64)"
CHAIN = [(r"self\.by_key\s*\.iter\(\)", "self.by_key.pairs()"),
         (r"\.map\(move \|\((\w+), (\w+)\)\| \{", r".mapped(|p: &(StakeKey, SyncStakeEntry)| -> (o: %s) ensures o == (p.0, p.1.at(capability, current_epoch)) { let \1 = &p.0; let \2 = &p.1;" % PAIR),
         (r"\.sorted_by\(\|\((\w+), (\w+)\), \((\w+), (\w+)\)\| \{", r".sorted_by(|x: &%s, y: &%s| -> (o: Ordering) ensures o == rank_ord(*x, *y) { let \1 = &x.0; let \2 = &x.1; let \3 = &y.0; let \4 = &y.1;" % (PAIR, PAIR)),
         (r"impl Iterator<Item = \(StakeKey<PublicKeyHash>, Power\)> \+ Clone \+ '_", "List<%s>" % PAIR)]


def verus(u):
    ss, el, wi = u.src(SS), u.src(EL), u.src(WI)
    u.file("eligibility", LIGHT_PRELUDE)
    u.no_inline.update(["power", "read_value", "by_rank", "query_power", "stakes_count", "with_first_u32", "min"])
    u.emit("""
    use vstd::relations::*;
    use vstd::std_specs::bits::*;
    global size_of usize == 8;
    type Power = u64;
    mod ax { use vstd::prelude::*; #[derive(Clone, Copy)] pub struct PublicKeyHash { pub x: u8 }
        // an address as a number
        pub uninterp spec fn no(a: PublicKeyHash) -> int;
        pub broadcast axiom fn distinct(a: PublicKeyHash, b: PublicKeyHash) requires #[trigger] no(a) == #[trigger] no(b) ensures a == b; }
    use ax::*;
    broadcast use ax::distinct;
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for PublicKeyHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for PublicKeyHash { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl PublicKeyHash { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: Ordering) ensures r == cmp_int(no(*self), no(*o)) { unimplemented!() } }
    #[derive(Clone, Copy)] pub struct StakeKey { pub validator: PublicKeyHash, pub withdrawer: PublicKeyHash }
    impl StakeKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
    #[derive(Clone, Copy)] pub enum Capability { Mining, Witnessing }
    enum StakesError { ValidatorNotFound { validator: PublicKeyHash }, Other }
    pub assume_specification[Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
    pub assume_specification[Ordering::reverse](a: Ordering) -> (r: Ordering) ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
    // an entry is shared; what it holds now
    pub struct SyncStakeEntry { x: u8 }
    pub struct Stake { x: u8 }
    impl Stake { pub uninterp spec fn at(self, c: Capability, e: u32) -> u64; #[verifier::external_body] fn power(&self, c: Capability, e: u32) -> (r: u64) ensures r == self.at(c, e) { unimplemented!() } }
    impl SyncStakeEntry { pub uninterp spec fn now(self) -> Stake; pub open spec fn at(self, c: Capability, e: u32) -> u64 { self.now().at(c, e) }
        #[verifier::external_body] fn read_value(&self) -> (r: Stake) ensures r == self.now() { unimplemented!() } }
    // a map, in the order of its keys
    struct Book<K, V> { k: Option<K>, v: Option<V> }
    impl<K, V> Book<K, V> {
        uninterp spec fn view(&self) -> Map<K, V>;
        uninterp spec fn listed(&self) -> Seq<(K, V)>;
        #[verifier::external_body] fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
        #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.listed().len() { unimplemented!() }
        #[verifier::external_body] fn pairs(&self) -> (r: List<(K, V)>) ensures r@ == self.listed() { unimplemented!() }
    }
    spec fn not_after<T, F: Fn(&T, &T) -> Ordering>(f: F, x: T, y: T) -> bool { exists|o: Ordering| #[trigger] f.ensures((&x, &y), o) && o != Ordering::Greater }
    // an iterator: what is still to come
    struct List<T> { v: Vec<T> }
    impl<T> List<T> {
        uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body] fn mapped<U, F: Fn(&T) -> U>(self, f: F) -> (r: List<U>) requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self@[i],), #[trigger] r@[i]) { unimplemented!() }
        #[verifier::external_body] fn sorted_by<F: Fn(&T, &T) -> Ordering>(self, f: F) -> (r: List<T>) requires forall|x: T, y: T| #[trigger] f.requires((&x, &y))
            ensures r@.to_multiset() == self@.to_multiset(), forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> not_after(f, r@[i], r@[j]) { unimplemented!() }
        #[verifier::external_body] fn rev(self) -> (r: List<T>) ensures r@ == self@.reverse() { unimplemented!() }
        #[verifier::external_body] fn skip(self, n: usize) -> (r: List<T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
        #[verifier::external_body] fn take(self, n: usize) -> (r: List<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }), forall|i: int| #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == self@[i] { unimplemented!() }
        #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
        #[verifier::external_body] fn nth(&mut self, n: usize) -> (r: Option<T>) ensures r is Some <==> n < old(self)@.len(), r is Some ==> r->0 == old(self)@[n as int] && final(self)@ == old(self)@.skip(n + 1), r is None ==> final(self)@.len() == 0 { unimplemented!() }
        #[verifier::external_body] fn any<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: bool) requires forall|x: T| #[trigger] f.requires((&x,))
            ensures r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((&#[trigger] old(self)@[i],), true), !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false) { unimplemented!() }
        #[verifier::external_body] fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>) requires forall|x: T| #[trigger] f.requires((&x,))
            ensures r is Some ==> exists|i: int| 0 <= i < old(self)@.len() && #[trigger] old(self)@[i] == r->0 && f.ensures((&r->0,), true), r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false) { unimplemented!() }
    }
    struct Stakes { by_key: Book<StakeKey, SyncStakeEntry>, by_validator: Book<PublicKeyHash, Vec<SyncStakeEntry>> }
    // the more powerful first, then the greater validator, then the greater withdrawer
    spec fn rank_ord(x: (StakeKey, u64), y: (StakeKey, u64)) -> Ordering {
        if x.1 != y.1 { cmp_int(x.1 as int, y.1 as int) } else if x.0.validator != y.0.validator { cmp_int(no(x.0.validator), no(y.0.validator)) } else { cmp_int(no(x.0.withdrawer), no(y.0.withdrawer)) } }
    spec fn before() -> spec_fn((StakeKey, u64), (StakeKey, u64)) -> bool { |x: (StakeKey, u64), y: (StakeKey, u64)| rank_ord(x, y) != Ordering::Less }
    spec fn powers(s: Stakes, c: Capability, e: u32) -> Seq<(StakeKey, u64)> { Seq::new(s.by_key.listed().len(), |i: int| (s.by_key.listed()[i].0, s.by_key.listed()[i].1.at(c, e))) }
    spec fn ranking(s: Stakes, c: Capability, e: u32) -> Seq<(StakeKey, u64)> { powers(s, c, e).sort_by(before()) }
    proof fn total() ensures total_ordering(before()) {
        PROBE(total);
        broadcast use ax::distinct;
        let b = before();
        assert forall|x: (StakeKey, u64), y: (StakeKey, u64)| #[trigger] b(x, y) && #[trigger] b(y, x) implies x == y by { assert(x.1 == y.1); if x.0.validator != y.0.validator { assert(no(x.0.validator) != no(y.0.validator)); } else if x.0.withdrawer != y.0.withdrawer { assert(no(x.0.withdrawer) != no(y.0.withdrawer)); } }
        assert forall|x: (StakeKey, u64), y: (StakeKey, u64), z: (StakeKey, u64)| #[trigger] b(x, y) && #[trigger] b(y, z) implies b(x, z) by { assert(no(x.0.validator) == no(y.0.validator) ==> x.0.validator == y.0.validator); assert(no(y.0.validator) == no(z.0.validator) ==> y.0.validator == z.0.validator); assert(no(x.0.validator) == no(z.0.validator) ==> x.0.validator == z.0.validator); }
    }
    proof fn ranked(s: Seq<(StakeKey, u64)>, r: Seq<(StakeKey, u64)>) requires r.to_multiset() == s.to_multiset(), forall|i: int, j: int| 0 <= i < j < r.len() ==> rank_ord(r[i], r[j]) != Ordering::Greater ensures r.reverse() == s.sort_by(before())
    {
        PROBE(ranked);
        total();
        s.lemma_sort_by_ensures(before());
        r.lemma_reverse_to_multiset();
        let q = r.reverse();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] before()(q[i], q[j]) by { let x = r[r.len() - 1 - j]; let y = r[r.len() - 1 - i]; assert(rank_ord(x, y) != Ordering::Greater);
            assert(x.0.validator != y.0.validator ==> no(x.0.validator) != no(y.0.validator)) by { broadcast use ax::distinct; } }
        vstd::seq_lib::lemma_sorted_unique(q, s.sort_by(before()), before());
    }
    proof fn by_rank_proof(s: Stakes, c: Capability, e: u32, r: Seq<(StakeKey, u64)>)
        requires exists|m: Seq<(StakeKey, u64)>, q: Seq<(StakeKey, u64)>| #[trigger] m.len() == s.by_key.listed().len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (s.by_key.listed()[i].0, s.by_key.listed()[i].1.at(c, e))) && #[trigger] q.to_multiset() == m.to_multiset()
            && (forall|i: int, j: int| 0 <= i < j < q.len() ==> rank_ord(q[i], q[j]) != Ordering::Greater) && r == q.reverse()
        ensures r == ranking(s, c, e)
    {
        PROBE(by_rank_proof);
        let (m, q) = choose|m: Seq<(StakeKey, u64)>, q: Seq<(StakeKey, u64)>| #[trigger] m.len() == s.by_key.listed().len() && (forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (s.by_key.listed()[i].0, s.by_key.listed()[i].1.at(c, e))) && #[trigger] q.to_multiset() == m.to_multiset()
            && (forall|i: int, j: int| 0 <= i < j < q.len() ==> rank_ord(q[i], q[j]) != Ordering::Greater) && r == q.reverse();
        assert(m =~= powers(s, c, e));
        ranked(m, q);
    }
    // powers of the entries of a validator
    spec fn greatest(v: Seq<SyncStakeEntry>, c: Capability, e: u32, p: u64) -> bool { (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i].at(c, e) <= p) && (if v.len() == 0 { p == 0 } else { exists|i: int| 0 <= i < v.len() && #[trigger] v[i].at(c, e) == p }) }
    fn max_of(v: Vec<u64>) -> (r: Option<u64>) ensures r is Some <==> v@.len() > 0, r is Some ==> v@.contains(r->0) && forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] <= r->0
    {
        let mut r: Option<u64> = None;
        let mut i = 0;
        while i < v.len() invariant i <= v@.len(), r is Some <==> i > 0, r is Some ==> v@.contains(r->0) && forall|j: int| 0 <= j < i ==> #[trigger] v@[j] <= r->0 decreases v@.len() - i
        { match r { Some(x) if x > v[i] => {}, _ => { r = Some(v[i]); } } i += 1; }
        r
    }
    proof fn one_greatest(v: Seq<SyncStakeEntry>, c: Capability, e: u32) ensures forall|p: u64, q: u64| #[trigger] greatest(v, c, e, p) && #[trigger] greatest(v, c, e, q) ==> p == q
    {
        PROBE(one_greatest);
        assert forall|p: u64, q: u64| #[trigger] greatest(v, c, e, p) && #[trigger] greatest(v, c, e, q) implies p == q by { if v.len() > 0 { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].at(c, e) == p; let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j].at(c, e) == q; assert(v[i].at(c, e) <= q && v[j].at(c, e) <= p); } }
    }
    """)
    Q = [(r"(\b\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| ((?:(?!collect|max)[^;])*?)\)\s*(?:\.collect::<Vec<(?:Power|_)>>\(\)\s*\.into_iter\(\)\s*)?\.max\(\)\s*\.unwrap_or_default\(\)", r"max_of(each(\1, |\2: &SyncStakeEntry| -> (o: u64) ensures o == \2.at(capability, epoch) { \3 })).or_zero()")]
    u.emit("""
    #[verifier::external_body] fn each<T, U, F: Fn(&T) -> U>(v: &Vec<T>, f: F) -> (r: Vec<U>) requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> f.ensures((&v@[i],), r@[i]) { unimplemented!() }
    trait OrZero { fn or_zero(self) -> u64; }
    impl OrZero for Option<u64> { fn or_zero(self) -> (r: u64) ensures r == (match self { Some(x) => x, None => 0 }) { match self { Some(x) => x, None => 0 } } }
    """)
    u.emit_impl(" Stakes", [
        u.fn(ss, "Stakes::stakes_count", spec="r == self.by_key.listed().len()"),
        u.fn(ss, "Stakes::validator_count"),
        u.fn(ss, "Stakes::by_rank", subst=GEN + CHAIN, spec="r@ == ranking(*self, capability, current_epoch)", end="proof { by_rank_proof(*self, capability, current_epoch, __ret@); }"),
        u.fn(ss, "Stakes::query_power", subst=GEN + Q, desugar=["ok_or"], spec="r is Ok <==> self.by_validator@.contains_key(validator), r is Err ==> r->Err_0 == (StakesError::ValidatorNotFound { validator }), r is Ok ==> greatest(self.by_validator@[validator]@, capability, epoch, r->Ok_0)"),
    ])
    u.emit("""
    pub assume_specification<T>[<T as From<T>>::from](x: T) -> (r: T) ensures r == x;
    pub assume_specification[usize::pow](x: usize, e: u32) -> (r: usize) requires vstd::arithmetic::power::pow(x as int, e as nat) <= usize::MAX ensures r == vstd::arithmetic::power::pow(x as int, e as nat);
    pub struct Hash { x: u8 }
    uninterp spec fn lowest() -> Hash;
    uninterp spec fn starting_with(x: u32) -> Hash;
    impl Hash { #[verifier::external_body] fn min() -> (r: Hash) ensures r == lowest() { unimplemented!() }
        #[verifier::external_body] fn with_first_u32(x: u32) -> (r: Hash) ensures r == starting_with(x) { unimplemented!() } }
    trait Narrow { spec fn value(self) -> int; fn narrow(self) -> (r: u32) requires 0 <= self.value() <= u32::MAX ensures r == self.value(); }
    impl Narrow for u64 { spec fn value(self) -> int { self as int } fn narrow(self) -> (r: u32) { self as u32 } }
    trait OrValue<T> { fn or_value(self, d: T) -> T; }
    impl<T, E> OrValue<T> for Result<T, E> { fn or_value(self, d: T) -> (r: T) ensures r == (match self { Ok(x) => x, Err(_) => d }) { match self { Ok(x) => x, Err(_) => d } } }
    impl<T> OrValue<T> for Option<T> { fn or_value(self, d: T) -> (r: T) ensures r == (match self { Some(x) => x, None => d }) { match self { Some(x) => x, None => d } } }
    trait NoneIsZero { fn none_is_zero(self) -> (StakeKey, u64); }
    impl NoneIsZero for Option<(StakeKey, u64)> { #[verifier::external_body] fn none_is_zero(self) -> (r: (StakeKey, u64)) ensures self is Some ==> r == self->0, self is None ==> r.1 == 0 { unimplemented!() } }
    #[verifier::external_body] fn ratio(a: u64, b: u32) -> f64 { unimplemented!() }
    """)
    u.emit_raw(u.struct_text(el, "IneligibilityReason", derive="Clone, Copy").replace("enum Inel", "pub enum Inel"))
    u.emit_raw(u.struct_text(el, "Eligible", derive="Clone, Copy").replace("enum Elig", "pub enum Elig"))
    u.emit("""
    impl vstd::std_specs::convert::FromSpecImpl<IneligibilityReason> for Eligible { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(r: IneligibilityReason) -> Eligible { Eligible::No(r) } }
    spec fn at_place(r: Seq<(StakeKey, u64)>, i: int) -> int { if 0 <= i < r.len() { r[i].1 as int } else { 0 } }
    spec fn bits(x: int) -> int { 64 - u64_leading_zeros(x as u64) }
    // the first 32 bits below which the number drawn has to be
    spec fn chance(max_rounds: int, round: int, own: int, limit: int, best: int) -> int {
        let d = round * bits(limit) + bits(best) * (max_rounds - round);
        let t = (u64::MAX as int / d) * (max_rounds * bits(own));
        if d == 0 { u32::MAX as int } else { (if t > u64::MAX { u64::MAX as int } else { t }) / 0x1_0000_0000 }
    }
    spec fn crowd(round: int, witnesses: int) -> int { vstd::arithmetic::power::pow(2, round as nat) * witnesses }
    proof fn crowd_fits(round: int, witnesses: int) requires 1 <= round <= 16, 1 <= witnesses <= u16::MAX ensures vstd::arithmetic::power::pow(2, round as nat) <= 0x1_0000, 2 <= crowd(round, witnesses) <= 0x1_0000_0000
    {
        PROBE(crowd_fits);
        assert(vstd::arithmetic::power::pow(2, 16) == 0x1_0000 && vstd::arithmetic::power::pow(2, 1) == 2) by { reveal_with_fuel(vstd::arithmetic::power::pow, 17); }
        vstd::arithmetic::power::lemma_pow_increases(2, round as nat, 16); vstd::arithmetic::power::lemma_pow_increases(2, 1, round as nat);
        let p = vstd::arithmetic::power::pow(2, round as nat);
        assert(2 <= p * witnesses <= 0x1_0000_0000) by (nonlinear_arith) requires 2 <= p <= 0x1_0000, 1 <= witnesses <= 0xffff;
    }
    spec fn may_propose(s: Stakes, v: PublicKeyHash, e: u32, rf: int) -> bool {
        let n = s.by_key.listed().len() as int * 2 / 3;
        exists|i: int| 0 <= i < (if rf < n { rf } else { n }) && #[trigger] ranking(s, Capability::Mining, e)[i].0.validator == v }
    proof fn ranking_len(s: Stakes, c: Capability, e: u32) ensures ranking(s, c, e).len() == s.by_key.listed().len() { PROBE(ranking_len); total(); powers(s, c, e).lemma_sort_by_ensures(before()); powers(s, c, e).to_multiset_ensures(); ranking(s, c, e).to_multiset_ensures(); }
    """)
    u.emit("""
    // only validators of entries above a place of the ranking witness: fewer than 2^round * witnesses
    proof fn few(s: Stakes, c: Capability, e: u32, k: int) requires 0 <= k ensures forall|i: int| k <= i < ranking(s, c, e).len() ==> (#[trigger] ranking(s, c, e)[i]).1 <= at_place(ranking(s, c, e), k)
    {
        PROBE(few);
        total();
        powers(s, c, e).lemma_sort_by_ensures(before());
        let r = ranking(s, c, e);
        assert forall|i: int| k <= i < r.len() implies (#[trigger] r[i]).1 <= at_place(r, k) by { if k < i { assert(before()(r[k], r[i])); } }
    }
    proof fn more_bits(p: u64, q: u64) requires p <= q ensures 0 <= bits(p as int) <= bits(q as int) <= 64 decreases p
    {
        PROBE(more_bits);
        axiom_u64_leading_zeros(p); axiom_u64_leading_zeros(q);
        reveal_with_fuel(u64_leading_zeros, 2);
        if p > 0 { more_bits(p / 2, q / 2); }
    }
    // more power, a better chance
    proof fn more_power(max: int, round: int, p: u64, q: u64, limit: int, best: int) requires p <= q, 1 <= round <= max ensures chance(max, round, p as int, limit, best) <= chance(max, round, q as int, limit, best)
    {
        PROBE(more_power);
        more_bits(p, q);
        axiom_u64_leading_zeros(limit as u64); axiom_u64_leading_zeros(best as u64);
        let d = round * bits(limit) + bits(best) * (max - round);
        assert(d >= 0) by (nonlinear_arith) requires round >= 0, max - round >= 0, bits(limit) >= 0, bits(best) >= 0, d == round * bits(limit) + bits(best) * (max - round);
        if d > 0 {
            let m = u64::MAX as int / d; let x = bits(p as int); let y = bits(q as int);
            assert(m >= 0) by (nonlinear_arith) requires d > 0, m == u64::MAX as int / d;
            assert(max * x <= max * y) by (nonlinear_arith) requires max >= 0, x <= y;
            assert(m * (max * x) <= m * (max * y)) by (nonlinear_arith) requires m >= 0, max * x <= max * y;
        }
    }
    """)
    u.emit_impl(" From<IneligibilityReason> for Eligible", [u.fn(el, "Eligible::from", trait="From", self_text="Eligible")])
    EG = GEN + [(r"\.(find|any)\(\|\((\w+), _\)\| ([^()]*)\)", r".\1(|e: &(StakeKey, u64)| -> (b: bool) ensures b == (e.0.validator == validator) { let \2 = &e.0; \3 })"), (r"\.unwrap_or\(", ".or_value("), (r"\.unwrap_or_default\(\)", ".none_is_zero()"),
        (r"Power::from\((\d+)\)", r"\1u64"), (r"Power::from\(\(((?:[^();]|\([^();]*\))*)\)\.into\(\)\)", r"u64::from(\1)"), (r"\((\w+ - \w+)\)\.into\(\)", r"u32::from(\1)"), (r">> (\d+)\)\s*\.try_into\(\)\s*\.unwrap\(\)", r">> \1).narrow()"),
        (r"u64::from\((\w+)\) as f64 / (\w+) as f64", r"ratio(u64::from(\1), \2)"), (r"\b1_f64\b", "ratio(1, 1)"), (r"\b0\.0\b", "ratio(0, 1)")]
    u.emit_impl(" Stakes", [
        u.fn(el, "Stakes::mining_eligibility", trait="Eligibility", subst=EG, spec="""requires self.by_key.listed().len() < 0x4000_0000_0000_0000
            ensures r is Ok, r->Ok_0 == (if may_propose(*self, validator, epoch, replication_factor as int) { Eligible::Yes } else { Eligible::No(IneligibilityReason::InsufficientPower) })""",
            start="proof { ranking_len(*self, Capability::Mining, epoch); }"),
        u.fn(el, "Stakes::witnessing_eligibility", trait="Eligibility", subst=EG, spec="""requires witnesses >= 1, 1 <= round <= max_rounds, round <= 16
            ensures r is Ok, !self.by_validator@.contains_key(key) ==> r->Ok_0.0 == Eligible::No(IneligibilityReason::NotStaking),
                self.by_validator@.contains_key(key) ==> forall|p: u64| #[trigger] greatest(self.by_validator@[key]@, Capability::Witnessing, epoch, p) ==> ({
                    let l = ranking(*self, Capability::Witnessing, epoch); let limit = at_place(l, crowd(round as int, witnesses as int) - 1);
                    if p == 0 || p <= limit { r->Ok_0.0 == Eligible::No(IneligibilityReason::InsufficientPower) } else {
                        r->Ok_0.0 == Eligible::Yes && r->Ok_0.1 == starting_with(chance(max_rounds as int, round as int, p as int, limit, at_place(l, 0)) as u32) } })""",
            start="""proof { crowd_fits(round as int, witnesses as int); ranking_len(*self, Capability::Witnessing, epoch);
                assert forall|x: u64| #[trigger] (x >> 32) == x / 0x1_0000_0000 by { assert((x >> 32) == x / 0x1_0000_0000) by (bit_vector); }
                assert forall|x: u64| 0 <= #[trigger] u64_leading_zeros(x) <= 64 by { axiom_u64_leading_zeros(x); }
                assert forall|a: int, b: int| 0 <= a <= u16::MAX && 0 <= b <= 64 implies 0 <= #[trigger] (a * b) <= 0x40_0000 && a * b == b * a by { assert(0 <= a * b <= 0x40_0000 && a * b == b * a) by (nonlinear_arith) requires 0 <= a <= u16::MAX, 0 <= b <= 64; }
                assert forall|a: int, b: int| 0 <= a <= u16::MAX && 0 <= b <= 64 implies 0 <= #[trigger] (b * a) <= 0x40_0000 by { assert(0 <= b * a <= 0x40_0000) by (nonlinear_arith) requires 0 <= a <= u16::MAX, 0 <= b <= 64; }
                if self.by_validator@.contains_key(key) { one_greatest(self.by_validator@[key]@, Capability::Witnessing, epoch); } }"""),
        u.fn(el, "Eligibility::mining_eligibility_bool", subst=EG, spec="requires self.by_key.listed().len() < 0x4000_0000_0000_0000 ensures r == may_propose(*self, validator, epoch, rf as int)"),
        u.fn(el, "Eligibility::witnessing_eligibility_bool", subst=EG, spec="""requires witnesses >= 1, 1 <= round <= max_rounds, round <= 16
            ensures !self.by_validator@.contains_key(validator) ==> !r,
                self.by_validator@.contains_key(validator) ==> forall|p: u64| #[trigger] greatest(self.by_validator@[validator]@, Capability::Witnessing, epoch, p) ==>
                    r == (p > 0 && p > at_place(ranking(*self, Capability::Witnessing, epoch), crowd(round as int, witnesses as int) - 1))"""),
    ])
    u.close()


def build(u):
    x = Extract([ST, CA, WI, SS, ER, HE, EL, CH], mods=["num_traits::ops::saturating"], subst=[(r"pub enum CensusStrategy", "#[repr(u8)] pub enum CensusStrategy")], stubs=["PublicKeyHash", "StakeTransaction", "UnstakeTransaction", "get_environment", "Serialize", "Deserialize", "StakesTester", "Epoch", "Hash", "Output", "ValueTransferOutput", "DataRequestOutput", "Signature", "PublicKey", "RADTally", "RADAggregate", "Secp256k1Signature", "Secp256k1_Signature", "KeyedSignature", "StakeOutput"],
                traits=["Display", "Zero", "Saturating", "PrecisionLoss", "Clone", "Eligibility"], no=["ProtobufConvert for StakeKey", "Display for Hash", "From<Sha256> for Hash", "From<Hash> for Sha256"])
    t = x.build(["Eligibility", "Eligible", "IneligibilityReason", "Hash::min", "Hash::with_first_u32", "Stakes::*", "StakesTracker", "SyncStakeEntry", "StakeKey", "StakeEntry", "Wit", "Stake::*", "StakesError", "NoncePolicy", "CensusStrategy", "Capability", "Wit::*", "QueryStakesKey"])
    return HEADER + t


harness = dict(kind="extract", name="t02", build=build, main="t02.rs", edition="2024")
