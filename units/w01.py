from unit import LIGHT_PRELUDE
from utxolib import *
from extract import Extract, HEADER
ID = "W01"
TF, TX, ER, FE, WI, PR = ("data_structures/src/" + x for x in ("transaction_factory.rs", "transaction.rs", "error.rs", "fee.rs", "wit.rs", "chain/priority.rs"))
FILES = [TF, UT, TX, FE]
RULE = "pools of own and foreign outputs of every age and lock, some in use; payments, requests, stakes and collaterals of every size up to just beyond what can be spent, absolute and relative fees, every strategy, tight weight limits; each build is checked against the pool and followed by more builds"
ASSUMPTIONS = ["every own output is in the set of unspent outputs, and the own outputs are worth less than 2^64 - 1 together (the supply is)",
               "iterating over an unchanged HashMap gives the same order every time; sorted_by_key is a stable sort",
               "the product of a priority and a weight, in floating point and truncated, does not decrease with the weight",
               "the time of a build plus the pending timeout fits in 64 bits; with a relative fee the weight limit is below 2^32 - 1",
               "the weight of the scripts of a data request is any number"]
D = ["opt_map", "opt_ok_or", "opt_ok_or_else", "opt_map_or"]

SPEC = """
    #[verifier::external_body] fn same<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r <==> *a == *b { a == b }
    #[verifier::external_body] fn copied(x: Option<&u64>) -> (r: Option<u64>) ensures r == (match x { Some(v) => Some(*v), None => None }) { x.copied() }
    fn umax(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
    fn res_or(r: Result<u64, TransactionError>, d: u64) -> (x: u64) ensures x == (match r { Ok(v) => v, Err(_) => d }) { match r { Ok(v) => v, Err(_) => d } }
    // the order in which a map is iterated over: any, but the same every time
    uninterp spec fn slots(m: HashMap<OutputPointer, u64>) -> Seq<OutputPointer>;
    mod ax {
        use super::*;
        pub(crate) broadcast axiom fn slots_ok(m: HashMap<OutputPointer, u64>) ensures #![trigger slots(m)] slots(m).no_duplicates(), forall|p: OutputPointer| #[trigger] slots(m).contains(p) <==> m@.contains_key(p);
        pub(crate) broadcast axiom fn rate_grows(p: Priority, a: u32, b: u32) requires a <= b ensures #![trigger p.fee(a), p.fee(b)] p.fee(a) <= p.fee(b);
    }
    #[verifier::external_body]
    fn map_keys<'a>(m: &'a HashMap<OutputPointer, u64>) -> (r: Vec<&'a OutputPointer>)
        ensures r@.len() == slots(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == slots(*m)[i] { m.keys().collect() }
    #[verifier::external_body]
    fn map_iter<'a>(m: &'a HashMap<OutputPointer, u64>) -> (r: Vec<(&'a OutputPointer, &'a u64)>)
        ensures r@.len() == slots(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == slots(*m)[i] { m.iter().collect() }
    #[verifier::external_body]
    fn map_get_mut<'a>(m: &'a mut HashMap<OutputPointer, u64>, k: &OutputPointer) -> (r: Option<&'a mut u64>)
        ensures r is Some <==> old(m)@.contains_key(*k), r is Some ==> *r->0 == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(r->0)) && slots(*final(m)) == slots(*old(m)), r is None ==> *final(m) == *old(m) { m.get_mut(k) }
    // the stable sort
    type Keyed = Seq<(int, OutputPointer)>;
    spec fn put(s: Keyed, x: (int, OutputPointer)) -> Keyed decreases s.len() { if s.len() == 0 { seq![x] } else if s.last().0 <= x.0 { s.push(x) } else { put(s.drop_last(), x).push(s.last()) } }
    spec fn stable(s: Keyed) -> Keyed decreases s.len() { if s.len() == 0 { s } else { put(stable(s.drop_last()), s.last()) } }
    spec fn ranked(s: Keyed) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0 }
    spec fn keyed_of(v: Seq<(i128, &OutputPointer)>) -> Keyed { Seq::new(v.len(), |i: int| (v[i].0 as int, *v[i].1)) }
    #[verifier::external_body]
    fn keyed_sort<'a>(v: Vec<(i128, &'a OutputPointer)>) -> (r: Vec<&'a OutputPointer>)
        ensures r@.len() == v@.len(), stable(keyed_of(v@)).len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == stable(keyed_of(v@))[i].1
    { let mut v = v; v.sort_by_key(|x| x.0); v.into_iter().map(|x| x.1).collect() }
    proof fn put_all(s: Keyed, x: (int, OutputPointer)) ensures put(s, x).len() == s.len() + 1, forall|y: (int, OutputPointer)| #[trigger] put(s, x).contains(y) <==> s.contains(y) || y == x,
        ranked(s) ==> ranked(put(s, x)), s.no_duplicates() && !s.contains(x) ==> put(s, x).no_duplicates() decreases s.len()
    {
        if s.len() == 0 { assert(put(s, x) =~= seq![x]); assert(seq![x][0] == x); }
        else if s.last().0 <= x.0 {
            let r = s.push(x);
            assert forall|y: (int, OutputPointer)| #[trigger] r.contains(y) <==> s.contains(y) || y == x by {
                if s.contains(y) { let i = s.index_of(y); assert(r[i] == y); }
                if y == x { assert(r[s.len() as int] == y); }
                if r.contains(y) { let i = r.index_of(y); if i < s.len() { assert(s[i] == y); } }
            }
        } else {
            let (d, l) = (s.drop_last(), s.last());
            put_all(d, x);
            let q = put(d, x);
            let r = q.push(l);
            assert forall|y: (int, OutputPointer)| #[trigger] s.contains(y) <==> d.contains(y) || y == l by {
                if d.contains(y) { let i = d.index_of(y); assert(s[i] == y); }
                if y == l { assert(s[s.len() - 1] == y); }
                if s.contains(y) { let i = s.index_of(y); if i < d.len() { assert(d[i] == y); } }
            }
            assert forall|y: (int, OutputPointer)| #[trigger] r.contains(y) <==> q.contains(y) || y == l by {
                if q.contains(y) { let i = q.index_of(y); assert(r[i] == y); }
                if y == l { assert(r[q.len() as int] == y); }
                if r.contains(y) { let i = r.index_of(y); if i < q.len() { assert(q[i] == y); } }
            }
            if ranked(s) {
                assert(ranked(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 <= (#[trigger] d[j]).0 by { assert(s[i].0 <= s[j].0); } }
                assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 <= (#[trigger] r[j]).0 by {
                    if j == q.len() { assert(q.contains(q[i])); if q[i] != x { let k = d.index_of(q[i]); assert(s[k].0 <= s[s.len() - 1].0); } } else { assert(q[i].0 <= q[j].0); }
                }
            }
            if s.no_duplicates() && !s.contains(x) {
                assert(d.no_duplicates());
                assert(!d.contains(l)) by { if d.contains(l) { let i = d.index_of(l); assert(s[i] == s[s.len() - 1]); } }
                assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i == q.len() { assert(q.contains(q[j])); } else if j == q.len() { assert(q.contains(q[i])); } }
            }
        }
    }
    proof fn stable_all(s: Keyed) ensures stable(s).len() == s.len(), forall|y: (int, OutputPointer)| #[trigger] stable(s).contains(y) <==> s.contains(y), ranked(stable(s)), s.no_duplicates() ==> stable(s).no_duplicates() decreases s.len()
    {
        PROBE(stable_all);
        if s.len() > 0 {
            let (d, l) = (s.drop_last(), s.last());
            stable_all(d); put_all(stable(d), l);
            assert forall|y: (int, OutputPointer)| #[trigger] s.contains(y) <==> d.contains(y) || y == l by {
                if d.contains(y) { let i = d.index_of(y); assert(s[i] == y); }
                if y == l { assert(s[s.len() - 1] == y); }
                if s.contains(y) { let i = s.index_of(y); if i < d.len() { assert(d[i] == y); } }
            }
            if s.no_duplicates() { assert(!d.contains(l)) by { if d.contains(l) { let i = d.index_of(l); assert(s[i] == s[s.len() - 1]); } } }
        }
    }
    // -- own outputs, in the order of a strategy -------------------------------------------------------
    spec fn value_of(all: Outs, p: OutputPointer) -> int { if all.contains_key(p) { all[p].0.value as int } else { 0 } }
    spec fn by_value(all: Outs, big: bool, s: Seq<OutputPointer>) -> Keyed { Seq::new(s.len(), |i: int| (if big { -value_of(all, s[i]) } else { value_of(all, s[i]) }, s[i])) }
    spec fn named(s: Keyed) -> Seq<OutputPointer> { Seq::new(s.len(), |i: int| s[i].1) }
    spec fn from_of(st: UtxoSelectionStrategy) -> Option<PublicKeyHash> { match st { UtxoSelectionStrategy::Random { from } => from, UtxoSelectionStrategy::BigFirst { from } => from, UtxoSelectionStrategy::SmallFirst { from } => from } }
    spec fn allowed(st: UtxoSelectionStrategy, p: PublicKeyHash) -> bool { match from_of(st) { None => true, Some(f) => f == p } }
    spec fn sorted_own(all: Outs, own: HashMap<OutputPointer, u64>, big: bool) -> Seq<OutputPointer> { named(stable(by_value(all, big, slots(own)))) }
    spec fn order(all: Outs, own: HashMap<OutputPointer, u64>, pkh: PublicKeyHash, st: UtxoSelectionStrategy) -> Seq<OutputPointer> {
        if !allowed(st, pkh) { Seq::empty() } else { match st { UtxoSelectionStrategy::BigFirst { from: _ } => sorted_own(all, own, true), UtxoSelectionStrategy::SmallFirst { from: _ } => sorted_own(all, own, false), UtxoSelectionStrategy::Random { from: _ } => slots(own) } }
    }
    // what the order means: own outputs, each once, by value
    spec fn in_order(all: Outs, s: Seq<OutputPointer>, big: bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> if big { value_of(all, #[trigger] s[i]) >= value_of(all, #[trigger] s[j]) } else { value_of(all, s[i]) <= value_of(all, s[j]) } }
    proof fn sorted_ok(all: Outs, own: HashMap<OutputPointer, u64>, big: bool)
        ensures sorted_own(all, own, big).no_duplicates(), forall|p: OutputPointer| #[trigger] sorted_own(all, own, big).contains(p) <==> own@.contains_key(p), in_order(all, sorted_own(all, own, big), big)
    {
        PROBE(sorted_ok);
        broadcast use ax::slots_ok;
        let o = slots(own);
        let b = by_value(all, big, o);
        let s = stable(b);
        let r = sorted_own(all, own, big);
        assert(b.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(o[i] != o[j]); } }
        stable_all(b);
        assert forall|i: int| 0 <= i < s.len() implies own@.contains_key((#[trigger] s[i]).1) && s[i].0 == (if big { -value_of(all, s[i].1) } else { value_of(all, s[i].1) }) by { assert(s.contains(s[i])); let j = b.index_of(s[i]); assert(o.contains(o[j])); }
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(s[i] != s[j]); assert(s[i].0 == (if big { -value_of(all, s[i].1) } else { value_of(all, s[i].1) })); assert(s[j].0 == (if big { -value_of(all, s[j].1) } else { value_of(all, s[j].1) })); }
        assert forall|p: OutputPointer| #[trigger] r.contains(p) <==> own@.contains_key(p) by {
            if r.contains(p) { let i = r.index_of(p); assert(own@.contains_key(s[i].1)); }
            if own@.contains_key(p) { assert(o.contains(p)); let i = o.index_of(p); assert(b.contains(b[i])); assert(s.contains(b[i])); let j = s.index_of(b[i]); assert(r[j] == p); }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies if big { value_of(all, #[trigger] r[i]) >= value_of(all, #[trigger] r[j]) } else { value_of(all, r[i]) <= value_of(all, r[j]) } by { assert(s[i].0 <= s[j].0); assert(own@.contains_key(s[i].1)); assert(own@.contains_key(s[j].1)); }
    }
    proof fn order_ok(all: Outs, own: HashMap<OutputPointer, u64>, pkh: PublicKeyHash, st: UtxoSelectionStrategy)
        ensures order(all, own, pkh, st).no_duplicates(), forall|p: OutputPointer| #[trigger] order(all, own, pkh, st).contains(p) <==> allowed(st, pkh) && own@.contains_key(p)
    { PROBE(order_ok); broadcast use ax::slots_ok; sorted_ok(all, own, true); sorted_ok(all, own, false); }
    // -- which of them can be spent, and what they are worth ----------------------------------------------
    // unlocked, not in use, and old enough
    spec fn free(all: Outs, own: Map<OutputPointer, u64>, ts: u64, lim: Option<u32>, p: OutputPointer) -> bool {
        &&& all.contains_key(p) && all[p].0.time_lock <= ts
        &&& own.contains_key(p) ==> own[p] <= ts
        &&& match lim { None => true, Some(l) => all[p].1 <= l }
    }
    spec fn usable(all: Outs, own: Map<OutputPointer, u64>, ts: u64, lim: Option<u32>, s: Seq<OutputPointer>) -> Seq<OutputPointer> decreases s.len()
    { if s.len() == 0 { Seq::empty() } else { let u = usable(all, own, ts, lim, s.drop_last()); if free(all, own, ts, lim, s.last()) { u.push(s.last()) } else { u } } }
    spec fn worth(all: Outs, s: Seq<OutputPointer>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { worth(all, s.drop_last()) + all[s.last()].0.value as nat } }
    proof fn usable_ok(all: Outs, own: Map<OutputPointer, u64>, ts: u64, lim: Option<u32>, s: Seq<OutputPointer>)
        ensures forall|i: int| 0 <= i < usable(all, own, ts, lim, s).len() ==> s.contains(#[trigger] usable(all, own, ts, lim, s)[i]) && free(all, own, ts, lim, usable(all, own, ts, lim, s)[i]),
            s.no_duplicates() ==> usable(all, own, ts, lim, s).no_duplicates() decreases s.len()
    {
        if s.len() > 0 {
            let d = s.drop_last();
            usable_ok(all, own, ts, lim, d);
            let (u, v) = (usable(all, own, ts, lim, d), usable(all, own, ts, lim, s));
            assert forall|i: int| 0 <= i < v.len() implies s.contains(#[trigger] v[i]) && free(all, own, ts, lim, v[i]) by { if i < u.len() { assert(d.contains(u[i])); let j = d.index_of(u[i]); assert(s[j] == v[i]); } else { assert(s[s.len() - 1] == v[i]); } }
            if s.no_duplicates() {
                assert(d.no_duplicates());
                assert forall|i: int, j: int| 0 <= i < j < v.len() implies v[i] != v[j] by { if j == u.len() { assert(d.contains(u[i])); let k = d.index_of(u[i]); assert(s[k] != s[s.len() - 1]); } }
            }
        }
    }
    proof fn usable_take(all: Outs, own: Map<OutputPointer, u64>, ts: u64, lim: Option<u32>, s: Seq<OutputPointer>, i: int)
        requires 0 <= i < s.len()
        ensures usable(all, own, ts, lim, s.take(i + 1)) == (if free(all, own, ts, lim, s[i]) { usable(all, own, ts, lim, s.take(i)).push(s[i]) } else { usable(all, own, ts, lim, s.take(i)) })
    { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    // what is usable of a beginning is a beginning of what is usable
    proof fn usable_prefix(all: Outs, own: Map<OutputPointer, u64>, ts: u64, lim: Option<u32>, s: Seq<OutputPointer>, i: int)
        requires 0 <= i <= s.len()
        ensures usable(all, own, ts, lim, s.take(i)).len() <= usable(all, own, ts, lim, s).len(), usable(all, own, ts, lim, s.take(i)) == usable(all, own, ts, lim, s).take(usable(all, own, ts, lim, s.take(i)).len() as int) decreases s.len() - i
    {
        let (a, b) = (usable(all, own, ts, lim, s.take(i)), usable(all, own, ts, lim, s));
        if i == s.len() { assert(s.take(i) =~= s); assert(b.take(b.len() as int) =~= b); }
        else { usable_take(all, own, ts, lim, s, i); usable_prefix(all, own, ts, lim, s, i + 1); let c = usable(all, own, ts, lim, s.take(i + 1)); assert(a =~= c.take(a.len() as int)); assert(a =~= b.take(a.len() as int)); }
    }
    proof fn worth_step(all: Outs, s: Seq<OutputPointer>, i: int) requires 0 <= i < s.len() ensures worth(all, s.take(i + 1)) == worth(all, s.take(i)) + all[s[i]].0.value { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
    proof fn worth_push(all: Outs, s: Seq<OutputPointer>, p: OutputPointer) ensures worth(all, s.push(p)) == worth(all, s) + all[p].0.value { assert(s.push(p).drop_last() =~= s); }
    proof fn worth_grows(all: Outs, s: Seq<OutputPointer>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures worth(all, s.take(i)) <= worth(all, s.take(j)) decreases j - i
    { if i < j { worth_step(all, s, i); worth_grows(all, s, i + 1, j); } }
    // own outputs are unspent outputs, and whatever one takes of them is worth less than 2^64 - 1
    spec fn sound(all: Outs, own: Map<OutputPointer, u64>) -> bool {
        &&& forall|p: OutputPointer| #[trigger] own.contains_key(p) ==> all.contains_key(p)
        &&& forall|s: Seq<OutputPointer>| (forall|i: int| 0 <= i < s.len() ==> own.contains_key(#[trigger] s[i])) && s.no_duplicates() ==> #[trigger] worth(all, s) < u64::MAX
    }
    // the shortest beginning of e that is worth the amount
    spec fn shortest(all: Outs, e: Seq<OutputPointer>, amount: int, n: int) -> bool { 0 < n <= e.len() && worth(all, e.take(n)) >= amount && worth(all, e.take(n - 1)) < amount }
    spec fn collected(all: Outs, e: Seq<OutputPointer>, n: int, c: CollectedOutputs) -> bool {
        &&& c.pointers@ == e.take(n) && c.total_value == worth(all, e.take(n))
        &&& c.resolved@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] c.resolved@[i] == all[e[i]].0
    }
    // -- weights and fees -----------------------------------------------------------------------------------
    spec fn sat(x: int) -> u32 { if x > u32::MAX { u32::MAX } else { x as u32 } }
    spec fn outs_sum(s: Seq<ValueTransferOutput>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { outs_sum(s.drop_last()) + s.last().value as nat } }
    proof fn outs_step(s: Seq<ValueTransferOutput>, i: int) requires 0 <= i < s.len() ensures outs_sum(s.take(i + 1)) == outs_sum(s.take(i)) + s[i].value, outs_sum(s.take(i + 1)) <= outs_sum(s) decreases s.len() - i
    { PROBE(outs_step); assert(s.take(i + 1).drop_last() =~= s.take(i)); if i + 1 < s.len() { outs_step(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
    impl Priority { uninterp spec fn fee(&self, weight: u32) -> u64; }
    // the fee of a transaction of a weight
    spec fn charge(f: Fee, weight: u32) -> int { match f { Fee::Absolute(a) => a.0.0 as int, Fee::Relative(p) => p.0.fee(weight) as int } }
    impl RADRequest { uninterp spec fn size(&self) -> u32; }
    impl DataRequestOutput {
        spec fn total(&self) -> int { (self.witness_reward + 2 * self.commit_and_reveal_fee) * self.witnesses }
        spec fn total_ok(&self) -> bool { self.witness_reward + 2 * self.commit_and_reveal_fee <= u64::MAX && self.total() <= u64::MAX }
        spec fn load(&self) -> int { self.data_request.size() + 30 + self.witnesses * 636 + 100 }
    }
    // weight of a transaction besides its inputs (133 each): value transfers, data requests and stakes, each with so many outputs
    spec fn vt_base(outs: int) -> int { 360 * outs }
    spec fn dr_base(d: DataRequestOutput, outs: int) -> int { d.load() + 36 * outs }
    spec fn base_of(d: Option<&DataRequestOutput>, outs: int) -> int { match d { Some(d) => dr_base(*d, outs), None => vt_base(outs) } }
    spec fn cost(d: Option<&DataRequestOutput>, outs: Seq<ValueTransferOutput>) -> int { outs_sum(outs) + (match d { Some(d) => if d.total_ok() { d.total() } else { u64::MAX as int }, None => 0 }) }
    spec fn pays(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, n: int) -> bool { 1 <= n <= e.len() && worth(all, e.take(n)) >= value + charge(fee, sat(base + 133 * n)) }
    // n is the least number of outputs that pays for the value and for the fee of a transaction with n inputs
    spec fn least(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, n: int) -> bool { pays(all, e, value, fee, base, n) && forall|j: int| 1 <= j < n ==> !#[trigger] pays(all, e, value, fee, base, j) }
    spec fn light(fee: Fee, base: int, n: int, max: u32, first: bool) -> bool { match fee { Fee::Absolute(_) => first ==> base + 133 <= max || max == u32::MAX, Fee::Relative(_) => base + 133 * n <= max } }
    // what a build gives: n inputs exactly if something is to be paid and can be paid within the weight limit
    spec fn picked(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, max: u32, first: bool, r: Option<int>) -> bool {
        match r {
            Some(n) => least(all, e, value, fee, base, n) && light(fee, base, n, max, first) && value + charge(fee, sat(base + 133)) > 0,
            None => value + charge(fee, sat(base + 133)) <= 0 || forall|n: int| #[trigger] pays(all, e, value, fee, base, n) ==> !light(fee, base, n, max, first),
        }
    }
    spec fn chosen(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, max: u32, first: bool, r: Option<CollectedOutputs>, paid: AbsoluteFee) -> bool {
        match r {
            Some(c) => { let n = c.pointers@.len() as int; picked(all, e, value, fee, base, max, first, Some(n)) && collected(all, e, n, c) && paid.0.0 == charge(fee, sat(base + 133 * n)) }
            None => picked(all, e, value, fee, base, max, first, None),
        }
    }
    spec fn returned(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, n: int) -> int { worth(all, e.take(n)) - value - charge(fee, sat(base + 133 * n)) }
    spec fn with_change(s: Seq<ValueTransferOutput>, pkh: PublicKeyHash, v: int) -> Seq<ValueTransferOutput> { if v > 0 { s.push(ValueTransferOutput { pkh, value: v as u64, time_lock: 0 }) } else { s } }
    // the outputs a transaction spends are in use until the given time, nothing else about the own outputs changes
    spec fn in_use(a: OwnUnspentOutputsPool, b: OwnUnspentOutputsPool, ins: Seq<OutputPointer>, until: int) -> bool {
        &&& slots(b.map) == slots(a.map) && b.map@.dom() == a.map@.dom()
        &&& forall|p: OutputPointer| #[trigger] a.map@.contains_key(p) ==> b.map@[p] as int == (if ins.contains(p) { until } else { a.map@[p] as int })
    }
    proof fn pointed_step(s: Seq<Input>, i: int) requires 0 <= i < s.len() ensures forall|p: OutputPointer| #[trigger] pointed(s.take(i + 1)).contains(p) <==> pointed(s.take(i)).contains(p) || p == s[i].output_pointer
    {
        let (a, b) = (pointed(s.take(i)), pointed(s.take(i + 1)));
        assert(b =~= a.push(s[i].output_pointer));
        assert(b[i] == s[i].output_pointer);
        assert forall|p: OutputPointer| #[trigger] b.contains(p) <==> a.contains(p) || p == s[i].output_pointer by {
            if a.contains(p) { let j = a.index_of(p); assert(b[j] == p); }
            if b.contains(p) { let j = b.index_of(p); if j < i { assert(a[j] == p); } }
        }
    }
    spec fn pointed(s: Seq<Input>) -> Seq<OutputPointer> { Seq::new(s.len(), |i: int| s[i].output_pointer) }
    spec fn spends(r: Seq<Input>, e: Seq<OutputPointer>, a: OwnUnspentOutputsPool, b: OwnUnspentOutputsPool, until: int, dry: bool) -> bool
    { r == inputs_of(e.take(r.len() as int)) && if dry { b == a } else { in_use(a, b, e.take(r.len() as int), until) } }
    proof fn saturated(a: int, b: int) requires a >= 0, b >= 0 ensures sat(sat(a) + b) == sat(a + b) {}
"""


def verus(u):
    tf, ut, tx, ch, er, fe, wi, pr = u.src(TF), u.src(UT), u.src(TX), u.src(CH), u.src(ER), u.src(FE), u.src(WI), u.src(PR)
    u.file("wallet", LIGHT_PRELUDE)
    types(u)
    for c in ("INPUT_SIZE", "OUTPUT_SIZE", "STAKE_OUTPUT_WEIGHT", "COMMIT_WEIGHT", "REVEAL_WEIGHT", "TALLY_WEIGHT", "ALPHA", "BETA", "GAMMA"):
        u.emit(u.const_text(tx, c))
    u.emit(u.const_text(wi, "NANOWITS_PER_WIT"))
    u.emit("""
    #[derive(Clone, Copy)] struct RADRequest { x: u8 }
    #[derive(Clone, Copy)] struct KeyedSignature { x: u8 }
    #[derive(Clone, Copy)] struct StakeKey<T: Copy> { x: T }
    #[derive(Clone, Copy)] struct Priority { x: u8 }
    """)
    u.emit_raw(u.struct_text(wi, "Wit", derive="Clone, Copy"))
    for t in ("AbsoluteFee", "RelativeFee", "Fee"):
        u.emit_raw(u.struct_text(fe, t, derive="Clone, Copy"))
    for t in ("StakeOutput", "DataRequestOutput"):
        u.emit_raw(u.struct_text(ch, t, derive="Clone, Copy"))
    for t, f in (("VTTransactionBody", ["inputs", "outputs"]), ("DRTransactionBody", ["inputs", "outputs", "dr_output"]), ("StakeTransactionBody", ["inputs", "output", "change"])):
        u.emit_raw(u.struct_text(tx, t, keep_fields=f))
    u.emit_raw(u.struct_text(er, "TransactionError", keep_fields=["FeeOverflow", "OutputValueOverflow", "NoMoney", "ZeroAmount", "ValueTransferWeightLimitExceeded", "DataRequestWeightLimitExceeded", "StakeWeightLimitExceeded"]))
    for t in ("CollectedOutputs", "TransactionInfo", "TransactionOutputs"):
        u.emit_raw(u.struct_text(tf, t))
    for t in ("OwnUnspentOutputsPool", "NodeUtxosRef", "NodeUtxos", "UtxoSelectionStrategy"):
        u.emit_raw(u.struct_text(ut, t))
    u.emit(SPEC)
    pool_reads(u)
    KQ = [(r"<Q: [^>]*>", ""), (r"\bk: &Q\b", "k: &OutputPointer")]
    u.emit_impl(" OwnUnspentOutputsPool", [
        u.fn(ut, "OwnUnspentOutputsPool::get", sig_subst=KQ, spec="ensures r == (if self.map@.contains_key(*k) { Some(&self.map@[*k]) } else { None })"),
        u.fn(ut, "OwnUnspentOutputsPool::get_mut", sig_subst=KQ, subst=[(r"self\.map\.get_mut\(", "map_get_mut(&mut self.map, ")], spec="""
            ensures r is Some <==> old(self).map@.contains_key(*k), r is Some ==> *r->0 == old(self).map@[*k] && final(self).map@ == old(self).map@.insert(*k, *final(r->0)) && slots(final(self).map) == slots(old(self).map), r is None ==> *final(self) == *old(self)"""),
        u.fn(ut, "OwnUnspentOutputsPool::keys", sig_subst=[(r"std::collections::hash_map::Keys<'_, OutputPointer, u64>", "Vec<&OutputPointer>")], subst=[(r"self\.map\.keys\(\)", "map_keys(&self.map)")],
             spec="ensures r@.len() == slots(self.map).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == slots(self.map)[i]"),
        u.fn(ut, "OwnUnspentOutputsPool::iter", sig_subst=[(r"std::collections::hash_map::Iter<'_, OutputPointer, u64>", "Vec<(&OutputPointer, &u64)>")], subst=[(r"self\.map\.iter\(\)", "map_iter(&self.map)")],
             spec="ensures r@.len() == slots(self.map).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == slots(self.map)[i]"),
        u.fn(ut, "OwnUnspentOutputsPool::sort", desugar=D + ["sorted_by_key", "cloned", "collect"], subst=[(r"\bi128::from\(([\w.]+)\)", r"(\1 as i128)")], spec="ensures r@ == sorted_own(all_utxos@, self.map, bigger_first)", loops={
            0: dict(cty="Vec<OutputPointer>", bind="ord", inv="""it0.seq() == ord@, stable(by_value(all_utxos@, bigger_first, slots(self.map))).len() == ord@.len(), forall|i: int| 0 <= i < ord@.len() ==> *(#[trigger] ord@[i]) == stable(by_value(all_utxos@, bigger_first, slots(self.map)))[i].1,
                __c@ == sorted_own(all_utxos@, self.map, bigger_first).take(it0.index@ as int)""", before="proof { assert(sorted_own(all_utxos@, self.map, bigger_first).take(0) =~= Seq::empty()); }",
                after="proof { assert(__c@ =~= sorted_own(all_utxos@, self.map, bigger_first)); }"),
            1: dict(cty="Vec<(i128, &OutputPointer)>", bind="ks", inv="""it1.seq() == ks@, ks@.len() == slots(self.map).len(), forall|i: int| 0 <= i < ks@.len() ==> *(#[trigger] ks@[i]) == slots(self.map)[i],
                __c@.len() == it1.index@, forall|i: int| 0 <= i < __c@.len() ==> (#[trigger] __c@[i]).0 == by_value(all_utxos@, bigger_first, slots(self.map))[i].0 && *__c@[i].1 == slots(self.map)[i]""",
                after="proof { assert(keyed_of(__c@) =~= by_value(all_utxos@, bigger_first, slots(self.map))); }")}),
    ])
    u.emit_impl(" UtxoSelectionStrategy", [
        u.fn(ut, "UtxoSelectionStrategy::get_from", spec="ensures *r == from_of(*self)"),
        u.fn(ut, "UtxoSelectionStrategy::allows_from", subst=[(r"\bfrom == address\b", "same(from, address)"), (r"\baddress == from\b", "same(from, address)")], spec="ensures r <==> allowed(*self, *address)"),
    ])
    CO = [(r"((?:self\.\w+\.get|self\.own_utxos\.get)\([^()]*\))\.copied\(\)", r"copied(\1)"), (r"std::cmp::max\(", "umax(")]
    for ty, g in (("NodeUtxosRef", ""), ("NodeUtxos", "")):
        ref = ty == "NodeUtxosRef"
        own = "self.own()"
        u.emit("impl<'a> %s<'a> { spec fn own(&self) -> HashMap<OutputPointer, u64> { self.own_utxos.map } }" % ty)
        f = lambda n, **kw: u.fn(ut, ty + "::" + n, trait="OutputsCollection", **kw)
        fs = [] if ref else [u.fn(ut, "NodeUtxos::as_ref", spec="ensures r.all_utxos == self.all_utxos, r.own() == self.own(), r.pkh == self.pkh")]
        fs += [
            f("sort_by", desugar=D + ["map", "collect"], spec="ensures r@ == order(self.all_utxos@, %s, self.pkh, *strategy)" % own, loops={0: dict(cty="Vec<OutputPointer>", bind="ps", inv="""
                it0.seq() == ps@, ps@.len() == slots(self.own()).len(), forall|i: int| 0 <= i < ps@.len() ==> *(#[trigger] ps@[i]).0 == slots(self.own())[i], __c@ == slots(self.own()).take(it0.index@ as int)""",
                before="proof { assert(slots(self.own()).take(0) =~= Seq::empty()); }", after="proof { assert(__c@ =~= slots(self.own())); }")} if ref else {}),
            f("get", spec="ensures r == (match look(self.all_utxos@, *outptr) { Some(x) => Some(x.0), None => None })"),
            f("get_usage_timeout", desugar=D, subst=CO, spec="""ensures match look(self.all_utxos@, *outptr) {
                Some(x) => r is Some && r->0 == (if self.own()@.contains_key(*outptr) && self.own()@[*outptr] > x.0.time_lock { self.own()@[*outptr] } else { x.0.time_lock }),
                None => r == (if self.own()@.contains_key(*outptr) { Some(self.own()@[*outptr]) } else { None }) }"""),
            f("get_value", desugar=D, spec="ensures r == (match look(self.all_utxos@, *outptr) { Some(x) => Some(x.0.value), None => None })"),
            f("get_included_block_number", spec="ensures r == (match look(self.all_utxos@, *outptr) { Some(x) => Some(x.1), None => None })"),
        ]
        u.emit_impl("<'a> %s<'a>" % ty, fs)
    # -- building transactions ---------------------------------------------------------------------
    u.emit_impl(" Wit", [u.fn(wi, "Wit::from_nanowits", spec="ensures r.0 == nanowits"), u.fn(wi, "Wit::nanowits", spec="ensures r == self.0"),
                         u.fn(wi, "Wit::from_wits", subst=[(r"\.expect\(\"overflow\"\)", ".unwrap()")], spec="requires wits * 1000000000 <= u64::MAX ensures r.0 == wits * 1000000000")])
    u.emit("""
    impl Priority { #[verifier::external_body] fn derive_fee_wit(&self, weight: u32) -> (r: Wit) ensures r.0 == self.fee(weight) { unimplemented!() } }
    impl RADRequest { #[verifier::external_body] fn weight(&self) -> (r: u32) ensures r == self.size() { unimplemented!() } }
    impl Input { #[verifier::external_body] fn default() -> (r: Input) { unimplemented!() } }
    impl ValueTransferOutput { #[verifier::external_body] fn default() -> (r: ValueTransferOutput) ensures r.value == 0 { unimplemented!() } }
    """)
    u.emit_impl(" AbsoluteFee", [u.fn(fe, "AbsoluteFee::as_nanowits", spec="ensures r == self.0.0")])
    u.emit_impl(" RelativeFee", [u.fn(fe, "RelativeFee::into_absolute", spec="ensures r.0.0 == self.0.fee(weight)")])
    u.emit_impl(" Fee", [u.fn(fe, "Fee::absolute_from_wit", spec="ensures r is Absolute, r->Absolute_0.0 == wit")])
    u.emit_impl(" Input", [u.fn(ch, "Input::new", spec="ensures r.output_pointer == output_pointer"), u.fn(ch, "Input::output_pointer", spec="ensures *r == self.output_pointer")])
    u.emit_impl(" ValueTransferOutput", [u.fn(ch, "ValueTransferOutput::value", spec="ensures r == self.value")])
    SUM = [(r"self\s*\.outputs\s*\.iter\(\)\s*\.map\(ValueTransferOutput::value\)\s*\.reduce\(\|acc, value\| acc \+ value\)\s*\.unwrap_or_default\(\)", "sum_of(&self.outputs)")]
    LEN = [(r"u32::try_from\(([\w.]+)\.len\(\)\)\s*\.unwrap_or\(u32::MAX\)", r"len32(\1.len())"), (r"\bu32::from\(([\w.]+)\)", r"(\1 as u32)"), (r",?\s*hash: MemoHash::new\(\),?", ""), (r",\s*\.\.Default::default\(\)", "")]
    u.emit("""
    fn len32(n: usize) -> (r: u32) ensures r == sat(n as int) { if n > u32::MAX as usize { u32::MAX } else { n as u32 } }
    // v.iter().map(ValueTransferOutput::value).reduce(+).unwrap_or_default()
    fn sum_of(v: &Vec<ValueTransferOutput>) -> (r: u64) requires outs_sum(v@) <= u64::MAX ensures r == outs_sum(v@)
    {
        let mut r: u64 = 0; let mut i: usize = 0;
        proof { assert(v@.take(0) =~= Seq::empty()); }
        while i < v.len() invariant i <= v@.len(), r == outs_sum(v@.take(i as int)), outs_sum(v@) <= u64::MAX decreases v@.len() - i { proof { outs_step(v@, i as int); } r = r + v[i].value(); i = i + 1; }
        proof { assert(v@.take(v@.len() as int) =~= v@); }
        r
    }
    // the change, in a list
    fn opt_vec(c: Option<ValueTransferOutput>) -> (r: Vec<ValueTransferOutput>) ensures r@ == listed(c), outs_sum(r@) == (match c { Some(c) => c.value as int, None => 0 }) { let mut v = Vec::new(); if let Some(c) = c { v.push(c); } proof { assert(v@ =~= listed(c)); assert(v@.len() > 0 ==> v@.drop_last() =~= Seq::empty()); assert(outs_sum(Seq::empty()) == 0); } v }
    spec fn listed(c: Option<ValueTransferOutput>) -> Seq<ValueTransferOutput> { match c { Some(c) => seq![c], None => Seq::empty() } }
    // what there is to be paid, the weight besides the inputs, and the outputs
    spec fn out_cost(o: TransactionOutputs) -> int { match o { TransactionOutputs::DataRequest((d, c)) => cost(Some(&d), listed(c)), TransactionOutputs::Stake((s, c)) => s.value + (match c { Some(c) => c.value as int, None => 0 }), TransactionOutputs::ValueTransfer(v) => cost(None, v@) } }
    spec fn out_base(o: TransactionOutputs) -> int { match o { TransactionOutputs::DataRequest((d, c)) => dr_base(d, if c is Some { 1 } else { 0 }), TransactionOutputs::Stake((_, c)) => st_base(c is Some), TransactionOutputs::ValueTransfer(v) => vt_base(v@.len() as int) } }
    spec fn out_list(o: TransactionOutputs) -> Seq<ValueTransferOutput> { match o { TransactionOutputs::DataRequest((_, c)) => listed(c), TransactionOutputs::Stake((_, c)) => listed(c), TransactionOutputs::ValueTransfer(v) => v@ } }
    spec fn alike(a: TransactionOutputs, b: TransactionOutputs) -> bool {
        match (a, b) {
            (TransactionOutputs::DataRequest(x), TransactionOutputs::DataRequest(y)) => x == y, (TransactionOutputs::Stake(x), TransactionOutputs::Stake(y)) => x == y,
            (TransactionOutputs::ValueTransfer(v), TransactionOutputs::ValueTransfer(w)) => v@ == w@, _ => false,
        }
    }
    fn dup(v: &Vec<ValueTransferOutput>) -> (r: Vec<ValueTransferOutput>) ensures r@ == v@
    {
        let mut r: Vec<ValueTransferOutput> = Vec::new(); let mut i: usize = 0;
        while i < v.len() invariant i <= v@.len(), r@ == v@.take(i as int) decreases v@.len() - i { r.push(v[i]); i = i + 1; proof { assert(r@ =~= v@.take(i as int)); } }
        proof { assert(r@ =~= v@); }
        r
    }
    impl TransactionOutputs {
        fn clone(&self) -> (r: TransactionOutputs) ensures alike(r, *self) { match self { TransactionOutputs::DataRequest(x) => TransactionOutputs::DataRequest(*x), TransactionOutputs::Stake(x) => TransactionOutputs::Stake(*x), TransactionOutputs::ValueTransfer(v) => TransactionOutputs::ValueTransfer(dup(v)) } }
    }
    // v.iter().cloned().map(Input::new)
    fn as_inputs(v: &Vec<OutputPointer>) -> (r: Vec<Input>) ensures r@ == inputs_of(v@)
    {
        let mut r: Vec<Input> = Vec::new(); let mut i: usize = 0;
        while i < v.len() invariant i <= v@.len(), r@ == inputs_of(v@).take(i as int) decreases v@.len() - i { r.push(Input::new(v[i])); i = i + 1; proof { assert(r@ =~= inputs_of(v@).take(i as int)); } }
        proof { assert(r@ =~= inputs_of(v@)); }
        r
    }
    spec fn inputs_of(s: Seq<OutputPointer>) -> Seq<Input> { Seq::new(s.len(), |i: int| Input { output_pointer: s[i] }) }
    """)
    DE = D + ["opt_and_then"]
    u.emit_impl(" DataRequestOutput", [
        u.fn(ch, "DataRequestOutput::checked_total_value", desugar=DE, spec="ensures r is Ok <==> self.total_ok(), r is Ok ==> r->Ok_0 == self.total()"),
        u.fn(ch, "DataRequestOutput::weight", spec="ensures r == sat(self.data_request.size() + 30)"),
        u.fn(ch, "DataRequestOutput::extra_weight", subst=LEN, spec="ensures r == self.witnesses * 636 + 100"),
    ])
    u.emit_impl(" VTTransactionBody", [
        u.fn(tx, "VTTransactionBody::new", subst=LEN, spec="ensures r.inputs == inputs, r.outputs == outputs"),
        u.fn(tx, "VTTransactionBody::value", subst=SUM, spec="requires outs_sum(self.outputs@) <= u64::MAX ensures r == outs_sum(self.outputs@)"),
        u.fn(tx, "VTTransactionBody::weight", subst=LEN, spec="ensures r == sat(133 * self.inputs@.len() + vt_base(self.outputs@.len() as int))"),
    ])
    u.emit_impl(" DRTransactionBody", [
        u.fn(tx, "DRTransactionBody::new", subst=LEN, spec="ensures r.inputs == inputs, r.outputs == outputs, r.dr_output == dr_output"),
        u.fn(tx, "DRTransactionBody::value", subst=SUM, spec="requires outs_sum(self.outputs@) <= u64::MAX, self.dr_output.total_ok() ==> outs_sum(self.outputs@) + self.dr_output.total() <= u64::MAX ensures r is Ok <==> self.dr_output.total_ok(), r is Ok ==> r->Ok_0 == outs_sum(self.outputs@) + self.dr_output.total()"),
        u.fn(tx, "DRTransactionBody::weight", subst=LEN, spec="ensures r == sat(133 * self.inputs@.len() + dr_base(self.dr_output, self.outputs@.len() as int))"),
    ])
    u.emit_impl(" StakeTransactionBody", [
        u.fn(tx, "StakeTransactionBody::new", subst=LEN, spec="ensures r.inputs == inputs, r.output == output, r.change == change"),
        u.fn(tx, "StakeTransactionBody::weight", subst=LEN, spec="ensures r == sat(133 * self.inputs@.len() + st_base(self.change is Some))"),
        u.fn(tx, "StakeTransactionBody::value", desugar=DE + ["opt_map"], subst=[(r"&self\s*\.change\s*\.as_ref\(\)\s*\.map\(ValueTransferOutput::value\)\s*\.unwrap_or_default\(\)", "change_of(&self.change)")],
             spec="requires self.output.value + (match self.change { Some(c) => c.value as int, None => 0 }) <= u64::MAX ensures r == self.output.value + (match self.change { Some(c) => c.value as int, None => 0 })"),
    ])
    u.emit("""
    fn change_of(c: &Option<ValueTransferOutput>) -> (r: u64) ensures r == (match c { Some(c) => c.value, None => 0 }) { match c { Some(c) => c.value(), None => 0 } }
    spec fn st_base(change: bool) -> int { 105 + (if change { 36int } else { 0 }) }
    """)
    SL = lambda its, n, r: its if "(" in its else its.strip() + ".iter()"
    u.emit_fn(tf, "transaction_outputs_sum", desugar=D, skel=["for"], spec="ensures r is Ok <==> outs_sum(outputs@) <= u64::MAX, r is Ok ==> r->Ok_0 == outs_sum(outputs@)",
        loops={0: dict(inv="it0.seq().unref() == outputs@, total_value == outs_sum(outputs@.take(it0.index@))", iter_as=SL, before="proof { assert(outputs@.take(0) =~= Seq::empty()); }",
            start="proof { outs_step(outputs@, it0.index@); }", after="proof { assert(outputs@.take(outputs@.len() as int) =~= outputs@); }")})
    CALC = [(r"\bdr_output\.clone\(\)", "(*dr_output)")]
    u.emit_fn(tf, "calculate_weight", subst=CALC, spec="""ensures match r {
            Ok(w) => w <= max_weight && w == sat(133 * inputs_count + base_of(dro, outputs_count as int)),
            Err(_) => sat(133 * inputs_count + base_of(dro, outputs_count as int)) > max_weight }""")
    u.emit("""
    proof fn no_pay(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, w: u32) requires worth(all, e) < value + charge(fee, w) , value >= 0,
        ensures forall|n: int| sat(base + 133 * n) >= w ==> !#[trigger] pays(all, e, value, fee, base, n)
    {
        assert forall|n: int| sat(base + 133 * n) >= w implies !#[trigger] pays(all, e, value, fee, base, n) by { if 1 <= n <= e.len() { worth_grows(all, e, n, e.len() as int); assert(e.take(e.len() as int) =~= e); grows(fee, w, sat(base + 133 * n)); } }
    }
    // one round of the search for a relative fee: nothing below k pays, and the outputs are collected for the fee of k inputs
    spec fn after_round(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, k: int, max: u32, n: int) -> bool {
        &&& n >= k && (forall|j: int| 1 <= j < n ==> !#[trigger] pays(all, e, value, fee, base, j)) && (n == k ==> least(all, e, value, fee, base, k))
        &&& base + 133 * n > max ==> forall|m: int| #[trigger] pays(all, e, value, fee, base, m) ==> base + 133 * m > max
    }
    proof fn round(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, k: int, max: u32, w: u32)
        requires w == base + 133 * k, w <= max, max < u32::MAX, k >= 1, base >= 0, value >= 0, fee is Relative, forall|j: int| 1 <= j < k ==> !#[trigger] pays(all, e, value, fee, base, j)
        ensures worth(all, e) < value + charge(fee, w) ==> forall|n: int| !#[trigger] pays(all, e, value, fee, base, n),
            charge(fee, sat(base + 133)) <= charge(fee, w), sat(base + 133 * k) == w,
            forall|n: int| #[trigger] shortest(all, e, value + charge(fee, w), n) ==> after_round(all, e, value, fee, base, k, max, n)
    {
        PROBE(round);
        let c = value + charge(fee, w);
        grows(fee, sat(base + 133), w);
        if worth(all, e) < c { no_pay(all, e, value, fee, base, w); assert forall|n: int| !#[trigger] pays(all, e, value, fee, base, n) by { if n >= k { assert(sat(base + 133 * n) >= w); } } }
        assert forall|n: int| #[trigger] shortest(all, e, c, n) implies after_round(all, e, value, fee, base, k, max, n) by {
            if n < k { assert(!pays(all, e, value, fee, base, n)); grows(fee, sat(base + 133 * n), w); assert(false); }
            assert forall|j: int| 1 <= j < n implies !#[trigger] pays(all, e, value, fee, base, j) by { if j >= k { grows(fee, w, sat(base + 133 * j)); worth_grows(all, e, j, n - 1); } }
        }
    }
    // an absolute fee: the shortest beginning is the least number
    proof fn at_once(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int) requires fee is Absolute
        ensures worth(all, e) < value + charge(fee, 0) ==> forall|n: int| !#[trigger] pays(all, e, value, fee, base, n),
            forall|n: int| #[trigger] shortest(all, e, value + charge(fee, 0), n) ==> least(all, e, value, fee, base, n)
    {
        PROBE(at_once);
        let c = value + charge(fee, 0);
        assert(e.take(e.len() as int) =~= e);
        assert forall|n: int| #[trigger] pays(all, e, value, fee, base, n) implies worth(all, e) >= c by { worth_grows(all, e, n, e.len() as int); }
        assert forall|n: int| #[trigger] shortest(all, e, c, n) implies least(all, e, value, fee, base, n) by {
            assert forall|j: int| 1 <= j < n implies !#[trigger] pays(all, e, value, fee, base, j) by { worth_grows(all, e, j, n - 1); }
        }
    }
    proof fn broke(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int) requires worth(all, e) < value + charge(fee, 0) ensures forall|n: int| !#[trigger] pays(all, e, value, fee, base, n)
    {
        assert(e.take(e.len() as int) =~= e);
        assert forall|n: int| !#[trigger] pays(all, e, value, fee, base, n) by { if 1 <= n <= e.len() { worth_grows(all, e, n, e.len() as int); grows(fee, 0, sat(base + 133 * n)); } }
    }
    // whatever is chosen of the own outputs is worth less than 2^64 - 1
    proof fn rich(all: Outs, own: Map<OutputPointer, u64>, e: Seq<OutputPointer>) requires sound(all, own), e.no_duplicates(), forall|i: int| 0 <= i < e.len() ==> own.contains_key(#[trigger] e[i]) ensures worth(all, e) < u64::MAX {}
    proof fn cost_ok(d: Option<&DataRequestOutput>, outs: Seq<ValueTransferOutput>) ensures cost(d, outs) >= 0, d is Some ==> d->0.total() >= 0 { if let Some(d) = d { assert(d.total() >= 0) by(nonlinear_arith) requires d.total() == (d.witness_reward + 2 * d.commit_and_reveal_fee) * d.witnesses; } }
    proof fn grows(fee: Fee, a: u32, b: u32) requires a <= b ensures charge(fee, a) <= charge(fee, b) { broadcast use ax::rate_grows; match fee { Fee::Relative(p) => { assert(p.0.fee(a) <= p.0.fee(b)); } Fee::Absolute(_) => {} } }
    """)
    CHAIN = [(r"if let (Some\(\w+\)) = ([^{;]*?)\s*&& ([^{;]*?)\{\s*continue;\s*\}", r"if let \1 = \2 { if \3 { continue; } }")]
    AS = [(r"\b(\w+(?:\s*\.\w+)*)\s*\.iter\(\)\s*\.cloned\(\)\s*\.map\(Input::new\)(\s*\.collect\(\))?", r"as_inputs(&\1)")]
    FACTS = "let ghost (all, own) = (old(self).all_utxos@, old(self).own()); let ghost e = %s; proof { order_ok(all, own, old(self).pkh, *utxo_strategy); usable_ok(all, own@, timestamp, block_number_limit, order(all, own, old(self).pkh, *utxo_strategy)); rich(all, own@, e); }"
    LOOP = dict(iter="it0", inv="""
        *self == *old(self), fee == Fee::Relative(priority), sound(all, own@), all == self.all_utxos@, own == self.own(), e == usable(all, own@, timestamp, block_number_limit, order(all, own, self.pkh, *utxo_strategy)),
        worth(all, e) < u64::MAX, output_value == value || value >= u64::MAX && output_value == u64::MAX, value >= 0, base >= 0, BASE,
        k >= 1, current_weight == base + 133 * k, current_weight <= max_weight, max_weight < u32::MAX, k - 1 >= it0.index@,
        max_iterations == 1 + (max_weight - (base + 133)) / 133, k > 1 ==> value + charge(fee, sat(base + 133)) > 0,
        forall|j: int| 1 <= j < k ==> !#[trigger] pays(all, e, value, fee, base, j)""", before="let ghost mut k: int = 1;",
        start="proof { round(all, e, value, fee, base, k, max_weight, current_weight); }", end="proof { k = inputs.pointers@.len() as int; }")
    if any(o == "TransactionOutputs" and f["name"] == "weight_limit_exceeded" for o, _, _, f in tf.fns()):
        u.emit_impl(" TransactionOutputs", [u.fn(tf, "TransactionOutputs::weight_limit_exceeded", spec="")])
    INTO = [(r"\bchange\.into_iter\(\)\.collect\(\)", "opt_vec(change)"), (r"\boutputs\.into\(\)", "listing(outputs)")]
    u.emit(u.fn(tf, "Vec::from", trait="From", self_text="From<TransactionOutputs>", name="listing", ret="r", subst=INTO, sig_subst=[(r"\bSelf\b", "Vec<ValueTransferOutput>")], spec="ensures r@ == out_list(value)"))
    for ty in ("NodeUtxosRef", "NodeUtxos"):
        f = lambda n, **kw: u.fn(tf, "OutputsCollection::" + n, **kw)
        E = "usable(old(self).all_utxos@, old(self).own()@, timestamp, block_number_limit, order(old(self).all_utxos@, old(self).own(), old(self).pkh, *utxo_strategy))"
        PRE = "requires sound(old(self).all_utxos@, old(self).own()@)"
        SAME = "*final(self) == *old(self)"
        fs = [
            f("take_enough_utxos", desugar=D + ["index"], subst=CHAIN, skel=["for"], spec=PRE + """
                ensures %s, match r {
                    Ok(c) => amount > 0 && shortest(old(self).all_utxos@, %s, amount as int, c.pointers@.len() as int) && collected(old(self).all_utxos@, %s, c.pointers@.len() as int, c),
                    Err(e) => if amount == 0 { e is ZeroAmount } else { e is NoMoney && worth(old(self).all_utxos@, %s) < amount && e->available_balance == worth(old(self).all_utxos@, %s)
                        && e->total_balance == worth(old(self).all_utxos@, order(old(self).all_utxos@, old(self).own(), old(self).pkh, *utxo_strategy)) && e->transaction_value == amount } }""" % (SAME, E, E, E, E),
                start="let ghost (all, own, ord, e) = (old(self).all_utxos@, old(self).own(), order(old(self).all_utxos@, old(self).own(), old(self).pkh, *utxo_strategy), %s); proof { order_ok(all, own, old(self).pkh, *utxo_strategy); usable_ok(all, own@, timestamp, block_number_limit, ord); }" % E,
                loops={0: dict(inv="""
                    *self == *old(self), amount > 0, sound(all, own@), all == self.all_utxos@, own == self.own(), utxo_iter@ == ord, ord == order(all, own, old(self).pkh, *utxo_strategy), ord.no_duplicates(), forall|p: OutputPointer| ord.contains(p) ==> own@.contains_key(p),
                    e == usable(all, own@, timestamp, block_number_limit, ord), __i0 <= ord.len(),
                    pointers@ == usable(all, own@, timestamp, block_number_limit, ord.take(__i0 as int)), outputs@.len() == pointers@.len(), forall|i: int| 0 <= i < outputs@.len() ==> #[trigger] outputs@[i] == all[pointers@[i]].0,
                    total == worth(all, ord.take(__i0 as int)), total_value == worth(all, pointers@), total_value <= total""", inv_except_break="pointers@.len() == 0 || total_value < amount, total_value < amount",
                    ensures="pointers@.len() == 0 || worth(all, pointers@.drop_last()) < amount, __i0 == ord.len() || total_value >= amount",
                    before="proof { assert(ord.take(0) =~= Seq::empty()); }", dec="ord.len() - __i0",
                    start="""proof { let i = __i0 as int; worth_step(all, ord, i); usable_take(all, own@, timestamp, block_number_limit, ord, i); worth_push(all, pointers@, ord[i]); assert(pointers@.push(ord[i]).drop_last() =~= pointers@);
                        usable_prefix(all, own@, timestamp, block_number_limit, ord, i); usable_prefix(all, own@, timestamp, block_number_limit, ord, i + 1);
                        assert(pointers@ == e.take(pointers@.len() as int)); let q = pointers@.push(ord[i]); assert(q.len() == pointers@.len() + 1);
                        if free(all, own@, timestamp, block_number_limit, ord[i]) { assert(q == e.take(q.len() as int)); assert(q[q.len() - 1] == ord[i]); assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == e[j] by { assert(e.take(q.len() as int)[j] == e[j]); } }
                        assert(ord.contains(ord[i])); assert(worth(all, ord.take(i + 1)) < u64::MAX) by { assert forall|j: int| 0 <= j < i + 1 implies own@.contains_key(#[trigger] ord.take(i + 1)[j]) by { assert(ord.contains(ord[j])); } } }""",
                    after="""proof { usable_prefix(all, own@, timestamp, block_number_limit, ord, __i0 as int); assert(ord.take(ord.len() as int) =~= ord);
                        let n = pointers@.len() as int; assert(pointers@ == e.take(n)); if n > 0 { assert(pointers@.drop_last() =~= e.take(n - 1)); } assert(e.take(e.len() as int) =~= e); }""")}),
            f("build_inputs_outputs", desugar=D, subst=[(r"transaction_outputs_sum\(&outputs\)\s*\.unwrap_or\(", "res_or(transaction_outputs_sum(&outputs), "), (r"(\w+)\.checked_total_value\(\)\s*\.unwrap_or\(", r"res_or(\1.checked_total_value(), "), (r"\.unwrap_or_default\(\)", ".unwrap_or(0)")], skel=["for"],
                spec=PRE + """, fee is Relative ==> max_weight < u32::MAX, outputs@.len() < usize::MAX
                ensures %s, match r {
                    Ok(i) => i.outputs == outputs && i.output_value == cost(dr_output, outputs@) && chosen(old(self).all_utxos@, %s, cost(dr_output, outputs@), fee, base_of(dr_output, (outputs@.len() + 1) as int), max_weight, true, Some(i.inputs), i.fee),
                    Err(_) => chosen(old(self).all_utxos@, %s, cost(dr_output, outputs@), fee, base_of(dr_output, (outputs@.len() + 1) as int), max_weight, true, None, arbitrary()) }""" % (SAME, E, E),
                start=FACTS % E + " let ghost base = base_of(dr_output, (outputs@.len() + 1) as int); let ghost value = cost(dr_output, outputs@); proof { cost_ok(dr_output, outputs@); if fee is Absolute { at_once(all, e, value, fee, base); } if worth(all, e) < value + charge(fee, 0) { broke(all, e, value, fee, base); } }",
                after=[(r"let output_value", "proof { assert(output_value == value || value >= u64::MAX && output_value == u64::MAX); }"),
                       (r"let new_weight", "proof { let n = inputs.pointers@.len() as int; assert(e.take(e.len() as int) =~= e); worth_grows(all, e, n, e.len() as int); assert(output_value == value); assert(after_round(all, e, value, fee, base, k, max_weight, n)); }")],
                loops={0: dict(LOOP, inv=LOOP["inv"].replace("BASE", "base == base_of(dr_output, (outputs@.len() + 1) as int), value == cost(dr_output, outputs@), outputs@.len() < usize::MAX"))}),
        ]
        if ty == "NodeUtxos":
            fs += [
                f("generic_transaction_factory", desugar=["opt_ok_or"], subst=AS + INTO, skel=["for"],
                  spec=PRE + """, fee is Relative ==> max_weight < u32::MAX, out_cost(outputs) <= u64::MAX || outputs is DataRequest && !outputs->DataRequest_0.0.total_ok()
                    ensures %s, match r {
                        Ok(i) => i.outputs@ == out_list(outputs) && i.output_value == out_cost(outputs) && chosen(old(self).all_utxos@, %s, out_cost(outputs), fee, out_base(outputs), max_weight, false, Some(i.inputs), i.fee),
                        Err(_) => chosen(old(self).all_utxos@, %s, out_cost(outputs), fee, out_base(outputs), max_weight, false, None, arbitrary()) }""" % (SAME, E, E),
                  start=FACTS % E + " let ghost base = out_base(outputs); let ghost value = out_cost(outputs); proof { if fee is Absolute { at_once(all, e, value, fee, base); } if worth(all, e) < value + charge(fee, 0) { broke(all, e, value, fee, base); } }",
                  after=[(r"let new_weight", "proof { let n = collected_outputs.pointers@.len() as int; assert(e.take(e.len() as int) =~= e); worth_grows(all, e, n, e.len() as int); assert(after_round(all, e, value, fee, base, k, max_weight, n)); }")],
                  loops={0: dict(LOOP, inv=LOOP["inv"].replace("BASE", "base == out_base(outputs), value == out_cost(outputs)"), end="proof { k = collected_outputs.pointers@.len() as int; }")}),
                u.fn(ut, "NodeUtxos::set_used_output_pointer", trait="OutputsCollection", sig_subst=[(r"impl Iterator<Item = Input>", "Vec<Input>")], spec="""
                    requires forall|i: int| 0 <= i < inputs@.len() ==> old(self).own()@.contains_key((#[trigger] inputs@[i]).output_pointer)
                    ensures final(self).all_utxos == old(self).all_utxos, final(self).pkh == old(self).pkh, *final(final(self).own_utxos) == *final(old(self).own_utxos),
                        in_use(*old(self).own_utxos, *final(self).own_utxos, pointed(inputs@), ts as int)""",
                    loops={0: dict(inv="""it0.seq() == inputs@, forall|i: int| 0 <= i < inputs@.len() ==> old(self).own()@.contains_key((#[trigger] inputs@[i]).output_pointer),
                        self.all_utxos == old(self).all_utxos, self.pkh == old(self).pkh, *final(self.own_utxos) == *final(old(self).own_utxos), in_use(*old(self).own_utxos, *self.own_utxos, pointed(inputs@.take(it0.index@)), ts as int)""", before="proof { assert(inputs@.take(0) =~= Seq::empty()); }", start="proof { pointed_step(inputs@, it0.index@); }", end="proof { assert(self.own_utxos.map@.dom() =~= old(self).own_utxos.map@.dom()); }", after="proof { assert(inputs@.take(inputs@.len() as int) =~= inputs@); }")}),
            ]
        u.emit_impl("<'a> %s<'a>" % ty, fs)
    u.emit_fn(tf, "insert_change_output", spec="ensures final(outputs)@ == with_change(old(outputs)@, own_pkh, change_amount as int)")
    u.emit("""
    // the builders: what they take, in terms of the pool and of the own outputs before
    spec fn usable_of(all: UnspentOutputsPool, own: OwnUnspentOutputsPool, pkh: PublicKeyHash, st: UtxoSelectionStrategy, ts: u64, lim: Option<u32>) -> Seq<OutputPointer> { usable(all@, own.map@, ts, lim, order(all@, own.map, pkh, st)) }
    proof fn fits(all: Outs, e: Seq<OutputPointer>, value: int, fee: Fee, base: int, max: u32, first: bool, n: int) requires picked(all, e, value, fee, base, max, first, Some(n)) ensures worth(all, e.take(n)) <= worth(all, e), returned(all, e, value, fee, base, n) >= 0
    { worth_grows(all, e, n, e.len() as int); assert(e.take(e.len() as int) =~= e); }
    """)
    BUILD = AS + [(r"\bused_pointers\.collect::<Vec<_>>\(\)", "used_pointers"), (r"\bused_pointers\.clone\(\)(\.collect::<Vec<_>>\(\))?", "dup_in(&used_pointers)")]
    u.emit("""
    fn dup_in(v: &Vec<Input>) -> (r: Vec<Input>) ensures r@ == v@
    {
        let mut r: Vec<Input> = Vec::new(); let mut i: usize = 0;
        while i < v.len() invariant i <= v@.len(), r@ == v@.take(i as int) decreases v@.len() - i { r.push(v[i]); i = i + 1; proof { assert(r@ =~= v@.take(i as int)); } }
        proof { assert(r@ =~= v@); }
        r
    }
    """)
    def builder(name, strategy, lim, value, base, first, dry, inputs, rest, start="", extra="", dd="!dry_run", **kw):
        e = "usable_of(*all_utxos, *old(own_utxos), own_pkh, %s, timestamp, %s)" % (strategy, lim)
        args = "all_utxos@, %s, %s, fee, %s, max_weight, %s" % (e, value, base, first)
        if name == "build_commit_collateral":
            args = args.replace(", fee,", ", Fee::Absolute(AbsoluteFee(collateral)),").replace("max_weight", "u32::MAX")
        rest = rest.replace("CHANGE", "returned(all_utxos@, %s, %s, fee, %s, n)" % (e, value, base))
        if name == "build_commit_collateral":
            rest = rest.replace(", fee,", ", Fee::Absolute(AbsoluteFee(collateral)),")
        u.emit_fn(tf, name, desugar=[], subst=BUILD, spec="""requires sound(all_utxos@, old(own_utxos).map@), %s ==> timestamp + tx_pending_timeout <= u64::MAX%s
            ensures match r {
                Ok(b) => { let n = %s.len() as int; picked(%s, Some(n)) && spends(%s, %s, *old(own_utxos), *final(own_utxos), timestamp + tx_pending_timeout, %s) && %s }
                Err(_) => *final(own_utxos) == *old(own_utxos) && %s }""" % (dd, extra, inputs, args, inputs, e, dry, rest, "picked(%s, None)" % args if name != "build_st" else
                    "(picked(%s, None) || exists|n: int| #[trigger] picked(%s, Some(n)) && sat(st_base(CH > 0) + 133 * n) > max_weight)".replace("CH", "returned(all_utxos@, %s, %s, fee, %s, n)" % (e, value, base)) % (args, args)),
            start="let ghost (all, e, was) = (all_utxos@, %s, *own_utxos); proof { order_ok(all, was.map, own_pkh, %s); usable_ok(all, was.map@, timestamp, %s, order(all, was.map, own_pkh, %s)); rich(all, was.map@, e); }" % (e.replace("old(own_utxos)", "own_utxos"), strategy, lim, strategy) + start,
            after=[(r"let tx_info", "proof { let n = tx_info.inputs.pointers@.len() as int; fits(all, e, %s, %s, %s, %s, %s, n); assert(pointed(inputs_of(e.take(n))) =~= e.take(n)); }" % (value, "fee" if name != "build_commit_collateral" else "fee", base, "max_weight" if name != "build_commit_collateral" else "u32::MAX", first))], **kw)
    builder("build_vtt", "*utxo_strategy", "None", "cost(None, outputs@)", "vt_base((outputs@.len() + 1) as int)", "true", "dry_run", "b.inputs@",
            "b.outputs@ == with_change(outputs@, own_pkh, CHANGE)", extra=", fee is Relative ==> max_weight < u32::MAX, outputs@.len() < usize::MAX")
    ANY = "UtxoSelectionStrategy::Random { from: None }"
    builder("build_drt", ANY, "None", "cost(Some(&dr_output), Seq::empty())", "dr_base(dr_output, 1)", "true", "dry_run", "b.inputs@",
            "b.dr_output == dr_output && b.outputs@ == with_change(Seq::empty(), own_pkh, CHANGE)", extra=", fee is Relative ==> max_weight < u32::MAX")
    SMALL = "UtxoSelectionStrategy::SmallFirst { from: None }"
    builder("build_commit_collateral", SMALL, "Some(block_number_limit)", "0", "vt_base(1)", "true", "false", "b.0@", "b.1@ == with_change(Seq::empty(), own_pkh, CHANGE)", dd="true")
    builder("build_st", "*utxo_strategy", "None", "(output.value as int)", "st_base(true)", "false", "dry_run", "b.inputs@",
            "b.output == output && (match b.change { Some(c) => CHANGE > 0 && c == ValueTransferOutput { pkh: own_pkh, value: CHANGE as u64, time_lock: 0 }, None => CHANGE == 0 }) && sat(st_base(b.change is Some) + 133 * n) <= max_weight", extra=", fee is Relative ==> max_weight < u32::MAX")
    u.emit("""
    // enough is there exactly if what can be spent is worth it
    proof fn enough(all: Outs, e: Seq<OutputPointer>, a: AbsoluteFee, base: int, max: u32, r: Option<int>) requires picked(all, e, 0, Fee::Absolute(a), base, max, true, r), base + 133 <= max ensures r is Some <==> a.0.0 > 0 && worth(all, e) >= a.0.0
    {
        PROBE(enough);
        assert(e.take(e.len() as int) =~= e);
        match r { Some(n) => { worth_grows(all, e, n, e.len() as int); } None => { if a.0.0 > 0 && worth(all, e) >= a.0.0 { assert(e.len() > 0); assert(pays(all, e, 0, Fee::Absolute(a), base, e.len() as int)); } } }
    }
    // what a build means: every input is an own output that can be spent, none of them twice, and they are worth what is paid, the fee and the change together
    proof fn sound_build(all: Outs, own: HashMap<OutputPointer, u64>, pkh: PublicKeyHash, st: UtxoSelectionStrategy, ts: u64, lim: Option<u32>, value: int, fee: Fee, base: int, max: u32, first: bool, n: int)
        requires picked(all, usable(all, own@, ts, lim, order(all, own, pkh, st)), value, fee, base, max, first, Some(n))
        ensures ({ let e = usable(all, own@, ts, lim, order(all, own, pkh, st)); let s = e.take(n);
            &&& s.no_duplicates() && forall|i: int| 0 <= i < n ==> own@.contains_key(#[trigger] s[i]) && allowed(st, pkh) && free(all, own@, ts, lim, s[i])
            &&& returned(all, e, value, fee, base, n) >= 0 && worth(all, s) == value + charge(fee, sat(base + 133 * n)) + returned(all, e, value, fee, base, n)
            &&& worth(all, e.take(n - 1)) < value + charge(fee, sat(base + 133 * (n - 1))) || n == 1 })
    {
        PROBE(sound_build);
        let e = usable(all, own@, ts, lim, order(all, own, pkh, st));
        order_ok(all, own, pkh, st); usable_ok(all, own@, ts, lim, order(all, own, pkh, st));
        if n > 1 { assert(!pays(all, e, value, fee, base, n - 1)); }
    }
    // what a transaction spends cannot be spent again before the time is up, and nothing else is held back
    proof fn not_twice(all: Outs, a: OwnUnspentOutputsPool, b: OwnUnspentOutputsPool, ins: Seq<OutputPointer>, until: u64, ts: u64, lim: Option<u32>, p: OutputPointer)
        requires in_use(a, b, ins, until as int), a.map@.contains_key(p) ensures ins.contains(p) && ts < until ==> !free(all, b.map@, ts, lim, p), !ins.contains(p) ==> (free(all, b.map@, ts, lim, p) <==> free(all, a.map@, ts, lim, p))
    { PROBE(not_twice); assert(b.map@.dom().contains(p)); }
    """)
    C = "worth(all_utxos@, usable_of(*all_utxos, *own_utxos, own_pkh, %s, timestamp, %s))"
    u.emit_fn(tf, "check_commit_collateral", spec="requires sound(all_utxos@, own_utxos.map@) ensures r <==> collateral.0 > 0 && %s >= collateral.0 && %s >= 100000000000" % (C % (SMALL, "Some(block_number_limit)"), C % (SMALL, "None")),
        after=[(r"let can_%s" % w, "proof { let e = usable_of(*all_utxos, *own_utxos, own_pkh, %s, timestamp, %s); let a = AbsoluteFee(Wit(%s)); if can_%s { let n = choose|n: int| picked(all_utxos@, e, 0, Fee::Absolute(a), 360, u32::MAX, true, Some(n)); enough(all_utxos@, e, a, 360, u32::MAX, Some(n)); } else { enough(all_utxos@, e, a, 360, u32::MAX, None); } }" % (SMALL, l, v, w)) for w, l, v in (("collateralize", "Some(block_number_limit)", "collateral.0"), ("qualify", "None", "100000000000"))])
    u.emit_raw(u.struct_text(tx, "UnstakeTransactionBody", keep_fields=["operator", "withdrawal", "fee", "nonce"]))
    u.emit_impl(" UnstakeTransactionBody", [u.fn(tx, "UnstakeTransactionBody::new", subst=LEN, spec="ensures r.operator == operator, r.withdrawal == withdrawal, r.fee == fee, r.nonce == nonce")])
    u.emit_fn(tf, "build_ut", spec="ensures r is Ok, r->Ok_0.operator == operator, r->Ok_0.withdrawal == withdrawal, r->Ok_0.fee == fee, r->Ok_0.nonce == nonce")
    u.close()


def build(u):
    x = Extract([TF, TX, CH, ER, UT, DB, FE, WI, PR, "storage/src/storage.rs"], mods=["utxo_pool", "utxo_db", "transaction_factory", "storage", "fee", "wit", "priority", "chain"],
                stubs=["Result", "SHA256", "KeyedSignature", "RADRequest", "Memoized", "StakeKey", "OldUnspentOutputsPool", "OrderedFloat"],
                traits=["Display", "Debug", "FromStr", "Zero"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db", "StakeTransactionBody::authorization_is_valid"])
    return HEADER + x.build(["UnspentOutputsPool::*", "OwnUnspentOutputsPool::*", "NodeUtxos", "NodeUtxosRef", "OutputsCollection", "UtxoSelectionStrategy", "build_vtt", "build_drt", "build_commit_collateral", "check_commit_collateral", "build_st", "build_ut", "Fee::absolute_from_nanowits", "Fee::relative_from_float", "Wit::from_nanowits", "Priority::derive_fee_wit",
                             "VTTransactionBody", "DRTransactionBody", "StakeTransactionBody", "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash"])


harness = dict(kind="extract", name="w01", build=build, main="w01.rs", edition="2024")
