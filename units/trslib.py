"""Contracts of reputation/src/trs.rs, shared by R01 and R02."""
import re
from replib import *

MATH = """
    // the reputation an identity holds in all the packets of a queue
    spec fn tot(q: Seq<(u64, HashMap<u64, u64>)>, k: u64) -> nat decreases q.len() {
        if q.len() == 0 { 0 } else { (mval(q.first().1@, k) + tot(q.drop_first(), k)) as nat }
    }
    proof fn tot_push(q: Seq<(u64, HashMap<u64, u64>)>, p: (u64, HashMap<u64, u64>), k: u64)
        ensures tot(q.push(p), k) == tot(q, k) + mval(p.1@, k) decreases q.len()
    {
        if q.len() == 0 { assert(q.push(p).drop_first() =~= q); assert(tot(q.push(p).drop_first(), k) == 0); }
        else { assert(q.push(p).drop_first() =~= q.drop_first().push(p)); tot_push(q.drop_first(), p, k); }
    }
    proof fn tot_split(q: Seq<(u64, HashMap<u64, u64>)>, i: int, k: u64)
        requires 0 <= i <= q.len() ensures tot(q, k) == tot(q.take(i), k) + tot(q.skip(i), k) decreases i
    {
        if i == 0 { assert(q.skip(0) =~= q); }
        else { tot_split(q.drop_first(), i - 1, k); assert(q.drop_first().take(i - 1) =~= q.take(i).drop_first()); assert(q.drop_first().skip(i - 1) =~= q.skip(i)); }
    }
    // sum of the values of a map
    spec fn msum(m: Map<u64, u64>) -> nat decreases m.dom().len() {
        if m.dom().is_empty() { 0 } else { let k = m.dom().choose(); m[k] as nat + msum(m.remove(k)) }
    }
    proof fn msum_remove(m: Map<u64, u64>, k: u64)
        requires m.contains_key(k) ensures msum(m) == m[k] + msum(m.remove(k)) decreases m.dom().len()
    {
        let c = m.dom().choose();
        assert(m.dom().contains(c));
        if c != k {
            msum_remove(m.remove(c), k);
            msum_remove(m.remove(k), c);
            assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
        }
    }
    proof fn msum_get(m: Map<u64, u64>, k: u64) ensures mval(m, k) <= msum(m)
    { if m.contains_key(k) { msum_remove(m, k); } }
    proof fn msum_insert(m: Map<u64, u64>, k: u64, v: u64)
        ensures msum(m.insert(k, v)) + mval(m, k) == msum(m) + v
    {
        msum_remove(m.insert(k, v), k);
        assert(m.insert(k, v).remove(k) =~= m.remove(k));
        if m.contains_key(k) { msum_remove(m, k); } else { assert(m.remove(k) =~= m); }
    }
    // sum of all packets
    spec fn gsum(q: Seq<(u64, HashMap<u64, u64>)>) -> nat decreases q.len() {
        if q.len() == 0 { 0 } else { msum(q.first().1@) + gsum(q.drop_first()) }
    }
    proof fn gsum_push(q: Seq<(u64, HashMap<u64, u64>)>, p: (u64, HashMap<u64, u64>))
        ensures gsum(q.push(p)) == gsum(q) + msum(p.1@) decreases q.len()
    {
        if q.len() == 0 { assert(q.push(p).drop_first() =~= q); assert(gsum(q.push(p).drop_first()) == 0); }
        else { assert(q.push(p).drop_first() =~= q.drop_first().push(p)); gsum_push(q.drop_first(), p); }
    }
    proof fn gsum_tot(q: Seq<(u64, HashMap<u64, u64>)>, k: u64) ensures tot(q, k) <= gsum(q) decreases q.len()
    { if q.len() > 0 { msum_get(q.first().1@, k); gsum_tot(q.drop_first(), k); } }
    // what a list of pairs gives to one identity, and in total
    spec fn psum(d: Seq<(u64, u64)>, k: u64) -> nat decreases d.len() {
        if d.len() == 0 { 0 } else { psum(d.drop_last(), k) + if d.last().0 == k { d.last().1 as nat } else { 0 } }
    }
    spec fn dsum(d: Seq<(u64, u64)>) -> nat decreases d.len() {
        if d.len() == 0 { 0 } else { dsum(d.drop_last()) + d.last().1 as nat }
    }
    proof fn psum_step(d: Seq<(u64, u64)>, i: int) requires 0 <= i < d.len()
        ensures forall|k: u64| #[trigger] psum(d.take(i + 1), k) == psum(d.take(i), k) + (if d[i].0 == k { d[i].1 as nat } else { 0 }),
            dsum(d.take(i + 1)) == dsum(d.take(i)) + d[i].1, d.take(d.len() as int) == d
    {
        assert(d.take(i + 1).drop_last() =~= d.take(i));
        assert(d.take(d.len() as int) =~= d);
    }
    proof fn psum_le(d: Seq<(u64, u64)>, k: u64) ensures psum(d, k) <= dsum(d) decreases d.len()
    { if d.len() > 0 { psum_le(d.drop_last(), k); } }
    proof fn dsum_mono(d: Seq<(u64, u64)>, i: int) requires 0 <= i <= d.len() ensures dsum(d.take(i)) <= dsum(d) decreases d.len() - i
    { if i < d.len() { psum_step(d, i); dsum_mono(d, i + 1); } else { assert(d.take(i) =~= d); } }
    // the pairs of a map, in any order
    spec fn pairs(m: Map<u64, u64>, d: Seq<(u64, u64)>) -> bool {
        &&& forall|i: int| 0 <= i < d.len() ==> m.contains_pair((#[trigger] d[i]).0, d[i].1)
        &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> d[i].0 != d[j].0
        &&& forall|k: u64| m.contains_key(k) ==> exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k
    }
    proof fn pairs_sum(m: Map<u64, u64>, d: Seq<(u64, u64)>) requires pairs(m, d)
        ensures forall|k: u64| #[trigger] psum(d, k) == mval(m, k), dsum(d) == msum(m) decreases d.len()
    {
        if d.len() == 0 {
            assert(m.dom() =~= Set::empty());
        } else {
            let l = d.len() - 1;
            let k0 = d[l].0;
            let d1 = d.drop_last();
            let m1 = m.remove(k0);
            assert(pairs(m1, d1)) by {
                assert forall|i: int| 0 <= i < d1.len() implies m1.contains_pair((#[trigger] d1[i]).0, d1[i].1) by { assert(d[i].0 != d[l].0); assert(m.contains_pair(d[i].0, d[i].1)); }
                assert forall|i: int, j: int| 0 <= i < j < d1.len() implies d1[i].0 != d1[j].0 by { assert(d[i].0 != d[j].0); }
                assert forall|k: u64| m1.contains_key(k) implies exists|i: int| 0 <= i < d1.len() && (#[trigger] d1[i]).0 == k by {
                    assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(i != l); assert(d1[i].0 == k); }
            }
            pairs_sum(m1, d1);
            assert(m.contains_pair(d[l].0, d[l].1));
            msum_remove(m, k0);
            assert forall|k: u64| #[trigger] psum(d, k) == mval(m, k) by { assert(psum(d1, k) == mval(m1, k)); }
        }
    }
    proof fn psum_mono(d: Seq<(u64, u64)>, i: int, k: u64) requires 0 <= i <= d.len() ensures psum(d.take(i), k) <= psum(d, k) decreases d.len() - i
    { if i < d.len() { psum_step(d, i); psum_mono(d, i + 1, k); } else { assert(d.take(i) =~= d); } }
    proof fn gsum_split(q: Seq<(u64, HashMap<u64, u64>)>, i: int)
        requires 0 <= i <= q.len() ensures gsum(q) == gsum(q.take(i)) + gsum(q.skip(i)) decreases i
    {
        if i == 0 { assert(q.skip(0) =~= q); assert(q.take(0).len() == 0); }
        else { gsum_split(q.drop_first(), i - 1); assert(q.drop_first().take(i - 1) =~= q.take(i).drop_first()); assert(q.drop_first().skip(i - 1) =~= q.skip(i)); }
    }
    // everything up to alpha is gone, nothing else
    spec fn expired(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, alpha: u64, n: int) -> bool {
        &&& 0 <= n <= q.len()
        &&& q2 == q.skip(n)
        &&& forall|i: int| 0 <= i < n ==> (#[trigger] q[i]).0 <= alpha
        &&& forall|i: int| n <= i < q.len() ==> (#[trigger] q[i]).0 > alpha
    }
    spec fn sorted(q: Seq<(u64, HashMap<u64, u64>)>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> q[i].0 < q[j].0 }
    spec fn qpos(q: Seq<(u64, HashMap<u64, u64>)>) -> bool { forall|i: int| 0 <= i < q.len() ==> positive((#[trigger] q[i]).1@) }
    // a packet list (expiration, d) was added: merged into the last packet if it has the same expiration, else a packet of its own
    spec fn gained(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, e: u64, d: Seq<(u64, u64)>) -> bool {
        let merge = q.len() > 0 && q.last().0 == e;
        let keep = if merge { q.drop_last() } else { q };
        &&& q2.len() == keep.len() + 1
        &&& q2.drop_last() == keep
        &&& q2.last().0 == e
        &&& forall|k: u64| #[trigger] mval(q2.last().1@, k) == (if merge { mval(q.last().1@, k) } else { 0 }) + psum(d, k)
        &&& forall|k: u64| #[trigger] tot(q2, k) == tot(q, k) + psum(d, k)
        &&& gsum(q2) == gsum(q) + dsum(d)
    }
    impl TotalReputationSet {
        // the cached totals are exactly the sums of the packets, absent means zero, packets are in expiration order
        spec fn inv(&self) -> bool {
            &&& forall|k: u64| #[trigger] mval(self.map@, k) == tot(self.queue@, k)
            &&& positive(self.map@)
            &&& sorted(self.queue@)
            &&& qpos(self.queue@)
            &&& gsum(self.queue@) <= u64::MAX
        }
    }
"""

SUB = [(r"<(?:I|I1, I2|F|'a, F, I)>\(", "("), (r"\bdiff: I\b", "diff: Vec<(u64, u64)>"), (r"NonSortedAlpha<A>", "NonSortedAlpha"),
       (r"RepError<V>", "RepError"), (r"HashMap<K, V, S>", "HashMap<u64, u64>"), (r"\bA\b", "u64"), (r"\bK\b", "u64"), (r"\bV\b", "u64"),
       (r"\.or_default\(\)", ".or_insert(Default::default())")]


def base(u):
    s = u.src(TRS)
    u.file("trs", PRELUDE_ALLOC)
    u.emit("use std::collections::hash_map::Entry;")
    u.emit(STD)
    u.emit(SEQ)
    helpers(u, "u64")
    u.emit_raw(u.struct_text(s, "TotalReputationSet", generics="", drop_where=True,
                             subst=[(r"HashMap<K, V, S>", "HashMap<u64, u64>"), (r"\bA\b", "u64")]))
    e = u.src("reputation/src/error.rs")
    u.emit_raw(u.struct_text(e, "NonSortedAlpha", subst=[(r"<A>", ""), (r"\bA\b", "u64")]))
    u.emit_raw(u.struct_text(e, "RepError", subst=[(r"<V>", ""), (r"\bV\b", "u64")]))
    u.emit(MATH)
    return s


from unit import PRELUDE
PRELUDE_ALLOC = "#![feature(allocator_api)]\n" + PRELUDE
STD = """
#[verifier::external_body]
fn map_into_vec<V>(m: HashMap<u64, V>) -> (r: Vec<(u64, V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_pair((#[trigger] r@[i]).0, r@[i].1),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0,
        forall|k: u64| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
        r@.len() == m@.dom().len(),
{ m.into_iter().collect() }
#[verifier::external_body]
fn map_pairs_vec<V: Clone>(m: &HashMap<u64, V>) -> (r: Vec<(u64, V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_pair((#[trigger] r@[i]).0, r@[i].1),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0,
        forall|k: u64| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
{ m.iter().map(|(k, v)| (*k, v.clone())).collect() }
#[verifier::external_body]
fn map_keys_vec<V>(m: &HashMap<u64, V>) -> (r: Vec<u64>)
    ensures r@.no_duplicates(), forall|k: u64| r@.contains(k) <==> m@.contains_key(k),
{ m.keys().cloned().collect() }
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::back_mut](v: &mut VecDeque<T, A>) -> (r: Option<&mut T>)
  ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
    old(v)@.len() > 0 ==> (match r { Some(x) => *x == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(x)), None => false });
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::back](v: &VecDeque<T, A>) -> (r: Option<&T>)
  ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.last());
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::front](v: &VecDeque<T, A>) -> (r: Option<&T>)
  ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@.first());
"""

P = "TotalReputationSet::"

INV0 = """
   it{n}.seq() == diff@, zero == 0, diff@ == d0,
   forall|k: u64| #[trigger] mval(self.map@, k) == tot(old(self).queue@, k) + psum(d0.take(it{n}.index@), k),
   forall|k: u64| #[trigger] mval(back@, k) == mval(b0, k) + psum(d0.take(it{n}.index@), k),
   msum(back@) == msum(b0) + dsum(d0.take(it{n}.index@)), positive(back@), positive(self.map@), positive(b0),
   gsum(old(self).queue@) + dsum(d0) <= u64::MAX, msum(b0) <= gsum(old(self).queue@),
"""
START0 = """
   let ghost m1 = self.map@; let ghost b1 = back@;
   proof { psum_step(d0, it{n}.index@); dsum_mono(d0, it{n}.index@ + 1);
     let kk = d0[it{n}.index@].0;
     gsum_tot(old(self).queue@, kk); psum_le(d0.take(it{n}.index@ + 1), kk);
     assert(mval(self.map@, kk) == tot(old(self).queue@, kk) + psum(d0.take(it{n}.index@), kk));
     assert(mval(back@, kk) == mval(b0, kk) + psum(d0.take(it{n}.index@), kk));
     msum_get(b0, kk);
     msum_insert(back@, kk, (mval(back@, kk) + d0[it{n}.index@].1) as u64); }
"""
END0 = """
   proof {
     assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(old(self).queue@, k) + psum(d0.take(it{n}.index@ + 1), k) by {
        assert(mval(m1, k) == tot(old(self).queue@, k) + psum(d0.take(it{n}.index@), k)); }
     assert forall|k: u64| #[trigger] mval(back@, k) == mval(b0, k) + psum(d0.take(it{n}.index@ + 1), k) by {
        assert(mval(b1, k) == mval(b0, k) + psum(d0.take(it{n}.index@), k)); }
   }
"""


def f_get(u, s):
    return u.fn(s, P + "get", subst=SUB, spec="requires self.inv() ensures r == tot(self.queue@, *id)",
                start="proof { assert(mval(self.map@, *id) == tot(self.queue@, *id)); }")


def f_gain(u, s):
    z = "let ghost d0 = diff@; let ghost b0 = %s; proof { assert(d0.take(0) =~= Seq::empty()); assert(d0.take(d0.len() as int) =~= d0); %s }"
    return u.fn(s, P + "gain", subst=SUB, skel=["for", ".fold"], desugar=["fold", "filter", "guard_mut"], spec="""
          requires old(self).inv(), gsum(old(self).queue@) + dsum(diff@) <= u64::MAX
          ensures final(self).inv(),
            r.is_err() <==> old(self).queue@.len() > 0 && old(self).queue@.last().0 > expiration,
            r.is_err() ==> final(self).queue@ == old(self).queue@ && final(self).map@ == old(self).map@,
            r.is_ok() ==> gained(old(self).queue@, final(self).queue@, expiration, diff@),
        """, start="let ghost q0 = self.queue@; let ghost d0 = diff@; let ghost mut bb = Map::<u64, u64>::empty();"
            "proof { assert(d0.take(0) =~= Seq::empty()); assert(d0.take(d0.len() as int) =~= d0); assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(q0, k) by { } "
            "if q0.len() > 0 { let l = q0.len() - 1; assert(q0 =~= q0.drop_last().push(q0.last())); gsum_push(q0.drop_last(), q0.last()); assert(qpos(q0)); assert(positive(q0[l].1@)); } }",
        loops={0: dict(inv=INV0.replace("{n}", "0"), start=START0.replace("{n}", "0"), end=END0.replace("{n}", "0"),
                       before="let ghost b0 = back@;", after="proof { bb = back@; }"),
               1: dict(inv=INV0.replace("{n}", "1"), start=START0.replace("{n}", "1"), end=END0.replace("{n}", "1"),
                       before="let ghost b0 = Map::<u64, u64>::empty();", after="proof { bb = back@; }")},
        end="""proof {
            let q2 = self.queue@;
            if __ret.is_ok() {
                let merge = q0.len() > 0 && q0.last().0 == expiration;
                let keep = if merge { q0.drop_last() } else { q0 };
                assert(q2.last().1@ == bb);
                assert(q2 =~= keep.push(q2.last()));
                assert(q2.drop_last() =~= keep);
                gsum_push(keep, q2.last());
                assert forall|k: u64| #[trigger] tot(q2, k) == tot(q0, k) + psum(d0, k) by {
                    tot_push(keep, q2.last(), k);
                    if merge { tot_push(keep, q0.last(), k); }
                    assert(mval(bb, k) == (if merge { mval(q0.last().1@, k) } else { 0 }) + psum(d0, k));
                }
                assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(q2, k) by { assert(tot(q2, k) == tot(q0, k) + psum(d0, k)); }
                assert(sorted(q2)) by { assert(sorted(q0)); assert forall|i: int, j: int| 0 <= i < j < q2.len() implies q2[i].0 < q2[j].0 by {
                    if j < keep.len() { assert(q0[i].0 < q0[j].0); } else if merge { assert(q0[i].0 < q0[j].0); } else { if q0.len() > 0 && i < q0.len() - 1 { assert(q0[i].0 < q0[q0.len() - 1].0); } } } }
                assert(qpos(q2)) by { assert forall|i: int| 0 <= i < q2.len() implies positive((#[trigger] q2[i]).1@) by { if i < keep.len() { assert(positive(q0[i].1@)); } } }
            } else {
                assert(q2 =~= q0);
            }
        }""")


def mapvec(its, n, r):
    return "map_into_vec(%s)" % re.sub(r"\.into_iter\(\)$", "", its.strip())


def f_expire(u, s):
    return u.fn(s, P + "expire", subst=SUB, skel=["while", "for"], spec="""
          requires old(self).inv()
          ensures final(self).inv(), exists|n: int| #[trigger] expired(old(self).queue@, final(self).queue@, *alpha, n) && r == gsum(old(self).queue@.take(n)),
        """, start="let ghost q0 = self.queue@; let ghost mut n: int = 0; proof { assert(q0.skip(0) =~= q0); assert(gsum(q0.take(0)) == 0); assert(forall|k: u64| #[trigger] mval(self.map@, k) == tot(self.queue@, k)); }",
        loops={0: dict(inv="""
            0 <= n <= q0.len(), self.queue@ == q0.skip(n), sorted(q0), qpos(q0), gsum(q0) <= u64::MAX, positive(self.map@),
            forall|k: u64| #[trigger] mval(self.map@, k) == tot(self.queue@, k),
            total_expired == gsum(q0.take(n)), forall|i: int| 0 <= i < n ==> (#[trigger] q0[i]).0 <= *alpha
            """, ensures="n < q0.len() ==> q0[n].0 > *alpha", dec="q0.len() - n",
               end="""proof { pairs_sum(fr, v1@); assert(q0.take(n + 1).drop_last() =~= q0.take(n)); assert(q0.take(n + 1) =~= q0.take(n).push(q0[n]));
                    gsum_push(q0.take(n), q0[n]); n = n + 1;
                    assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(self.queue@, k) by { assert(psum(v1@, k) == mval(fr, k)); } }"""),
               1: dict(iter_as=mapvec, bind="v1", inv="""
            0 <= n < q0.len(), it1.seq() == v1@, pairs(fr, v1@), self.queue@ == q0.skip(n + 1), positive(self.map@), fr == q0[n].1@, positive(fr),
            sorted(q0), qpos(q0), gsum(q0) <= u64::MAX,
            forall|k: u64| #[trigger] mval(self.map@, k) == tot(q0.skip(n + 1), k) + mval(fr, k) - psum(v1@.take(it1.index@), k),
            total_expired == gsum(q0.take(n)) + dsum(v1@.take(it1.index@))
            """, before="""let ghost fr = q0[n].1@; proof {
                  assert(q0.skip(n).drop_first() =~= q0.skip(n + 1)); assert(v1@.take(0) =~= Seq::empty()); assert(v1@.take(v1@.len() as int) =~= v1@);
                  assert(qpos(q0)); assert(positive(q0[n].1@));
                  assert(forall|k: u64| tot(q0.skip(n), k) == #[trigger] mval(fr, k) + tot(q0.skip(n + 1), k));
                  assert(n == 0 || q0[n - 1].0 <= *alpha); }""",
            start="""let ghost m1 = self.map@; proof { psum_step(v1@, it1.index@); pairs_sum(fr, v1@); dsum_mono(v1@, it1.index@ + 1);
                  gsum_split(q0, n); gsum_split(q0.skip(n), 1); assert(q0.skip(n).take(1).drop_first() =~= Seq::empty()); assert(gsum(q0.skip(n).take(1).drop_first()) == 0);
                  let kk = v1@[it1.index@].0; psum_mono(v1@, it1.index@ + 1, kk);
                  assert(psum(v1@, kk) == mval(fr, kk));
                  assert(fr.contains_pair(v1@[it1.index@].0, v1@[it1.index@].1));
                  assert(mval(self.map@, kk) == tot(q0.skip(n + 1), kk) + mval(fr, kk) - psum(v1@.take(it1.index@), kk)); }""",
            end="""proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(q0.skip(n + 1), k) + mval(fr, k) - psum(v1@.take(it1.index@ + 1), k) by {
                  assert(mval(m1, k) == tot(q0.skip(n + 1), k) + mval(fr, k) - psum(v1@.take(it1.index@), k)); } }""",
               )},
        end="""proof {
           gsum_split(q0, n);
           assert forall|i: int| n <= i < q0.len() implies (#[trigger] q0[i]).0 > *alpha by { if i > n { assert(q0[n].0 < q0[i].0); } }
           assert(expired(q0, self.queue@, *alpha, n));
           assert forall|i: int, j: int| 0 <= i < j < self.queue@.len() implies self.queue@[i].0 < self.queue@[j].0 by { assert(q0[i + n].0 < q0[j + n].0); }
           assert forall|i: int| 0 <= i < self.queue@.len() implies positive((#[trigger] self.queue@[i]).1@) by { assert(positive(q0[i + n].1@)); }
        }""")


PMATH = """
    proof fn msum_any(m: Map<u64, u64>, k: u64) ensures msum(m) == mval(m, k) + msum(m.remove(k))
    { if m.contains_key(k) { msum_remove(m, k); } else { assert(m.remove(k) =~= m); } }
    proof fn msum_zero(m: Map<u64, u64>) requires forall|k: u64| #[trigger] mval(m, k) == 0 ensures msum(m) == 0 decreases m.dom().len()
    {
        if !m.dom().is_empty() {
            let c = m.dom().choose();
            assert(mval(m, c) == 0);
            assert forall|k: u64| #[trigger] mval(m.remove(c), k) == 0 by { assert(mval(m, k) == 0); }
            msum_zero(m.remove(c));
        }
    }
    proof fn msum_sub(m: Map<u64, u64>, a: Map<u64, u64>, b: Map<u64, u64>)
        requires forall|k: u64| #[trigger] mval(m, k) <= mval(a, k) + mval(b, k) ensures msum(m) <= msum(a) + msum(b) decreases m.dom().len()
    {
        if !m.dom().is_empty() {
            let c = m.dom().choose();
            msum_any(m, c); msum_any(a, c); msum_any(b, c);
            assert(mval(m, c) <= mval(a, c) + mval(b, c));
            assert forall|k: u64| #[trigger] mval(m.remove(c), k) <= mval(a.remove(c), k) + mval(b.remove(c), k) by { assert(mval(m, k) <= mval(a, k) + mval(b, k)); }
            msum_sub(m.remove(c), a.remove(c), b.remove(c));
        }
    }
    proof fn msum_add(m: Map<u64, u64>, a: Map<u64, u64>, b: Map<u64, u64>)
        requires forall|k: u64| #[trigger] mval(m, k) == mval(a, k) + mval(b, k) ensures msum(m) == msum(a) + msum(b) decreases m.dom().len()
    {
        if !m.dom().is_empty() {
            let c = m.dom().choose();
            msum_any(m, c); msum_any(a, c); msum_any(b, c);
            assert(mval(m, c) == mval(a, c) + mval(b, c));
            assert forall|k: u64| #[trigger] mval(m.remove(c), k) == mval(a.remove(c), k) + mval(b.remove(c), k) by { assert(mval(m, k) == mval(a, k) + mval(b, k)); }
            msum_add(m.remove(c), a.remove(c), b.remove(c));
        } else {
            assert forall|k: u64| #[trigger] mval(a, k) == 0 by { assert(mval(m, k) == mval(a, k) + mval(b, k)); }
            assert forall|k: u64| #[trigger] mval(b, k) == 0 by { assert(mval(m, k) == mval(a, k) + mval(b, k)); }
            msum_zero(a); msum_zero(b);
        }
    }
    proof fn msum_gsum(m: Map<u64, u64>, q: Seq<(u64, HashMap<u64, u64>)>)
        requires forall|k: u64| #[trigger] mval(m, k) <= tot(q, k) ensures msum(m) <= gsum(q) decreases q.len()
    {
        if q.len() == 0 { assert forall|k: u64| #[trigger] mval(m, k) == 0 by { assert(mval(m, k) <= tot(q, k)); } msum_zero(m); }
        else {
            let f = q.first().1@;
            let m1 = Map::new(m.dom(), |k: u64| (if m[k] > mval(f, k) { m[k] - mval(f, k) } else { 0 }) as u64);
            assert forall|k: u64| #[trigger] mval(m1, k) <= tot(q.drop_first(), k) by { assert(mval(m, k) <= tot(q, k)); }
            assert forall|k: u64| #[trigger] mval(m, k) <= mval(m1, k) + mval(f, k) by { }
            msum_sub(m, m1, f);
            msum_gsum(m1, q.drop_first());
        }
    }
    // the total of the cached values is the total of the packets
    proof fn msum_gsum_eq(m: Map<u64, u64>, q: Seq<(u64, HashMap<u64, u64>)>)
        requires forall|k: u64| #[trigger] mval(m, k) == tot(q, k) ensures msum(m) == gsum(q) decreases q.len()
    {
        if q.len() == 0 { assert forall|k: u64| #[trigger] mval(m, k) == 0 by { assert(mval(m, k) == tot(q, k)); } msum_zero(m); }
        else {
            let f = q.first().1@;
            let m1 = Map::new(m.dom(), |k: u64| (m[k] - mval(f, k)) as u64);
            assert forall|k: u64| #[trigger] mval(m1, k) == tot(q.drop_first(), k) by { assert(mval(m, k) == tot(q, k)); }
            assert forall|k: u64| #[trigger] mval(m, k) == mval(m1, k) + mval(f, k) by { assert(mval(m1, k) == tot(q.drop_first(), k)); assert(mval(m, k) == tot(q, k)); }
            msum_add(m, m1, f);
            msum_gsum_eq(m1, q.drop_first());
        }
    }
    spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
    spec fn mx0(a: int) -> int { if a <= 0 { 0 } else { a } }
    // q2 is q after taking a(k) from every identity k, latest packets first: packet i only gives what the packets after it could not
    spec fn cut(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int) -> bool {
        &&& q2.len() == q.len()
        &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q2[i]).0 == q[i].0
        &&& forall|i: int, k: u64| 0 <= i < q.len() ==> #[trigger] mval(q2[i].1@, k) == mval(q[i].1@, k) - mn(mval(q[i].1@, k), mx0(a(k) - tot(q.skip(i + 1), k)))
    }
    proof fn cut_tot(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int, i: int, k: u64)
        requires cut(q, q2, a), 0 <= i <= q.len(), a(k) >= 0
        ensures tot(q2.skip(i), k) == tot(q.skip(i), k) - mn(a(k), tot(q.skip(i), k) as int) decreases q.len() - i
    {
        if i < q.len() {
            cut_tot(q, q2, a, i + 1, k);
            assert(q.skip(i).drop_first() =~= q.skip(i + 1));
            assert(q2.skip(i).drop_first() =~= q2.skip(i + 1));
            assert(mval(q2[i].1@, k) == mval(q[i].1@, k) - mn(mval(q[i].1@, k), mx0(a(k) - tot(q.skip(i + 1), k))));
        }
    }
    proof fn gsum_mono(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>)
        requires q.len() == q2.len(), forall|i: int, k: u64| 0 <= i < q.len() ==> #[trigger] mval(q2[i].1@, k) <= mval(q[i].1@, k)
        ensures gsum(q2) <= gsum(q) decreases q.len()
    {
        if q.len() > 0 {
            assert forall|k: u64| #[trigger] mval(q2.first().1@, k) <= mval(q.first().1@, k) + mval(Map::<u64, u64>::empty(), k) by { assert(mval(q2[0].1@, k) <= mval(q[0].1@, k)); }
            msum_zero(Map::<u64, u64>::empty());
            msum_sub(q2.first().1@, q.first().1@, Map::empty());
            assert forall|i: int, k: u64| 0 <= i < q.drop_first().len() implies #[trigger] mval(q2.drop_first()[i].1@, k) <= mval(q.drop_first()[i].1@, k) by { assert(mval(q2[i + 1].1@, k) <= mval(q[i + 1].1@, k)); }
            gsum_mono(q.drop_first(), q2.drop_first());
        }
    }
    // what identity k is left with after the first n penalties of a list (identity, target)
    spec fn rem(q: Seq<(u64, HashMap<u64, u64>)>, p: Seq<(u64, u64)>, k: u64) -> nat decreases p.len() {
        if p.len() == 0 { tot(q, k) } else if p.last().0 == k { p.last().1 as nat } else { rem(q, p.drop_last(), k) }
    }
    // every target is what its function returned for the reputation left at that point, and not above it
    spec fn applied<F: FnMut(u64) -> u64>(q: Seq<(u64, HashMap<u64, u64>)>, l: Seq<(&u64, F)>, p: Seq<(u64, u64)>) -> bool {
        &&& p.len() <= l.len()
        &&& forall|i: int| 0 <= i < p.len() ==> *(#[trigger] l[i]).0 == p[i].0 && p[i].1 <= rem(q, p.take(i), p[i].0)
               && call_ensures(l[i].1, (rem(q, p.take(i), p[i].0) as u64,), p[i].1)
    }
    spec fn taken(q: Seq<(u64, HashMap<u64, u64>)>, p: Seq<(u64, u64)>) -> int decreases p.len() {
        if p.len() == 0 { 0 } else { taken(q, p.drop_last()) + rem(q, p.drop_last(), p.last().0) - p.last().1 }
    }
    proof fn apply_start<F: FnMut(u64) -> u64>(q: Seq<(u64, HashMap<u64, u64>)>, l: Seq<(&u64, F)>)
        ensures applied(q, l, Seq::<(u64, u64)>::empty()), taken(q, Seq::<(u64, u64)>::empty()) == 0, forall|k: u64| #[trigger] rem(q, Seq::<(u64, u64)>::empty(), k) == tot(q, k) {}
    // one more penalty
    proof fn apply_step<F: FnMut(u64) -> u64>(q: Seq<(u64, HashMap<u64, u64>)>, l: Seq<(&u64, F)>, p: Seq<(u64, u64)>, id: u64, v: u64)
        requires applied(q, l, p), p.len() < l.len(), *l[p.len() as int].0 == id, v <= rem(q, p, id), call_ensures(l[p.len() as int].1, (rem(q, p, id) as u64,), v)
        ensures applied(q, l, p.push((id, v))), taken(q, p.push((id, v))) == taken(q, p) + rem(q, p, id) - v,
            forall|k: u64| #[trigger] rem(q, p.push((id, v)), k) == (if k == id { v as nat } else { rem(q, p, k) })
    {
        let pn = p.push((id, v));
        assert(pn.drop_last() =~= p);
        assert forall|i: int| 0 <= i < pn.len() implies *(#[trigger] l[i]).0 == pn[i].0 && pn[i].1 <= rem(q, pn.take(i), pn[i].0)
            && call_ensures(l[i].1, (rem(q, pn.take(i), pn[i].0) as u64,), pn[i].1) by {
            if i < p.len() { assert(pn.take(i) =~= p.take(i)); assert(p[i] == pn[i]); assert(*l[i].0 == p[i].0); } else { assert(pn.take(i) =~= p); }
        }
    }
    // what is taken from one identity stays within the value type
    proof fn take_fits(q: Seq<(u64, HashMap<u64, u64>)>, m: Map<u64, u64>, id: u64, v: u64)
        requires forall|k: u64| #[trigger] mval(m, k) <= tot(q, k), mval(m, id) + v <= tot(q, id), gsum(q) <= u64::MAX
        ensures mval(m, id) + v <= u64::MAX, msum(m) + v <= u64::MAX, forall|w: u64| w == mval(m, id) + v ==> msum(#[trigger] m.insert(id, w)) == msum(m) + v
    {
        gsum_tot(q, id);
        let w = (mval(m, id) + v) as u64;
        let m3 = m.insert(id, w);
        assert forall|k: u64| #[trigger] mval(m3, k) <= tot(q, k) by { if k != id { assert(mval(m3, k) == mval(m, k)); } }
        msum_insert(m, id, w);
        msum_gsum(m3, q);
    }
    // the next pair of a map
    proof fn pair_next(m: Map<u64, u64>, d: Seq<(u64, u64)>, i: int)
        requires pairs(m, d), 0 <= i < d.len()
        ensures forall|k: u64| #[trigger] psum(d.take(i + 1), k) == psum(d.take(i), k) + (if d[i].0 == k { d[i].1 as nat } else { 0 }),
            psum(d.take(i), d[i].0) + d[i].1 <= mval(m, d[i].0), m.contains_pair(d[i].0, d[i].1)
    { psum_step(d, i); pairs_sum(m, d); psum_mono(d, i + 1, d[i].0); }
    proof fn pairs_all(m: Map<u64, u64>, d: Seq<(u64, u64)>) requires pairs(m, d)
        ensures forall|k: u64| #[trigger] psum(d.take(0), k) == 0, forall|k: u64| #[trigger] psum(d.take(d.len() as int), k) == mval(m, k)
    { assert(d.take(0) =~= Seq::empty()); assert(d.take(d.len() as int) =~= d); pairs_sum(m, d); }
    // the packets from i on have been cut
    spec fn cutting(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int, m: Map<u64, u64>, i: int) -> bool {
        &&& 0 <= i <= q.len() == q2.len()
        &&& forall|k: u64| #[trigger] mval(m, k) == mx0(a(k) - tot(q.skip(i), k))
        &&& forall|j: int| 0 <= j < i ==> #[trigger] q2[j] == q[j]
        &&& forall|j: int| 0 <= j < q.len() ==> (#[trigger] q2[j]).0 == q[j].0
        &&& forall|j: int, k: u64| i <= j < q.len() ==> #[trigger] mval(q2[j].1@, k) == mval(q[j].1@, k) - mn(mval(q[j].1@, k), mx0(a(k) - tot(q.skip(j + 1), k)))
    }
    proof fn cutting_start(q: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int, m: Map<u64, u64>)
        requires forall|k: u64| #[trigger] mval(m, k) == a(k) ensures cutting(q, q, a, m, q.len() as int)
    { assert forall|k: u64| #[trigger] mval(m, k) == mx0(a(k) - tot(q.skip(q.len() as int), k)) by { assert(tot(q.skip(q.len() as int), k) == 0); assert(mval(m, k) == a(k)); } }
    proof fn cutting_step(q: Seq<(u64, HashMap<u64, u64>)>, qa: Seq<(u64, HashMap<u64, u64>)>, qb: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int, ma: Map<u64, u64>, mb: Map<u64, u64>, i: int)
        requires i > 0, cutting(q, qa, a, ma, i), qb.len() == qa.len(), forall|j: int| 0 <= j < q.len() && j != i - 1 ==> #[trigger] qb[j] == qa[j], qb[i - 1].0 == qa[i - 1].0,
            forall|k: u64| #[trigger] mval(qb[i - 1].1@, k) == mval(qa[i - 1].1@, k) - mn(mval(qa[i - 1].1@, k), mval(ma, k)),
            forall|k: u64| #[trigger] mval(mb, k) == mval(ma, k) - mn(mval(qa[i - 1].1@, k), mval(ma, k)),
        ensures cutting(q, qb, a, mb, i - 1)
    {
        assert(q.skip(i - 1).drop_first() =~= q.skip(i));
        assert(qa[i - 1] == q[i - 1]);
        assert forall|k: u64| #[trigger] mval(mb, k) == mx0(a(k) - tot(q.skip(i - 1), k)) by { assert(mval(ma, k) == mx0(a(k) - tot(q.skip(i), k))); }
        assert forall|j: int, k: u64| i - 1 <= j < q.len() implies #[trigger] mval(qb[j].1@, k) == mval(q[j].1@, k) - mn(mval(q[j].1@, k), mx0(a(k) - tot(q.skip(j + 1), k))) by {
            assert(mval(ma, k) == mx0(a(k) - tot(q.skip(i), k)));
            if j >= i { assert(qb[j] == qa[j]); assert(mval(qa[j].1@, k) == mval(q[j].1@, k) - mn(mval(q[j].1@, k), mx0(a(k) - tot(q.skip(j + 1), k)))); }
        }
    }
    proof fn cutting_done(q: Seq<(u64, HashMap<u64, u64>)>, q2: Seq<(u64, HashMap<u64, u64>)>, a: spec_fn(u64) -> int, m: Map<u64, u64>, i: int, p: Seq<(u64, u64)>)
        requires cutting(q, q2, a, m, i), i == 0 || m.dom().len() == 0, forall|k: u64| #[trigger] rem(q, p, k) <= tot(q, k), forall|k: u64| #[trigger] a(k) == tot(q, k) - rem(q, p, k), positive(m)
        ensures cut(q, q2, a), m.dom() == Set::<u64>::empty(), forall|k: u64| #[trigger] tot(q2, k) == rem(q, p, k), gsum(q2) <= gsum(q), sorted(q) ==> sorted(q2)
    {
        if m.dom().len() != 0 { let kk = m.dom().choose(); assert(m.dom().contains(kk)); assert(q.skip(0) =~= q); assert(mval(m, kk) == mx0(a(kk) - tot(q.skip(0), kk))); assert(rem(q, p, kk) <= tot(q, kk)); assert(false); }
        assert(m.dom() =~= Set::empty());
        assert forall|j: int, k: u64| 0 <= j < q.len() implies #[trigger] mval(q2[j].1@, k) == mval(q[j].1@, k) - mn(mval(q[j].1@, k), mx0(a(k) - tot(q.skip(j + 1), k))) by {
            if j < i {
                assert(mval(m, k) == mx0(a(k) - tot(q.skip(i), k)));
                tot_split(q.skip(j + 1), i - (j + 1), k);
                assert(q.skip(j + 1).skip(i - (j + 1)) =~= q.skip(i));
                assert(q2[j] == q[j]);
            }
        }
        assert(cut(q, q2, a));
        assert forall|k: u64| #[trigger] tot(q2, k) == rem(q, p, k) by { cut_tot(q, q2, a, 0, k); assert(q.skip(0) =~= q); assert(q2.skip(0) =~= q2); assert(rem(q, p, k) <= tot(q, k)); }
        assert forall|j: int, k: u64| 0 <= j < q.len() implies #[trigger] mval(q2[j].1@, k) <= mval(q[j].1@, k) by { }
        gsum_mono(q, q2);
        if sorted(q) { assert forall|x: int, y: int| 0 <= x < y < q2.len() implies q2[x].0 < q2[y].0 by { assert(q[x].0 < q[y].0); assert(q2[x].0 == q[x].0 && q2[y].0 == q[y].0); } }
    }
"""


def f_spend_coin(u, s):
    return u.fn(s, P + "spend_coin", subst=SUB, spec="""ensures
        r.0 == (*old(x) > *old(ts)), r.1 == (*old(x) < *old(ts)),
        *old(x) > *old(ts) ==> *final(x) == *old(x) - *old(ts),
        *old(x) < *old(ts) ==> *final(ts) == *old(ts) - *old(x),
        *old(x) >= *old(ts) ==> *final(ts) == *old(ts),
        *old(x) <= *old(ts) ==> *final(x) == *old(x),
    """)


def f_expire_packets(u, s):
    inv = """
        it{n}.seq() == __ks{n}@, __ks{n}@.no_duplicates(), positive(rep_diff@), positive(to_subtract@), positive(r0), positive(s0),
        forall|k: u64| __ks{n}@.contains(k) <==> {src}.contains_key(k),
        forall|k: u64| #[trigger] mval(rep_diff@, k) == mval(r0, k) - (if __ks{n}@.take(it{n}.index@).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }}),
        forall|k: u64| #[trigger] mval(to_subtract@, k) == mval(s0, k) - (if __ks{n}@.take(it{n}.index@).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }}),
    """
    start = """
        let ghost ra = rep_diff@; let ghost sa = to_subtract@;
        proof {{ take_step(__ks{n}@, it{n}.index@); assert(mval(ra, __k{n}) == mval(r0, __k{n})); assert(mval(sa, __k{n}) == mval(s0, __k{n})); }}
    """
    end = """
        proof {{
        assert forall|k: u64| #[trigger] mval(rep_diff@, k) == mval(r0, k) - (if __ks{n}@.take(it{n}.index@ + 1).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }}) by {{
            assert(mval(ra, k) == mval(r0, k) - (if __ks{n}@.take(it{n}.index@).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }})); }}
        assert forall|k: u64| #[trigger] mval(to_subtract@, k) == mval(s0, k) - (if __ks{n}@.take(it{n}.index@ + 1).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }}) by {{
            assert(mval(sa, k) == mval(s0, k) - (if __ks{n}@.take(it{n}.index@).contains(k) {{ mn(mval(r0, k), mval(s0, k)) }} else {{ 0 }})); }}
        }}
    """
    after = "proof {{ take_all(__ks{n}@); }}"
    f = lambda t, n, src: t.format(n=n, src=src)
    return u.fn(s, P + "expire_packets", subst=SUB, ret="", skel=[".retain", ".retain"], desugar=["retain"], spec="""
        requires positive(old(rep_diff)@), positive(old(to_subtract)@)
        ensures positive(final(rep_diff)@), positive(final(to_subtract)@),
            forall|k: u64| #[trigger] mval(final(rep_diff)@, k) == mval(old(rep_diff)@, k) - mn(mval(old(rep_diff)@, k), mval(old(to_subtract)@, k)),
            forall|k: u64| #[trigger] mval(final(to_subtract)@, k) == mval(old(to_subtract)@, k) - mn(mval(old(rep_diff)@, k), mval(old(to_subtract)@, k)),
      """, start="let ghost r0 = rep_diff@; let ghost s0 = to_subtract@;",
        loops={n: dict(inv=f(inv, n, ["s0", "r0"][n]), start=f(start, n, ""), end=f(end, n, ""), after=f(after, n, "")) for n in (0, 1)})


def f_penalize_many(u, s):
    return u.fn(s, P + "penalize_many", subst=[(r"<'a, F, I>\(", "<F: FnMut(u64) -> u64>("), (r"\bids_fs: I\b", "ids_fs: Vec<(&u64, F)>")] + SUB,
        skel=["for", "for", "for"], desugar=["iter_mut"], spec="""
        requires old(self).inv(), forall|i: int, x: u64| 0 <= i < ids_fs@.len() ==> #[trigger] call_requires(ids_fs@[i].1, (x,))
        ensures final(self).inv(),
            r.is_err() ==> final(self).queue@ == old(self).queue@ && final(self).map@ == old(self).map@,
            r.is_err() ==> exists|p: Seq<(u64, u64)>| #[trigger] applied(old(self).queue@, ids_fs@, p) && p.len() < ids_fs@.len() && ({
                let k = *ids_fs@[p.len() as int].0; let have = rem(old(self).queue@, p, k);
                r->Err_0.old_rep == have && r->Err_0.new_rep > have && call_ensures(ids_fs@[p.len() as int].1, (have as u64,), r->Err_0.new_rep) }),
            r.is_ok() ==> exists|p: Seq<(u64, u64)>| #[trigger] applied(old(self).queue@, ids_fs@, p) && p.len() == ids_fs@.len()
                && r->Ok_0 == taken(old(self).queue@, p)
                && cut(old(self).queue@, final(self).queue@, |k: u64| tot(old(self).queue@, k) - rem(old(self).queue@, p, k))
                && forall|k: u64| #[trigger] tot(final(self).queue@, k) == rem(old(self).queue@, p, k),
      """, start="""hide(rem); hide(taken); hide(applied); hide(psum); hide(cutting); hide(cut); hide(gsum); hide(tot); hide(msum); let ghost q0 = self.queue@; let ghost l = ids_fs@; let ghost m0 = self.map@; let ghost mut p: Seq<(u64, u64)> = Seq::empty();
            proof { msum_zero(Map::<u64, u64>::empty()); apply_start(q0, l); }""",
        loops={
            0: dict(inv="""
                it0.seq() == l, p.len() == it0.index@, applied(q0, l, p), self.queue@ == q0, self.map@ == m0, self.inv(), positive(to_subtract@),
                forall|i: int, x: u64| 0 <= i < l.len() ==> #[trigger] call_requires(l[i].1, (x,)),
                forall|k: u64| #[trigger] mval(to_subtract@, k) == tot(q0, k) - rem(q0, p, k),
                total_subtracted == taken(q0, p), total_subtracted == msum(to_subtract@),
                """, start="""let ghost s1 = to_subtract@; proof { assert(*id == *l[it0.index@].0); assert(mval(s1, *id) == tot(q0, *id) - rem(q0, p, *id)); assert(mval(m0, *id) == tot(q0, *id)); }""",
                end="""proof { apply_step(q0, l, p, *id, new_v);
                    let pn = p.push((*id, new_v));
                    assert forall|k: u64| #[trigger] mval(to_subtract@, k) == tot(q0, k) - rem(q0, pn, k) by { assert(mval(s1, k) == tot(q0, k) - rem(q0, p, k)); }
                    p = pn;
                }"""),
            1: dict(iter_as=lambda its, n, r: "map_pairs_vec(&%s)" % re.sub(r"\.iter\(\)$", "", its.strip()), bind="v1", inv="""
                it1.seq() == v1@, pairs(to_subtract@, v1@), self.queue@ == q0, positive(self.map@), positive(to_subtract@),
                forall|k: u64| #[trigger] mval(to_subtract@, k) <= tot(q0, k),
                forall|k: u64| #[trigger] mval(self.map@, k) == tot(q0, k) - psum(v1@.take(it1.index@), k)
                """, before="""proof { pairs_all(to_subtract@, v1@); assert forall|k: u64| #[trigger] mval(m0, k) == tot(q0, k) - psum(v1@.take(0), k) by { assert(psum(v1@.take(0), k) == 0); }
                    assert forall|k: u64| #[trigger] mval(to_subtract@, k) <= tot(q0, k) by { assert(rem(q0, p, k) >= 0); } }""",
                start="""let ghost m1 = self.map@; proof { pair_next(to_subtract@, v1@, it1.index@); let kk = v1@[it1.index@].0; assert(mval(to_subtract@, kk) <= tot(q0, kk)); assert(mval(m1, kk) == tot(q0, kk) - psum(v1@.take(it1.index@), kk)); }""",
                end="""proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(q0, k) - psum(v1@.take(it1.index@ + 1), k) by {
                  assert(mval(m1, k) == tot(q0, k) - psum(v1@.take(it1.index@), k)); assert(psum(v1@.take(it1.index@ + 1), k) >= 0); } }""",
                after="""let ghost m2 = self.map@; let ghost a = |k: u64| tot(q0, k) - rem(q0, p, k); let ghost s0 = to_subtract@;
                  proof { pairs_all(s0, v1@);
                  assert forall|k: u64| #[trigger] mval(m2, k) == rem(q0, p, k) by { assert(psum(v1@.take(v1@.len() as int), k) == mval(s0, k)); }
                  cutting_start(q0, a, s0); assert(qpos(q0)); }"""),
            2: dict(inv="""
                __i2 <= q0.len(), self.map@ == m2, self.queue@.len() == q0.len(), positive(to_subtract@), qpos(self.queue@), cutting(q0, self.queue@, a, to_subtract@, __i2 as int),
                """, dec="__i2", ensures="__i2 == 0 || to_subtract@.dom().len() == 0",
                start="let ghost qa = self.queue@; let ghost sa = to_subtract@; let ghost i0 = __i2 as int; proof { assert(positive(qa[__i2 - 1].1@)); }",
                end="", after="""proof { let q2 = self.queue@;
                    assert forall|k: u64| #[trigger] rem(q0, p, k) <= tot(q0, k) by { assert(mval(s0, k) == tot(q0, k) - rem(q0, p, k)); }
                    cutting_done(q0, q2, a, to_subtract@, __i2 as int, p);
                    assert forall|k: u64| #[trigger] mval(self.map@, k) == tot(q2, k) by { assert(mval(m2, k) == rem(q0, p, k)); assert(tot(q2, k) == rem(q0, p, k)); }
                    assert(cut(q0, q2, |k: u64| tot(q0, k) - rem(q0, p, k)));
                }"""),
        },
        before=[(r"total_subtracted \+=", """proof { assert forall|k: u64| #[trigger] mval(s1, k) <= tot(q0, k) by { assert(mval(s1, k) == tot(q0, k) - rem(q0, p, k)); }
                    take_fits(q0, to_subtract@, *id, ts); }"""),
                (r"if to_subtract\.is_empty\(\) ", "proof { cutting_step(q0, qa, self.queue@, a, sa, to_subtract@, i0); }")])
