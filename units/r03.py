from replib import *
ID = "R03"
ARS = "reputation/src/ars.rs"
FILES = [ARS]
RULE = "random windows of 1..7 epochs, up to 40 updates with gaps 0..12 (biased to the window size), identity lists with repeats; after every step every identity is probed"
ASSUMPTIONS = ["the window size is between 1 and 65535 (the per-identity counter is a u16)",
               "vstd's specifications of HashMap, HashSet, VecDeque and their iterators",
               "identities are passed as a Vec: the generic IntoIterator argument is consumed once, in order"]


def verus(u):
    s = u.src(ARS)
    u.file("ars")
    u.emit("use std::collections::hash_map::Entry;")
    u.emit(SEQ)
    helpers(u, "u16")
    sub = [(r"\bK\b", "u64"), (r"<M>\(", "("), (r"\bM\b", "Vec<u64>"), (r"anyhow::Error", "ReputationError"),
           (r"\.into\(\)", ""), (r"(?:\b[\w.]+|\))\.into_iter\(\)\s*\.collect\(\)", "vec_to_set(identities)"),
           (r"vec!\[\]", "Vec::<u64>::new()")]
    u.emit("""
    #[derive(Debug)]
    enum ReputationError { InvalidUpdateTime { new_time: u32, current_time: u32 } }
    #[verifier::external_body]
    fn vec_to_set(v: Vec<u64>) -> (r: HashSet<u64>) ensures r@ == v@.to_set() { v.into_iter().collect() }
    #[verifier::external_body]
    fn set_into_vec(s: HashSet<u64>) -> (r: Vec<u64>) ensures r@.to_set() == s@, r@.no_duplicates() { s.into_iter().collect() }
    """)
    u.emit_raw(u.struct_text(s, "ActiveReputationSet", subst=[(r"<K>\nwhere\n    K: Clone \+ Eq \+ Hash,", ""), (r"\bK\b", "u64")]))
    u.emit("""
    spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
    // the set d places from the newest end
    spec fn back(q: Seq<HashSet<u64>>, d: int) -> Set<u64> { if 0 <= d < q.len() { q[q.len() - 1 - d]@ } else { Set::empty() } }
    // number of sets of the window an identity belongs to
    spec fn cnt(q: Seq<HashSet<u64>>, k: u64) -> nat decreases q.len() {
        if q.len() == 0 { 0 } else { cnt(q.drop_first(), k) + b2n(q.first()@.contains(k)) }
    }
    proof fn cnt_push(q: Seq<HashSet<u64>>, s: HashSet<u64>, k: u64)
        ensures cnt(q.push(s), k) == cnt(q, k) + b2n(s@.contains(k)) decreases q.len()
    {
        if q.len() == 0 { assert(q.push(s).drop_first() =~= q); assert(cnt(q.push(s).drop_first(), k) == 0); }
        else { assert(q.push(s).drop_first() =~= q.drop_first().push(s)); cnt_push(q.drop_first(), s, k); }
    }
    proof fn cnt_bound(q: Seq<HashSet<u64>>, k: u64) ensures cnt(q, k) <= q.len() decreases q.len()
    { if q.len() > 0 { cnt_bound(q.drop_first(), k); } }
    proof fn cnt_exists(q: Seq<HashSet<u64>>, k: u64)
        ensures cnt(q, k) > 0 <==> exists|i: int| 0 <= i < q.len() && q[i]@.contains(k) decreases q.len()
    {
        if q.len() > 0 {
            cnt_exists(q.drop_first(), k);
            assert(forall|i: int| 0 <= i < q.drop_first().len() ==> q.drop_first()[i] == q[i + 1]);
            if cnt(q, k) > 0 {
                if q.first()@.contains(k) { assert(q[0]@.contains(k)); }
                else { let j = choose|j: int| 0 <= j < q.drop_first().len() && q.drop_first()[j]@.contains(k); assert(q[j + 1]@.contains(k)); }
            }
            if exists|i: int| 0 <= i < q.len() && q[i]@.contains(k) {
                let i = choose|i: int| 0 <= i < q.len() && q[i]@.contains(k);
                if i > 0 { assert(q.drop_first()[i - 1]@.contains(k)); }
            }
        }
    }
    impl ActiveReputationSet {
        // the cached counters are exact
        spec fn inv(&self) -> bool {
            &&& self.queue@.len() <= self.capacity
            &&& 1 <= self.capacity <= 65535
            &&& forall|k: u64| #[trigger] mval(self.map@, k) == cnt(self.queue@, k)
            &&& positive(self.map@)
        }
        // the identities recorded for epoch x
        spec fn at(&self, x: int) -> Set<u64> { back(self.queue@, self.last_update - x) }
        spec fn active(&self, k: u64) -> bool {
            exists|x: int| self.last_update - self.capacity < x <= self.last_update && #[trigger] self.at(x).contains(k)
        }
        proof fn lemma_active(&self, k: u64) requires self.inv()
            ensures self.map@.contains_key(k) <==> self.active(k)
        {
            PROBE(lemma_active);
            cnt_exists(self.queue@, k);
            assert(mval(self.map@, k) == cnt(self.queue@, k));
            let n = self.queue@.len() as int;
            if self.map@.contains_key(k) {
                let i = choose|i: int| 0 <= i < n && self.queue@[i]@.contains(k);
                let x = self.last_update - (n - 1 - i);
                assert(self.at(x) == self.queue@[i]@);
                assert(self.at(x).contains(k));
            }
            if self.active(k) {
                let x = choose|x: int| self.last_update - self.capacity < x <= self.last_update && #[trigger] self.at(x).contains(k);
                let i = n - 1 - (self.last_update - x);
                assert(0 <= i < n && self.queue@[i]@.contains(k));
            }
        }
    }
    """)
    P = "ActiveReputationSet::"
    it_seq = lambda its, n, r: re_into(its)
    u.emit_impl(" ActiveReputationSet", [
        u.fn(s, P + "new", subst=sub, spec="""
          requires 1 <= capacity <= 65535
          ensures r.inv(), r.capacity == capacity, r.last_update == 0, forall|k: u64| !r.active(k)
        """, end="proof { assert(__ret.queue@ =~= Seq::empty()); assert forall|k: u64| !__ret.active(k) by { __ret.lemma_active(k); } }"),
        u.fn(s, P + "clear", subst=sub, ret="", spec="""
          requires old(self).inv()
          ensures final(self).inv(), final(self).queue@.len() == 0, final(self).map@ == Map::<u64, u16>::empty(),
            final(self).capacity == old(self).capacity, final(self).last_update == old(self).last_update
        """),
        u.fn(s, P + "buffer_capacity", subst=sub, spec="ensures r == self.capacity"),
        u.fn(s, P + "buffer_size", subst=sub, spec="ensures r == self.queue@.len()"),
        u.fn(s, P + "contains", subst=sub, spec="requires self.inv() ensures r == self.active(*key)",
             start="proof { self.lemma_active(*key); }"),
        u.fn(s, P + "active_identities_number", subst=sub, spec="""
          requires self.inv()
          ensures exists|s: Set<u64>| (forall|k: u64| s.contains(k) <==> self.active(k)) && r == s.len()
        """, start="proof { assert forall|k: u64| self.map@.dom().contains(k) <==> self.active(k) by { self.lemma_active(k); } }"),
        u.fn(s, P + "push_activity", subst=sub, ret="", skel=[".for_each", ".for_each"], desugar=["for_each"], spec="""
          requires old(self).inv()
          ensures
            final(self).inv(), final(self).capacity == old(self).capacity, final(self).last_update == old(self).last_update,
            forall|d: int| 0 <= d < final(self).capacity ==>
                #[trigger] back(final(self).queue@, d) == (if d == 0 { identities@.to_set() } else { back(old(self).queue@, d - 1) }),
        """, start="proof { assert forall|k: u64| #[trigger] mval(self.map@, k) <= self.queue@.len() by { cnt_bound(self.queue@, k); } }", loops={
            0: dict(iter_as=to_vec, bind="v0", inv="""
                self.capacity == old(self).capacity, self.last_update == old(self).last_update, self.queue@ == q1,
                it0.seq() == v0@, v0@.no_duplicates(), positive(self.map@),
                forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q1, k) + b2n(v0@.contains(k) && !v0@.take(it0.index@).contains(k))
                """,
                before="""let ghost q1 = old(self).queue@.drop_first();
                    proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q1, k) + b2n(v0@.contains(k) && !v0@.take(0).contains(k)) by {
                        assert(mval(self.map@, k) == cnt(old(self).queue@, k)); assert(old(self).queue@.first()@ == v0@.to_set()); } }""",
                start="proof { take_step(v0@, it0.index@); assert(mval(self.map@, id) == cnt(q1, id) + 1); } let ghost m0 = self.map@;",
                end="""proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q1, k) + b2n(v0@.contains(k) && !v0@.take(it0.index@ + 1).contains(k)) by {
                    assert(mval(m0, k) == cnt(q1, k) + b2n(v0@.contains(k) && !v0@.take(it0.index@).contains(k))); assert(k != id ==> mval(self.map@, k) == mval(m0, k)); } }""",
                after="proof { take_all(v0@); assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q1, k) by { } }"),
            1: dict(bind="v1", inv="""
                self.capacity == old(self).capacity, self.last_update == old(self).last_update, self.queue@ == q2, q2.len() < self.capacity,
                1 <= self.capacity <= 65535,
                it1.seq() == s1, s1.no_duplicates(), s1.unref().to_set() == identities@, positive(self.map@),
                forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q2, k) + b2n(s1.unref().take(it1.index@).contains(k))
                """,
                before="""let ghost q2 = self.queue@; let ghost s1 = v1.remaining();
                  proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q2, k) + b2n(s1.unref().take(0).contains(k)) by { } }""",
                start="proof { take_step(s1.unref(), it1.index@); cnt_bound(q2, *id); assert(mval(self.map@, *id) == cnt(q2, *id)); } let ghost m0 = self.map@;",
                end="""proof { assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q2, k) + b2n(s1.unref().take(it1.index@ + 1).contains(k)) by {
                    assert(mval(m0, k) == cnt(q2, k) + b2n(s1.unref().take(it1.index@).contains(k))); assert(k != *id ==> mval(self.map@, k) == mval(m0, k)); } }""",
                after="""proof { take_all(s1.unref()); assert forall|k: u64| #[trigger] mval(self.map@, k) == cnt(q2.push(identities), k) by { cnt_push(q2, identities, k); } }"""),
        }, end="proof { assert(final_q(self.queue@, old(self).queue@, self.capacity as nat, identities)); }" if False else ""),
        u.fn(s, P + "update", subst=sub, skel=["for"], loops={0: dict(inv="""
               self.inv(), self.capacity == old(self).capacity, self.last_update == old(self).last_update,
               forall|d: int| 0 <= d < self.capacity ==> #[trigger] back(self.queue@, d) == (if d < it0.index@ { Set::empty() } else { back(old(self).queue@, d - it0.index@) })
            """, start="let ghost q0 = self.queue@;", end="""proof { assert forall|d: int| 0 <= d < self.capacity implies
               #[trigger] back(self.queue@, d) == (if d < it0.index@ + 1 { Set::empty() } else { back(old(self).queue@, d - (it0.index@ + 1)) }) by {
               if d > 0 { assert(back(q0, d - 1) == (if d - 1 < it0.index@ { Set::empty() } else { back(old(self).queue@, d - 1 - it0.index@) })); }
               assert(Seq::<u64>::empty().to_set() =~= Set::empty()); } }""")}, spec="""
          requires old(self).inv()
          ensures
            final(self).inv(), final(self).capacity == old(self).capacity,
            block_epoch > old(self).last_update ==> r.is_ok() && final(self).last_update == block_epoch
                && forall|x: int| block_epoch - final(self).capacity < x <= block_epoch ==>
                    #[trigger] final(self).at(x) == (if x == block_epoch { identities@.to_set() } else { old(self).at(x) }),
            block_epoch <= old(self).last_update ==> *final(self) == *old(self) && (r.is_ok() <==> block_epoch == 0),
        """),
    ])
    u.close()


def to_vec(its, n, r):
    import re
    return re.sub(r"^(.*)\.into_iter\(\)$", r"set_into_vec(\1)", its.strip(), flags=re.S)


def re_into(t):
    return t


harness = dict(kind="crate", name="r03", deps={"witnet_reputation": "reputation"}, main="r03.rs")
