from trslib import *
ID = "R01"
FILES = [TRS]
RULE = "random histories of up to 40 gains, expirations, penalizations and clears over 1..6 identities (repeats in one gain, zero amounts, equal and stale expirations); every observer compared with a list of packets after each step"
ASSUMPTIONS = ["the grand total of reputation fits the value type (the property's own bound)",
               "penalize_many keeps the ledger invariant: proved under R02",
               "the iterator arguments are passed as a Vec: they are consumed once, in order",
               "vstd's specifications of HashMap, VecDeque and their iterators"]


def verus(u):
    s = base(u)
    u.emit(PMATH)
    u.emit("""
    spec fn idsum(q: Seq<(u64, HashMap<u64, u64>)>, ids: Seq<&u64>) -> nat decreases ids.len() {
        if ids.len() == 0 { 0 } else { idsum(q, ids.drop_last()) + tot(q, *ids.last()) }
    }
    proof fn idsum_step(q: Seq<(u64, HashMap<u64, u64>)>, ids: Seq<&u64>, i: int) requires 0 <= i < ids.len()
        ensures idsum(q, ids.take(i + 1)) == idsum(q, ids.take(i)) + tot(q, *ids[i]) { assert(ids.take(i + 1).drop_last() =~= ids.take(i)); }
    proof fn idsum_mono(q: Seq<(u64, HashMap<u64, u64>)>, ids: Seq<&u64>, i: int) requires 0 <= i <= ids.len()
        ensures idsum(q, ids.take(i)) <= idsum(q, ids) decreases ids.len() - i
    { if i < ids.len() { idsum_step(q, ids, i); idsum_mono(q, ids, i + 1); } else { assert(ids.take(i) =~= ids); } }
    """)
    u.emit_impl(" TotalReputationSet", [
        f_get(u, s),
        u.fn(s, P + "with_hasher", subst=SUB + [(r"with_hasher\(S::default\(\)\)", "new()")], spec="ensures r.inv(), r.queue@.len() == 0"),
        u.fn(s, P + "get_sum", subst=[(r"<'a, I>\(", "("), (r"&'a self, ids: I\b", "&self, ids: Vec<&u64>")] + SUB, desugar=["fold"], skel=[".fold"], spec="""
          requires self.inv(), idsum(self.queue@, ids@) <= u64::MAX
          ensures r == idsum(self.queue@, ids@)
        """, loops={0: dict(inv="acc == idsum(self.queue@, ids@.take(it0.index@)), it0.seq() == ids@, self.inv(), idsum(self.queue@, ids@) <= u64::MAX",
                            before="proof { assert(ids@.take(0).len() == 0); assert(ids@.take(ids@.len() as int) =~= ids@); }",
                            start="proof { idsum_step(self.queue@, ids@, it0.index@); idsum_mono(self.queue@, ids@, it0.index@ + 1); }")}),
        u.fn(s, P + "get_total_sum", subst=SUB, desugar=["fold"], skel=[".fold"], spec="""
          requires self.inv()
          ensures r == gsum(self.queue@)
        """, loops={0: dict(inv="acc == dsum(v0@.take(it0.index@)), it0.seq() == v0@, dsum(v0@) <= u64::MAX", bind="v0",
                            iter_as=lambda its, n, r: "map_pairs_vec(&%s)" % re.sub(r"\.iter\(\)$", "", its.strip()),
                            before="proof { assert(v0@.take(0).len() == 0); assert(v0@.take(v0@.len() as int) =~= v0@); pairs_sum(self.map@, v0@); msum_gsum_eq(self.map@, self.queue@); }",
                            start="proof { psum_step(v0@, it0.index@); dsum_mono(v0@, it0.index@ + 1); }")}),
        u.fn(s, P + "num_identities", subst=SUB, spec="requires self.inv() ensures exists|s: Set<u64>| (forall|k: u64| s.contains(k) <==> tot(self.queue@, k) > 0) && r == s.len()",
             start="proof { assert forall|k: u64| self.map@.dom().contains(k) <==> tot(self.queue@, k) > 0 by { assert(mval(self.map@, k) == tot(self.queue@, k)); } }"),
        u.fn(s, P + "clear", subst=SUB, ret="", spec="ensures final(self).inv(), final(self).queue@.len() == 0",
             end="proof { assert(self.queue@.len() == 0); }"),
        f_gain(u, s),
        f_expire(u, s),
    ])
    u.close()


harness = dict(kind="crate", name="r01", deps={"witnet_reputation": "reputation"}, main="r01.rs")
