from unit import LIGHT_PRELUDE
from utxolib import *
from extract import Extract, HEADER
ID = "U01"
TF = "data_structures/src/transaction_factory.rs"
FILES = [UT, DB]
RULE = "histories of insertions and removals through pending change sets over a persisted set; after every step every output ever named is looked up everywhere"
ASSUMPTIONS = ["every output is created at most once (outputs are named by the hash of the transaction that creates them) and is removed at most once",
               "std HashMap and HashSet behave as maps and sets over output pointers (their derived Eq and Hash agree)",
               "the database behaves as a map and its operations succeed"]


def verus(u):
    ut = u.src(UT)
    u.file("utxo", LIGHT_PRELUDE)
    types(u)
    u.emit("""
    // HashMap::drain, HashSet::drain and mem::take
    #[verifier::external_body]
    fn drain_map(m: &mut HashMap<OutputPointer, (ValueTransferOutput, u32)>) -> (r: Vec<(OutputPointer, (ValueTransferOutput, u32))>)
        ensures final(m)@ == Map::<OutputPointer, (ValueTransferOutput, u32)>::empty(), r@.len() == old(m)@.dom().len(),
            forall|i: int| 0 <= i < r@.len() ==> old(m)@.contains_key((#[trigger] r@[i]).0) && old(m)@[r@[i].0] == r@[i].1,
            forall|k: OutputPointer| old(m)@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0
    { m.drain().collect() }
    #[verifier::external_body]
    fn drain_set(m: &mut HashSet<OutputPointer>) -> (r: Vec<OutputPointer>)
        ensures final(m)@ == Set::<OutputPointer>::empty(), r@.to_set() == old(m)@, r@.no_duplicates()
    { m.drain().collect() }
    #[verifier::external_body]
    fn take(d: &mut Diff) -> (r: Diff) ensures r == *old(d), final(d).utxos_to_add@ == Map::<OutputPointer, (ValueTransferOutput, u32)>::empty(), final(d).utxos_to_remove@ == Set::<OutputPointer>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn keys_of(m: &HashMap<OutputPointer, (ValueTransferOutput, u32)>) -> (r: Vec<&OutputPointer>)
        ensures r@.len() == m@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(*(#[trigger] r@[i])), forall|k: OutputPointer| m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *r@[i] != *r@[j] { m.keys().collect() }
    #[verifier::external_body]
    fn elems_of(m: &HashSet<OutputPointer>) -> (r: Vec<&OutputPointer>)
        ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains(*(#[trigger] r@[i])), forall|k: OutputPointer| m@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *r@[i] != *r@[j] { m.iter().collect() }
    // a batch of database changes
    #[verifier::external_body]
    struct UtxoWriteBatch { x: u8 }
    impl UtxoWriteBatch {
        uninterp spec fn ops(&self) -> Seq<(OutputPointer, Option<(ValueTransferOutput, u32)>)>;
        #[verifier::external_body]
        fn put(&mut self, k: OutputPointer, v: (ValueTransferOutput, u32)) ensures final(self).ops() == old(self).ops().push((k, Some(v))) { unimplemented!() }
        #[verifier::external_body]
        fn delete(&mut self, k: OutputPointer) ensures final(self).ops() == old(self).ops().push((k, None)) { unimplemented!() }
        #[verifier::external_body]
        fn default() -> (r: UtxoWriteBatch) ensures r.ops() == Seq::<(OutputPointer, Option<(ValueTransferOutput, u32)>)>::empty() { unimplemented!() }
    }
    spec fn applied(m: Outs, s: Seq<(OutputPointer, Option<(ValueTransferOutput, u32)>)>) -> Outs decreases s.len()
    { if s.len() == 0 { m } else { let p = applied(m, s.drop_last()); match s.last().1 { Some(v) => p.insert(s.last().0, v), None => p.remove(s.last().0) } } }
    impl Db {
        #[verifier::external_body]
        fn write(&mut self, b: UtxoWriteBatch) -> (r: std::result::Result<(), DbError>) ensures r is Ok, final(self)@ == applied(old(self)@, b.ops()) { unimplemented!() }
    }
    impl UnspentOutputsPool {
        // created once, spent at most once: what the pending changes add is not persisted yet, what they remove exists
        spec fn inv(&self) -> bool {
            &&& forall|k: OutputPointer| self.diff.utxos_to_add@.contains_key(k) ==> !db_view(self.db).contains_key(k)
            &&& forall|k: OutputPointer| self.diff.utxos_to_remove@.contains(k) ==> self.diff.utxos_to_add@.contains_key(k) || db_view(self.db).contains_key(k)
        }
        proof fn upd_ins(&self, k: OutputPointer, v: (ValueTransferOutput, u32)) ensures overlay(db_view(self.db), self.diff).insert(k, v).remove_keys(self.diff.utxos_to_remove@) == db_view(self.db).union_prefer_right(self.diff.utxos_to_add@.insert(k, v)).remove_keys(self.diff.utxos_to_remove@)
        { assert(overlay(db_view(self.db), self.diff).insert(k, v).remove_keys(self.diff.utxos_to_remove@) =~= db_view(self.db).union_prefer_right(self.diff.utxos_to_add@.insert(k, v)).remove_keys(self.diff.utxos_to_remove@)); }
    }
    """)
    pool_reads(u)
    sub = [(r"(\w[\w.]*)\.utxos_to_add\.drain\(\)", r"drain_map(&mut \1.utxos_to_add)"), (r"(\w[\w.]*)\.utxos_to_remove\.drain\(\)", r"drain_set(&mut \1.utxos_to_remove)"),
           (r"std::mem::take\(", "take("), (r"(\w[\w.]*)\.utxos_to_add\.keys\(\)", r"keys_of(&\1.utxos_to_add)"), (r"(?<==\s)&(\w[\w.]*)\.utxos_to_remove\b(?=\s*;)", r"elems_of(&\1.utxos_to_remove)"),
           (r"(\w[\w.]*)\.utxos_to_remove\.iter\(\)", r"elems_of(&\1.utxos_to_remove)"), (r"rt_assert\((\w+) == None\)", r"rt_assert(\1.is_none())")]
    O = "Seq<(OutputPointer, Option<(ValueTransferOutput, u32)>)>"
    fs = [
        u.fn(ut, "UnspentOutputsPool::insert", ret="", spec="""
            requires !old(self).diff.utxos_to_add@.contains_key(k)
            ensures final(self).db == old(self).db, final(self).diff.utxos_to_add@ == old(self).diff.utxos_to_add@.insert(k, (v, block_number)), final(self).diff.utxos_to_remove@ == old(self).diff.utxos_to_remove@,
                !old(self).diff.utxos_to_remove@.contains(k) ==> final(self)@ == old(self)@.insert(k, (v, block_number))""",
             start="let ghost o = *old(self);", end="proof { assert(!o.diff.utxos_to_remove@.contains(k) ==> self@ =~= o@.insert(k, (v, block_number))); }"),
        u.fn(ut, "UnspentOutputsPool::remove", ret="", spec="""
            requires !old(self).diff.utxos_to_remove@.contains(*k)
            ensures final(self).db == old(self).db, final(self).diff.utxos_to_add@ == old(self).diff.utxos_to_add@, final(self).diff.utxos_to_remove@ == old(self).diff.utxos_to_remove@.insert(*k),
                final(self)@ == old(self)@.remove(*k)""", start="let ghost o = *old(self);", end="proof { assert(self@ =~= o@.remove(*k)); }"),
        u.fn(ut, "UnspentOutputsPool::db_insert", ret="", subst=sub, spec="""
            requires !old(self)@.contains_key(k)
            ensures *final(self) == *old(self), final(batch).ops() == old(batch).ops().push((k, Some((v, block_number))))"""),
        u.fn(ut, "UnspentOutputsPool::db_remove", subst=sub, spec="""
            requires old(self)@.contains_key(k)
            ensures *final(self) == *old(self), r is Some, final(batch).ops() == old(batch).ops().push((k, None))"""),
        u.fn(ut, "UnspentOutputsPool::persist_add_to_batch", ret="", subst=sub, skel=["for", "for"], spec="""
            requires old(self).inv()
            ensures final(self).db == old(self).db, final(self).diff.utxos_to_add@ == Map::<OutputPointer, (ValueTransferOutput, u32)>::empty(), final(self).diff.utxos_to_remove@ == Set::<OutputPointer>::empty(),
                old(batch).ops().is_prefix_of(final(batch).ops()),
                applied(db_view(old(self).db), final(batch).ops().skip(old(batch).ops().len() as int)) == old(self)@
            """, loops={
                0: dict(bind="v0", before="let ghost s0 = v0@; let ghost b0 = batch.ops(); let ghost base = db_view(self.db); proof { assert(b0.skip(b0.len() as int) =~= Seq::empty()); assert(b0 =~= b0 + Seq::empty()); }", inv="""
                    it0.seq() == s0, self.db == old(self).db, base == db_view(old(self).db), old(self).inv(), b0 == old(batch).ops(),
                    self.diff.utxos_to_add@ == Map::<OutputPointer, (ValueTransferOutput, u32)>::empty(), self.diff.utxos_to_remove@ == Set::<OutputPointer>::empty(),
                    forall|i: int| 0 <= i < s0.len() ==> old(self).diff.utxos_to_add@.contains_key((#[trigger] s0[i]).0) && old(self).diff.utxos_to_add@[s0[i].0] == s0[i].1,
                    forall|k: OutputPointer| old(self).diff.utxos_to_add@.contains_key(k) ==> exists|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).0 == k,
                    forall|i: int, j: int| 0 <= i < j < s0.len() ==> s0[i].0 != s0[j].0,
                    b0.is_prefix_of(batch.ops()),
                    forall|k: OutputPointer| #[trigger] diff.utxos_to_remove@.contains(k) <==> old(self).diff.utxos_to_remove@.contains(k) && !inp(s0.take(it0.index@), k),
                    forall|k: OutputPointer| #[trigger] look(applied(base, batch.ops().skip(b0.len() as int)), k) == (if inp(s0.take(it0.index@), k) && !old(self).diff.utxos_to_remove@.contains(k) { Some(old(self).diff.utxos_to_add@[k]) } else { look(base, k) })
                    """, start="let ghost bb = batch.ops(); let ghost dd = diff.utxos_to_remove@; proof { inp_step(s0, it0.index@); inp_not(s0, it0.index@); assert(self@ =~= base); assert(s0[it0.index@] == (k, (v, block_number))); }", end="""proof {
                        let i = it0.index@;
                        if dd.contains(k) { assert(batch.ops() == bb); } else { let bn = batch.ops(); assert(bn.skip(b0.len() as int).drop_last() =~= bb.skip(b0.len() as int)); assert(bn.skip(b0.len() as int).last() == bn.last()); }
                        assert forall|q: OutputPointer| #[trigger] look(applied(base, batch.ops().skip(b0.len() as int)), q) == (if inp(s0.take(i + 1), q) && !old(self).diff.utxos_to_remove@.contains(q) { Some(old(self).diff.utxos_to_add@[q]) } else { look(base, q) }) by {
                            let _ = look(applied(base, bb.skip(b0.len() as int)), q);
                        }
                    }"""),
                1: dict(bind="v1", before="let ghost s1 = v1@; let ghost b1 = batch.ops(); let ghost m1 = applied(base, b1.skip(b0.len() as int)); proof { assert(s0.take(s0.len() as int) =~= s0); inp_all(s0, old(self).diff.utxos_to_add@); assert forall|k: OutputPointer| #[trigger] s1.contains(k) <==> old(self).diff.utxos_to_remove@.contains(k) && !old(self).diff.utxos_to_add@.contains_key(k) by { assert(s1.contains(k) <==> s1.to_set().contains(k)); let _ = inp(s0, k); } assert forall|i: int| 0 <= i < s1.len() implies #[trigger] base.contains_key(s1[i]) by { assert(s1.contains(s1[i])); } }", inv="""
                    it1.seq() == s1, self.db == old(self).db, base == db_view(old(self).db), old(self).inv(), b0 == old(batch).ops(), b0.is_prefix_of(batch.ops()),
                    self.diff.utxos_to_add@ == Map::<OutputPointer, (ValueTransferOutput, u32)>::empty(), self.diff.utxos_to_remove@ == Set::<OutputPointer>::empty(),
                    s1.no_duplicates(), forall|i: int| 0 <= i < s1.len() ==> #[trigger] base.contains_key(s1[i]),
                    forall|k: OutputPointer| s1.contains(k) <==> old(self).diff.utxos_to_remove@.contains(k) && !old(self).diff.utxos_to_add@.contains_key(k),
                    forall|k: OutputPointer| #[trigger] look(m1, k) == (if old(self).diff.utxos_to_add@.contains_key(k) && !old(self).diff.utxos_to_remove@.contains(k) { Some(old(self).diff.utxos_to_add@[k]) } else { look(base, k) }),
                    forall|k: OutputPointer| #[trigger] look(applied(base, batch.ops().skip(b0.len() as int)), k) == (if s1.take(it1.index@).contains(k) { None } else { look(m1, k) })
                    """, start="let ghost bb = batch.ops(); proof { assert(self@ =~= base); take_in(s1, it1.index@); assert(base.contains_key(s1[it1.index@])); }", end="""proof {
                        let i = it1.index@; let bn = batch.ops();
                        assert(bn.skip(b0.len() as int).drop_last() =~= bb.skip(b0.len() as int)); assert(bn.skip(b0.len() as int).last() == bn.last());
                        assert forall|q: OutputPointer| #[trigger] look(applied(base, bn.skip(b0.len() as int)), q) == (if s1.take(i + 1).contains(q) { None } else { look(m1, q) }) by { let _ = look(applied(base, bb.skip(b0.len() as int)), q); }
                    }""", after="""proof {
                        assert(s1.take(s1.len() as int) =~= s1);
                        let m = applied(base, batch.ops().skip(b0.len() as int));
                        assert forall|k: OutputPointer| look(m, k) == #[trigger] look(old(self)@, k) by { let _ = look(m1, k); let _ = look(m, k); }
                        same(m, old(self)@);
                    }"""),
            }),
        u.fn(ut, "UnspentOutputsPool::persist", ret="", subst=sub, spec="""
            requires old(self).inv(), old(self).db is Some
            ensures final(self).db is Some, db_view(final(self).db) == old(self)@, final(self)@ == old(self)@, final(self).inv()""",
             before=[(r"self\s*\.db", "let ghost bo = batch.ops(); proof { assert(bo.skip(0) =~= bo); }")], end="proof { assert(self@ =~= old(self)@); }"),
        u.fn(ut, "UnspentOutputsPool::remove_persisted_from_memory", ret="", subst=sub, skel=["for", "for"], spec="""
            requires persisted.utxos_to_add@.submap_of(old(self).diff.utxos_to_add@), persisted.utxos_to_remove@.subset_of(old(self).diff.utxos_to_remove@)
            ensures final(self).db == old(self).db,
                final(self).diff.utxos_to_add@ == old(self).diff.utxos_to_add@.remove_keys(persisted.utxos_to_add@.dom()),
                final(self).diff.utxos_to_remove@ == old(self).diff.utxos_to_remove@.difference(persisted.utxos_to_remove@)""", loops={
            0: dict(bind="v0", before="let ghost s0 = v0@;", inv="""
                it0.seq() == s0, self.db == old(self).db, self.diff.utxos_to_remove@ == old(self).diff.utxos_to_remove@,
                persisted.utxos_to_add@.submap_of(old(self).diff.utxos_to_add@),
                forall|i: int| 0 <= i < s0.len() ==> persisted.utxos_to_add@.contains_key(*(#[trigger] s0[i])), forall|k: OutputPointer| persisted.utxos_to_add@.contains_key(k) ==> exists|i: int| 0 <= i < s0.len() && *(#[trigger] s0[i]) == k,
                forall|i: int, j: int| 0 <= i < j < s0.len() ==> *s0[i] != *s0[j],
                forall|k: OutputPointer| #[trigger] look(self.diff.utxos_to_add@, k) == (if hasr(s0.take(it0.index@), k) { None } else { look(old(self).diff.utxos_to_add@, k) })""",
                start="let ghost mm = self.diff.utxos_to_add@; proof { hasr_step(s0, it0.index@); let _ = look(mm, *s0[it0.index@]); }",
                end="proof { assert forall|q: OutputPointer| #[trigger] look(self.diff.utxos_to_add@, q) == (if hasr(s0.take(it0.index@ + 1), q) { None } else { look(old(self).diff.utxos_to_add@, q) }) by { let _ = look(mm, q); } }",
                after="""proof {
                    assert(s0.take(s0.len() as int) =~= s0);
                    assert forall|k: OutputPointer| look(self.diff.utxos_to_add@, k) == #[trigger] look(old(self).diff.utxos_to_add@.remove_keys(persisted.utxos_to_add@.dom()), k) by { let _ = look(self.diff.utxos_to_add@, k); if persisted.utxos_to_add@.contains_key(k) { let i = choose|i: int| 0 <= i < s0.len() && *(#[trigger] s0[i]) == k; } }
                    same(self.diff.utxos_to_add@, old(self).diff.utxos_to_add@.remove_keys(persisted.utxos_to_add@.dom()));
                }"""),
            1: dict(bind="v1", before="let ghost s1 = v1@; let ghost add1 = self.diff.utxos_to_add@;", inv="""
                it1.seq() == s1, self.db == old(self).db, self.diff.utxos_to_add@ == add1,
                persisted.utxos_to_remove@.subset_of(old(self).diff.utxos_to_remove@),
                forall|i: int| 0 <= i < s1.len() ==> persisted.utxos_to_remove@.contains(*(#[trigger] s1[i])), forall|k: OutputPointer| persisted.utxos_to_remove@.contains(k) ==> exists|i: int| 0 <= i < s1.len() && *(#[trigger] s1[i]) == k,
                forall|i: int, j: int| 0 <= i < j < s1.len() ==> *s1[i] != *s1[j],
                forall|k: OutputPointer| #[trigger] self.diff.utxos_to_remove@.contains(k) <==> old(self).diff.utxos_to_remove@.contains(k) && !hasr(s1.take(it1.index@), k)""",
                start="proof { hasr_step(s1, it1.index@); }",
                after="proof { assert(s1.take(s1.len() as int) =~= s1); assert(self.diff.utxos_to_remove@ =~= old(self).diff.utxos_to_remove@.difference(persisted.utxos_to_remove@)); }")}),
    ]
    u.emit("""
    spec fn inp(s: Seq<(OutputPointer, (ValueTransferOutput, u32))>, k: OutputPointer) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
    proof fn inp_step(s: Seq<(OutputPointer, (ValueTransferOutput, u32))>, n: int) requires 0 <= n < s.len()
        ensures forall|k: OutputPointer| #[trigger] inp(s.take(n + 1), k) <==> inp(s.take(n), k) || k == s[n].0
    {
        assert forall|k: OutputPointer| #[trigger] inp(s.take(n + 1), k) <==> inp(s.take(n), k) || k == s[n].0 by {
            if inp(s.take(n), k) { let i = choose|i: int| 0 <= i < s.take(n).len() && (#[trigger] s.take(n)[i]).0 == k; assert(s.take(n + 1)[i].0 == k); }
            if k == s[n].0 { assert(s.take(n + 1)[n].0 == k); }
            if inp(s.take(n + 1), k) { let i = choose|i: int| 0 <= i < s.take(n + 1).len() && (#[trigger] s.take(n + 1)[i]).0 == k; if i < n { assert(s.take(n)[i].0 == k); } }
        }
    }
    proof fn inp_not(s: Seq<(OutputPointer, (ValueTransferOutput, u32))>, n: int) requires 0 <= n < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0 ensures !inp(s.take(n), s[n].0) {}
    proof fn inp_all(s: Seq<(OutputPointer, (ValueTransferOutput, u32))>, m: Outs)
        requires forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0), forall|k: OutputPointer| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
        ensures forall|k: OutputPointer| #[trigger] inp(s, k) <==> m.contains_key(k) {}
    spec fn hasr(s: Seq<&OutputPointer>, k: OutputPointer) -> bool { exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k }
    proof fn hasr_step(s: Seq<&OutputPointer>, n: int) requires 0 <= n < s.len()
        ensures forall|k: OutputPointer| #[trigger] hasr(s.take(n + 1), k) <==> hasr(s.take(n), k) || k == *s[n],
            (forall|i: int, j: int| 0 <= i < j < s.len() ==> *s[i] != *s[j]) ==> !hasr(s.take(n), *s[n])
    {
        assert forall|k: OutputPointer| #[trigger] hasr(s.take(n + 1), k) <==> hasr(s.take(n), k) || k == *s[n] by {
            if hasr(s.take(n), k) { let i = choose|i: int| 0 <= i < s.take(n).len() && *(#[trigger] s.take(n)[i]) == k; assert(*s.take(n + 1)[i] == k); }
            if k == *s[n] { assert(*s.take(n + 1)[n] == k); }
            if hasr(s.take(n + 1), k) { let i = choose|i: int| 0 <= i < s.take(n + 1).len() && *(#[trigger] s.take(n + 1)[i]) == k; if i < n { assert(*s.take(n)[i] == k); } }
        }
    }
    proof fn take_in(s: Seq<OutputPointer>, n: int) requires 0 <= n < s.len()
        ensures forall|k: OutputPointer| #[trigger] s.take(n + 1).contains(k) <==> s.take(n).contains(k) || k == s[n]
    {
        assert forall|k: OutputPointer| #[trigger] s.take(n + 1).contains(k) <==> s.take(n).contains(k) || k == s[n] by {
            if s.take(n).contains(k) { let i = s.take(n).index_of(k); assert(s.take(n + 1)[i] == k); }
            if k == s[n] { assert(s.take(n + 1)[n] == k); }
            if s.take(n + 1).contains(k) { let i = s.take(n + 1).index_of(k); if i < n { assert(s.take(n)[i] == k); } }
        }
    }
    proof fn same(a: Outs, b: Outs) requires forall|k: OutputPointer| look(a, k) == #[trigger] look(b, k) ensures a == b
    {
        PROBE(same);
        assert forall|k: OutputPointer| a.contains_key(k) <==> b.contains_key(k) by { let _ = look(b, k); }
        assert forall|k: OutputPointer| a.contains_key(k) implies a[k] == b[k] by { let _ = look(b, k); }
        assert(a =~= b);
    }
    """)
    u.emit_impl(" UnspentOutputsPool", fs)
    u.emit_impl(" Diff", [
        u.fn(ut, "Diff::apply", ret="", subst=sub + [(r"\*self\b", "__self")], skel=["for", "for"], spec="""
            requires old(utxo_set).inv(),
                forall|k: OutputPointer| self.utxos_to_add@.contains_key(k) ==> !old(utxo_set).diff.utxos_to_add@.contains_key(k) && !old(utxo_set).diff.utxos_to_remove@.contains(k),
                forall|k: OutputPointer| self.utxos_to_add@.contains_key(k) ==> !db_view(old(utxo_set).db).contains_key(k),
                forall|k: OutputPointer| #[trigger] self.utxos_to_remove@.contains(k) ==> old(utxo_set)@.contains_key(k) || self.utxos_to_add@.contains_key(k)
            ensures final(utxo_set)@ == overlay(old(utxo_set)@, self), final(utxo_set).inv(), final(utxo_set).db == old(utxo_set).db,
                final(utxo_set).diff.utxos_to_add@ == old(utxo_set).diff.utxos_to_add@.union_prefer_right(self.utxos_to_add@), final(utxo_set).diff.utxos_to_remove@ == old(utxo_set).diff.utxos_to_remove@.union(self.utxos_to_remove@)""", loops={
            0: dict(bind="v0", before="let ghost s0 = v0@;", inv="""
                it0.seq() == s0, utxo_set.db == old(utxo_set).db, utxo_set.diff.utxos_to_remove@ == old(utxo_set).diff.utxos_to_remove@, __self.utxos_to_remove@ == self.utxos_to_remove@,
                forall|k: OutputPointer| self.utxos_to_add@.contains_key(k) ==> !old(utxo_set).diff.utxos_to_add@.contains_key(k) && !old(utxo_set).diff.utxos_to_remove@.contains(k),
                forall|i: int| 0 <= i < s0.len() ==> self.utxos_to_add@.contains_key((#[trigger] s0[i]).0) && self.utxos_to_add@[s0[i].0] == s0[i].1,
                forall|k: OutputPointer| self.utxos_to_add@.contains_key(k) ==> exists|i: int| 0 <= i < s0.len() && (#[trigger] s0[i]).0 == k,
                forall|i: int, j: int| 0 <= i < j < s0.len() ==> s0[i].0 != s0[j].0,
                forall|k: OutputPointer| #[trigger] look(utxo_set.diff.utxos_to_add@, k) == (if inp(s0.take(it0.index@), k) { Some(self.utxos_to_add@[k]) } else { look(old(utxo_set).diff.utxos_to_add@, k) })""",
                start="let ghost mm = utxo_set.diff.utxos_to_add@; proof { inp_step(s0, it0.index@); inp_not(s0, it0.index@); assert(s0[it0.index@] == (output_pointer, (output, block_number))); let _ = look(mm, output_pointer); }",
                end="proof { assert forall|q: OutputPointer| #[trigger] look(utxo_set.diff.utxos_to_add@, q) == (if inp(s0.take(it0.index@ + 1), q) { Some(self.utxos_to_add@[q]) } else { look(old(utxo_set).diff.utxos_to_add@, q) }) by { let _ = look(mm, q); } }",
                after="""proof {
                    assert(s0.take(s0.len() as int) =~= s0); inp_all(s0, self.utxos_to_add@);
                    let w = old(utxo_set).diff.utxos_to_add@.union_prefer_right(self.utxos_to_add@);
                    assert forall|k: OutputPointer| look(utxo_set.diff.utxos_to_add@, k) == #[trigger] look(w, k) by { let _ = look(utxo_set.diff.utxos_to_add@, k); }
                    same(utxo_set.diff.utxos_to_add@, w);
                }"""),
            1: dict(bind="v1", before="let ghost s1 = v1@; let ghost add1 = utxo_set.diff.utxos_to_add@;", inv="""
                it1.seq() == s1, utxo_set.db == old(utxo_set).db, utxo_set.diff.utxos_to_add@ == add1,
                forall|k: OutputPointer| self.utxos_to_remove@.contains(k) ==> !old(utxo_set).diff.utxos_to_remove@.contains(k),
                forall|i: int| 0 <= i < s1.len() ==> self.utxos_to_remove@.contains(*(#[trigger] s1[i])), forall|k: OutputPointer| self.utxos_to_remove@.contains(k) ==> exists|i: int| 0 <= i < s1.len() && *(#[trigger] s1[i]) == k,
                forall|i: int, j: int| 0 <= i < j < s1.len() ==> *s1[i] != *s1[j],
                forall|k: OutputPointer| #[trigger] utxo_set.diff.utxos_to_remove@.contains(k) <==> old(utxo_set).diff.utxos_to_remove@.contains(k) || hasr(s1.take(it1.index@), k)""",
                start="proof { hasr_step(s1, it1.index@); }",
                after="proof { assert(s1.take(s1.len() as int) =~= s1); assert(utxo_set.diff.utxos_to_remove@ =~= old(utxo_set).diff.utxos_to_remove@.union(self.utxos_to_remove@)); assert(utxo_set@ =~= overlay(old(utxo_set)@, self)); }")}),
    ])
    u.emit_impl("<'a> UtxoDiff<'a>", [
        u.fn(ut, "UtxoDiff::insert_utxo", ret="", spec="""
            requires old(self).inv(), old(self).fresh(output_pointer)
            ensures final(self).inv(), final(self).utxo_set == old(self).utxo_set, final(self).block_number == old(self).block_number,
                final(self)@ == old(self)@.insert(output_pointer, (output, match block_number { Some(n) => n, None => old(self).block_number })),
                final(self).diff.utxos_to_remove@ == old(self).diff.utxos_to_remove@,
                final(self).diff.utxos_to_add@ == old(self).diff.utxos_to_add@.insert(output_pointer, (output, match block_number { Some(n) => n, None => old(self).block_number }))""",
             end="proof { assert(self@ =~= old(self)@.insert(output_pointer, (output, match block_number { Some(n) => n, None => old(self).block_number }))); }"),
        u.fn(ut, "UtxoDiff::remove_utxo", ret="", spec="""
            requires old(self).inv(), old(self)@.contains_key(output_pointer)
            ensures final(self).inv(), final(self).utxo_set == old(self).utxo_set, final(self).block_number == old(self).block_number, final(self)@ == old(self)@.remove(output_pointer),
                forall|k: OutputPointer| final(self).diff.utxos_to_remove@.contains(k) ==> old(self).diff.utxos_to_remove@.contains(k) || k == output_pointer""",
             end="proof { assert(self@ =~= old(self)@.remove(output_pointer)); }"),
        diff_get(u),
        u.fn(ut, "UtxoDiff::included_in_block_number", desugar=D, spec="""
            requires self.inv()
            ensures !self.diff.utxos_to_add@.contains_key(*output_pointer) ==> r == (match look(self@, *output_pointer) { Some(x) => Some(x.1), None => None })"""),
        u.fn(ut, "UtxoDiff::take_diff", spec="ensures r == self.diff"),
    ])
    u.emit("""
    // applying a change set built over a pool makes the pool answer as the change set did
    fn settle(d: UtxoDiff, p: &mut UnspentOutputsPool)
        requires d.inv(), *d.utxo_set == *old(p), old(p).inv(),
        ensures final(p)@ == d@, final(p).inv()
    { proof { assert forall|k: OutputPointer| d.diff.utxos_to_add@.contains_key(k) implies !db_view(old(p).db).contains_key(k) by { assert(d.fresh(k)); } } let f = d.take_diff(); f.apply(p); }
    """)
    u.close()


def build(u):
    x = Extract([UT, DB, CH, "data_structures/src/error.rs", "storage/src/storage.rs", "storage/src/backends/hashmap.rs"], mods=["utxo_pool", "utxo_db", "storage", "backends"], stubs=["Result", "OldUnspentOutputsPool", "SHA256"],
                traits=["Display", "FromStr", "Debug"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db"])
    return HEADER + x.build(["UnspentOutputsPool::*", "UtxoDiff::*", "Diff::*", "UtxoDb", "UtxoWriteBatch::*", "CacheUtxosByPkh::*", "UtxoDbWrapStorage", "Backend", "DBIterator",
                             "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash"])


harness = dict(kind="extract", name="u01", build=build, main="u01.rs")
