from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "B01"
SB, CH = "data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs"
FILES = [SB]
RULE = "committees of 1 to 7 members, sequences of votes (other signatures for the same superblock, second votes, next index, outsiders, repeats), superblock periods closed in between"
ASSUMPTIONS = ["signatures are checked by the caller, as add_vote documents; the identity of a vote is the hash of its public key",
               "std HashMap and HashSet behave as maps and sets over identities, hashes and votes (their derived Eq and Hash agree)",
               "the committee has fewer than 2^62 members", "what a committee is made of is B02's subject: here it is any set"]
NOTE = "Texts for the log (get_valid_votes_pretty, signing_committee_pretty) are dropped."
D = ["opt_map", "opt_map_or", "opt_unwrap_or_else", "map", "max_by_key", "guard_mut"]


def verus(u):
    s, ch = u.src(SB), u.src(CH)
    u.no_inline.update(["hash_key_leaves", "calculate_superblock_signing_committee", "mining_build_superblock", "get_rep_ordered_bn256_list"])
    u.file("votes", LIGHT_PRELUDE)
    u.need_derives(ch, "SuperBlockVote", ["Eq", "Hash", "PartialEq"])
    u.need_derives(ch, "Hash", ["Eq", "Hash", "PartialEq"])
    u.need_derives(ch, "PublicKeyHash", ["Eq", "Hash", "PartialEq"])
    u.emit("global size_of usize == 8; type Epoch = u32; type SHA256 = [u8; 32];")
    H = lambda t: t.replace("Hash)]", "std::hash::Hash)]", 1)
    DD = "Clone, Copy, PartialEq, Eq, Hash"
    for t in ("Hash", "PublicKeyHash"):
        u.emit_raw(H(u.struct_text(ch, t, derive="Clone, Copy, Hash")))
        u.emit("""
        // derived equality
        impl vstd::std_specs::cmp::PartialEqSpecImpl for %(t)s {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
        }
        impl PartialEq for %(t)s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
        impl Eq for %(t)s {}
        """ % dict(t=t))
    u.emit("""
    // signatures and keys: opaque values
    #[derive(Clone, Copy, PartialEq, Eq, std::hash::Hash)] struct Bn256Signature { x: u64 }
    #[derive(Clone, Copy, PartialEq, Eq, std::hash::Hash)] struct Signature { x: u64 }
    #[derive(Clone, Copy, PartialEq, Eq, std::hash::Hash)] struct PublicKey { x: u64 }
    struct BlockHeader { x: u8 }
    struct AltKeys { x: u8 }
    struct Bn256PublicKey { x: u8 }
    #[derive(Clone, Copy, PartialEq, Eq)] struct ProtocolVersion { x: u8 }
    """)
    u.emit_raw(H(u.struct_text(ch, "KeyedSignature", derive=DD)))
    u.emit_raw(H(u.struct_text(ch, "SuperBlockVote", derive=DD)))
    u.emit_raw(u.struct_text(ch, "CheckpointBeacon", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(ch, "SuperBlock", keep_fields=["signing_committee_length"]))
    u.emit_raw(u.struct_text(s, "AddSuperBlockVote", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(s, "SuperBlockConsensus"))
    u.emit_raw(u.struct_text(s, "ARSIdentities"))
    u.emit_raw(u.struct_text(s, "SuperBlockVotesMempool"))
    u.emit_raw(u.struct_text(s, "SuperBlockState"))
    u.notes.add("votes are made Copy (signatures and public keys are opaque values), so that .clone() is known to copy")
    u.emit("""
    #[derive(Clone, Copy)] enum Environment { Development, Mainnet, Testnet }
    mod km {
        use super::*;
        pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKeyHash>();
        pub broadcast axiom fn k2() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Hash>();
        pub broadcast axiom fn k3() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SuperBlockVote>();
    }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, km::k1, km::k2, km::k3};
    type Pk = PublicKeyHash;
    #[verifier::external_body]
    fn cl<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
    impl PublicKey {
        uninterp spec fn pkh_of(&self) -> Pk;
        #[verifier::external_body]
        fn pkh(&self) -> (r: Pk) ensures r == self.pkh_of() { unimplemented!() }
    }
    impl SuperBlock {
        uninterp spec fn hash_of(&self) -> Hash;
        #[verifier::external_body]
        fn hash(&self) -> (r: Hash) ensures r == self.hash_of() { unimplemented!() }
    }
    spec fn who(v: SuperBlockVote) -> Pk { v.secp256k1_signature.public_key.pkh_of() }
    #[verifier::external_body]
    fn eq_votes(a: &SuperBlockVote, b: &SuperBlockVote) -> (r: bool) ensures r == (*a == *b) { a == b }
    // v.iter().position(|x| *x == w)
    #[verifier::external_body]
    fn position_of(v: &Vec<SuperBlockVote>, w: &SuperBlockVote) -> (r: Option<usize>)
        ensures match r { Some(i) => i < v@.len() && v@[i as int] == *w, None => !v@.contains(*w) } { v.iter().position(|x| *x == *w) }
    #[verifier::external_body]
    fn pairs(m: &HashMap<Hash, Vec<SuperBlockVote>>) -> (r: Vec<(&Hash, &Vec<SuperBlockVote>)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(*(#[trigger] r@[i]).0) && m@[*r@[i].0] == *r@[i].1,
            forall|h: Hash| m@.contains_key(h) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == h
    { m.iter().collect() }
    #[verifier::external_body]
    fn drain_votes(m: &mut HashSet<SuperBlockVote>) -> (r: Vec<SuperBlockVote>)
        ensures final(m)@ == Set::<SuperBlockVote>::empty(), r@.to_set() == old(m)@, r@.no_duplicates() { m.drain().collect() }
    // HashMap::get_mut
    #[verifier::external_body]
    fn get_mut_in<'a>(m: &'a mut HashMap<Hash, Vec<SuperBlockVote>>, k: &Hash) -> (r: Option<&'a mut Vec<SuperBlockVote>>)
        ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ }
    { m.get_mut(k) }
    #[verifier::external_body]
    fn hash_eq(a: &Hash, b: &Hash) -> (r: bool) ensures r == (*a == *b) { a == b }
    // what swap_remove leaves
    proof fn swap_out(l: Seq<SuperBlockVote>, i: int) requires 0 <= i < l.len(), l.no_duplicates()
        ensures ({ let m = l.update(i, l.last()).drop_last(); m.no_duplicates() && m.len() == l.len() - 1 && (forall|v: SuperBlockVote| #[trigger] m.contains(v) <==> l.contains(v) && v != l[i]) })
    {
        PROBE(swap_out);
        let m = l.update(i, l.last()).drop_last();
        assert forall|v: SuperBlockVote| #[trigger] m.contains(v) <==> l.contains(v) && v != l[i] by {
            if m.contains(v) { let j = m.index_of(v); if j == i { assert(l[l.len() - 1] == v); } else { assert(l[j] == v); } }
            if l.contains(v) && v != l[i] { let j = l.index_of(v); if j == l.len() - 1 { assert(m[i] == v); } else { assert(m[j] == v); } }
        }
    }
    proof fn push_in(l: Seq<SuperBlockVote>, w: SuperBlockVote)
        ensures forall|v: SuperBlockVote| #[trigger] l.push(w).contains(v) <==> l.contains(v) || v == w, !l.contains(w) && l.no_duplicates() ==> l.push(w).no_duplicates()
    {
        let m = l.push(w);
        assert forall|v: SuperBlockVote| #[trigger] m.contains(v) <==> l.contains(v) || v == w by {
            if m.contains(v) { let j = m.index_of(v); if j < l.len() { assert(l[j] == v); } }
            if l.contains(v) { let j = l.index_of(v); assert(m[j] == v); }
            assert(m[l.len() as int] == w);
        }
    }
    type Votes = Map<Pk, SuperBlockVote>;
    impl SuperBlockVotesMempool {
        // the votes counted: at most one per identity
        spec fn counted(&self) -> Votes { self.votes_of_each_identity@ }
        spec fn lists(&self) -> Map<Hash, Vec<SuperBlockVote>> { self.votes_on_each_superblock@ }
        spec fn dropped(&self) -> Set<Pk> { self.penalized_identities@ }
        // the identities counted for a superblock
        spec fn voters(&self, h: Hash) -> Set<Pk> { self.counted().dom().filter(|p: Pk| self.counted()[p].superblock_hash == h) }
        spec fn inv(&self) -> bool {
            &&& forall|p: Pk| #[trigger] self.counted().contains_key(p) ==> who(self.counted()[p]) == p && !self.dropped().contains(p)
                && self.lists().contains_key(self.counted()[p].superblock_hash) && self.lists()[self.counted()[p].superblock_hash]@.contains(self.counted()[p])
            &&& forall|h: Hash| #[trigger] self.lists().contains_key(h) ==> self.lists()[h]@.len() > 0 && self.lists()[h]@.no_duplicates()
            &&& forall|h: Hash, v: SuperBlockVote| self.lists().contains_key(h) && #[trigger] self.lists()[h]@.contains(v) ==> v.superblock_hash == h && self.counted().contains_key(who(v)) && self.counted()[who(v)] == v
        }
        // the length of a list is the number of identities counted for that superblock
        proof fn len_is_count(&self, h: Hash) requires self.inv(), self.lists().contains_key(h)
            ensures self.lists()[h]@.len() == self.voters(h).len()
        {
            PROBE(len_is_count);
            let l = self.lists()[h]@;
            let q = l.map(|i: int, v: SuperBlockVote| who(v));
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(l.contains(l[i]) && l.contains(l[j])); }
            assert(q.to_set() =~= self.voters(h)) by {
                assert forall|p: Pk| q.to_set().contains(p) <==> self.voters(h).contains(p) by {
                    if q.contains(p) { let i = q.index_of(p); assert(l.contains(l[i])); }
                    if self.voters(h).contains(p) { let v = self.counted()[p]; assert(l.contains(v)); let i = l.index_of(v); assert(q[i] == p); }
                }
            }
            q.unique_seq_to_set();
        }
        proof fn no_list(&self, h: Hash) requires self.inv(), !self.lists().contains_key(h) ensures self.voters(h) == Set::<Pk>::empty(), self.voters(h).len() == 0
        { assert(self.voters(h) =~= Set::<Pk>::empty()); }
        // counted and withdrawn identities are different members
        proof fn room(&self, c: Set<Pk>) requires self.inv(), self.counted().dom().subset_of(c), self.dropped().subset_of(c) ensures self.counted().dom().len() + self.dropped().len() <= c.len()
        {
            PROBE(room);
            let a = self.counted().dom(); let b = self.dropped();
            assert(a.disjoint(b)); vstd::set_lib::lemma_set_disjoint_lens(a, b); assert((a + b).subset_of(c)); vstd::set_lib::lemma_len_subset(a + b, c);
        }
        proof fn voters_bound(&self, h: Hash) ensures self.voters(h).len() <= self.counted().dom().len() { vstd::set_lib::lemma_len_subset(self.voters(h), self.counted().dom()); }
        // what a vote does to the counted votes
        spec fn voted(&self, o: Self, v: SuperBlockVote, r: AddSuperBlockVote, ours: Hash) -> bool {
            let p = who(v);
            let double = o.dropped().contains(p) || (o.counted().contains_key(p) && o.counted()[p].superblock_index == v.superblock_index && o.counted()[p].superblock_hash != v.superblock_hash);
            &&& self.received_votes == o.received_votes
            &&& double ==> r is DoubleVote && self.counted() == o.counted().remove(p) && self.dropped() == o.dropped().insert(p)
            &&& !double ==> self.dropped() == o.dropped() && self.counted() == (if o.counted().contains_key(p) { o.counted() } else { o.counted().insert(p, v) })
                && (if v.superblock_hash == ours { r is ValidWithSameHash } else { r is ValidButDifferentHash })
        }
    }
    impl SuperBlockState {
        spec fn m(&self) -> SuperBlockVotesMempool { self.votes_mempool }
        spec fn inv(&self) -> bool {
            &&& self.m().inv()
            &&& self.m().counted().dom().subset_of(self.signing_committee@) && self.m().dropped().subset_of(self.signing_committee@)
            &&& self.signing_committee@.len() < 0x4000_0000_0000_0000
        }
        spec fn only_votes_changed(&self, o: Self) -> bool {
            self.signing_committee == o.signing_committee && self.current_superblock_beacon == o.current_superblock_beacon && self.ars_current_identities == o.ars_current_identities && self.ars_previous_identities == o.ars_previous_identities && self.current_superblock == o.current_superblock
        }
    }
    """)
    CL = [(r"\b(sbv)\.clone\(\)", r"cl(&\1)"), (r"(\w+)\s*\.iter\(\)\s*\.position\(\|x\| \*x == (\w+)\)", r"position_of(&*\1, &\2)"),
          (r"(\w[\w.]*)\s*\.received_votes\s*\.drain\(\)\s*\.collect\(\)", r"drain_votes(&mut \1.received_votes)"),
          (r"(\w[\w.]*)\s*\.votes_on_each_superblock\s*\.get_mut\(", r"get_mut_in(&mut \1.votes_on_each_superblock, "),
          (r"\.or_default\(\)", ".or_insert(Default::default())"), (r"&vec!\[\]", "&Vec::new()")]
    CR = [(r"\b(sbv)\.clone\(\)", r"cl(\1)")] + CL[1:]
    M = "SuperBlockVotesMempool::"
    u.emit_impl(" SuperBlockVotesMempool", [
        u.fn(s, M + "contains", subst=CR, spec="ensures r == self.received_votes@.contains(*sbv)"),
        u.fn(s, M + "insert", subst=CR, ret="", spec="""ensures final(self).received_votes@ == old(self).received_votes@.insert(*sbv), final(self).votes_of_each_identity == old(self).votes_of_each_identity,
            final(self).votes_on_each_superblock == old(self).votes_on_each_superblock, final(self).penalized_identities == old(self).penalized_identities"""),
        u.fn(s, M + "check_double_vote", subst=CR, spec="""ensures r == (self.dropped().contains(*pkh) || (self.counted().contains_key(*pkh) && self.counted()[*pkh].superblock_index == sbv.superblock_index && self.counted()[*pkh].superblock_hash != sbv.superblock_hash))"""),
        u.fn(s, M + "override_vote", subst=CL, ret="", spec="""requires old(self).inv()
            ensures final(self).inv(), final(self).received_votes == old(self).received_votes, final(self).counted() == old(self).counted().remove(pkh), final(self).dropped() == old(self).dropped().insert(pkh)""",
            start="""let ghost o = *self; let ghost v0 = o.counted()[pkh]; let ghost h0 = v0.superblock_hash; let ghost l0 = o.lists()[h0]@;
                proof { if o.counted().contains_key(pkh) { assert(o.lists().contains_key(h0) && l0.contains(v0)); let i = l0.index_of(v0); swap_out(l0, i); } }""",
            end="""proof {
                assert(final(self).counted() == o.counted().remove(pkh)); assert(final(self).dropped() == o.dropped().insert(pkh));
                if o.counted().contains_key(pkh) {
                    let i = l0.index_of(v0); swap_out(l0, i);
                    let l1 = l0.update(i, l0.last()).drop_last();
                    assert(forall|h: Hash| self.lists().contains_key(h) ==> o.lists().contains_key(h) && (h != h0 ==> self.lists()[h] == o.lists()[h]));
                    assert(self.lists().contains_key(h0) <==> l1.len() > 0);
                    assert(self.lists().contains_key(h0) ==> self.lists()[h0]@ == l1);
                }
            }"""),
        u.fn(s, M + "insert_vote", subst=CL, ret="", spec="""requires old(self).inv(), !old(self).dropped().contains(who(sbv))
            ensures final(self).inv(), final(self).received_votes == old(self).received_votes, final(self).dropped() == old(self).dropped(),
                final(self).counted() == (if old(self).counted().contains_key(who(sbv)) { old(self).counted() } else { old(self).counted().insert(who(sbv), sbv) })""",
            start="""let ghost o = *self; let ghost h0 = sbv.superblock_hash; let ghost l0 = if o.lists().contains_key(h0) { o.lists()[h0]@ } else { Seq::empty() }; proof { push_in(l0, sbv); }""",
            end="""proof { if !o.counted().contains_key(who(sbv)) { assert(!l0.contains(sbv)); assert(self.lists()[h0]@ == l0.push(sbv)); } }"""),
        u.fn(s, M + "clear_and_remove_votes", subst=CL, spec="""ensures final(self).inv(), final(self).counted() == Map::<Pk, SuperBlockVote>::empty(), final(self).dropped() == Set::<Pk>::empty(), final(self).received_votes@ == Set::<SuperBlockVote>::empty(),
            r@.to_set() == old(self).received_votes@, r@.no_duplicates()"""),
        u.fn(s, M + "most_voted_superblock", subst=CR, desugar=D, cty="Option<(Hash, usize)>", skel=[".max_by_key"], spec="""requires self.inv()
            ensures match r { Some(x) => self.voters(x.0).len() > 0 && x.1 == self.voters(x.0).len() && (forall|h: Hash| (#[trigger] self.voters(h)).len() <= x.1), None => self.counted() == Map::<Pk, SuperBlockVote>::empty() }""",
            loops={0: dict(bind="ps", iter_as=lambda its, n, r: __import__("re").sub(r"^(.*)\.iter\(\)$", r"pairs(&\1)", "".join(its.split())), inv="""self.inv(), it0.seq() == ps@,
                forall|i: int| 0 <= i < ps@.len() ==> self.lists().contains_key(*(#[trigger] ps@[i]).0) && self.lists()[*ps@[i].0] == *ps@[i].1,
                forall|h: Hash| self.lists().contains_key(h) ==> exists|i: int| 0 <= i < ps@.len() && *(#[trigger] ps@[i]).0 == h,
                (__best is None) == (it0.index@ == 0),
                __best is Some ==> self.lists().contains_key(__best->Some_0.0) && __best->Some_0.1 == self.lists()[__best->Some_0.0]@.len()
                    && (forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] ps@[i]).1@.len() <= __best->Some_0.1)""",
                after="""proof {
                    match __best { Some(x) => { self.len_is_count(x.0); assert forall|h: Hash| (#[trigger] self.voters(h)).len() <= x.1 by {
                        if self.lists().contains_key(h) { self.len_is_count(h); let i = choose|i: int| 0 <= i < ps@.len() && *(#[trigger] ps@[i]).0 == h; assert(ps@[i].1@.len() <= x.1); } else { self.no_list(h); } } }
                    None => { assert(ps@.len() == 0); assert forall|p: Pk| !self.counted().contains_key(p) by { if self.counted().contains_key(p) { let h = self.counted()[p].superblock_hash; assert(self.lists().contains_key(h)); let i = choose|i: int| 0 <= i < ps@.len() && *(#[trigger] ps@[i]).0 == h; } } assert(self.counted() =~= Map::<Pk, SuperBlockVote>::empty()); } }
                }""")}),
        u.fn(s, M + "valid_votes_counter", spec="ensures r == self.counted().dom().len()"),
        u.fn(s, M + "invalid_votes_counter", spec="ensures r == self.dropped().len()"),
        u.fn(s, M + "votes_counter_from_superblock", subst=CR, desugar=D, spec="requires self.inv() ensures r == self.voters(*superblock_hash).len()",
             start="proof { if self.lists().contains_key(*superblock_hash) { self.len_is_count(*superblock_hash); } else { self.no_list(*superblock_hash); } }"),
    ])
    u.emit_fn(s, "two_thirds_consensus", spec="requires identities <= 0x4000_0000_0000_0000 ensures r == (votes >= identities * 2 / 3)")
    u.emit_impl(" ARSIdentities", [u.fn(s, "ARSIdentities::is_empty", spec="ensures r == (self.identities@.len() == 0)"), u.fn(s, "ARSIdentities::len", spec="ensures r == self.identities@.len()")])
    u.emit("""
    // what closing a period depends on besides the votes
    #[verifier::external_body] fn get_environment() -> Environment { unimplemented!() }
    #[verifier::external_body] fn in_emergency_period(i: u32, e: Environment) -> Option<Vec<Pk>> { unimplemented!() }
    #[verifier::external_body] fn ids_set(v: Vec<Pk>) -> (r: HashSet<Pk>) ensures r@.len() < 0x4000_0000_0000_0000 { v.into_iter().collect() }
    #[verifier::external_body] fn bootstrap(main: bool) -> (r: HashSet<Pk>) ensures r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] fn take_ids(a: &mut ARSIdentities) -> (r: ARSIdentities) ensures r == *old(a), final(a).identities@ == Set::<Pk>::empty() { unimplemented!() }
    #[verifier::external_body] fn copy_ids(a: &ARSIdentities) -> (r: ARSIdentities) ensures r.identities@ == a.identities@, r.ordered_identities@ == a.ordered_identities@ { unimplemented!() }
    #[verifier::external_body] fn hash_key_leaves(k: &Vec<Bn256PublicKey>) -> Vec<Hash> { unimplemented!() }
    #[verifier::external_body] fn calculate_superblock_signing_committee(a: ARSIdentities, n: u32, i: u32, h: Hash, e: Epoch) -> (r: HashSet<Pk>) ensures r@.len() < 0x4000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body] fn mining_build_superblock(b: &[BlockHeader], l: &Vec<Hash>, i: u32, h: Hash, n: u32, p: ProtocolVersion) -> SuperBlock { unimplemented!() }
    impl ProtocolVersion { #[verifier::external_body] fn from_epoch(e: Epoch) -> ProtocolVersion { unimplemented!() } }
    impl ARSIdentities { #[verifier::external_body] fn get_rep_ordered_bn256_list(&self, k: &AltKeys) -> Vec<Bn256PublicKey> { unimplemented!() } }
    spec fn good(q: Seq<SuperBlockVote>, i: int, index: u32, c: Set<Pk>, p: Pk) -> bool { 0 <= i < q.len() && q[i].superblock_index == index && who(q[i]) == p && c.contains(p) }
    // the counted votes are decided by the votes received, in whatever order they are taken
    spec fn settled(m: SuperBlockVotesMempool, q: Seq<SuperBlockVote>, index: u32, c: Set<Pk>) -> bool {
        &&& forall|p: Pk| #[trigger] m.dropped().contains(p) <==> exists|i: int, j: int| #[trigger] good(q, i, index, c, p) && #[trigger] good(q, j, index, c, p) && q[i].superblock_hash != q[j].superblock_hash
        &&& forall|p: Pk| #[trigger] m.counted().contains_key(p) <==> !m.dropped().contains(p) && exists|i: int| #[trigger] good(q, i, index, c, p)
        &&& forall|p: Pk| #[trigger] m.counted().contains_key(p) ==> exists|i: int| #[trigger] good(q, i, index, c, p) && q[i] == m.counted()[p]
    }
    proof fn settle(m: SuperBlockVotesMempool, m2: SuperBlockVotesMempool, q: Seq<SuperBlockVote>, n: int, index: u32, c: Set<Pk>, r: AddSuperBlockVote, ours: Hash)
        requires 0 <= n < q.len(), settled(m, q.take(n), index, c), m.inv(),
            ({ let v = q[n]; if v.superblock_index == index && c.contains(who(v)) { m2.voted(m, v, r, ours) } else { m2 == m } })
        ensures settled(m2, q.take(n + 1), index, c)
    {
        PROBE(settle);
        let a = q.take(n); let b = q.take(n + 1); let v = q[n]; let p0 = who(v);
        assert forall|i: int, p: Pk| #[trigger] good(b, i, index, c, p) <==> good(a, i, index, c, p) || (i == n && v.superblock_index == index && p == p0 && c.contains(p)) by { if 0 <= i < n { assert(a[i] == b[i]); } }
        assert forall|i: int, p: Pk| good(a, i, index, c, p) implies a[i] == b[i] by {}
        assert(b[n] == v);
        if v.superblock_index == index && c.contains(p0) { assert(good(b, n, index, c, p0)); }
        assert forall|p: Pk| #[trigger] m2.dropped().contains(p) <==> exists|i: int, j: int| #[trigger] good(b, i, index, c, p) && #[trigger] good(b, j, index, c, p) && b[i].superblock_hash != b[j].superblock_hash by {
            if m.dropped().contains(p) { let (i, j) = choose|i: int, j: int| #[trigger] good(a, i, index, c, p) && #[trigger] good(a, j, index, c, p) && a[i].superblock_hash != a[j].superblock_hash; assert(good(b, i, index, c, p) && good(b, j, index, c, p)); }
            if m2.dropped().contains(p) && !m.dropped().contains(p) {
                assert(p == p0 && m.counted().contains_key(p));
                let i = choose|i: int| #[trigger] good(a, i, index, c, p) && a[i] == m.counted()[p]; assert(good(b, i, index, c, p) && good(b, n, index, c, p));
            }
            if exists|i: int, j: int| #[trigger] good(b, i, index, c, p) && #[trigger] good(b, j, index, c, p) && b[i].superblock_hash != b[j].superblock_hash {
                let (i, j) = choose|i: int, j: int| #[trigger] good(b, i, index, c, p) && #[trigger] good(b, j, index, c, p) && b[i].superblock_hash != b[j].superblock_hash;
                if i != n && j != n { assert(good(a, i, index, c, p) && good(a, j, index, c, p)); assert(m.dropped().contains(p)); }
                else {
                    assert(p == p0);
                    let k = if i == n { j } else { i };
                    assert(good(a, k, index, c, p));
                    if !m.dropped().contains(p) {
                        assert(m.counted().contains_key(p));
                        let t = choose|t: int| #[trigger] good(a, t, index, c, p) && a[t] == m.counted()[p];
                        assert(a[k].superblock_hash != v.superblock_hash);
                        if a[t].superblock_hash != a[k].superblock_hash { assert(m.dropped().contains(p)); }
                    }
                }
            }
        }
        assert forall|p: Pk| #[trigger] m2.counted().contains_key(p) <==> !m2.dropped().contains(p) && exists|i: int| #[trigger] good(b, i, index, c, p) by {
            if exists|i: int| #[trigger] good(b, i, index, c, p) { let i = choose|i: int| #[trigger] good(b, i, index, c, p); if i < n { assert(good(a, i, index, c, p)); } }
            if m.counted().contains_key(p) { let i = choose|i: int| #[trigger] good(a, i, index, c, p); assert(good(b, i, index, c, p)); }
        }
        assert forall|p: Pk| #[trigger] m2.counted().contains_key(p) implies exists|i: int| #[trigger] good(b, i, index, c, p) && b[i] == m2.counted()[p] by {
            if m.counted().contains_key(p) { let i = choose|i: int| #[trigger] good(a, i, index, c, p) && a[i] == m.counted()[p]; assert(good(b, i, index, c, p)); } else { assert(good(b, n, index, c, p)); }
        }
    }
    """)
    S = "SuperBlockState::"
    SUB = CL + [(r"self\s*\.signing_committee_pretty\(\)", "()")]
    u.emit_impl(" SuperBlockState", [
        u.fn(s, S + "insert_vote", subst=CL, spec="""requires old(self).inv(), old(self).signing_committee@.contains(who(sbv))
            ensures final(self).inv(), final(self).only_votes_changed(*old(self)), final(self).m().voted(old(self).m(), sbv, r, old(self).current_superblock_beacon.hash_prev_block)"""),
        u.fn(s, S + "is_valid", subst=CR, spec="""ensures sbv.superblock_index == current_superblock_index ==> r == Some(self.signing_committee@.contains(who(*sbv))),
            sbv.superblock_index != current_superblock_index ==> r == (if sbv.superblock_index == current_superblock_index + 1 { None::<bool> } else { Some(false) })"""),
        u.fn(s, S + "add_vote", subst=CR, spec="""requires old(self).inv()
            ensures final(self).inv(), final(self).only_votes_changed(*old(self)), final(self).m().received_votes@ == old(self).m().received_votes@.insert(*sbv),
                old(self).m().received_votes@.contains(*sbv) ==> r is AlreadySeen && final(self).m().counted() == old(self).m().counted() && final(self).m().dropped() == old(self).m().dropped(),
                !old(self).m().received_votes@.contains(*sbv) ==> {
                    let valid = sbv.superblock_index == current_superblock_index && old(self).signing_committee@.contains(who(*sbv));
                    &&& valid ==> exists|o: SuperBlockVotesMempool| o.counted() == old(self).m().counted() && o.dropped() == old(self).m().dropped() && #[trigger] final(self).m().voted(o, *sbv, r, old(self).current_superblock_beacon.hash_prev_block)
                    &&& !valid ==> final(self).m().counted() == old(self).m().counted() && final(self).m().dropped() == old(self).m().dropped() && (r is MaybeValid || r is NotInSigningCommittee || r is InvalidIndex)
                    &&& r is MaybeValid <==> sbv.superblock_index == current_superblock_index + 1
                }""", start="let ghost o = *self;",
            before=[(r"let valid\b", """proof { let m = self.m(); assert(m.counted() == o.m().counted() && m.lists() == o.m().lists() && m.dropped() == o.m().dropped());
                assert forall|p: Pk| #[trigger] m.counted().contains_key(p) implies o.m().counted().contains_key(p) by {}
                assert(m.inv()); }""")]),
        u.fn(s, S + "has_consensus", subst=SUB, spec="""requires self.inv()
            ensures ({ let n = self.signing_committee@.len() as int; let need = n * 2 / 3; let ours = self.current_superblock_beacon.hash_prev_block; let missing = n - self.m().counted().dom().len() - self.m().dropped().len(); let m = self.m();
                match r {
                    SuperBlockConsensus::SameAsLocal => n == 0 || (m.voters(ours).len() > 0 && m.voters(ours).len() >= need),
                    SuperBlockConsensus::Different(h) => h != ours && m.voters(h).len() > 0 && m.voters(h).len() >= need,
                    SuperBlockConsensus::NoConsensus => n > 0 && (forall|h: Hash| (#[trigger] m.voters(h)).len() + missing < need),
                    SuperBlockConsensus::Unknown => n > 0 && (forall|h: Hash| (#[trigger] m.voters(h)).len() == 0 || m.voters(h).len() < need),
                } })""", start="""proof { self.m().room(self.signing_committee@); assert forall|h: Hash| (#[trigger] self.m().voters(h)).len() <= self.m().counted().dom().len() by { self.m().voters_bound(h); } }""",
        before=[(r"let \(most_voted", "proof { if self.m().counted() == Map::<Pk, SuperBlockVote>::empty() { assert forall|h: Hash| (#[trigger] self.m().voters(h)).len() == 0 by { assert(self.m().voters(h) =~= Set::<Pk>::empty()); } } }")]),
        u.fn(s, S + "update_ars_identities", subst=[(r"std::mem::take\(", "take_ids(")], ret="", spec="""ensures final(self).ars_current_identities == new_identities, final(self).ars_previous_identities == old(self).ars_current_identities,
            final(self).votes_mempool == old(self).votes_mempool, final(self).signing_committee == old(self).signing_committee, final(self).current_superblock_beacon == old(self).current_superblock_beacon, final(self).current_superblock == old(self).current_superblock"""),
        u.fn(s, S + "build_superblock", skel=["for"], subst=CL + [(r"Some\(ref sb\) = sync_superblock", "Some(sb) = &sync_superblock"), (r"self\s*\.ars_(\w+)_identities\s*\.clone\(\)", r"copy_ids(&self.ars_\1_identities)"),
                (r"(\w+)\.into_iter\(\)\s*\.collect\(\)", r"ids_set(\1)"), (r"WIT2_BOOTSTRAP_COMMITTEE(_TEST)?\s*\.iter\(\)\s*\.map\(\|address\| address\.parse\(\)\.expect\(\"[^\"]*\"\)\)\s*\.collect\(\)", r"bootstrap(true)")],
             spec="""requires old(self).inv()
             ensures final(self).inv(), final(self).current_superblock_beacon.checkpoint == superblock_index, final(self).current_superblock_beacon.hash_prev_block == r.hash_of(),
                final(self).ars_current_identities == ars_identities, final(self).ars_previous_identities == old(self).ars_current_identities,
                final(self).m().received_votes@ == Set::<SuperBlockVote>::empty(),
                exists|q: Seq<SuperBlockVote>| q.to_set() == old(self).m().received_votes@ && #[trigger] settled(final(self).m(), q, superblock_index, final(self).signing_committee@)""",
             loops={0: dict(bind="ov", inv="""self.inv(), it0.seq() == q, self.current_superblock_beacon.checkpoint == superblock_index, self.current_superblock_beacon.hash_prev_block == superblock.hash_of(), self.signing_committee == c0,
                    self.ars_current_identities == ars_identities, self.ars_previous_identities == old(self).ars_current_identities, self.m().received_votes@ == Set::<SuperBlockVote>::empty(), settled(self.m(), q.take(it0.index@), superblock_index, c0@)""",
                before="let ghost q = ov@; let ghost c0 = self.signing_committee; proof { assert(q.take(0) =~= Seq::empty()); }",
                start="let ghost m0 = self.m(); let ghost v0 = sbv; let ghost ours = self.current_superblock_beacon.hash_prev_block; proof { assert(q[it0.index@] == sbv); }",
                end="""proof { let v = v0; let r = if self.m().dropped().contains(who(v)) { AddSuperBlockVote::DoubleVote } else if v.superblock_hash == ours { AddSuperBlockVote::ValidWithSameHash } else { AddSuperBlockVote::ValidButDifferentHash };
                    settle(m0, self.m(), q, it0.index@, superblock_index, c0@, r, ours); }""",
                after="proof { assert(q.take(q.len() as int) =~= q); }")}),
    ])
    u.close()


def build(u):
    x = Extract([SB, CH], mods=["tapi", "chain"], stubs=["PublicKeyHash", "PublicKey", "Signature", "Bn256Signature", "SuperBlock", "BlockHeader", "AltKeys", "Bn256PublicKey", "ProtocolVersion", "Environment", "get_environment", "Epoch",
                "hash_key_leaves", "mining_build_superblock", "in_emergency_period", "calculate_superblock_signing_committee", "SuperBlockVote::secp256k1_signature_message"],
                traits=["Display", "Debug"], no=["From<Sha256> for Hash", "From<Hash> for Sha256", "SuperBlockVote::new_unsigned", "FromStr for Hash"])
    import os
    return HEADER + open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/harness/sb_stub.rs").read() + x.build(["SuperBlockState::*", "SuperBlockVotesMempool::*", "ARSIdentities::*", "SuperBlockVote", "SuperBlockConsensus", "AddSuperBlockVote", "Hash"])


harness = dict(kind="extract", name="b01", build=build, main="b01.rs")
