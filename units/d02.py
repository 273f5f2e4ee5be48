from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "D02"
CH, DR, TX, VE, RR, VA, EN = "data_structures/src/chain/mod.rs", "data_structures/src/data_request.rs", "data_structures/src/transaction.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/radon_report.rs", "validations/src/validations.rs", "data_structures/src/error.rs"
FILES = [DR, VA]
RULE = "requests of 1 to 7 witnesses with small and large amounts, all or no commits, any subset of reveals with any verdict, every protocol version, with and without WIP-0019 and WIP-0023; the tally the node makes, and that tally with up to two changes (payee, amount, order, copies, time locks, lists, last output to a witness)"
ASSUMPTIONS = ["std HashSet and HashMap behave as sets and maps; zip and izip pair the elements of equally long lists; sorted and sort_unstable_by_key permute", "the report of the tally script is a function of the reveals in order, the script, the required share, the number of commits, the active WIPs and whether there are too many witnesses, with one verdict per reveal (run_tally_panic_safe; C01 decides what it concludes)", "sort_unstable_by_key sorts: by witness, or since WIP-0019 by the hash of witness and request", "the required share is an unspecified function of the percentage (a float)",
               "reveals are kept by their maker and come from committers; a request in tally has no commits or as many as witnesses (block validation demands so)", "price and collateral of a request together fit in 64 bits, also reward plus the collateral of all witnesses", "cloning a request state gives an equal one"]
NOTE = "validate_tally_transaction is proved under the rules of the second hard fork (the older branch stays in the proof but is not reachable); create_tally for both. What the tally script concludes is C01. The search also asks that the node's own tally is accepted."


def verus(u):
    c, d, tx, ve, rr, va = [u.src(x) for x in (CH, DR, TX, VE, RR, VA)]
    u.no_inline.update(["wip0023", "wips_0009_0011_0012", "encode_report"])
    u.result_fns.update(["encode_report"])
    u.file("tallies", LIGHT_PRELUDE)
    u.emit("global size_of usize == 8; type Epoch = u32;")
    for n in ("Hash", "PublicKeyHash"):
        u.emit("""#[derive(Clone, Copy, Debug)] pub struct %(n)s { x: u64 }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for %(n)s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for %(n)s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for %(n)s {}
    impl std::hash::Hash for %(n)s { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    """ % dict(n=n))
    u.emit_raw(u.struct_text(ve, "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit("""
    mod km { use super::*; pub broadcast axiom fn k2() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<PublicKeyHash>();
        pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Hash>(); }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, km::k1, km::k2};
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn age(v: ProtocolVersion) -> int { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 1, ProtocolVersion::V2_0 => 2, ProtocolVersion::V2_1 => 3 } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for ProtocolVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProtocolVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(age(*self), age(*o))) } }
    impl PartialOrd for ProtocolVersion { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
    pub struct ActiveWips {}
    uninterp spec fn fork2(w: ActiveWips) -> bool;
    uninterp spec fn wip23(w: ActiveWips) -> bool;
    impl ActiveWips {
        #[verifier::external_body] fn wips_0009_0011_0012(&self) -> (r: bool) ensures r == fork2(*self) { unimplemented!() }
        #[verifier::external_body] fn wip0023(&self) -> (r: bool) ensures r == wip23(*self) { unimplemented!() }
        #[verifier::external_body] fn wip0019(&self) -> (r: bool) ensures r == wip19(*self) { unimplemented!() }
    }
    // std iterators as lists
    #[verifier::external_body] fn zip_vals(a: &Vec<bool>, b: &Vec<bool>) -> (r: Vec<(bool, bool)>) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
    #[verifier::external_body] fn zip_slices(a: &[bool], b: &[bool]) -> (r: Vec<(bool, bool)>) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
    #[verifier::external_body] fn zip_pkhs(a: &Vec<PublicKeyHash>, b: Vec<(bool, bool)>) -> (r: Vec<(PublicKeyHash, (bool, bool))>) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
    #[verifier::external_body] fn izip3<'a>(a: Vec<PublicKeyHash>, b: &'a Vec<bool>, c: &'a Vec<bool>) -> (r: Vec<(PublicKeyHash, &'a bool, &'a bool)>) requires a@.len() == b@.len() == c@.len()
        ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i] && *r@[i].2 == c@[i] { unimplemented!() }
    #[verifier::external_body] fn set_refs<'a>(s: &'a HashSet<PublicKeyHash>) -> (r: Vec<&'a PublicKeyHash>) ensures r@.unref().no_duplicates(), r@.unref().to_set() == s@, r@.len() == s@.len() { unimplemented!() }
    #[verifier::external_body] fn set_vec(s: &HashSet<PublicKeyHash>) -> (r: Vec<PublicKeyHash>) ensures r@.no_duplicates(), r@.to_set() == s@, r@.len() == s@.len() { unimplemented!() }
    """)
    u.emit("#[derive(Clone)] pub struct RADTally { x: u64 }")
    u.emit_raw(u.struct_text(c, "RADRequest", derive="Clone", keep_fields=["tally"]))
    u.emit_raw(u.struct_text(c, "DataRequestOutput", derive="Clone", keep_fields=["data_request", "witness_reward", "witnesses", "commit_and_reveal_fee", "min_consensus_percentage", "collateral"]))
    u.emit_raw(u.struct_text(c, "ValueTransferOutput"))
    u.emit_raw(u.struct_text(tx, "TallyTransaction", keep_fields=["dr_pointer", "tally", "outputs", "out_of_consensus", "error_committers"]))
    u.emit_raw(u.struct_text(rr, "TallyMetaData", keep_fields=["errors", "liars"], generics=""))
    u.emit_raw(u.struct_text(rr, "Stage", keep_fields=["Aggregation", "Contextless", "Tally"], generics="", subst=[(r"<RT>", "")]))
    u.emit_raw(u.struct_text(rr, "ReportContext", keep_fields=["stage"], generics="", subst=[(r"<RT>", "")]))
    u.emit_raw(u.struct_text(rr, "RadonReport", keep_fields=["context"], generics="", subst=[(r"<RT>", "")]))
    u.emit("""
    pub struct EncodeError {}
    #[verifier::external_body] fn encode_report(r: &RadonReport) -> (x: Result<Vec<u8>, EncodeError>) ensures match x { Ok(v) => encoded(*r) == Some(v@), Err(_) => encoded(*r) is None } { unimplemented!() }
    uninterp spec fn encoded(r: RadonReport) -> Option<Seq<u8>>;
    spec fn result_of(r: RadonReport, fallback: Seq<u8>) -> Seq<u8> { match encoded(r) { Some(v) => v, None => fallback } }
    type Outs = Seq<ValueTransferOutput>;
    spec fn sum(o: Outs) -> int decreases o.len() { if o.len() == 0 { 0 } else { sum(o.drop_last()) + o.last().value } }
    // among the first n reveals: honest ones, errors out of consensus, lies
    spec fn honest(l: Seq<bool>, e: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { honest(l, e, n - 1) + if l[n - 1] { 0int } else { 1int } } }
    spec fn wrong(l: Seq<bool>, e: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { wrong(l, e, n - 1) + if l[n - 1] && e[n - 1] { 1int } else { 0int } } }
    spec fn lies(l: Seq<bool>, e: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { lies(l, e, n - 1) + if l[n - 1] && !e[n - 1] { 1int } else { 0int } } }
    proof fn counts(l: Seq<bool>, e: Seq<bool>, n: int) requires 0 <= n ensures honest(l, e, n) + wrong(l, e, n) + lies(l, e, n) == n, honest(l, e, n) >= 0, wrong(l, e, n) >= 0, lies(l, e, n) >= 0 decreases n
    { PROBE(counts); if n > 0 { counts(l, e, n - 1); } }
    spec fn out(pkh: PublicKeyHash, value: u64) -> ValueTransferOutput { ValueTransferOutput { pkh, value, time_lock: 0 } }
    // what the first n revealers get: honest ones their reward, errors their collateral, liars nothing
    spec fn pays(rv: Seq<PublicKeyHash>, l: Seq<bool>, e: Seq<bool>, reward: u64, coll: u64, n: int) -> Outs decreases n {
        if n <= 0 { Seq::empty() } else { let p = pays(rv, l, e, reward, coll, n - 1);
            if !l[n - 1] { p.push(out(rv[n - 1], reward)) } else if e[n - 1] { p.push(out(rv[n - 1], coll)) } else { p } }
    }
    spec fn errors_of(rv: Seq<PublicKeyHash>, e: Seq<bool>, n: int) -> Seq<PublicKeyHash> decreases n { if n <= 0 { Seq::empty() } else { let p = errors_of(rv, e, n - 1); if e[n - 1] { p.push(rv[n - 1]) } else { p } } }
    spec fn not_honest(c: Set<PublicKeyHash>, rv: Seq<PublicKeyHash>, l: Seq<bool>, n: int) -> Set<PublicKeyHash> decreases n { if n <= 0 { c } else { let p = not_honest(c, rv, l, n - 1); if l[n - 1] { p } else { p.remove(rv[n - 1]) } } }
    proof fn pays_sum(rv: Seq<PublicKeyHash>, l: Seq<bool>, e: Seq<bool>, reward: u64, coll: u64, n: int) requires 0 <= n
        ensures sum(pays(rv, l, e, reward, coll, n)) == honest(l, e, n) * reward + wrong(l, e, n) * coll decreases n
    {
        PROBE(pays_sum);
        if n > 0 {
            pays_sum(rv, l, e, reward, coll, n - 1);
            let (p, q) = (pays(rv, l, e, reward, coll, n - 1), pays(rv, l, e, reward, coll, n));
            if !l[n - 1] || e[n - 1] { assert(q.drop_last() =~= p); }
            let (h, w) = (honest(l, e, n - 1), wrong(l, e, n - 1));
            assert((h + 1) * reward == h * reward + reward) by (nonlinear_arith); assert((w + 1) * coll == w * coll + coll) by (nonlinear_arith);
        }
    }
    spec fn held(o: DataRequestOutput, min: u64) -> u64 { if o.collateral == 0 { min } else { o.collateral } }
    spec fn price(o: DataRequestOutput) -> int { (o.witness_reward + o.commit_and_reveal_fee + o.commit_and_reveal_fee) * o.witnesses }
    // what goes back to the requester
    spec fn change(o: DataRequestOutput, commits: int, reveals: int, honests: int) -> int { o.witness_reward * (o.witnesses - honests) + o.commit_and_reveal_fee * (o.witnesses - reveals) + o.commit_and_reveal_fee * (o.witnesses - commits) }
    proof fn change_fits(o: DataRequestOutput, c: int, r: int, h: int) requires 0 <= c <= o.witnesses, 0 <= r <= o.witnesses, 0 <= h <= o.witnesses
        ensures change(o, c, r, h) + o.witness_reward * h + o.commit_and_reveal_fee * (c + r) == price(o), change(o, c, r, h) >= 0,
            0 <= o.witness_reward * (o.witnesses - h), 0 <= o.commit_and_reveal_fee * (o.witnesses - r), 0 <= o.commit_and_reveal_fee * (o.witnesses - c), o.witness_reward * h >= 0, o.commit_and_reveal_fee * (c + r) >= 0
    {
        PROBE(change_fits);
        let (w, f, n) = (o.witness_reward as int, o.commit_and_reveal_fee as int, o.witnesses as int);
        assert(w * (n - h) + w * h == w * n && f * (n - r) + f * r == f * n && f * (n - c) + f * c == f * n && (w + f + f) * n == w * n + f * n + f * n && f * (c + r) == f * c + f * r) by (nonlinear_arith);
        assert(0 <= w * (n - h) && 0 <= f * (n - r) && 0 <= f * (n - c) && w * h >= 0 && f * (c + r) >= 0) by (nonlinear_arith) requires w >= 0, f >= 0, 0 <= c <= n, 0 <= r <= n, 0 <= h <= n;
    }
    // reward of an honest witness and what is left over for the miner
    spec fn reward_of(commits: int, lies: int, wrong: int, reward: u64, coll: u64, shared: bool) -> (int, int) {
        let h = commits - lies - wrong;
        if commits == 0 { (0, 0) } else if h == 0 { (coll as int, 0) } else if !shared { (reward + coll, 0) } else { (reward + coll + coll * lies / h, coll * lies % h) }
    }
    spec fn reward_fits(commits: int, reward: u64, coll: u64) -> bool { reward + coll * commits <= u64::MAX }
    proof fn shares(commits: int, l: int, e: int, reward: u64, coll: u64) requires 0 <= l, 0 <= e, l + e < commits, reward_fits(commits, reward, coll)
        ensures ({ let h = commits - l - e; h * (coll * l / h) + coll * l % h == coll * l && 0 <= coll * l / h && 0 <= coll * l % h < h && coll * l >= 0 && reward + coll + coll * l / h <= u64::MAX && coll * l <= u64::MAX })
    {
        PROBE(shares);
        let h = commits - l - e; let x = coll * l;
        assert(x >= 0 && x <= coll * commits && coll * (l + 1) <= coll * commits && coll * (l + 1) == x + coll) by (nonlinear_arith) requires 0 <= l, l + 1 <= commits, x == coll * l;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, h); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, h); vstd::arithmetic::div_mod::lemma_mod_bound(x, h);
        assert(x / h <= x) by (nonlinear_arith) requires h >= 1, x >= 0;
    }
    """)
    u.emit_fn(d, "calculate_tally_change", ret="r", start="proof { change_fits(*dr_output, commits_count as int, reveals_count as int, honests_count as int); }", subst=[(r"u64::from\(dr_output\.witnesses\)", "(dr_output.witnesses as u64)")],
              spec="requires commits_count <= dr_output.witnesses, reveals_count <= dr_output.witnesses, honests_count <= dr_output.witnesses, price(*dr_output) <= u64::MAX ensures r == change(*dr_output, commits_count as int, reveals_count as int, honests_count as int)")
    SH = "proof { if commits_count > liars_count + errors_count { shares(commits_count as int, liars_count as int, errors_count as int, reward, collateral); } }"
    u.emit_fn(d, "calculate_witness_reward_before_second_hard_fork", ret="r", start=SH,
              spec="requires liars_count + errors_count <= commits_count, reveals_count <= commits_count, reveals_count > 0 ==> liars_count + errors_count < commits_count, reward_fits(commits_count as int, reward, collateral) ensures (r.0 as int, r.1 as int) == (if reveals_count == 0 && commits_count > 0 { (collateral as int, 0int) } else { reward_of(commits_count as int, liars_count as int, errors_count as int, reward, collateral, true) })")
    u.emit_fn(d, "calculate_witness_reward", ret="r", start=SH,
              spec="requires liars_count + errors_count <= commits_count, reward_fits(commits_count as int, reward, collateral) ensures (r.0 as int, r.1 as int) == reward_of(commits_count as int, liars_count as int, errors_count as int, reward, collateral, !wip0023_active)")
    u.emit_fn(d, "saturating_div_ceil", ret="r", start="proof { if rhs > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(lhs as int, rhs as int); assert(lhs / rhs <= lhs) by (nonlinear_arith) requires rhs > 0; if lhs % rhs > 0 { assert(lhs / rhs < u64::MAX) by (nonlinear_arith) requires rhs > 0, lhs == rhs * (lhs / rhs) + lhs % rhs, lhs % rhs > 0, lhs <= u64::MAX; } } }",
              spec="ensures r == (if rhs == 0 { u64::MAX as int } else { lhs as int / rhs as int + if lhs as int % rhs as int > 0 { 1int } else { 0int } })")
    u.emit_fn(d, "calculate_reward_collateral_ratio", ret="r", spec="ensures ({ let c = if collateral == 0 { collateral_minimum } else { collateral }; r == (if witness_reward == 0 { u64::MAX as int } else { c as int / witness_reward as int + if c as int % witness_reward as int > 0 { 1int } else { 0int } }) })")
    u.emit_fn(d, "calculate_errors_and_liars_count", ret="r", cty="(usize, usize)", desugar=["fold"], loops={0: dict(iter_of=["liars.iter().zip(errors.iter())"], iter_as=lambda its, n, r: "zip_slices(liars, errors)", inv="it0.seq().len() == liars@.len(), liars@.len() <= usize::MAX, liars@.len() == errors@.len(), forall|i: int| 0 <= i < liars@.len() ==> #[trigger] it0.seq()[i] == (liars@[i], errors@[i]), __acc.0 == lies(liars@, errors@, it0.index@), __acc.1 == wrong(liars@, errors@, it0.index@)",
              start="proof { counts(liars@, errors@, it0.index@ as int); }", before="assert(liars.len() == liars@.len());")},
              spec="requires errors@.len() == liars@.len() ensures r.0 == lies(liars@, errors@, liars@.len() as int), r.1 == wrong(liars@, errors@, liars@.len() as int)")
    u.emit_impl(" TallyTransaction", [u.fn(tx, "TallyTransaction::new", ret="r", subst=[(r"hash: MemoHash::new\(\),?", "")], spec="ensures r == (TallyTransaction { dr_pointer, tally, outputs, out_of_consensus, error_committers })")])
    u.emit("""
    struct TV { rv: Seq<PublicKeyHash>, l: Seq<bool>, e: Seq<bool>, c: Set<PublicKeyHash>, o: DataRequestOutput, pkh: PublicKeyHash, coll: u64, fork2: bool, wip23: bool, staked: bool, tally: Seq<u8> }
    impl TV {
        spec fn n(&self) -> int { self.rv.len() as int }
        spec fn honest(&self) -> int { honest(self.l, self.e, self.n()) }
        spec fn wrong(&self) -> int { wrong(self.l, self.e, self.n()) }
        // lies: wrong values and missing reveals
        spec fn lies(&self) -> int { lies(self.l, self.e, self.n()) + self.c.len() - self.n() }
        spec fn any(&self) -> bool { if self.fork2 { self.honest() > 0 } else { self.n() > 0 } }
        spec fn change(&self) -> int { change(self.o, self.c.len() as int, self.n(), self.honest()) }
        spec fn reward(&self) -> (int, int) { if !self.fork2 && self.n() == 0 && self.c.len() > 0 { (self.coll as int, 0) } else { reward_of(self.c.len() as int, self.lies(), self.wrong(), self.o.witness_reward, self.coll, !(self.fork2 && self.wip23)) } }
        // a tally of a request: every revealer committed, once, and the amounts fit
        spec fn ok(&self) -> bool {
            &&& self.rv.no_duplicates() && self.rv.to_set().subset_of(self.c) && self.l.len() == self.n() && self.e.len() == self.n()
            &&& self.c.len() <= self.o.witnesses && price(self.o) <= u64::MAX && reward_fits(self.c.len() as int, self.o.witness_reward, self.coll)
            &&& !self.fork2 && self.n() > 0 ==> self.honest() > 0
        }
        spec fn with_change(&self, outs: Outs, r: Outs) -> bool { r == (if self.change() > 0 { outs.push(out(self.pkh, self.change() as u64)) } else { outs }) }
        // the outputs of the tally
        spec fn paid(&self, r: Outs) -> bool {
            if self.staked { self.with_change(Seq::empty(), r) }
            else if self.any() { self.with_change(pays(self.rv, self.l, self.e, self.reward().0 as u64, self.coll, self.n()), r) }
            else { exists|o: Outs| refunds(o, self.c, self.coll) && self.with_change(o, r) }
        }
        // burned: the collateral of liars, from WIP-0023 on, when there is an honest witness
        spec fn burned(&self) -> int { if self.fork2 && self.wip23 && self.any() { self.coll * self.lies() } else { 0 } }
    }
    spec fn refunds(o: Outs, c: Set<PublicKeyHash>, coll: u64) -> bool { o.len() == c.len() && pkhs(o).no_duplicates() && pkhs(o).to_set() == c && forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == out(o[i].pkh, coll) }
    spec fn pkhs(o: Outs) -> Seq<PublicKeyHash> { o.map_values(|x: ValueTransferOutput| x.pkh) }
    spec fn tv(o: DataRequestOutput, pkh: PublicKeyHash, report: RadonReport, rv: Seq<PublicKeyHash>, c: Set<PublicKeyHash>, min: u64, w: ActiveWips, v: ProtocolVersion, fallback: Seq<u8>) -> TV {
        TV { rv, l: report.context.stage->Tally_0.liars@, e: report.context.stage->Tally_0.errors@, c, o, pkh, coll: held(o, min), fork2: fork2(w), wip23: wip23(w), staked: age(v) >= 2, tally: result_of(report, fallback) }
    }
    proof fn subset_len(rv: Seq<PublicKeyHash>, c: Set<PublicKeyHash>) requires rv.no_duplicates(), rv.to_set().subset_of(c) ensures rv.len() <= c.len()
    { PROBE(subset_len); rv.unique_seq_to_set(); vstd::set_lib::lemma_len_subset(rv.to_set(), c); }
    proof fn refunds_sum(o: Outs, coll: u64) requires forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == out(o[i].pkh, coll) ensures sum(o) == coll * o.len() decreases o.len()
    { PROBE(refunds_sum); if o.len() > 0 { let p = o.drop_last(); assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == out(p[i].pkh, coll) by { assert(p[i] == o[i]); } refunds_sum(p, coll); assert(coll * (p.len() + 1) == coll * p.len() + coll) by (nonlinear_arith); assert(o[o.len() - 1] == out(o[o.len() - 1].pkh, coll)); } }
    // the money of a request: what a tally pays, the fees of commits and reveals, the rest for the miner and the burned collateral are
    // exactly its price and the collateral of its commits
    proof fn conserved(t: TV, r: Outs) requires t.ok(), t.paid(r), !t.staked
        ensures sum(r) + t.o.commit_and_reveal_fee * (t.c.len() + t.n()) + (if t.any() { t.reward().1 } else { 0 }) + t.burned() == price(t.o) + t.coll * t.c.len()
    {
        PROBE(conserved);
        let (n, c, h, w, l) = (t.n(), t.c.len() as int, t.honest(), t.wrong(), t.lies());
        counts(t.l, t.e, n); subset_len(t.rv, t.c); change_fits(t.o, c, n, h);
        assert(h == c - l - w);
        if t.any() {
            let (x, coll) = (t.reward().0, t.coll);
            assert(h > 0);
            shares(c, l, w, t.o.witness_reward, coll);
            pays_sum(t.rv, t.l, t.e, x as u64, coll, n);
            let o = pays(t.rv, t.l, t.e, x as u64, coll, n);
            assert(o.push(out(t.pkh, t.change() as u64)).drop_last() =~= o);
            assert(coll * c == coll * h + coll * w + coll * l) by (nonlinear_arith) requires c == h + w + l;
            if t.fork2 && t.wip23 { assert(h * x == t.o.witness_reward * h + coll * h) by (nonlinear_arith) requires x == t.o.witness_reward + coll; }
            else { let y = coll * l / h; assert(h * x == t.o.witness_reward * h + coll * h + h * y) by (nonlinear_arith) requires x == t.o.witness_reward + coll + y; }
            assert(w * coll == coll * w) by (nonlinear_arith);
        } else {
            let o = choose|o: Outs| refunds(o, t.c, t.coll) && t.with_change(o, r);
            refunds_sum(o, t.coll);
            assert(o.push(out(t.pkh, t.change() as u64)).drop_last() =~= o);
            assert(h == 0); assert(t.o.witness_reward * 0 == 0);
        }
    }
    proof fn staked_conserved(t: TV, r: Outs) requires t.ok(), t.paid(r), t.staked
        ensures sum(r) + t.o.commit_and_reveal_fee * (t.c.len() + t.n()) + t.o.witness_reward * t.honest() == price(t.o)
    {
        PROBE(staked_conserved);
        counts(t.l, t.e, t.n()); subset_len(t.rv, t.c); change_fits(t.o, t.c.len() as int, t.n(), t.honest());
        assert(Seq::<ValueTransferOutput>::empty().push(out(t.pkh, t.change() as u64)).drop_last() =~= Seq::empty());
        assert(sum(Seq::empty()) == 0);
    }
    """)
    IT = lambda its, n, r: "zip_pkhs(&revealers, zip_vals(liars, errors))"
    TT = "t.l == liars@, t.e == errors@, t.ok(), t.coll == collateral, t.l.len() == t.n(), t.e.len() == t.n()"
    ST = " error_committers@ == errors_of(t.rv, t.e, %(n)s), out_of_consensus@ == not_honest(t.c, t.rv, t.l, %(n)s)"
    u.emit_fn(d, "create_tally", ret="r", cty="Vec<ValueTransferOutput>", desugar=["filter_map", "map", "collect", "res_unwrap_or_else", "opt_unwrap_or_else"],
        sig_subst=[(r"<RT, S: ::std::hash::BuildHasher>", ""), (r"RadonReport<RT>", "RadonReport"), (r"HashSet<PublicKeyHash, S>", "HashSet<PublicKeyHash>"), (r"where\s+RT: TypeLike,?", "")],
        subst=[(r"izip!\(", "izip3("), (r"Vec::try_from\(report\)", "encode_report(report)"), (r"\(&revealer, \(", "(revealer, ("), (r"out_of_consensus\.into_iter\(\)\.collect\(\)", "set_vec(&out_of_consensus)"), (r"let mut error_committers = vec!\[\];", "let mut error_committers: Vec<PublicKeyHash> = vec![];")],
        start="let ghost t = tv(*dr_output, pkh, *report, revealers@, committers@, collateral_minimum, *active_wips, protocol_version, tally_bytes_on_encode_error@); proof { counts(t.l, t.e, t.n()); subset_len(t.rv, t.c); change_fits(t.o, t.c.len() as int, t.n(), t.honest()); }",
        before=[(r"let \(reward, _rest\) =", "assert(collateral == t.coll && non_reveals_count == t.c.len() - t.n() && liars_count == lies(t.l, t.e, t.n()) && errors_count == t.wrong());"),
            (r"let mut outputs", "assert(any_honest_revealers == t.any()); assert((reward as int, _rest as int) == t.reward());"),
            (r"let honests_count = reveals_count", "assert(t.staked ==> outputs@ == Seq::<ValueTransferOutput>::empty()); assert(!t.staked && t.any() ==> outputs@ == pays(t.rv, t.l, t.e, reward, t.coll, t.n())); assert(!t.staked && !t.any() ==> refunds(outputs@, t.c, t.coll));"),
            (r"TallyTransaction::new\(", "assert(t.with_change(o0, outputs@)); assert(t.paid(outputs@));")],
        after=[(r"let honests_count = reveals_count", "let ghost o0 = outputs@;")],
        loops={0: dict(iter_of=["revealers.iter().zip(liars.iter().zip(errors.iter()))"], iter_as=IT, inv=TT + ", it0.seq().len() == t.n(), forall|i: int| 0 <= i < t.n() ==> #[trigger] it0.seq()[i] == (t.rv[i], (t.l[i], t.e[i])), __c@ == pays(t.rv, t.l, t.e, reward, t.coll, it0.index@)," + ST % dict(n="it0.index@")),
            1: dict(inv=TT + ", it1.seq() == t.rv, error_committers@ == t.rv.take(it1.index@), out_of_consensus@ == t.c", start="proof { assert(t.rv.take(it1.index@ + 1) =~= t.rv.take(it1.index@).push(t.rv[it1.index@])); }", after="proof { assert(t.rv.take(t.n()) =~= t.rv); }"),
            2: dict(bind="__s2", iter_of=["out_of_consensus.iter()"], iter_as=lambda its, n, r: "set_refs(&out_of_consensus)", inv=TT + ", it2.seq() == g2, out_of_consensus@ == t.c, it2.seq().unref().no_duplicates(), it2.seq().unref().to_set() == t.c, it2.seq().len() == t.c.len(), __c@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> #[trigger] __c@[i] == out(it2.seq().unref()[i], t.coll), error_committers@ == (if t.fork2 { t.rv } else { Seq::empty() })",
                before="let ghost g2 = __s2@; ", after="proof { assert(pkhs(__c@) =~= g2.unref()); assert forall|i: int| 0 <= i < __c@.len() implies #[trigger] __c@[i] == out(__c@[i].pkh, t.coll) by { assert(__c@[i] == out(g2.unref()[i], t.coll)); } }"),
            3: dict(indexed=True, iter_as=lambda its, n, r: its, inv=TT + ", __i3 <= __v3@.len(), __v3@.len() == t.n(), forall|i: int| 0 <= i < t.n() ==> (#[trigger] __v3@[i]).0 == t.rv[i] && *__v3@[i].1 == t.l[i] && *__v3@[i].2 == t.e[i], " + ST % dict(n="__i3 as int"), dec="__v3@.len() - __i3"),
            4: dict(inv=TT + ", it4.seq() == t.rv, error_committers@ == t.rv.take(it4.index@), out_of_consensus@ == t.c", start="proof { assert(t.rv.take(it4.index@ + 1) =~= t.rv.take(it4.index@).push(t.rv[it4.index@])); }", after="proof { assert(t.rv.take(t.n()) =~= t.rv); }"),
            5: dict(bind="__s5", before="let ghost g5 = __s5@;", iter_of=["out_of_consensus.into_iter()"], iter_as=lambda its, n, r: "set_vec(&out_of_consensus)", cty="Vec<PublicKeyHash>", inv="it5.seq() == g5, it5.seq().no_duplicates(), it5.seq().to_set() == out_of_consensus@, __c@ == it5.seq().take(it5.index@)", start="proof { assert(it5.seq().take(it5.index@ + 1) =~= it5.seq().take(it5.index@).push(it5.seq()[it5.index@])); }", after="proof { assert(g5.take(g5.len() as int) =~= g5); }"),
        },
        spec="""requires report.context.stage is Tally, tv(*dr_output, pkh, *report, revealers@, committers@, collateral_minimum, *active_wips, protocol_version, tally_bytes_on_encode_error@).ok()
            ensures ({ let t = tv(*dr_output, pkh, *report, revealers@, committers@, collateral_minimum, *active_wips, protocol_version, tally_bytes_on_encode_error@);
                &&& t.paid(r.outputs@) && r.dr_pointer == dr_pointer && r.tally@ == t.tally
                &&& r.out_of_consensus@.no_duplicates() && r.out_of_consensus@.to_set() == (if t.any() { not_honest(t.c, t.rv, t.l, t.n()) } else { t.c })
                &&& r.error_committers@ == (if t.any() { errors_of(t.rv, t.e, t.n()) } else if t.fork2 { t.rv } else { Seq::empty() })
            })""")

    # -- validation ---------------------------------------------------------------------------
    er = u.src(EN)
    u.no_inline.update(["concatenate_and_hash", "wip0019", "create_expected_tally_transaction", "calculate_liars_and_errors_count_from_tally", "calculate_tally_change", "calculate_witness_reward", "calculate_witness_reward_before_second_hard_fork", "checked_total_value",
                        "data_request_has_too_many_witnesses", "get_protocol_version_activation_epoch", "data_request_state", "data_request_state_mutable", "get_reveals", "run_tally_panic_safe", "create_tally", "tally_bytes_on_encode_error"])
    u.result_fns.update(["create_expected_tally_transaction", "checked_total_value"])
    u.need_derives(c, "DataRequestStage", ["PartialEq", "Clone", "Copy"])
    u.emit_raw(u.struct_text(c, "DataRequestStage", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(er, "TransactionError", keep_fields=["TooManyWitnessesDataRequestNotFound", "DataRequestNotFound", "MismatchingOutOfConsensusCount", "MismatchingErrorCount", "WrongNumberOutputs", "MismatchedConsensus",
        "InvalidTallyChange", "RevealNotFound", "DishonestReward", "InvalidReward", "CommitNotFound", "MultipleRewards", "InvalidTimeLock", "InvalidTallyValue", "FeeOverflow"], derive="Debug"))
    u.emit_raw(u.struct_text(er, "DataRequestError", keep_fields=["NotTallyStage"]))
    u.emit("""
    impl vstd::std_specs::cmp::PartialEqSpecImpl for DataRequestStage { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for DataRequestStage { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    // anyhow::Error: one opaque value
    pub struct AnyError {}
    impl From<DataRequestError> for AnyError { #[verifier::external_body] fn from(e: DataRequestError) -> AnyError { AnyError {} } }
    impl From<TransactionError> for AnyError { #[verifier::external_body] fn from(e: TransactionError) -> AnyError { AnyError {} } }
    #[derive(Clone, Copy)] pub struct CommitTransaction { x: u64 }
    #[derive(Clone, Copy)] pub struct RevealBody { pkh: PublicKeyHash, x: u64 }
    #[derive(Clone, Copy)] pub struct RevealTransaction { body: RevealBody }
    """)
    u.emit_raw(u.struct_text(c, "Environment", derive=""))
    u.emit_raw(u.struct_text(c, "ConsensusConstants", keep_fields=["collateral_minimum"]))
    u.emit_raw(u.struct_text(c, "DataRequestInfo", derive="Clone", keep_fields=["commits", "reveals"]))
    u.emit_raw(u.struct_text(c, "DataRequestState", derive="Clone", keep_fields=["data_request", "pkh", "info", "stage", "epoch"]))
    u.emit_raw(u.struct_text(d, "DataRequestPool", keep_fields=["data_request_pool"]))
    u.emit("""
    uninterp spec fn version_at(e: Option<Epoch>) -> ProtocolVersion;
    uninterp spec fn activation(v: ProtocolVersion) -> Epoch;
    uninterp spec fn environment() -> Environment;
    uninterp spec fn fallback() -> Seq<u8>;
    impl ProtocolVersion { #[verifier::external_body] fn from_epoch_opt(e: Option<Epoch>) -> (r: ProtocolVersion) ensures r == version_at(e) { unimplemented!() } }
    #[verifier::external_body] fn get_environment() -> (r: Environment) ensures r == environment() { unimplemented!() }
    #[verifier::external_body] fn get_protocol_version_activation_epoch(v: ProtocolVersion) -> (r: Epoch) ensures r == activation(v) { unimplemented!() }
    #[verifier::external_body] fn tally_bytes_on_encode_error() -> (r: Vec<u8>) ensures r@ == fallback() { unimplemented!() }
    // more witnesses than a quarter of the validators (half of them in test networks), since wit/2
    spec fn crowded(o: DataRequestOutput, validators: usize, e: Option<Epoch>) -> bool { age(version_at(e)) >= 2 && o.witnesses > validators / if environment() is Mainnet { 4usize } else { 2usize } }
    // the required share of reveals, from a percentage (a float)
    pub struct Share { x: u64 }
    uninterp spec fn percent(p: u32) -> Share;
    #[verifier::external_body] fn as_share(p: u32) -> (r: Share) ensures r == percent(p) { unimplemented!() }
    // the verdict of a tally script over a list of reveals (C01)
    uninterp spec fn verdict(rs: Seq<&RevealTransaction>, tally: RADTally, share: Share, commits: int, w: ActiveWips, crowded: bool) -> RadonReport;
    // the order of reveals: by the hash of witness and request (WIP-0019), before that by witness
    uninterp spec fn wip19(w: ActiveWips) -> bool;
    uninterp spec fn by_hash(rs: Seq<&RevealTransaction>, h: Hash) -> bool;
    uninterp spec fn by_witness(rs: Seq<&RevealTransaction>) -> bool;
    spec fn in_order(rs: Seq<&RevealTransaction>, h: Hash, w: ActiveWips) -> bool { if wip19(w) { by_hash(rs, h) } else { by_witness(rs) } }
    const DEFAULT_VALIDATOR_COUNT_FOR_TESTS: usize = 1000;
    // the verdict on every reveal
    #[verifier::external_body] fn run_tally_panic_safe(reveals: &Vec<&RevealTransaction>, tally: &RADTally, share: Share, commits_count: usize, active_wips: &ActiveWips, too_many_witnesses: bool) -> (r: RadonReport)
        ensures r == verdict(reveals@, *tally, share, commits_count as int, *active_wips, too_many_witnesses), r.context.stage is Tally, r.context.stage->Tally_0.liars@.len() == reveals@.len(), r.context.stage->Tally_0.errors@.len() == reveals@.len() { unimplemented!() }
    // HashMap::get_mut, Iterator::sorted, sort_unstable_by_key, keys, values
    #[verifier::external_body]
    fn get_mut_in<'a, K, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ }
    { unimplemented!() }
    #[verifier::external_body] fn sorted_vec(v: &Vec<PublicKeyHash>) -> (r: Vec<PublicKeyHash>) ensures r@.to_multiset() == v@.to_multiset() { unimplemented!() }
    #[verifier::external_body] fn same_list(a: &Vec<PublicKeyHash>, b: &Vec<PublicKeyHash>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    #[verifier::external_body] fn same_bytes(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    #[verifier::external_body] fn listed(v: &Vec<PublicKeyHash>, x: &PublicKeyHash) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
    #[verifier::external_body] fn keys_vec(m: &HashMap<PublicKeyHash, CommitTransaction>) -> (r: Vec<PublicKeyHash>) ensures r@.no_duplicates(), r@.to_set() == m@.dom() { unimplemented!() }
    #[verifier::external_body] fn values_vec(m: &HashMap<PublicKeyHash, RevealTransaction>) -> (r: Vec<&RevealTransaction>)
        ensures exists|k: Seq<PublicKeyHash>| #[trigger] k.no_duplicates() && k.to_set() == m@.dom() && k.len() == r@.len() && forall|i: int| 0 <= i < k.len() ==> *(#[trigger] r@[i]) == m@[k[i]] { unimplemented!() }
    spec fn rearranged(v: Seq<&RevealTransaction>, r: Seq<&RevealTransaction>) -> bool { r.len() == v.len() && revealers(r).to_multiset() == revealers(v).to_multiset() && forall|i: int| 0 <= i < r.len() ==> exists|j: int| 0 <= j < v.len() && v[j] == #[trigger] r[i] }
    #[verifier::external_body] fn sort_by_witness<'a>(v: Vec<&'a RevealTransaction>) -> (r: Vec<&'a RevealTransaction>) ensures rearranged(v@, r@), by_witness(r@) { unimplemented!() }
    #[verifier::external_body] fn sort_by_hash<'a>(v: Vec<&'a RevealTransaction>, h: &Hash) -> (r: Vec<&'a RevealTransaction>) ensures rearranged(v@, r@), by_hash(r@, *h) { unimplemented!() }
    #[verifier::external_body] fn all_outputs<'a>(v: &'a Vec<ValueTransferOutput>) -> (r: Vec<&'a ValueTransferOutput>) ensures r@.unref() == v@ { unimplemented!() }
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    proof fn same_items(a: Seq<PublicKeyHash>, b: Seq<PublicKeyHash>) requires a.to_multiset() == b.to_multiset() ensures a.no_duplicates() ==> b.no_duplicates(), a.to_set() == b.to_set(), a.len() == b.len()
    {
        PROBE(same_items);
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert forall|k: PublicKeyHash| a.contains(k) <==> b.contains(k) by { assert(a.contains(k) <==> a.to_multiset().count(k) > 0); assert(b.contains(k) <==> b.to_multiset().count(k) > 0); }
        assert(a.to_set() =~= b.to_set());
        if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
    }
    proof fn set_push(s: Seq<PublicKeyHash>, x: PublicKeyHash) ensures s.push(x).to_set() == s.to_set().insert(x)
    {
        PROBE(set_push);
        assert forall|k: PublicKeyHash| s.push(x).to_set().contains(k) <==> s.to_set().insert(x).contains(k) by {
            if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(x)[i] == k); }
            if k == x { assert(s.push(x)[s.len() as int] == x); }
            if s.push(x).contains(k) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == k; if i < s.len() { assert(s[i] == k); } }
        }
        assert(s.push(x).to_set() =~= s.to_set().insert(x));
    }
    spec fn revealers(r: Seq<&RevealTransaction>) -> Seq<PublicKeyHash> { r.map_values(|x: &RevealTransaction| x.body.pkh) }
    impl DataRequestState {
        // commits and reveals of a request: kept by who made them, reveals come from those who committed; all witnesses or none
        spec fn ok(&self, min: u64) -> bool {
            &&& forall|k: PublicKeyHash| #[trigger] self.info.reveals@.contains_key(k) ==> self.info.reveals@[k].body.pkh == k && self.info.commits@.contains_key(k)
            &&& self.info.commits@.len() == 0 || self.info.commits@.len() == self.data_request.witnesses
            &&& price(self.data_request) + held(self.data_request, min) * self.info.commits@.len() <= u64::MAX && reward_fits(self.info.commits@.len() as int, self.data_request.witness_reward, held(self.data_request, min))
        }
    }
    // the reveals of a request and the verdict of its script over them
    spec fn reveals_of(rs: Seq<&RevealTransaction>, s: DataRequestState) -> bool { forall|i: int| 0 <= i < rs.len() ==> *(#[trigger] rs[i]) == s.info.reveals@[rs[i].body.pkh] }
    spec fn judged(t: TV, rs: Seq<&RevealTransaction>, s: DataRequestState, h: Hash, w: ActiveWips, crowded: bool) -> bool {
        let r = verdict(rs, s.data_request.data_request.tally, percent(s.data_request.min_consensus_percentage), s.info.commits@.len() as int, w, crowded);
        revealers(rs) == t.rv && reveals_of(rs, s) && in_order(rs, h, w) && t.l == r.context.stage->Tally_0.liars@ && t.e == r.context.stage->Tally_0.errors@ && t.tally == result_of(r, fallback())
    }
    // a tally of this request
    spec fn tallied(t: TV, s: DataRequestState, h: Hash, min: u64, w: ActiveWips, v: ProtocolVersion, crowded: bool) -> bool {
        (exists|rs: Seq<&RevealTransaction>| #[trigger] judged(t, rs, s, h, w, crowded)) && t.ok() && t.c == s.info.commits@.dom() && t.rv.to_set() == s.info.reveals@.dom() && t.o == s.data_request && t.pkh == s.pkh && t.coll == held(s.data_request, min) && t.fork2 == fork2(w) && t.wip23 == wip23(w) && t.staked == (age(v) >= 2)
    }
    impl TV {
        spec fn out_of_consensus(&self) -> Set<PublicKeyHash> { if self.any() { not_honest(self.c, self.rv, self.l, self.n()) } else { self.c } }
        spec fn in_error(&self) -> Seq<PublicKeyHash> { if self.any() { errors_of(self.rv, self.e, self.n()) } else if self.fork2 { self.rv } else { Seq::empty() } }
        spec fn is(&self, x: TallyTransaction) -> bool {
            self.paid(x.outputs@) && x.tally@ == self.tally && x.out_of_consensus@.no_duplicates() && x.out_of_consensus@.to_set() == self.out_of_consensus() && x.error_committers@ == self.in_error()
        }
    }
    """)
    u.emit_impl(" DataRequestOutput", [u.fn(c, "DataRequestOutput::checked_total_value", ret="r", desugar=["opt_and_then"], subst=[(r"u64::from\(self\.witnesses\)", "(self.witnesses as u64)")],
                start="proof { assert(self.witness_reward + self.commit_and_reveal_fee > u64::MAX || self.witness_reward + 2 * self.commit_and_reveal_fee > u64::MAX ==> self.witnesses == 0 || price(*self) > u64::MAX) by (nonlinear_arith) requires price(*self) == (self.witness_reward + self.commit_and_reveal_fee + self.commit_and_reveal_fee) * self.witnesses, self.witnesses >= 0, self.witness_reward >= 0, self.commit_and_reveal_fee >= 0; }",
                spec="ensures match r { Ok(x) => x == price(*self), Err(_) => true }")])
    u.emit_fn(d, "data_request_has_too_many_witnesses", ret="r", subst=[(r"usize::from\(([\w.]+)\)", r"(\1 as usize)")], spec="ensures r == crowded(*dr_output, validator_count, epoch)")
    u.emit_impl(" DataRequestPool", [
        u.fn(d, "DataRequestPool::data_request_state", ret="r", spec="ensures r == (if self.data_request_pool@.contains_key(*dr_pointer) { Some(&self.data_request_pool@[*dr_pointer]) } else { None })"),
        u.fn(d, "DataRequestPool::data_request_state_mutable", ret="r", subst=[(r"self\.data_request_pool\.get_mut\(", "get_mut_in(&mut self.data_request_pool, ")], spec="""
            ensures match r { Some(v) => old(self).data_request_pool@.contains_key(*dr_pointer) && *v == old(self).data_request_pool@[*dr_pointer] && final(self).data_request_pool@ == old(self).data_request_pool@.insert(*dr_pointer, *final(v)), None => !old(self).data_request_pool@.contains_key(*dr_pointer) && final(self).data_request_pool@ == old(self).data_request_pool@ }"""),
        u.fn(d, "DataRequestPool::get_reveals", ret="r", desugar=["opt_map"], subst=[(r"dr_state\.info\.reveals\.values\(\)\.collect\(\)", "values_vec(&dr_state.info.reveals)"), (r"reveals\.sort_unstable_by_key\(\|(\w+)\| (?:\{\s*)?concatenate_and_hash\(&\1\.body\.pkh\.hash, dr_pointer\.as_ref\(\)\)(?:\s*\})?\)", "reveals = sort_by_hash(reveals, dr_pointer)"), (r"reveals\.sort_unstable_by_key\(\|(\w+)\| \1\.body\.pkh\)", "reveals = sort_by_witness(reveals)"),
            ], before=[(r"if active_wips", "let ghost g = reveals@; proof { if forall|k: PublicKeyHash| #[trigger] dr_state.info.reveals@.contains_key(k) ==> dr_state.info.reveals@[k].body.pkh == k { let k = choose|k: Seq<PublicKeyHash>| #[trigger] k.no_duplicates() && k.to_set() == dr_state.info.reveals@.dom() && k.len() == reveals@.len() && forall|i: int| 0 <= i < k.len() ==> *(#[trigger] reveals@[i]) == dr_state.info.reveals@[k[i]]; assert forall|i: int| 0 <= i < k.len() implies #[trigger] reveals@[i].body.pkh == k[i] by { assert(k.to_set().contains(k[i])); assert(dr_state.info.reveals@.contains_key(k[i])); } assert(revealers(reveals@) =~= k); k.unique_seq_to_set(); } }")],
            after=[(r"if active_wips", "proof { same_items(revealers(g), revealers(reveals@)); assert(g.len() > 0 ==> rearranged(g, reveals@)); }")], spec="""
            ensures match r { Some(v) => self.data_request_pool@.contains_key(*dr_pointer) && ({ let s = self.data_request_pool@[*dr_pointer]; (forall|k: PublicKeyHash| #[trigger] s.info.reveals@.contains_key(k) ==> s.info.reveals@[k].body.pkh == k) ==> revealers(v@).no_duplicates() && revealers(v@).to_set() == s.info.reveals@.dom() && v@.len() == s.info.reveals@.len() && reveals_of(v@, s) && in_order(v@, *dr_pointer, *active_wips) }), None => !self.data_request_pool@.contains_key(*dr_pointer) }"""),
    ])
    u.emit_fn(va, "create_expected_tally_transaction", ret="r", cty="Vec<PublicKeyHash>", desugar=["map", "collect"],
        sig_subst=[(r"anyhow::Error", "AnyError")],
        subst=[(r"dr_state\s*\.info\s*\.commits\s*\.keys\(\)\s*\.cloned\(\)\s*\.collect::<HashSet<PublicKeyHash>>\(\)", "keys_set(&dr_state.info.commits)"),
            (r"f64::from\(([\w.]+)\) / 100\.0", r"as_share(\1)"), (r"dr_state\.clone\(\)", "{ let __s = cl(dr_state); proof { assert(tallied(t, __s, dr_pointer, collateral_minimum, *active_wips, protocol_version, too_many_witnesses)); } __s }")],
        after=[(r"let ta_tx = create_tally", "let ghost t = tv(*dr_output, dr_state.pkh, report, revealers(gr), committers@, collateral_minimum, *active_wips, protocol_version, fallback()); assert(t.is(ta_tx)); assert(judged(t, gr, *dr_state, dr_pointer, *active_wips, too_many_witnesses));")],
        before=[(r"let ta_tx = create_tally", "let ghost gr = reveal_txns@; proof { revealers(gr).unique_seq_to_set(); assert forall|k: PublicKeyHash| revealers(gr).to_set().contains(k) implies committers@.contains(k) by {} assert(revealers(gr).to_set().subset_of(committers@)); }")],
        loops={0: dict(cty="HashSet<PublicKeyHash>", iter_of=["dr_state.info.commits.keys().cloned()"], iter_as=lambda its, n, r: "keys_vec(&dr_state.info.commits)", bind="__s0", before="let ghost g0 = __s0@;", inv="it0.seq() == g0, g0.no_duplicates(), g0.to_set() == dr_state.info.commits@.dom(), __c@ == g0.take(it0.index@).to_set()",
                start="proof { let i = it0.index@; assert(g0.take(i + 1) =~= g0.take(i).push(g0[i])); set_push(g0.take(i), g0[i]); }", after="proof { assert(g0.take(g0.len() as int) =~= g0); }"),
            1: dict(inv="it1.seq() == gr, __c@ =~= revealers(gr).take(it1.index@)", after="proof { assert(revealers(gr).take(gr.len() as int) =~= revealers(gr)); }")},
        spec="""requires dr_pool.data_request_pool@.contains_key(ta_tx.dr_pointer) ==> dr_pool.data_request_pool@[ta_tx.dr_pointer].ok(collateral_minimum), fork2(*active_wips)
            ensures match r { Ok((x, s)) => dr_pool.data_request_pool@.contains_key(ta_tx.dr_pointer) && s == dr_pool.data_request_pool@[ta_tx.dr_pointer] && s.stage == DataRequestStage::TALLY
                && exists|t: TV| #[trigger] tallied(t, s, ta_tx.dr_pointer, collateral_minimum, *active_wips, protocol_version, too_many_witnesses) && t.is(x), Err(_) => true }""")

    u.emit("""
    type Keys = Set<PublicKeyHash>;
    // among the first n reveals: those who get the reward, those who get their collateral back
    spec fn good(t: TV, n: int) -> Keys decreases n { if n <= 0 { Set::empty() } else if t.l[n - 1] { good(t, n - 1) } else { good(t, n - 1).insert(t.rv[n - 1]) } }
    spec fn excused(t: TV, n: int) -> Keys decreases n { if n <= 0 { Set::empty() } else if t.l[n - 1] && t.e[n - 1] { excused(t, n - 1).insert(t.rv[n - 1]) } else { excused(t, n - 1) } }
    proof fn sets(t: TV, n: int, k: PublicKeyHash) requires t.ok(), 0 <= n <= t.n()
        ensures good(t, n).contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] t.rv[i] == k && !t.l[i],
            excused(t, n).contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] t.rv[i] == k && t.l[i] && t.e[i],
            errors_of(t.rv, t.e, n).contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] t.rv[i] == k && t.e[i],
            not_honest(t.c, t.rv, t.l, n).contains(k) <==> t.c.contains(k) && !good(t, n).contains(k) decreases n
    {
        PROBE(sets);
        if n > 0 {
            sets(t, n - 1, k);
            let (p, q) = (errors_of(t.rv, t.e, n - 1), errors_of(t.rv, t.e, n));
            if t.e[n - 1] { assert(q == p.push(t.rv[n - 1])); if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(q[j] == k); } if k == t.rv[n - 1] { assert(q[p.len() as int] == k); } if q.contains(k) { let j = choose|j: int| 0 <= j < q.len() && q[j] == k; if j < p.len() { assert(p[j] == k); } } }
        }
    }
    proof fn sizes(t: TV, n: int) requires t.ok(), 0 <= n <= t.n()
        ensures good(t, n).len() == honest(t.l, t.e, n), excused(t, n).len() == wrong(t.l, t.e, n), not_honest(t.c, t.rv, t.l, n).len() == t.c.len() - honest(t.l, t.e, n),
            pays(t.rv, t.l, t.e, 0, 0, n).len() == honest(t.l, t.e, n) + wrong(t.l, t.e, n) decreases n
    {
        PROBE(sizes);
        if n > 0 {
            sizes(t, n - 1); sets(t, n - 1, t.rv[n - 1]);
            assert(t.rv.to_set().contains(t.rv[n - 1]));
        }
    }
    proof fn pays_len(rv: Seq<PublicKeyHash>, l: Seq<bool>, e: Seq<bool>, a: u64, b: u64, n: int) ensures pays(rv, l, e, a, b, n).len() == pays(rv, l, e, 0, 0, n).len() decreases n
    { PROBE(pays_len); if n > 0 { pays_len(rv, l, e, a, b, n - 1); } }
    impl TV {
        spec fn good(&self) -> Keys { if self.any() { good(*self, self.n()) } else { Set::empty() } }
        spec fn excused(&self) -> Keys { if self.any() { excused(*self, self.n()) } else { self.c } }
        // what they get together
        spec fn owed(&self) -> int { self.good().len() * self.reward().0 + self.excused().len() * self.coll }
        // an output that pays one of them
        spec fn pays(&self, x: ValueTransferOutput) -> bool { (self.good().contains(x.pkh) && x.value == self.reward().0 || self.excused().contains(x.pkh) && x.value == self.coll) && x.time_lock == 0 }
        // outputs that pay some of them, nobody twice
        spec fn partly(&self, o: Outs) -> bool { pkhs(o).no_duplicates() && forall|i: int| 0 <= i < o.len() ==> #[trigger] self.pays(o[i]) }
        spec fn rest(&self, o: Outs) -> Outs { if self.change() > 0 && o.len() > 0 { o.drop_last() } else { o } }
        // a valid tally: it names who was out of consensus and in error, its outputs pay everybody what they are owed and nobody else, the change goes to the requester
        spec fn settled(&self, x: TallyTransaction, fee: int) -> bool {
            let o = x.outputs@;
            &&& x.tally@ == self.tally
            &&& x.out_of_consensus@.no_duplicates() && x.out_of_consensus@.to_set() == self.out_of_consensus() && x.error_committers@.to_set() == self.in_error().to_set()
            &&& self.change() > 0 ==> o.len() > 0 && o.last() == out(self.pkh, self.change() as u64)
            &&& self.staked ==> self.rest(o).len() == 0
            &&& !self.staked ==> self.partly(self.rest(o)) && pkhs(self.rest(o)).to_set() == self.good().union(self.excused())
            // the money of the request: outputs, fees of commits and reveals, the rest for the miner, burned collateral = price + collateral
            &&& !self.staked ==> fee >= 0 && sum(o) + self.o.commit_and_reveal_fee * (self.c.len() + self.n()) + fee + self.burned() == price(self.o) + self.coll * self.c.len()
            &&& self.staked ==> sum(o) == self.change()
        }
    }
    // a tally the node accepts for this request; too many witnesses are reported in the block that includes the request
    spec fn accepted(t: TV, x: TallyTransaction, s: DataRequestState, min: u64, w: ActiveWips, v: ProtocolVersion, validators: Option<usize>, crowd: Set<Hash>) -> bool {
        let many = crowded(s.data_request, match validators { Some(n) => n, None => DEFAULT_VALIDATOR_COUNT_FOR_TESTS }, Some(s.epoch));
        tallied(t, s, x.dr_pointer, min, w, v, many) && (many && s.epoch > activation(ProtocolVersion::V2_0) ==> crowd.contains(x.dr_pointer))
    }
    spec fn roles(t: TV, ooc: Seq<PublicKeyHash>, er: Seq<PublicKeyHash>, k: PublicKeyHash) -> bool {
        &&& t.any() ==> (t.good().contains(k) <==> t.rv.to_set().contains(k) && !ooc.contains(k))
        &&& t.any() ==> (t.excused().contains(k) <==> t.rv.to_set().contains(k) && ooc.contains(k) && er.contains(k))
        &&& !t.any() ==> (ooc.contains(k) <==> t.c.contains(k))
        &&& !(t.good().contains(k) && t.excused().contains(k))
    }
    // who was paid what follows from the two lists of the tally
    proof fn role(t: TV, ooc: Seq<PublicKeyHash>, er: Seq<PublicKeyHash>, k: PublicKeyHash) requires t.ok(), ooc.to_set() == t.out_of_consensus(), er.to_set() == t.in_error().to_set() ensures roles(t, ooc, er, k)
    {
        PROBE(role);
        assert(ooc.to_set().contains(k) <==> ooc.contains(k)); assert(er.to_set().contains(k) <==> er.contains(k)); assert(t.in_error().to_set().contains(k) <==> t.in_error().contains(k));
        assert(t.rv.to_set().contains(k) <==> t.rv.contains(k)); assert(t.rv.to_set().subset_of(t.c));
        if t.any() {
            sets(t, t.n(), k);
            if t.rv.contains(k) { let i = choose|i: int| 0 <= i < t.rv.len() && t.rv[i] == k; assert(t.rv[i] == k); }
        }
    }
    proof fn to_lists(a: Seq<PublicKeyHash>, b: Seq<PublicKeyHash>, k: PublicKeyHash) requires a.to_set() == b.to_set() ensures a.contains(k) <==> b.contains(k)
    { PROBE(to_lists); assert(a.to_set().contains(k) <==> a.contains(k)); assert(b.to_set().contains(k) <==> b.contains(k)); }
    spec fn count_in(a: Seq<PublicKeyHash>, b: Seq<PublicKeyHash>) -> int decreases a.len() { if a.len() == 0 { 0 } else { count_in(a.drop_last(), b) + if b.contains(a.last()) { 1int } else { 0int } } }
    proof fn count_len(a: Seq<PublicKeyHash>, b: Seq<PublicKeyHash>) requires a.no_duplicates() ensures count_in(a, b) == a.to_set().intersect(b.to_set()).len(), 0 <= count_in(a, b) <= a.len(), a.to_set().len() == a.len() decreases a.len()
    {
        PROBE(count_len);
        a.unique_seq_to_set();
        if a.len() > 0 {
            let (p, x) = (a.drop_last(), a.last());
            assert(p.push(x) =~= a); set_push(p, x); count_len(p, b);
            assert(!p.contains(x)); assert(!p.to_set().contains(x));
            assert(b.to_set().contains(x) <==> b.contains(x));
            if b.contains(x) { assert(a.to_set().intersect(b.to_set()) =~= p.to_set().intersect(b.to_set()).insert(x)); } else { assert(a.to_set().intersect(b.to_set()) =~= p.to_set().intersect(b.to_set())); }
        } else { assert(a.to_set().intersect(b.to_set()) =~= Set::empty()); }
    }
    // the two lists tell how many lied and how many were in error
    proof fn lists_tell(t: TV, ooc: Seq<PublicKeyHash>, er: Seq<PublicKeyHash>) requires t.ok(), t.fork2, ooc.no_duplicates(), ooc.to_set() == t.out_of_consensus(), er.to_set() == t.in_error().to_set()
        ensures 0 <= count_in(ooc, er) <= ooc.len() <= t.c.len(), t.any() ==> ooc.len() - count_in(ooc, er) == t.lies() && ooc.len() == t.c.len() - t.honest() && count_in(ooc, er) == t.wrong() && t.honest() == t.good().len() && t.wrong() == t.excused().len(), !t.any() ==> ooc.len() == t.c.len() && t.honest() == 0,
            t.reward() == reward_of(t.c.len() as int, ooc.len() - count_in(ooc, er), count_in(ooc, er), t.o.witness_reward, t.coll, !t.wip23), t.n() <= t.c.len(), t.honest() <= t.n(), t.honest() >= 0
    {
        PROBE(lists_tell);
        count_len(ooc, er); sizes(t, t.n()); counts(t.l, t.e, t.n()); subset_len(t.rv, t.c);
        if t.any() {
            assert forall|k: PublicKeyHash| ooc.to_set().intersect(er.to_set()).contains(k) <==> t.excused().contains(k) by { role(t, ooc, er, k); sets(t, t.n(), k); assert(t.in_error().to_set().contains(k) <==> t.in_error().contains(k)); assert(er.to_set().contains(k) <==> er.contains(k)); assert(ooc.to_set().contains(k) <==> ooc.contains(k)); assert(t.rv.to_set().contains(k) <==> t.rv.contains(k)); }
            assert(ooc.to_set().intersect(er.to_set()) =~= t.excused());
        }
    }
    proof fn map_push(o: Outs, x: ValueTransferOutput) ensures pkhs(o.push(x)) == pkhs(o).push(x.pkh), sum(o.push(x)) == sum(o) + x.value
    { PROBE(map_push); assert(pkhs(o.push(x)) =~= pkhs(o).push(x.pkh)); assert(o.push(x).drop_last() =~= o); }
    proof fn partly_push(t: TV, o: Outs, x: ValueTransferOutput) requires t.partly(o), t.pays(x), !pkhs(o).to_set().contains(x.pkh) ensures t.partly(o.push(x)), pkhs(o.push(x)).to_set() == pkhs(o).to_set().insert(x.pkh)
    {
        PROBE(partly_push);
        map_push(o, x); set_push(pkhs(o), x.pkh);
        assert forall|i: int| 0 <= i < o.push(x).len() implies #[trigger] t.pays(o.push(x)[i]) by { if i < o.len() { assert(t.pays(o[i])); } }
        assert forall|i: int, j: int| 0 <= i < j < pkhs(o.push(x)).len() implies pkhs(o.push(x))[i] != pkhs(o.push(x))[j] by { assert(pkhs(o)[i] == pkhs(o.push(x))[i]); assert(pkhs(o).contains(pkhs(o)[i])); }
    }
    // distinct outputs of this kind are never worth more than all that is owed
    proof fn partly_sum(t: TV, o: Outs) requires t.ok(), t.partly(o), t.good().disjoint(t.excused())
        ensures sum(o) == pkhs(o).to_set().intersect(t.good()).len() * t.reward().0 + pkhs(o).to_set().intersect(t.excused()).len() * t.coll, pkhs(o).to_set().subset_of(t.good().union(t.excused())) decreases o.len()
    {
        PROBE(partly_sum);
        let (s, g, e) = (pkhs(o).to_set(), t.good(), t.excused());
        if o.len() > 0 {
            let (p, x) = (o.drop_last(), o.last()); let s0 = pkhs(p).to_set();
            assert(p.push(x) =~= o); map_push(p, x);
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies pkhs(p)[i] != pkhs(p)[j] by { assert(pkhs(o)[i] == pkhs(p)[i] && pkhs(o)[j] == pkhs(p)[j]); }
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] t.pays(p[i]) by { assert(t.pays(o[i])); }
            partly_sum(t, p); set_push(pkhs(p), x.pkh);
            assert(t.pays(o[o.len() - 1]));
            if s0.contains(x.pkh) { let i = choose|i: int| 0 <= i < p.len() && pkhs(p)[i] == x.pkh; assert(pkhs(o)[i] == pkhs(o)[o.len() - 1]); }
            let (a, b) = (s0.intersect(g).len() as int, s0.intersect(e).len() as int);
            assert((a + 1) * t.reward().0 == a * t.reward().0 + t.reward().0) by (nonlinear_arith); assert((b + 1) * t.coll == b * t.coll + t.coll) by (nonlinear_arith);
            if g.contains(x.pkh) { assert(s.intersect(g) =~= s0.intersect(g).insert(x.pkh)); assert(s.intersect(e) =~= s0.intersect(e)); }
            else { assert(s.intersect(e) =~= s0.intersect(e).insert(x.pkh)); assert(s.intersect(g) =~= s0.intersect(g)); }
            assert(sum(o) == sum(p) + x.value);
            assert(s =~= s0.insert(x.pkh));
        } else {
            assert(s =~= Set::empty()); assert(s.intersect(g) =~= Set::empty()); assert(s.intersect(e) =~= Set::empty());
        }
    }
    proof fn partly_bound(t: TV, o: Outs) requires t.ok(), t.partly(o), t.good().disjoint(t.excused()), t.reward().0 >= 0
        ensures 0 <= sum(o) <= t.owed(), o.len() <= t.good().len() + t.excused().len(), o.len() == t.good().len() + t.excused().len() ==> pkhs(o).to_set() == t.good().union(t.excused())
    {
        PROBE(partly_bound);
        partly_sum(t, o);
        let (s, g, e) = (pkhs(o).to_set(), t.good(), t.excused());
        vstd::set_lib::lemma_len_subset(s.intersect(g), g); vstd::set_lib::lemma_len_subset(s.intersect(e), e);
        let (a, b, x, y) = (s.intersect(g).len() as int, s.intersect(e).len() as int, g.len() as int, e.len() as int);
        assert(0 <= a * t.reward().0 <= x * t.reward().0) by (nonlinear_arith) requires 0 <= a <= x, t.reward().0 >= 0; assert(0 <= b * t.coll <= y * t.coll) by (nonlinear_arith) requires 0 <= b <= y, t.coll >= 0;
        pkhs(o).unique_seq_to_set();
        vstd::set_lib::lemma_set_disjoint_lens(g, e); assert(g.union(e) =~= g + e);
        vstd::set_lib::lemma_len_subset(s, g.union(e));
        if o.len() == x + y { vstd::set_lib::lemma_subset_equality(s, g.union(e)); }
    }
    // what the request holds covers all that is owed, the change and the fees
    proof fn worth(t: TV, r: Outs) requires t.ok(), t.paid(r), t.fork2
        ensures !t.staked ==> t.owed() + t.change() + t.o.commit_and_reveal_fee * (t.c.len() + t.n()) + t.reward().1 + t.burned() == price(t.o) + t.coll * t.c.len(),
            !t.staked ==> r.len() == t.good().len() + t.excused().len() + if t.change() > 0 { 1int } else { 0int }, t.staked ==> r.len() == if t.change() > 0 { 1int } else { 0int },
            t.good().disjoint(t.excused()), t.reward().0 >= 0, t.reward().1 >= 0, t.change() >= 0, t.burned() >= 0, t.o.commit_and_reveal_fee * (t.c.len() + t.n()) >= 0, t.owed() >= 0, 0 <= t.change() <= price(t.o)
    {
        PROBE(worth);
        let (n, c, h, w, l) = (t.n(), t.c.len() as int, t.honest(), t.wrong(), t.lies());
        counts(t.l, t.e, n); subset_len(t.rv, t.c); change_fits(t.o, c, n, h); sizes(t, n);
        assert forall|k: PublicKeyHash| t.good().contains(k) && t.excused().contains(k) implies false by { if t.any() { sets(t, n, k); } }
        let (x, coll, g, e) = (t.reward().0, t.coll, t.good().len() as int, t.excused().len() as int);
        if t.any() {
            shares(c, l, w, t.o.witness_reward, coll); pays_len(t.rv, t.l, t.e, x as u64, coll, n);
            assert(coll * c == coll * h + coll * w + coll * l) by (nonlinear_arith) requires c == h + w + l;
            if t.wip23 { assert(h * x == t.o.witness_reward * h + coll * h) by (nonlinear_arith) requires x == t.o.witness_reward + coll; }
            else { let y = coll * l / h; assert(h * x == t.o.witness_reward * h + coll * h + h * y) by (nonlinear_arith) requires x == t.o.witness_reward + coll + y; }
            assert(w * coll == coll * w) by (nonlinear_arith);
        } else { assert(h == 0); assert(0 * x == 0); assert(c * coll == coll * c) by (nonlinear_arith); assert(t.o.witness_reward * 0 == 0); }
        assert(g * x >= 0) by (nonlinear_arith) requires g >= 0, x >= 0; assert(e * coll >= 0) by (nonlinear_arith) requires e >= 0, coll >= 0;
        assert(coll * l >= 0) by (nonlinear_arith) requires l >= 0, coll >= 0;
    }
    """)
    u.emit_fn(va, "calculate_liars_and_errors_count_from_tally", ret="r", cty="(usize, usize)", desugar=["fold"], subst=[(r"tally_tx\.error_committers\.contains\(x\)", "listed(&tally_tx.error_committers, x)")],
        loops={0: dict(inv="it0.seq().unref() == tally_tx.out_of_consensus@, tally_tx.out_of_consensus@.len() <= usize::MAX, __acc.1 == count_in(tally_tx.out_of_consensus@.take(it0.index@), tally_tx.error_committers@), __acc.0 + __acc.1 == it0.index@, 0 <= __acc.1", before="assert(tally_tx.out_of_consensus.len() == tally_tx.out_of_consensus@.len());",
            start="proof { let i = it0.index@; let o = tally_tx.out_of_consensus@; assert(o.take(i + 1).drop_last() =~= o.take(i)); assert(o.take(i + 1).last() == o[i]); }", after="proof { assert(tally_tx.out_of_consensus@.take(tally_tx.out_of_consensus@.len() as int) =~= tally_tx.out_of_consensus@); }")},
        spec="ensures r.1 == count_in(tally_tx.out_of_consensus@, tally_tx.error_committers@), r.0 + r.1 == tally_tx.out_of_consensus@.len()")
    INV = """pkh_rewarded@ == pkhs(done).to_set(), t.partly(done), t.staked ==> done.len() == 0, total_tally_value == sum(done) + if last { t.change() } else { 0 }, __i0 <= ta_tx.outputs@.len(),
        last ==> __i0 == ta_tx.outputs@.len() && t.change() > 0 && done.push(out(t.pkh, t.change() as u64)) == ta_tx.outputs@, !last ==> done == ta_tx.outputs@.take(__i0 as int)"""
    START = """let ghost x = ta_tx.outputs@[__i0 as int]; let ghost ch = expected_tally_change > 0 && __i0 == ta_tx.outputs@.len() - 1 && x.pkh == dr_state.pkh;
        proof { role(t, ooc, er, x.pkh); assert(ta_tx.outputs@.take(__i0 as int + 1) =~= ta_tx.outputs@.take(__i0 as int).push(x)); map_push(done, x); if !t.staked { partly_bound(t, done); }
            assert(t.rv.to_set().contains(x.pkh) <==> dr_state.info.reveals@.contains_key(x.pkh)); assert(ta_tx.outputs@.take(ta_tx.outputs@.len() as int) =~= ta_tx.outputs@); }"""
    END = """proof { if ch { last = true; } else { done = done.push(x); } }"""
    u.emit_fn(va, "validate_tally_transaction", ret="r", sig_subst=[(r"anyhow::Error", "AnyError")],
        subst=[(r"witnet_data_structures::DEFAULT", "DEFAULT"), (r"(sorted_\w+) != (sorted_\w+)", r"!same_list(&\1, &\2)"), (r"(sorted_\w+) == (sorted_\w+)", r"same_list(&\1, &\2)"), (r"(\w+\.tally) != (\w+\.tally)", r"!same_bytes(&\1, &\2)"), (r"(\w+\.tally) == (\w+\.tally)", r"same_bytes(&\1, &\2)"), (r"(\w+\s*\.\s*\w+)\s*\.(?:iter\(\)\s*\.cloned|into_iter)\(\)\s*\.sorted\(\)\s*\.collect\(\)", r"sorted_vec(&\1)"),
            (r"(sorted_\w+)\.contains\(", r"listed(&\1, "), (r"ta_tx\.outputs\.iter\(\)\.collect\(\)", "all_outputs(&ta_tx.outputs)"), (r"u64::from\(([\w.]+)\)", r"(\1 as u64)")],
        desugar=["index"], start="let ghost vc = validator_count;",
        before=[(r"let \(expected_ta_tx, dr_state\) =", "proof { assert(dr_pool.data_request_pool@ =~= old(dr_pool).data_request_pool@); }"),
            (r"let commits_count =", """let ghost ooc = ta_tx.out_of_consensus@; let ghost er = ta_tx.error_committers@;
                proof { same_items(sorted_out_of_consensus@, ooc); same_items(x1.0, sorted_expected_out_of_consensus@); same_items(sorted_error@, er); same_items(x1.1, sorted_expected_error@);
                    sorted_expected_out_of_consensus@.to_multiset_ensures(); ooc.to_multiset_ensures();
                    same_items(sorted_out_of_consensus@, sorted_expected_out_of_consensus@);
                    lists_tell(t, ooc, er); worth(t, x0); t.rv.unique_seq_to_set(); }"""),
            (r"if is_after_second_hard_fork && output.time_lock", "proof { to_lists(sorted_out_of_consensus@, ooc, output.pkh); to_lists(sorted_error@, er, output.pkh); }"),
            (r"total_tally_value \+=", "proof { if ch { assert(x == out(t.pkh, t.change() as u64)); } else { assert(t.pays(x)); partly_push(t, done, x); if !t.staked { partly_bound(t, done.push(x)); } } }"),
            (r"let expected_collateral_value =", """proof { let (k, w, l, f, c, n) = (t.coll as int, t.o.witnesses as int, liars_count as int, t.o.commit_and_reveal_fee as int, t.c.len() as int, t.n());
                assert(0 <= k * (w - l) <= k * w && k * (w - l) == k * w - k * l) by (nonlinear_arith) requires 0 <= l <= w, k >= 0;
                assert(f * (c + n) == c * f + n * f && c * f >= 0 && n * f >= 0) by (nonlinear_arith) requires f >= 0, c >= 0, n >= 0; }"""),
            (r"let expected_tally_value =", """proof { let (r, w, f, c, n, h) = (t.o.witness_reward as int, t.o.witnesses as int, t.o.commit_and_reveal_fee as int, t.c.len() as int, t.n(), t.honest());
                assert(0 <= w * r == r * w && (w - c) * f == f * (w - c) >= 0 && (w - n) * f == f * (w - n) >= 0 && (c - n) * f == f * (c - n) >= 0 && (c - h) * r == r * (c - h) >= 0 && f * 0 == 0 && r * (w - h) >= 0) by (nonlinear_arith) requires 0 <= h <= n <= c <= w, r >= 0, f >= 0; }""")],
        after=[(r"let \(expected_ta_tx, dr_state\) =", "let ghost t = choose|t: TV| #[trigger] tallied(t, dr_state, ta_tx.dr_pointer, consensus_constants.collateral_minimum, *active_wips, protocol_version, too_many_witnesses) && t.is(expected_ta_tx); let ghost x0 = expected_ta_tx.outputs@; let ghost x1 = (expected_ta_tx.out_of_consensus@, expected_ta_tx.error_committers@);"),
            (r"^if protocol_version < ", """proof { let o = ta_tx.outputs@;
                assert(o.len() == t.good().len() + t.excused().len() + (if t.change() > 0 { 1int } else { 0int }) || t.staked);
                assert(t.change() > 0 <==> last);
                if last { assert(done.push(out(t.pkh, t.change() as u64)).drop_last() =~= done); }
                assert(t.rest(o) == done);
                assert(!t.staked ==> pkhs(done).to_set() == t.good().union(t.excused()));
                assert(sum(o) == total_tally_value);
                assert(!t.staked ==> t.burned() == t.coll * t.c.len() - expected_collateral_value);
                assert(!t.staked ==> sum(o) + t.o.commit_and_reveal_fee * (t.c.len() + t.n()) + tally_extra_fee + t.burned() == price(t.o) + t.coll * t.c.len());
                assert(t.staked ==> sum(o) == t.change());
                assert(t.settled(*ta_tx, tally_extra_fee as int));
                assert(accepted(t, *ta_tx, dr_state, consensus_constants.collateral_minimum, *active_wips, protocol_version, vc, data_requests_with_too_many_witnesses@)); }""")],
        loops={0: dict(attr="#[verifier::loop_isolation(false)]", inv=INV, dec="ta_tx.outputs@.len() - __i0", start=START, end=END, before="let ghost mut done: Outs = Seq::empty(); let ghost mut last = false; proof { assert(pkhs(done) =~= Seq::empty()); assert(pkhs(done).to_set() =~= Set::empty()); assert(ta_tx.outputs@.take(0) =~= done); assert(sum(done) == 0); }",
            after="proof { assert(ta_tx.outputs@.take(ta_tx.outputs@.len() as int) =~= ta_tx.outputs@); if !t.staked { partly_bound(t, done); } map_push(done, out(t.pkh, t.change() as u64)); }")},
        spec="""requires old(dr_pool).data_request_pool@.contains_key(ta_tx.dr_pointer) ==> old(dr_pool).data_request_pool@[ta_tx.dr_pointer].ok(consensus_constants.collateral_minimum), fork2(*active_wips)
            ensures final(dr_pool).data_request_pool@ == old(dr_pool).data_request_pool@, match r { Ok((o, fee)) => o@.unref() == ta_tx.outputs@ && old(dr_pool).data_request_pool@.contains_key(ta_tx.dr_pointer) && ({ let s = old(dr_pool).data_request_pool@[ta_tx.dr_pointer]; s.stage == DataRequestStage::TALLY
                && exists|t: TV| #[trigger] accepted(t, *ta_tx, s, consensus_constants.collateral_minimum, *active_wips, protocol_version, validator_count, data_requests_with_too_many_witnesses@) && t.settled(*ta_tx, fee as int) }), Err(_) => true }""")
    u.close()


def build(u):
    x = Extract([CH, DR, TX, VA], stubs=["Hash", "PublicKeyHash", "RADRequest", "RADTally", "CommitTransaction", "RevealTransaction", "ProtocolVersion", "get_environment", "Environment", "ActiveWips", "TransactionError", "DataRequestError", "DataRequestPool",
                                         "concatenate_and_hash", "get_protocol_version_activation_epoch", "Epoch", "RadonReport", "RadonTypes", "Stage", "TypeLike", "TallyMetaData", "ReportContext", "MemoHash", "run_tally_panic_safe", "tally_bytes_on_encode_error", "ConsensusConstants", "DEFAULT_VALIDATOR_COUNT_FOR_TESTS", "Hashable", "VersionedHashable", "Serialize", "Deserialize", "log", "izip", "hex"],
                traits=["Debug"], no=["DataRequestPool::get_all_reveals", "DataRequestPool::new"])
    t = x.build(["validate_tally_transaction", "create_expected_tally_transaction", "DataRequestPool::data_request_state", "DataRequestPool::data_request_state_mutable", "DataRequestPool::get_reveals"])
    return HEADER + "macro_rules! izip { ($a:expr, $b:expr, $c:expr) => { $a.into_iter().zip($b).zip($c).map(|((x, y), z)| (x, y, z)) } }\npub struct ConsensusConstants { collateral_minimum: u64 }\n" + t


harness = dict(kind="extract", name="d02", build=build, main="d02.rs", edition="2024")
