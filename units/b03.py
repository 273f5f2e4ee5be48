from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "B03"
VA, EL, VE, CH, SH = "validations/src/validations.rs", "validations/src/eligibility/legacy.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/chain/mod.rs", "data_structures/src/staking/helpers.rs"
FILES = [VA, EL, VE]
RULE = "triples of candidates whose hashes, VRF hashes, reputations, activity and power are drawn from small sets and extremes, 0 to 6 slots (sorted or not), every protocol version"
ASSUMPTIONS = ["the derived order of Hash is the order of the 256-bit numbers its bytes spell (derived Ord on byte arrays is lexicographic)",
               "fewer than 2^32 slots"]
NOTE = "That process_candidate hands over the right reputation, activity and power is not covered."
SL = lambda its, n, r: its


def verus(u):
    v, e, ve, ch = u.src(VA), u.src(EL), u.src(VE), u.src(CH)
    u.file("order", LIGHT_PRELUDE)
    u.need_derives(ch, "Hash", ["Eq", "PartialEq", "PartialOrd", "Ord"])
    u.need_derives(ve, "ProtocolVersion", ["Eq", "PartialEq"])
    u.emit("global size_of usize == 8; pub type SHA256 = [u8; 32]; type Power = u64;")
    u.emit_raw(u.struct_text(ch, "Hash", derive="Clone, Copy").replace("enum Hash", "pub enum Hash"))
    u.emit_raw(u.struct_text(ch, "Reputation", derive="Clone, Copy"))
    u.emit_raw(u.struct_text(ve, "ProtocolVersion", derive="Clone, Copy").replace("enum Pro", "pub enum Pro"))
    u.emit_raw(u.struct_text(e, "VrfSlots"))
    u.emit("""
    pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
    pub open spec fn or_else(o: Ordering, p: Ordering) -> Ordering { if o is Equal { p } else { o } }
    // the number the bytes of a hash spell
    pub open spec fn spelled(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { spelled(s.drop_last()) * 256 + s.last() as int } }
    pub open spec fn num(h: Hash) -> int { match h { Hash::SHA256(b) => spelled(b@) } }
    proof fn spelled_injective(s: Seq<u8>, t: Seq<u8>) requires s.len() == t.len(), spelled(s) == spelled(t) ensures s == t decreases s.len()
    {
        PROBE(spelled_injective);
        if s.len() > 0 {
            let (a, b) = (spelled(s.drop_last()), spelled(t.drop_last()));
            assert(a == b && s.last() == t.last()) by (nonlinear_arith) requires a * 256 + s.last() as int == b * 256 + t.last() as int, 0 <= s.last() < 256, 0 <= t.last() < 256;
            spelled_injective(s.drop_last(), t.drop_last());
            assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last()));
        } else { assert(s =~= t); }
    }
    proof fn num_injective(h: Hash, g: Hash) requires num(h) == num(g) ensures h == g
    { PROBE(num_injective); let Hash::SHA256(a) = h; let Hash::SHA256(b) = g; spelled_injective(a@, b@); assert(a =~= b); }
    // derived orders
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Hash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for Hash { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for Hash {}
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Hash { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(num(*self), num(*o))) } }
    impl PartialOrd for Hash { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
    impl vstd::std_specs::cmp::OrdSpecImpl for Hash { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { cmp_int(num(*self), num(*o)) } }
    impl Ord for Hash { #[verifier::external_body] fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ProtocolVersion { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for ProtocolVersion { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for ProtocolVersion {}
    pub open spec fn age(v: ProtocolVersion) -> int { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 1, ProtocolVersion::V2_0 => 2, ProtocolVersion::V2_1 => 3 } }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for ProtocolVersion { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(cmp_int(age(*self), age(*o))) } }
    pub assume_specification [Ordering::reverse] (o: Ordering) -> (r: Ordering) ensures r == rev(o);
    pub assume_specification [Ordering::then] (o: Ordering, p: Ordering) -> (r: Ordering) ensures r == or_else(o, p);

    // what the order is
    struct Cand { hash: Hash, rep: Reputation, vrf: Hash, active: bool, power: Power }
    spec fn slot_of(s: VrfSlots, h: Hash) -> nat { first_at_least(s.target_hashes@, num(h), 0) }
    spec fn first_at_least(ts: Seq<Hash>, x: int, from: nat) -> nat decreases ts.len() - from
    { if from >= ts.len() { ts.len() as nat } else if x <= num(ts[from as int]) { from } else { first_at_least(ts, x, from + 1) } }
    spec fn flag(a: bool, b: bool) -> Ordering { if a == b { Ordering::Equal } else if a { Ordering::Greater } else { Ordering::Less } }
    spec fn better(v: ProtocolVersion, s: VrfSlots, a: Cand, b: Cand) -> Ordering {
        let ties = or_else(rev(cmp_int(num(a.vrf), num(b.vrf))), rev(cmp_int(num(a.hash), num(b.hash))));
        if age(v) >= 2 { or_else(cmp_int(a.power as int, b.power as int), ties) }
        else { or_else(rev(cmp_int(slot_of(s, a.vrf) as int, slot_of(s, b.vrf) as int)), or_else(flag(a.rep.0 > 0, b.rep.0 > 0), or_else(flag(a.active, b.active), ties))) }
    }
    proof fn antisymmetric(v: ProtocolVersion, s: VrfSlots, a: Cand, b: Cand) ensures better(v, s, a, b) == rev(better(v, s, b, a)) { PROBE(antisymmetric); }
    proof fn transitive(v: ProtocolVersion, s: VrfSlots, a: Cand, b: Cand, c: Cand)
        ensures better(v, s, a, b) is Greater && better(v, s, b, c) is Greater ==> better(v, s, a, c) is Greater,
                better(v, s, a, b) is Equal ==> better(v, s, a, c) == better(v, s, b, c)
    { PROBE(transitive); if num(a.vrf) == num(b.vrf) { num_injective(a.vrf, b.vrf); } if num(b.vrf) == num(c.vrf) { num_injective(b.vrf, c.vrf); } }
    proof fn distinct_blocks_differ(v: ProtocolVersion, s: VrfSlots, a: Cand, b: Cand)
        ensures better(v, s, a, b) is Equal ==> a.hash == b.hash && a.vrf == b.vrf && (age(v) >= 2 ==> a.power == b.power) && (age(v) < 2 ==> a.active == b.active && (a.rep.0 > 0) == (b.rep.0 > 0) && slot_of(s, a.vrf) == slot_of(s, b.vrf))
    { PROBE(distinct_blocks_differ); if num(a.vrf) == num(b.vrf) { num_injective(a.vrf, b.vrf); } if num(a.hash) == num(b.hash) { num_injective(a.hash, b.hash); } }
    """)
    u.emit_impl(" PartialOrd for ProtocolVersion", [u.fn(ve, "ProtocolVersion::partial_cmp", trait="PartialOrd", subst=[(r"use ProtocolVersion::\*;", ""), (r"(?<![\w:])(V[12]_\d)\b", r"ProtocolVersion::\1")], spec="")])
    u.emit_impl(" VrfSlots", [u.fn(e, "VrfSlots::slot", desugar=["position"], skel=[], subst=[(r"u32::try_from\(", "to_u32(")],
        spec="requires self.target_hashes@.len() < 0x1_0000_0000 ensures r as nat == slot_of(*self, *hash)",
        loops={0: dict(iter_as=SL, iter="it0", inv_except_break="__r is None, __n == it0.index@, first_at_least(self.target_hashes@, num(*hash), 0) == first_at_least(self.target_hashes@, num(*hash), __n as nat)",
                       inv="it0.seq().unref() == self.target_hashes@, self.target_hashes@.len() < 0x1_0000_0000",
                       ensures="(match __r { Some(k) => k as nat == slot_of(*self, *hash) && k < self.target_hashes@.len(), None => slot_of(*self, *hash) == self.target_hashes@.len() })")})])
    u.emit("#[verifier::external_body] fn to_u32(x: usize) -> (r: Result<u32, ()>) ensures x < 0x1_0000_0000 ==> r == Ok::<u32, ()>(x as u32) { u32::try_from(x).map_err(|_| ()) }")
    A = "Cand { hash: b%d_hash, rep: b%d_rep, vrf: b%d_vrf_hash, active: b%d_is_active, power: b%d_power }"
    u.emit_fn(v, "compare_block_candidates", skel=[], ret="r", spec="""requires s.target_hashes@.len() < 0x1_0000_0000
        ensures r == better(protocol_version, *s, %s, %s)""" % (A.replace("%d", "1"), A.replace("%d", "2")))
    u.close()


def build(u):
    x = Extract([VA, EL, VE, CH, SH], mods=["eligibility", "legacy", "chain", "tapi"], traits=["Display", "Debug"], no=["From<Sha256> for Hash", "From<Hash> for Sha256"], stubs=["SHA256"])
    return HEADER + "type SHA256 = [u8; 32];\n" + x.build(["compare_block_candidates", "VrfSlots::slot", "VrfSlots::new", "ProtocolVersion", "Hash", "Reputation"])


harness = dict(kind="extract", name="b03", build=build, main="b03.rs")
