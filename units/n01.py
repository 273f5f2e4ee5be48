from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "N01"
SE, BO, PE, ER = "p2p/src/sessions/mod.rs", "p2p/src/sessions/bounded_sessions.rs", "p2p/src/peers/mod.rs", "p2p/src/error.rs"
FILES = [SE, BO]
RULE = "limits of 0 to 4, sequences of up to 60 registrations, consolidations, consensus marks and removals of every kind over a handful of addresses (some sharing a network range, IPv4 and IPv6)"
ASSUMPTIONS = ["std HashMap and HashSet behave as maps and sets over socket addresses and address ranges",
               "limits are set before sessions exist (or not below the number of sessions there are), and so is the range limit", "cloning a session reference gives the same reference"]
NOTE = "The random choice of a session (get_random_anycast_session) and the listings (show_ips, get_consolidated_sessions_addr) are not covered."
KEYS = lambda its, n, r: "keys_vec(&%s)" % __import__("re").sub(r"\s*\.keys\(\)\s*$", "", its.strip())
C = [(r"(session_info\.reference)\.clone\(\)", r"cl(&\1)")]


RA = [(r"range\[\.\.4\]\.copy_from_slice\(&range_vec\);", "range = range_vec;")]


def verus(u):
    s, b, er = u.src(SE), u.src(BO), u.src(ER)
    u.no_inline.update(["get_range_address"])
    u.result_fns.update(["unregister_session", "register_session"])
    u.file("sessions", LIGHT_PRELUDE)
    u.emit("""
    global size_of usize == 8;
    struct SocketAddr { x: u64 }
    impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> Self { *self } }
    impl Copy for SocketAddr {}
    impl vstd::std_specs::cmp::PartialEqSpecImpl for SocketAddr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for SocketAddr { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for SocketAddr {}
    impl std::hash::Hash for SocketAddr { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    mod km { use super::*;
        pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SocketAddr>();
        pub broadcast axiom fn k2() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<[u8; 4]>();
    }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, km::k1, km::k2};
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    #[verifier::external_body] fn keys_vec<'a, V>(m: &'a HashMap<SocketAddr, V>) -> (r: Vec<&'a SocketAddr>) ensures r@.unref().to_set() == m@.dom() { unimplemented!() }
    #[verifier::external_body] fn same4(a: &[u8; 4], b: &[u8; 4]) -> (r: bool) ensures r == (a == b) { a == b }
    uninterp spec fn range_of(a: SocketAddr, limit: u8) -> [u8; 4];
    #[verifier::external_body] fn get_range_address(a: &SocketAddr, limit: u8) -> (r: [u8; 4]) ensures r == range_of(*a, limit) { unimplemented!() }
    """)
    u.emit_raw(u.struct_text(er, "SessionsError", derive=""))
    u.emit_raw(u.struct_text(s, "SessionType", derive="Clone, Copy, PartialEq, Eq, Structural"))
    u.emit_raw(u.struct_text(s, "SessionStatus", derive="Clone, Copy, PartialEq, Eq, Structural"))
    u.emit_raw(u.struct_text(b, "SessionInfo"))
    u.emit_raw(u.struct_text(b, "BoundedSessions"))
    u.emit_raw(u.struct_text(s, "NetworkRangesCollection"))
    u.emit_raw(u.struct_text(s, "Sessions"))
    u.emit("""
    struct SV<T> { ic: (Option<u16>, Coll<T>), iu: (Option<u16>, Coll<T>), oc: (Option<u16>, Coll<T>), ou: (Option<u16>, Coll<T>), cc: (Option<u16>, Coll<T>), ranges: Set<[u8; 4]>, rl: u8, public: Option<SocketAddr>, magic: u16 }
    spec fn fits<T>(b: (Option<u16>, Coll<T>)) -> bool { b.0 is Some ==> b.1.len() <= b.0->0 }
    impl<T> SV<T> {
        spec fn is_in(&self, a: SocketAddr) -> bool { self.iu.1.contains_key(a) || self.ic.1.contains_key(a) }
        spec fn ranges_ok(&self) -> bool {
            &&& forall|a: SocketAddr| #[trigger] self.is_in(a) ==> self.ranges.contains(range_of(a, self.rl))
            &&& forall|g: [u8; 4]| #[trigger] self.ranges.contains(g) ==> exists|a: SocketAddr| self.is_in(a) && #[trigger] range_of(a, self.rl) == g
        }
        spec fn ok(&self) -> bool {
            &&& fits(self.ic) && fits(self.oc) && fits(self.cc)
            &&& forall|a: SocketAddr| #[trigger] self.cc.1.contains_key(a) ==> self.oc.1.contains_key(a) && self.cc.1[a] == self.oc.1[a]
            &&& self.ranges_ok()
            &&& self.iu.0 is None && self.ou.0 is None
        }
    }
    proof fn range_taken<T>(s: SV<T>, t: SV<T>, a: SocketAddr) requires s.ranges_ok(), t.rl == s.rl, t.ranges == s.ranges.insert(range_of(a, s.rl)), t.is_in(a), forall|x: SocketAddr| #[trigger] t.is_in(x) <==> s.is_in(x) || x == a ensures t.ranges_ok()
    {
        PROBE(range_taken);
        assert forall|g: [u8; 4]| #[trigger] t.ranges.contains(g) implies exists|x: SocketAddr| t.is_in(x) && #[trigger] range_of(x, t.rl) == g by {
            if g == range_of(a, s.rl) { assert(t.is_in(a)); } else { let x = choose|x: SocketAddr| s.is_in(x) && #[trigger] range_of(x, s.rl) == g; assert(t.is_in(x)); }
        }
    }
    proof fn range_same<T>(s: SV<T>, t: SV<T>) requires s.ranges_ok(), t.rl == s.rl, t.ranges == s.ranges, forall|x: SocketAddr| #[trigger] t.is_in(x) <==> #[trigger] s.is_in(x) ensures t.ranges_ok()
    {
        PROBE(range_same);
        assert forall|x: SocketAddr| #[trigger] t.is_in(x) implies t.ranges.contains(range_of(x, t.rl)) by { assert(s.is_in(x)); }
        assert forall|g: [u8; 4]| #[trigger] t.ranges.contains(g) implies exists|x: SocketAddr| t.is_in(x) && #[trigger] range_of(x, t.rl) == g by { let x = choose|x: SocketAddr| s.is_in(x) && #[trigger] range_of(x, s.rl) == g; assert(t.is_in(x)); }
    }
    proof fn range_left<T>(s: SV<T>, t: SV<T>, a: SocketAddr)
        requires s.ranges_ok(), t.rl == s.rl, forall|x: SocketAddr| #[trigger] t.is_in(x) ==> s.is_in(x), forall|x: SocketAddr| #[trigger] s.is_in(x) ==> t.is_in(x) || x == a,
                 t.ranges == (if exists|x: SocketAddr| t.is_in(x) && #[trigger] range_of(x, t.rl) == range_of(a, t.rl) { s.ranges } else { s.ranges.remove(range_of(a, s.rl)) })
        ensures t.ranges_ok()
    {
        PROBE(range_left);
        assert forall|x: SocketAddr| #[trigger] t.is_in(x) implies t.ranges.contains(range_of(x, t.rl)) by { assert(s.is_in(x)); }
        assert forall|g: [u8; 4]| #[trigger] t.ranges.contains(g) implies exists|x: SocketAddr| t.is_in(x) && #[trigger] range_of(x, t.rl) == g by {
            let x = choose|x: SocketAddr| s.is_in(x) && #[trigger] range_of(x, s.rl) == g; assert(t.is_in(x) || x == a);
            if !t.is_in(x) { assert(g == range_of(a, t.rl)); }
        }
    }
    type Coll<T> = Map<SocketAddr, SessionInfo<T>>;
    impl<T> BoundedSessions<T> {
        spec fn v(&self) -> (Option<u16>, Coll<T>) { (self.limit, self.collection@) }
        spec fn full(&self) -> bool { self.limit is Some && self.collection@.len() >= self.limit->0 }
        spec fn within(&self) -> bool { self.limit is Some ==> self.collection@.len() <= self.limit->0 }
        // what registering does
        spec fn registered(&self, next: &Self, a: SocketAddr, x: T, r: Result<(), SessionsError>) -> bool {
            &&& next.limit == self.limit
            &&& match r {
                Ok(_) => !self.full() && !self.collection@.contains_key(a) && next.collection@ == self.collection@.insert(a, SessionInfo { reference: x }),
                Err(e) => next.collection@ == self.collection@ && (if self.full() { e is MaxPeersReached } else { self.collection@.contains_key(a) && e is AddressAlreadyRegistered }),
            }
        }
        spec fn unregistered(&self, next: &Self, a: SocketAddr) -> bool { next.limit == self.limit && next.collection@ == self.collection@.remove(a) }
    }
    proof fn still_within<T>(s: BoundedSessions<T>, t: BoundedSessions<T>, a: SocketAddr, x: T, r: Result<(), SessionsError>) requires s.within(), s.registered(&t, a, x, r) ensures t.within()
    { PROBE(still_within); if r is Ok { assert(s.collection@.insert(a, SessionInfo { reference: x }).dom() =~= s.collection@.dom().insert(a)); } }
    """)
    u.emit_impl("<T> BoundedSessions<T>", [
        u.fn(b, "BoundedSessions::set_limit", spec="ensures final(self).limit == Some(limit), final(self).collection == old(self).collection"),
        u.fn(b, "BoundedSessions::register_session", ret="r", desugar=["opt_map"], spec="ensures old(self).registered(final(self), address, reference, r), old(self).within() ==> final(self).within()",
             end="proof { if old(self).within() { assert(old(self).collection@.insert(address, SessionInfo { reference: reference }).dom() =~= old(self).collection@.dom().insert(address)); } }"),
        u.fn(b, "BoundedSessions::unregister_session", ret="r", spec="""ensures old(self).unregistered(final(self), address), old(self).within() ==> final(self).within(),
            (match r { Ok(i) => old(self).collection@.contains_key(address) && i == old(self).collection@[address], Err(e) => !old(self).collection@.contains_key(address) && e is AddressNotFound && final(self).collection@ == old(self).collection@ })""")])
    u.emit_impl(" NetworkRangesCollection", [
        u.fn(s, "NetworkRangesCollection::insert_range", spec="ensures final(self).inner@ == old(self).inner@.insert(range), final(self).range_limit == old(self).range_limit"),
        u.fn(s, "NetworkRangesCollection::remove_range", spec="ensures final(self).inner@ == old(self).inner@.remove(range), final(self).range_limit == old(self).range_limit"),
        u.fn(s, "NetworkRangesCollection::contains_range", ret="r", spec="ensures (match r { Some(x) => *x == range && self.inner@.contains(range), None => !self.inner@.contains(range) })"),
        u.fn(s, "NetworkRangesCollection::insert_address", subst=RA, spec="ensures final(self).inner@ == old(self).inner@.insert(range_of(*address, old(self).range_limit)), final(self).range_limit == old(self).range_limit"),
        u.fn(s, "NetworkRangesCollection::remove_address", subst=RA, spec="ensures final(self).inner@ == old(self).inner@.remove(range_of(*address, old(self).range_limit)), final(self).range_limit == old(self).range_limit"),
        u.fn(s, "NetworkRangesCollection::contains_address", subst=RA, ret="r", spec="ensures (match r { Some(x) => *x == range_of(*address, self.range_limit) && self.inner@.contains(*x), None => !self.inner@.contains(range_of(*address, self.range_limit)) })"),
        u.fn(s, "NetworkRangesCollection::set_range_limit", spec="ensures final(self).range_limit == range_limit, final(self).inner == old(self).inner"),
        u.fn(s, "NetworkRangesCollection::are_in_same_range", ret="r", subst=[(r"(get_range_address\([^()]*\)) == (get_range_address\([^()]*\))", r"same4(&\1, &\2)")], spec="ensures r == (range_of(*one, self.range_limit) == range_of(*other, self.range_limit))")])
    u.emit("""
    impl<T: Clone> Sessions<T> {
        // every limit is respected, the consensus sessions are consolidated ones, the ranges are those of the inbound sessions
        spec fn inv(&self) -> bool { self.v().ok() }
        spec fn is_in(&self, a: SocketAddr) -> bool { self.v().is_in(a) }
        spec fn at(&self, t: SessionType, s: SessionStatus) -> BoundedSessions<T> {
            match t { SessionType::Inbound => match s { SessionStatus::Unconsolidated => self.inbound_unconsolidated, SessionStatus::Consolidated => self.inbound_consolidated },
                      _ => match s { SessionStatus::Unconsolidated => self.outbound_unconsolidated, SessionStatus::Consolidated => self.outbound_consolidated } }
        }
        spec fn with(&self, t: SessionType, s: SessionStatus, b: BoundedSessions<T>) -> Self {
            match t { SessionType::Inbound => match s { SessionStatus::Unconsolidated => Sessions { inbound_unconsolidated: b, ..*self }, SessionStatus::Consolidated => Sessions { inbound_consolidated: b, ..*self } },
                      _ => match s { SessionStatus::Unconsolidated => Sessions { outbound_unconsolidated: b, ..*self }, SessionStatus::Consolidated => Sessions { outbound_consolidated: b, ..*self } } }
        }
        spec fn v(&self) -> SV<T> { SV { ic: self.inbound_consolidated.v(), iu: self.inbound_unconsolidated.v(), oc: self.outbound_consolidated.v(), ou: self.outbound_unconsolidated.v(), cc: self.outbound_consolidated_consensus.v(),
            ranges: self.inbound_network_ranges.inner@, rl: self.inbound_network_ranges.range_limit, public: self.public_address, magic: self.magic_number } }
    }
    """)
    u.emit_impl("<T: Clone> Sessions<T>", [
        u.fn(s, "Sessions::get_sessions", ret="r", spec="""ensures match r { Ok(b) => !(session_type is Feeler) && *b == old(self).at(session_type, status) && *final(self) == old(self).with(session_type, status, *final(b)),
            Err(e) => session_type is Feeler && e is NotExpectedFeelerPeer && *final(self) == *old(self) }"""),
        u.fn(s, "Sessions::set_limits", spec="ensures final(self).v() == (SV { ic: (Some(inbound_limit), old(self).v().ic.1), oc: (Some(outbound_consolidated_limit), old(self).v().oc.1), cc: (Some(outbound_consolidated_limit), old(self).v().cc.1), ..old(self).v() })"),
        u.fn(s, "Sessions::register_session", ret="r", end="proof { if session_type is Inbound { range_taken(old(self).v(), self.v(), address); } else { range_same(old(self).v(), self.v()); } }", spec="""requires old(self).inv() ensures final(self).inv(), match (session_type, r) {
            (SessionType::Inbound, Ok(_)) => !old(self).v().iu.1.contains_key(address) && final(self).v() == (SV { iu: (None, old(self).v().iu.1.insert(address, SessionInfo { reference })), ranges: old(self).v().ranges.insert(range_of(address, old(self).v().rl)), ..old(self).v() }),
            (SessionType::Outbound, Ok(_)) => !old(self).v().ou.1.contains_key(address) && final(self).v() == (SV { ou: (None, old(self).v().ou.1.insert(address, SessionInfo { reference })), ..old(self).v() }),
            (SessionType::Feeler, Ok(_)) => false,
            (_, Err(e)) => final(self).v() == old(self).v() && (session_type is Feeler || old(self).at(session_type, SessionStatus::Unconsolidated).collection@.contains_key(address)) }"""),
        u.fn(s, "Sessions::consensus_session", ret="r", end="proof { range_same(old(self).v(), self.v()); }", subst=C, spec="""requires old(self).inv() ensures final(self).inv(), match r {
            Ok(_) => old(self).v().oc.1.contains_key(address) && !old(self).v().cc.1.contains_key(address) && final(self).v() == (SV { cc: (old(self).v().cc.0, old(self).v().cc.1.insert(address, old(self).v().oc.1[address])), ..old(self).v() }),
            Err(e) => final(self).v() == old(self).v() && (!old(self).v().oc.1.contains_key(address) || old(self).v().cc.1.contains_key(address) || old(self).outbound_consolidated_consensus.full()) }"""),
        u.fn(s, "Sessions::unconsensus_session", ret="r", end="proof { range_same(old(self).v(), self.v()); }", desugar=["opt_map"], spec="""requires old(self).inv() ensures final(self).inv(), final(self).v() == (SV { cc: (old(self).v().cc.0, old(self).v().cc.1.remove(address)), ..old(self).v() }),
            r is Ok <==> old(self).v().cc.1.contains_key(address)"""),
        u.fn(s, "Sessions::unregister_session", ret="r", start="proof { let cc = self.v().cc.1; assert(cc.contains_key(address) ==> self.v().oc.1.contains_key(address)); if !cc.contains_key(address) { assert(cc.remove(address) =~= cc); } }", end="proof { if session_type is Inbound { range_left(old(self).v(), self.v(), address); } else { range_same(old(self).v(), self.v()); } }", desugar=["any"], loops={k: dict(iter_as=KEYS, inv_except_break="!__r, forall|i: int| 0 <= i < it%d.index@ ==> range_of(#[trigger] it%d.seq().unref()[i], self.v().rl) != range_of(address, self.v().rl)" % (k, k),
                inv="it%d.seq().unref().to_set() == self.%s.collection@.dom(), ranges.range_limit == self.v().rl" % (k, m),
                ensures="__r <==> exists|a: SocketAddr| self.%s.collection@.contains_key(a) && #[trigger] range_of(a, self.v().rl) == range_of(address, self.v().rl)" % m, brk="proof { assert(self.%s.collection@.contains_key(*other)) by { assert(it%d.seq().unref()[it%d.index@] == *other); assert(it%d.seq().unref().to_set().contains(*other)); } }" % (m, k, k, k))
                for k, m in ((0, "inbound_unconsolidated"), (1, "inbound_consolidated"))}, spec="""requires old(self).inv() ensures final(self).inv(), match (session_type, status, r) {
            (SessionType::Feeler, _, Ok(_)) => false,
            (SessionType::Inbound, SessionStatus::Unconsolidated, Ok(_)) => old(self).v().iu.1.contains_key(address) && final(self).v() == (SV { iu: (None, old(self).v().iu.1.remove(address)), ranges: final(self).v().ranges, ..old(self).v() }),
            (SessionType::Inbound, SessionStatus::Consolidated, Ok(_)) => old(self).v().ic.1.contains_key(address) && final(self).v() == (SV { ic: (old(self).v().ic.0, old(self).v().ic.1.remove(address)), ranges: final(self).v().ranges, ..old(self).v() }),
            (SessionType::Outbound, SessionStatus::Unconsolidated, Ok(_)) => old(self).v().ou.1.contains_key(address) && final(self).v() == (SV { ou: (None, old(self).v().ou.1.remove(address)), ..old(self).v() }),
            (SessionType::Outbound, SessionStatus::Consolidated, Ok(_)) => old(self).v().oc.1.contains_key(address) && final(self).v() == (SV { oc: (old(self).v().oc.0, old(self).v().oc.1.remove(address)), cc: (old(self).v().cc.0, old(self).v().cc.1.remove(address)), ..old(self).v() }),
            (_, _, Err(e)) => final(self).v() == old(self).v() && (session_type is Feeler || !old(self).at(session_type, status).collection@.contains_key(address)) }"""),
        u.fn(s, "Sessions::consolidate_session", ret="r", start="proof { let (iu, ou) = (self.v().iu.1, self.v().ou.1); if iu.contains_key(address) { assert(iu.remove(address).insert(address, iu[address]) =~= iu); } if ou.contains_key(address) { assert(ou.remove(address).insert(address, ou[address]) =~= ou); } }", end="proof { range_same(old(self).v(), self.v()); }", subst=C, spec="""requires old(self).inv() ensures final(self).inv(), match (session_type, r) {
            (SessionType::Feeler, Ok(_)) => false,
            (SessionType::Inbound, Ok(_)) => old(self).v().iu.1.contains_key(address) && !old(self).v().ic.1.contains_key(address) && !old(self).inbound_consolidated.full()
                && final(self).v() == (SV { iu: (None, old(self).v().iu.1.remove(address)), ic: (old(self).v().ic.0, old(self).v().ic.1.insert(address, old(self).v().iu.1[address])), ..old(self).v() }),
            (SessionType::Outbound, Ok(_)) => old(self).v().ou.1.contains_key(address) && !old(self).v().oc.1.contains_key(address) && !old(self).outbound_consolidated.full()
                && final(self).v() == (SV { ou: (None, old(self).v().ou.1.remove(address)), oc: (old(self).v().oc.0, old(self).v().oc.1.insert(address, old(self).v().ou.1[address])), ..old(self).v() }),
            (_, Err(e)) => final(self).v() == old(self).v() }"""),
        u.fn(s, "Sessions::is_outbound_address_eligible", ret="r", desugar=["opt_map"], spec="ensures r == (!self.v().oc.1.contains_key(candidate_addr) && !self.v().ou.1.contains_key(candidate_addr) && self.public_address != Some(candidate_addr))"),
        u.fn(s, "Sessions::get_num_outbound_sessions", ret="r", spec="requires self.v().oc.1.len() < 0x4000_0000_0000_0000, self.v().ou.1.len() < 0x4000_0000_0000_0000 ensures r == self.v().oc.1.len() + self.v().ou.1.len()"),
        u.fn(s, "Sessions::get_num_inbound_sessions", ret="r", spec="ensures r == self.v().ic.1.len()"),
        u.fn(s, "Sessions::is_outbound_bootstrap_needed", ret="r", desugar=["opt_map"], spec="requires self.v().oc.1.len() < 0x4000_0000_0000_0000, self.v().ou.1.len() < 0x4000_0000_0000_0000 ensures r == (self.v().oc.0 is Some ==> self.v().oc.1.len() + self.v().ou.1.len() < self.v().oc.0->0)"),
        u.fn(s, "Sessions::num_missing_outbound", ret="r", desugar=["opt_map"], spec="requires self.v().oc.1.len() < 0x4000_0000_0000_0000, self.v().ou.1.len() < 0x4000_0000_0000_0000 ensures self.v().oc.0 is Some ==> r == (if self.v().oc.0->0 > self.v().oc.1.len() + self.v().ou.1.len() { self.v().oc.0->0 - (self.v().oc.1.len() + self.v().ou.1.len()) } else { 0 })"),
        u.fn(s, "Sessions::is_similar_to_inbound_session", ret="r", start="proof { let g = range_of(*addr, self.v().rl); assert(self.v().ranges.contains(g) <==> exists|a: SocketAddr| self.is_in(a) && #[trigger] range_of(a, self.v().rl) == g) by { if self.v().ranges.contains(g) { let a = choose|a: SocketAddr| self.v().is_in(a) && #[trigger] range_of(a, self.v().rl) == g; assert(self.is_in(a)); } } }", spec="requires self.inv() ensures r is Some <==> exists|a: SocketAddr| self.is_in(a) && #[trigger] range_of(a, self.v().rl) == range_of(*addr, self.v().rl)"),
    ])
    u.close()


def build(u):
    x = Extract([SE, BO, PE, ER], mods=["bounded_sessions", "sessions", "error", "peers"], traits=[], no=["Sessions::get_random_anycast_session"], stubs=["SocketAddr"])
    return HEADER + x.build(["Sessions::*", "BoundedSessions::*", "NetworkRangesCollection::*", "SessionType", "SessionStatus"])


harness = dict(kind="extract", name="n01", build=build, main="n01.rs")
