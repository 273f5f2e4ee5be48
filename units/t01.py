from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "T01"
ST, CA, WI, SS, ER, HE = ["data_structures/src/" + f for f in ("staking/stake.rs", "capabilities.rs", "wit.rs", "staking/stakes.rs", "staking/errors.rs", "staking/helpers.rs")]

FILES = [ST, CA, WI, SS]
CONST_FNS = ()
RULE = "sequences of stakings, unstakings, collateral reservations, rewards and age resets over a few keys, with amounts and epochs at and around every limit"
ASSUMPTIONS = ["an entry's coins, its products of whole coins and epochs and its total fit in 64 bits", "an entry holds at least one whole coin after staking (the average divides by the whole coins)",
               "the generic code is verified for the types the node uses (coins: Wit, epochs: u32, nonces and powers: u64); the derived ordering of Wit compares the amounts"]
NOTE = "Proved: one entry (Stake, CapabilityMap, Wit). Bounded only: Stakes (the tracker of all entries, shared through Rc<RwLock<..>>) is outside the verifier's reach and decided by the search on the extracted code."


def verus(u):
    st, ca, wi, er = u.src(ST), u.src(CA), u.src(WI), u.src(ER)
    u.file("staking", LIGHT_PRELUDE)
    u.need_derives(wi, "Wit", ["Copy", "PartialEq", "PartialOrd", "Ord"])
    u.emit("""
    use std::ops::*;
    type Epoch = u32;
    type Power = u64;
    pub assume_specification<T>[<T as From<T>>::from](x: T) -> (r: T) ensures r == x;
    pub assume_specification[u64::pow](x: u64, e: u32) -> (r: u64) requires vstd::arithmetic::power::pow(x as int, e as nat) <= u64::MAX ensures r == vstd::arithmetic::power::pow(x as int, e as nat);
    """)
    u.emit_raw(u.const_text(wi, "WIT_DECIMAL_PLACES"))
    u.emit_raw(u.struct_text(wi, "Wit", derive="Clone, Copy, PartialEq, Eq", subst=[(r"struct Wit\(u64\)", "pub struct Wit(pub u64)")]))
    u.emit("""
    impl vstd::std_specs::ops::AddSpecImpl for Wit {
        closed spec fn obeys_add_spec() -> bool { true }
        closed spec fn add_req(self, rhs: Self) -> bool { self.0 + rhs.0 <= u64::MAX }
        closed spec fn add_spec(self, rhs: Self) -> Self { Wit((self.0 + rhs.0) as u64) }
    }
    impl vstd::std_specs::ops::SubSpecImpl for Wit {
        closed spec fn obeys_sub_spec() -> bool { true }
        closed spec fn sub_req(self, rhs: Self) -> bool { self.0 >= rhs.0 }
        closed spec fn sub_spec(self, rhs: Self) -> Self { Wit((self.0 - rhs.0) as u64) }
    }
    impl vstd::std_specs::ops::MulSpecImpl<Epoch> for Wit {
        closed spec fn obeys_mul_spec() -> bool { true }
        closed spec fn mul_req(self, rhs: Epoch) -> bool { self.0 * rhs <= u64::MAX }
        closed spec fn mul_spec(self, rhs: Epoch) -> Power { (self.0 * rhs) as u64 }
    }
    impl vstd::std_specs::convert::FromSpecImpl<Wit> for u64 {
        closed spec fn obeys_from_spec() -> bool { true }
        closed spec fn from_spec(w: Wit) -> u64 { w.0 }
    }
    // the derived ordering
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Wit {
        closed spec fn obeys_partial_cmp_spec() -> bool { true }
        closed spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> { if self.0 < o.0 { Some(std::cmp::Ordering::Less) } else if self.0 > o.0 { Some(std::cmp::Ordering::Greater) } else { Some(std::cmp::Ordering::Equal) } }
    }
    impl PartialOrd for Wit { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
    """)
    u.emit_impl(" Wit", [u.fn(wi, "Wit::from_nanowits", spec="ensures r.0 == nanowits"), u.fn(wi, "Wit::nanowits", spec="ensures r == self.0"), u.fn(wi, "Wit::zero", trait="Zero", spec="ensures r.0 == 0")])
    for op, t in (("add", "Add"), ("sub", "Sub")):
        u.emit_impl(" std::ops::%s for Wit" % t, ["type Output = Self;", u.fn(wi, "Wit::" + op, trait=t)])
    u.emit_impl(" std::ops::Mul<Epoch> for Wit", ["type Output = Power;", u.fn(wi, "Wit::mul", trait="Mul", self_text="Mul<Epoch>")])
    u.emit_impl(" From<Wit> for u64", [u.fn(wi, "u64::from", trait="From", self_text="From<Wit> for u64")])
    ten = "proof { assert(vstd::arithmetic::power::pow(10, 9) == 1_000_000_000) by { reveal_with_fuel(vstd::arithmetic::power::pow, 10); } }"
    u.emit("""
    spec fn whole(n: int) -> int { n / 1_000_000_000 }
    trait PrecisionLoss: Copy { spec fn whole_of(self) -> int; fn lose_precision(self, digits: u8) -> (r: Self) requires digits == 9 ensures r.whole_of() == whole(self.whole_of()); }
    """)
    u.emit_impl(" PrecisionLoss for u64", ["spec fn whole_of(self) -> int { self as int }", u.fn(wi, "u64::lose_precision", start=ten)])
    u.emit_impl(" PrecisionLoss for Wit", ["spec fn whole_of(self) -> int { self.0 as int }", u.fn(wi, "Wit::lose_precision")])
    u.emit_raw(u.struct_text(ca, "Capability", derive="Clone, Copy, PartialEq, Eq"))
    u.emit_raw(u.const_text(ca, "ALL_CAPABILITIES"))
    u.emit_raw(u.struct_text(ca, "CapabilityMap", drop_where=True, derive="Clone, Copy, PartialEq"))
    u.emit("""
    impl<T> CapabilityMap<T> { spec fn of(self, c: Capability) -> T { match c { Capability::Mining => self.mining, Capability::Witnessing => self.witnessing } } }
    """)
    u.emit_impl("<T: Copy + Default> CapabilityMap<T>", [
        u.fn(ca, "CapabilityMap::get", spec="ensures r == self.of(capability)"),
        u.fn(ca, "CapabilityMap::update", spec="ensures forall|c: Capability| #[trigger] final(self).of(c) == (if c == capability { value } else { old(self).of(c) })"),
        u.fn(ca, "CapabilityMap::update_all", spec="ensures forall|c: Capability| #[trigger] final(self).of(c) == value")])
    SUB = [(r"<Epoch>::", "::"), (r"\bUNIT\b", "WIT_DECIMAL_PLACES"), (r"\bEpoch::from\(", "u32::from("), (r"\bNonce::from\(", "u64::from("), (r"\bCoins::", "Wit::"),
           (r"\bStakesResult<Coins, Address, Coins, Epoch>", "Result<Wit, StakesError>"), (r"\bCoins\b", "Wit"), (r"NoncePolicy<Epoch>", "NoncePolicy"), (r"CapabilityMap<Epoch>", "CapabilityMap<u32>"), (r"\bNonce\b", "u64")]
    u.notes.add("generic parameters replaced by the node's types")
    u.emit_raw(u.struct_text(st, "Stake", generics="", keep_fields=["coins", "epochs", "nonce"], subst=SUB, derive="Clone, Copy"))
    u.emit_raw(u.struct_text(er, "StakesError", generics="", keep_fields=["AmountIsBelowMinimum", "AmountIsAboveStake"], subst=SUB))
    u.emit_raw(u.struct_text(u.src(HE), "NoncePolicy", generics="", subst=[(r"\bEpoch\b", "u32")]))
    u.emit("""
    #[verifier::external_body]
    fn caps() -> (r: Vec<Capability>) ensures r@ == ALL_CAPABILITIES@ { ALL_CAPABILITIES.to_vec() }
    // the average of two epochs, weighted by whole coins
    spec fn average(before: int, eb: int, added: int, e: int) -> int { (whole(before) * eb + whole(added) * e) / whole(before + added) }
    // never later than the later one; with whole amounts never earlier than the earlier one
    proof fn between(before: int, eb: int, added: int, e: int) requires before >= 0, added >= 0, eb >= 0, e >= 0, whole(before + added) > 0
        ensures 0 <= average(before, eb, added, e) <= (if eb > e { eb } else { e }),
            before % 1_000_000_000 == 0 || added % 1_000_000_000 == 0 ==> average(before, eb, added, e) >= (if eb < e { eb } else { e })
    {
        PROBE(between);
        let wb = whole(before); let wa = whole(added); let w = whole(before + added); let s = wb * eb + wa * e;
        let hi = if eb > e { eb } else { e }; let lo = if eb < e { eb } else { e };
        assert(wb + wa <= w <= wb + wa + 1);
        assert(wb * eb <= wb * hi) by (nonlinear_arith) requires wb >= 0, eb <= hi;
        assert(wa * e <= wa * hi) by (nonlinear_arith) requires wa >= 0, e <= hi;
        assert(wb * hi + wa * hi == (wb + wa) * hi) by (nonlinear_arith);
        assert((wb + wa) * hi <= w * hi) by (nonlinear_arith) requires wb + wa <= w, hi >= 0;
        assert(s >= 0) by (nonlinear_arith) requires wb >= 0, eb >= 0, wa >= 0, e >= 0, s == wb * eb + wa * e;
        assert(s / w <= hi && s / w >= 0) by (nonlinear_arith) requires 0 <= s <= w * hi, w > 0;
        if before % 1_000_000_000 == 0 || added % 1_000_000_000 == 0 {
            assert(w == wb + wa);
            assert(wb * eb >= wb * lo) by (nonlinear_arith) requires wb >= 0, eb >= lo;
            assert(wa * e >= wa * lo) by (nonlinear_arith) requires wa >= 0, e >= lo;
            assert(wb * lo + wa * lo == w * lo) by (nonlinear_arith) requires w == wb + wa;
            assert(s / w >= lo) by (nonlinear_arith) requires s >= w * lo, w > 0;
        }
    }
    spec fn nonce_after(n: u64, p: NoncePolicy) -> u64 { match p { NoncePolicy::SetFromEpoch(e) => e as u64, NoncePolicy::KeepAsIs => n } }
    spec fn fits(s: Stake, added: int, e: int) -> bool {
        &&& s.coins.0 + added <= u64::MAX
        &&& whole(s.coins.0 + added) > 0
        &&& forall|c: Capability| whole(s.coins.0 as int) * (#[trigger] s.epochs.of(c)) + whole(added) * e <= u64::MAX
    }
    """)
    AV = "average(old(self).coins.0 as int, old(self).epochs.of(c) as int, coins.0 as int, epoch as int)"
    u.emit_impl(" Stake", [
        u.fn(st, "Stake::add_stake", subst=SUB, skel=["for"], spec="""requires coins.0 >= minimum_stakeable.0 ==> fits(*old(self), coins.0 as int, epoch as int)
            ensures coins.0 < minimum_stakeable.0 ==> r is Err && *final(self) == *old(self),
                coins.0 >= minimum_stakeable.0 ==> r is Ok && final(self).coins.0 == old(self).coins.0 + coins.0 && r->Ok_0 == final(self).coins && final(self).nonce == nonce_after(old(self).nonce, nonce_policy)
                    && (forall|c: Capability| (#[trigger] final(self).epochs.of(c)) == %s)""" % AV,
            loops={0: dict(iter_as=lambda its, n, r: "caps()" if its.strip() == "ALL_CAPABILITIES" else its, inv="""it0.seq() == ALL_CAPABILITIES@, self.nonce == old(self).nonce, self.coins == coins_after, coins_after.0 == coins_before.0 + coins.0, coins_before == old(self).coins, fits(*old(self), coins.0 as int, epoch as int),
                forall|c: Capability| (#[trigger] self.epochs.of(c)) == (if it0.seq().take(it0.index@).contains(c) { %s } else { old(self).epochs.of(c) as int })""" % AV,
                before="proof { assert(ALL_CAPABILITIES@.take(0) =~= Seq::empty()); }",
                start="""let ghost c0 = capability; proof { between(coins_before.0 as int, self.epochs.of(c0) as int, coins.0 as int, epoch as int); let s = it0.seq().take(it0.index@); let t = it0.seq().take(it0.index@ + 1);
                    assert forall|c: Capability| t.contains(c) <==> s.contains(c) || c == c0 by { assert(t[it0.index@] == c0); if t.contains(c) { let i = t.index_of(c); if i < it0.index@ { assert(s[i] == c); } } if s.contains(c) { let i = s.index_of(c); assert(t[i] == c); } } }""",
                after="proof { let a = ALL_CAPABILITIES@; assert(a.take(2) =~= a); assert(a[0] is Mining && a[1] is Witnessing); assert forall|c: Capability| a.contains(c) by { assert(c == a[0] || c == a[1]); } }")}),
        u.fn(st, "Stake::remove_stake", subst=SUB, spec="""ensures
                coins.0 > old(self).coins.0 || 0 < old(self).coins.0 - coins.0 < minimum_stakeable.0 ==> r is Err && *final(self) == *old(self),
                coins.0 <= old(self).coins.0 && !(0 < old(self).coins.0 - coins.0 < minimum_stakeable.0) ==> r is Ok && final(self).coins.0 == old(self).coins.0 - coins.0 && r->Ok_0 == final(self).coins
                    && final(self).nonce == nonce_after(old(self).nonce, nonce_policy) && final(self).epochs == old(self).epochs"""),
        u.fn(st, "Stake::power", subst=SUB, spec="""requires whole(self.coins.0 as int) * u32::MAX <= u64::MAX
            ensures r == whole(self.coins.0 as int) * (if current_epoch >= self.epochs.of(capability) { current_epoch - self.epochs.of(capability) } else { 0 })""",
            start="""proof { let a = whole(self.coins.0 as int); let d = if current_epoch >= self.epochs.of(capability) { current_epoch - self.epochs.of(capability) } else { 0 }; assert(a * d <= a * u32::MAX) by (nonlinear_arith) requires a >= 0, 0 <= d <= u32::MAX; }"""),
        u.fn(st, "Stake::reset_age", subst=SUB, spec="""ensures final(self).coins == old(self).coins, final(self).nonce == old(self).nonce,
            forall|c: Capability| (#[trigger] final(self).epochs.of(c)) == (if c == capability { reset_epoch } else { old(self).epochs.of(c) })"""),
    ])
    u.close()


def build(u):
    x = Extract([ST, CA, WI, SS, ER, HE], mods=["num_traits::ops::saturating"], subst=[(r"pub enum CensusStrategy", "#[repr(u8)] pub enum CensusStrategy")], stubs=["PublicKeyHash", "StakeTransaction", "UnstakeTransaction", "get_environment", "Serialize", "Deserialize", "StakesTester", "Epoch"],
                traits=["Display", "Zero", "Saturating", "PrecisionLoss", "Clone"], no=["ProtobufConvert for StakeKey"])
    t = x.build(["Stakes::*", "StakesTracker", "SyncStakeEntry", "StakeKey", "StakeEntry", "Wit", "Stake::*", "process_stake_transactions", "process_unstake_transactions", "StakesError", "NoncePolicy", "CensusStrategy", "Capability", "Wit::*", "QueryStakesKey"])
    return HEADER + t


harness = dict(kind="extract", name="t01", build=build, main="t01.rs")
