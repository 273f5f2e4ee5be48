from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "E01"
CH, ER = "data_structures/src/chain/mod.rs", "data_structures/src/error.rs"
FILES = [CH]
CONST_FNS = ("epoch_at", "epoch_timestamp", "block_mining_timestamp", "get_epoch_period", "set_values_for_wit2")
RULE = "random zero timestamps, periods and change epochs; epochs and timestamps at and around the change, the range limits and their neighbours"
ASSUMPTIONS = ["periods are positive; the zero timestamp lies between 0 and 2^62, timestamps are not negative",
               "the period change is scheduled once, through set_values_for_wit2 (before that its timestamp is i64::MAX, the value of an unscheduled change)",
               "the range of epochs is that of the code: period * epoch must fit in 32 bits"]
D = ["opt_map", "opt_and_then", "opt_filter", "opt_ok_or_else", "opt_map_err"]


def verus(u):
    s = u.src(CH)
    u.file("epochs", LIGHT_PRELUDE)
    u.emit_raw(u.struct_text(u.src(ER), "EpochCalculationError", derive="Debug"))
    u.emit_raw(u.struct_text(s, "EpochConstants", derive="Debug, Clone, Copy"))
    u.emit("""
    type Epoch = u32;
    pub assume_specification[<i64 as From<u16>>::from](x: u16) -> (r: i64) ensures r == x;
    pub assume_specification[<i64 as From<u32>>::from](x: u32) -> (r: i64) ensures r == x;
    impl EpochConstants {
        spec fn base(&self) -> bool { 0 <= self.checkpoint_zero_timestamp <= 0x4000_0000_0000_0000 && self.checkpoints_period > 0 && self.checkpoints_period_wit2 > 0 }
        // the change has not been scheduled
        spec fn unscheduled(&self) -> bool { self.checkpoint_zero_timestamp_wit2 == i64::MAX }
        // the change happens at the start of an epoch of the first period
        spec fn inv(&self) -> bool {
            &&& self.base()
            &&& !self.unscheduled() ==> self.checkpoint_zero_timestamp_wit2 >= self.checkpoint_zero_timestamp
                && (self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp) % (self.checkpoints_period as int) == 0
                && (self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp) <= u32::MAX
        }
        // the first epoch with the second period
        spec fn change(&self) -> int { (self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp) / (self.checkpoints_period as int) }
        spec fn after(&self, e: int) -> bool { !self.unscheduled() && e >= self.change() }
        spec fn period(&self, e: int) -> int { if self.after(e) { self.checkpoints_period_wit2 as int } else { self.checkpoints_period as int } }
        // the second in which epoch e starts
        spec fn start(&self, e: int) -> int {
            if self.after(e) { self.checkpoint_zero_timestamp_wit2 + (e - self.change()) * self.checkpoints_period_wit2 } else { self.checkpoint_zero_timestamp + e * self.checkpoints_period }
        }
        spec fn in_range(&self, e: int) -> bool { 0 <= e && e * self.checkpoints_period <= u32::MAX }
        // the epoch second t lies in
        spec fn epoch(&self, t: int) -> int {
            if !self.unscheduled() && t >= self.checkpoint_zero_timestamp_wit2 { self.change() + (t - self.checkpoint_zero_timestamp_wit2) / (self.checkpoints_period_wit2 as int) }
            else { (t - self.checkpoint_zero_timestamp) / (self.checkpoints_period as int) }
        }
        proof fn change_ok(&self) requires self.inv(), !self.unscheduled()
            ensures self.checkpoint_zero_timestamp + self.change() * self.checkpoints_period == self.checkpoint_zero_timestamp_wit2, 0 <= self.change() <= u32::MAX,
                forall|e: int| #[trigger] (e * self.checkpoints_period) >= self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp <==> e >= self.change()
        {
            PROBE(change_ok);
            let d = (self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp); let p = self.checkpoints_period as int;
            lemma_fundamental_div_mod(d, p); lemma_mul_is_commutative(p, d / p);
            lemma_div_pos_is_pos(d, p); lemma_div_is_ordered_by_denominator(d, 1, p);
            assert forall|e: int| #[trigger] (e * self.checkpoints_period) >= d <==> e >= self.change() by {
                if e < self.change() { lemma_mul_strict_inequality(e, self.change(), p); }
                if e >= self.change() { lemma_mul_inequality(self.change(), e, p); }
            }
        }
        // starts are strictly increasing, consecutive starts differ by the period in force
        proof fn consecutive(&self, e: int) requires self.inv(), e >= 0 ensures self.start(e + 1) - self.start(e) == self.period(e), self.start(e) < self.start(e + 1), self.start(0) == self.checkpoint_zero_timestamp
        {
            PROBE(consecutive);
            if !self.unscheduled() { self.change_ok(); }
            lemma_mul_is_distributive_add_other_way(self.checkpoints_period as int, e, 1);
            lemma_mul_is_distributive_add_other_way(self.checkpoints_period_wit2 as int, e - self.change(), 1);
            lemma_mul_basics(self.checkpoints_period as int); lemma_mul_basics(self.checkpoints_period_wit2 as int);
        }
        // a second lies in epoch e exactly if it is between the start of e and the start of e + 1
        proof fn inverse(&self, t: int, e: int) requires self.inv(), e >= 0, t >= self.checkpoint_zero_timestamp, self.unscheduled() ==> t < i64::MAX
            ensures self.epoch(t) == e <==> self.start(e) <= t < self.start(e + 1)
        {
            PROBE(inverse);
            self.consecutive(e);
            let z = self.checkpoint_zero_timestamp as int; let p = self.checkpoints_period as int; let z2 = self.checkpoint_zero_timestamp_wit2 as int; let p2 = self.checkpoints_period_wit2 as int;
            if self.unscheduled() { div_unique(t - z, p, e); lemma_mul_is_distributive_add_other_way(p, e, 1); }
            else {
                self.change_ok();
                let c = self.change();
                assert(c * p == z2 - z);
                lemma_mul_is_distributive_add_other_way(p, e, 1);
                lemma_mul_is_distributive_add_other_way(p2, e - c, 1);
                if t >= z2 {
                    div_unique(t - z2, p2, e - c);
                    lemma_div_pos_is_pos(t - z2, p2);
                    if e < c { assert((e + 1) * p <= c * p) by (nonlinear_arith) requires e + 1 <= c, p > 0; }
                } else {
                    div_unique(t - z, p, e);
                    if e >= c { assert((e - c) * p2 >= 0) by (nonlinear_arith) requires e >= c, p2 > 0; assert(e * p >= c * p) by (nonlinear_arith) requires e >= c, p > 0; }
                }
            }
        }
    }
    proof fn div_unique(x: int, p: int, e: int) requires p > 0 ensures x / p == e <==> e * p <= x < e * p + p
    {
        PROBE(div_unique);
        lemma_fundamental_div_mod(x, p); lemma_mod_bound(x, p);
        if e * p <= x < e * p + p { lemma_fundamental_div_mod_converse(x, p, e, x - e * p); }
        lemma_mul_is_commutative(p, x / p);
    }
    """)
    fs = [
        u.fn(s, "EpochConstants::epoch_at", desugar=D, start="proof { self.facts(timestamp as int); }", spec="""
            requires self.inv(), timestamp >= 0
            ensures timestamp < self.checkpoint_zero_timestamp ==> r is Err,
                r is Ok ==> timestamp >= self.checkpoint_zero_timestamp && (self.unscheduled() ==> timestamp < i64::MAX) && r->Ok_0 == self.epoch(timestamp as int),
                self.checkpoint_zero_timestamp <= timestamp <= self.checkpoint_zero_timestamp + u32::MAX && self.epoch(timestamp as int) <= u32::MAX ==> r is Ok"""),
        u.fn(s, "EpochConstants::epoch_timestamp", desugar=D, start="proof { self.efacts(epoch); }", spec="""
            requires self.inv()
            ensures r is Ok <==> self.in_range(epoch as int),
                r is Ok ==> r->Ok_0.0 == self.start(epoch as int) && r->Ok_0.1 == self.after(epoch as int)"""),
        u.fn(s, "EpochConstants::block_mining_timestamp", desugar=D, spec="""
            requires self.inv()
            ensures r is Ok <==> self.in_range(epoch as int), r is Ok ==> r->Ok_0 == self.start(epoch as int) + (self.period(epoch as int) + 1) / 2""", start="proof { self.efacts(epoch); }"),
        u.fn(s, "EpochConstants::get_epoch_period", desugar=D, spec="""
            requires self.inv()
            ensures r is Ok <==> self.in_range(epoch as int), r is Ok ==> r->Ok_0 == self.period(epoch as int)"""),
        u.fn(s, "EpochConstants::set_values_for_wit2", desugar=D, spec="""
            requires old(self).base(), old(self).unscheduled(), period > 0
            ensures final(self).inv(), r is Ok <==> old(self).in_range(epoch as int),
                final(self).checkpoint_zero_timestamp == old(self).checkpoint_zero_timestamp, final(self).checkpoints_period == old(self).checkpoints_period,
                r is Err ==> forall|e: int| final(self).start(e) == old(self).start(e) && final(self).period(e) == old(self).period(e),
                r is Ok ==> (forall|e: int| #![trigger final(self).start(e)] (e <= epoch ==> final(self).start(e) == old(self).start(e)) && (final(self).after(e) <==> e >= epoch)
                        && final(self).period(e) == (if e >= epoch { period as int } else { old(self).checkpoints_period as int }))
            """, start="proof { self.sched(epoch, period); }"),
    ]
    u.emit("""
    impl EpochConstants {
        proof fn facts(&self, t: int) requires self.inv(), t >= 0
            ensures t >= self.checkpoint_zero_timestamp ==> self.epoch(t) >= 0,
                forall|x: int| 0 <= x <= u32::MAX ==> 0 <= #[trigger] (x / (self.checkpoints_period as int)) <= u32::MAX,
                forall|x: int| 0 <= x <= u32::MAX ==> 0 <= #[trigger] (x / (self.checkpoints_period_wit2 as int)) <= u32::MAX
        {
            PROBE(facts);
            assert forall|x: int| 0 <= x <= u32::MAX implies 0 <= #[trigger] (x / (self.checkpoints_period as int)) <= u32::MAX by { lemma_div_pos_is_pos(x, self.checkpoints_period as int); lemma_div_is_ordered_by_denominator(x, 1, self.checkpoints_period as int); }
            assert forall|x: int| 0 <= x <= u32::MAX implies 0 <= #[trigger] (x / (self.checkpoints_period_wit2 as int)) <= u32::MAX by { lemma_div_pos_is_pos(x, self.checkpoints_period_wit2 as int); lemma_div_is_ordered_by_denominator(x, 1, self.checkpoints_period_wit2 as int); }
            if t >= self.checkpoint_zero_timestamp {
                lemma_div_pos_is_pos(t - self.checkpoint_zero_timestamp, self.checkpoints_period as int);
                if !self.unscheduled() { self.change_ok(); if t >= self.checkpoint_zero_timestamp_wit2 { lemma_div_pos_is_pos(t - self.checkpoint_zero_timestamp_wit2, self.checkpoints_period_wit2 as int); } }
            }
        }
        proof fn efacts(&self, e: u32) requires self.inv()
            ensures (self.checkpoints_period as int) * e == e * self.checkpoints_period, 0 <= e * self.checkpoints_period,
                !self.unscheduled() ==> 0 <= self.change() <= u32::MAX && (e * self.checkpoints_period >= self.checkpoint_zero_timestamp_wit2 - self.checkpoint_zero_timestamp <==> e >= self.change()),
                self.after(e as int) ==> 0 <= (e - self.change()) * self.checkpoints_period_wit2 <= 0xffff_ffff_ffff
        {
            PROBE(efacts);
            assert((self.checkpoints_period as int) * e == e * self.checkpoints_period) by (nonlinear_arith);
            assert(0 <= e * self.checkpoints_period) by (nonlinear_arith) requires e >= 0, self.checkpoints_period >= 0;
            if !self.unscheduled() { self.change_ok(); }
            if self.after(e as int) { let a = (e - self.change()) as int; let b = self.checkpoints_period_wit2 as int; assert(0 <= a * b <= 0xffff_ffff_ffff) by (nonlinear_arith) requires 0 <= a <= 0xffff_ffff, 0 <= b <= 0xffff; }
        }
        proof fn sched(&self, e: u32, p2: u16) requires self.base(), self.unscheduled(), p2 > 0
            ensures ({
                let c = EpochConstants { checkpoints_period_wit2: p2, ..*self };
                let n = EpochConstants { checkpoint_zero_timestamp_wit2: (self.checkpoint_zero_timestamp + e * self.checkpoints_period) as i64, checkpoints_period_wit2: p2, ..*self };
                c.inv() && (self.in_range(e as int) ==> n.inv() && !n.unscheduled() && n.change() == e && n.start(e as int) == self.start(e as int) && self.checkpoint_zero_timestamp + e * self.checkpoints_period <= 0x5000_0000_0000_0000)
            })
        {
            PROBE(sched);
            if self.in_range(e as int) {
                let p = self.checkpoints_period as int;
                assert(e * p >= 0) by (nonlinear_arith) requires e >= 0, p >= 0;
                lemma_fundamental_div_mod_converse(e * p, p, e as int, 0);
                lemma_mul_basics(p2 as int);
            }
        }
    }
    """)
    u.emit_impl(" EpochConstants", fs)
    u.emit("""
    // the property over the contracts
    fn round_trip(c: &EpochConstants, e: u32, t: i64) requires c.inv(), t >= 0 {
        proof { c.efacts(e); c.facts(t as int); c.consecutive(e as int); }
        if let Ok((ts, _)) = c.epoch_timestamp(e) {
            if c.checkpoint_zero_timestamp <= t && t <= c.checkpoint_zero_timestamp + 0xffff_ffffi64 {
                proof { if !c.unscheduled() || t < i64::MAX { c.inverse(t as int, e as int); } }
                if ts <= t {
                    if let Ok((nx, _)) = c.epoch_timestamp(if e < u32::MAX { e + 1 } else { e }) {
                        if e < u32::MAX && t < nx { let g = c.epoch_at(t); assert(g is Ok && g->Ok_0 == e); }
                    }
                }
                let g = c.epoch_at(t);
                if let Ok(x) = g { proof { c.inverse(t as int, x as int); assert(c.start(x as int) <= t && t < c.start(x + 1)); } }
            }
        }
    }
    """)
    u.close()


def build(u):
    return HEADER + Extract([CH, ER]).build(["EpochConstants::*", "EpochCalculationError"])


harness = dict(kind="extract", name="e01", build=build, main="e01.rs")
