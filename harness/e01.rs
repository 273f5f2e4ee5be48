/// The schedule in unbounded integers: epoch starts.
#[derive(Clone, Copy, Debug)]
struct Sched { z: i128, p: i128, change: Option<(i128, i128)> }
impl Sched {
    fn after(&self, e: i128) -> bool { self.change.map_or(false, |(c, _)| e >= c) }
    fn period(&self, e: i128) -> i128 { if self.after(e) { self.change.unwrap().1 } else { self.p } }
    fn start(&self, e: i128) -> i128 { match self.change { Some((c, q)) if e >= c => self.z + c * self.p + (e - c) * q, _ => self.z + e * self.p } }
    fn epoch(&self, t: i128) -> i128 {
        if let Some((c, q)) = self.change { let s = self.z + c * self.p; if t >= s { return c + (t - s).div_euclid(q); } }
        (t - self.z).div_euclid(self.p)
    }
    fn in_range(&self, e: i128) -> bool { e >= 0 && e * self.p <= u32::MAX as i128 }
}
fn check(ec: &EpochConstants, s: &Sched, e: u32, t: i64) -> Result<(), String> {
    let ei = e as i128;
    match ec.epoch_timestamp(e) {
        Ok((ts, v2)) => {
            if !s.in_range(ei) || ts as i128 != s.start(ei) || v2 != s.after(ei) { return Err(format!("epoch_timestamp({}) = {:?}, expected {} {}", e, (ts, v2), s.start(ei), s.after(ei))); }
        }
        Err(EpochCalculationError::Overflow) => if s.in_range(ei) { return Err(format!("epoch_timestamp({}) fails, expected {}", e, s.start(ei))); },
        Err(x) => return Err(format!("epoch_timestamp({}) fails with {:?}", e, x)),
    }
    match ec.block_mining_timestamp(e) {
        Ok(ts) => if !s.in_range(ei) || ts as i128 != s.start(ei) + (s.period(ei) + 1) / 2 { return Err(format!("block_mining_timestamp({}) = {}", e, ts)); },
        Err(_) => if s.in_range(ei) { return Err(format!("block_mining_timestamp({}) fails", e)); },
    }
    match ec.get_epoch_period(e) {
        Ok(p) => if !s.in_range(ei) || p as i128 != s.period(ei) { return Err(format!("get_epoch_period({}) = {}", e, p)); },
        Err(_) => if s.in_range(ei) { return Err(format!("get_epoch_period({}) fails", e)); },
    }
    let ti = t as i128;
    match ec.epoch_at(t) {
        Ok(x) => if ti < s.z || x as i128 != s.epoch(ti) { return Err(format!("epoch_at({}) = {}, expected {}", t, x, s.epoch(ti))); },
        Err(_) => if ti >= s.z && ti <= s.z + u32::MAX as i128 && s.epoch(ti) <= u32::MAX as i128 { return Err(format!("epoch_at({}) fails, expected {}", t, s.epoch(ti))); },
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let z = match c.below(4) { 0 => 0, 1 => 1_602_666_000, 2 => c.num(1 << 62), _ => c.below(1000) } as i64;
        let m = c.pick(&[100, 65534]); let p = 1 + c.num(m) as u16;
        let m = c.pick(&[100, 65534]); let q = 1 + c.num(m) as u16;
        let mut ec = EpochConstants { checkpoint_zero_timestamp: z, checkpoints_period: p, ..Default::default() };
        let mut s = Sched { z: z as i128, p: p as i128, change: None };
        for round in 0..2 {
            if round == 1 {
                let e = match c.below(3) { 0 => c.below(50), 1 => c.num(u32::MAX as u64 / p as u64 + 2).min(u32::MAX as u64), _ => c.num(1 << 20) } as u32;
                let r = guard(|| ec.set_values_for_wit2(q, e).is_ok());
                let ok = s.in_range(e as i128);
                if r != Ok(ok) { c.fail(format!("{:?}: scheduling the change at {} gives {:?}", s, e, r)); break; }
                if ok { s.change = Some((e as i128, q as i128)); }
            }
            for _ in 0..6 {
                let top = u32::MAX as u64 / p as u64;
                let e = match (c.below(5), s.change) {
                    (0, Some((x, _))) => (x as u64 + c.below(5)).saturating_sub(2),
                    (1, _) => top + c.below(3) - c.below(3).min(top),
                    (2, _) => c.below(20),
                    _ => c.num(u32::MAX as u64),
                }.min(u32::MAX as u64) as u32;
                let near = s.start(e as i128) + c.below(3) as i128 - 1 + match c.below(3) { 0 => 0, 1 => s.period(e as i128), _ => c.below(s.period(e as i128) as u64) as i128 };
                let t = match c.below(6) { 0 => c.num(i64::MAX as u64) as i64, 1 => (z as i128 + u32::MAX as i128 + c.below(5) as i128 - 2).min(i64::MAX as i128) as i64,
                    _ => near.clamp(0, i64::MAX as i128 - 1) as i64 };
                c.case((z, p, q, s.change.map(|x| x.0), e, t));
                match guard(|| check(&ec, &s, e, t)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => { c.fail(format!("{:?}: {}", s, m)); }
                    Err(m) => { c.fail(format!("{:?}: epoch {} timestamp {} panics: {}", s, e, t, m)); }
                }
                c.sample(|| format!("{:?} epoch {} timestamp {}", s, e, t));
            }
        }
    }
    c.done()
}
