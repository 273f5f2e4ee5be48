fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let init = match c.below(5) { 0 => 1u64.checked_shl(c.below(64) as u32).unwrap(), 1 => (1u64 << c.below(64)) - 1, 2 => c.num(u64::MAX), 3 => u64::MAX, _ => c.below(1000) };
        let period = match c.below(5) { 0 => 1, 1 => c.num(u32::MAX as u64).max(1) as u32, 2 => u32::MAX, 3 => 1_750_000, _ => 1 + c.below(50) as u32 };
        let reward = |e: u64| -> u64 { let h = e / period as u64; if h >= 64 { 0 } else { init / 2u64.pow(h as u32) } };
        let mut es: Vec<u64> = vec![0, 1, u32::MAX as u64, c.num(u32::MAX as u64)];
        let k = c.below(70);
        for d in [0i128, 1, -1] { es.push((k as i128 * period as i128 + d).clamp(0, u32::MAX as i128) as u64); }
        for e in es {
            c.case(&(init, period, e));
            match guard(|| block_reward(e as u32, init, period)) {
                Ok(r) if r == reward(e) => {}
                r => c.fail(format!("block_reward(epoch {}, initial {}, halving period {}) is {:?}, expected {}", e, init, period, r, reward(e))),
            }
        }
        let total: u128 = (0..64).map(|h| (init >> h) as u128 * period as u128).sum();
        if total <= u64::MAX as u128 {
            c.case(&(init, period, "total"));
            match guard(|| total_block_reward(init, period)) {
                Ok(r) if r as u128 == total => {}
                r => c.fail(format!("total_block_reward({}, {}) is {:?}, but the rewards of all epochs sum to {}", init, period, r, total)),
            }
        }
        c.sample(|| format!("{} {}", init, period));
    }
    c.done()
}
