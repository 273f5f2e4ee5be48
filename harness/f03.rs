type Epoch = u32;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)] pub struct Hash(u8);
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)] pub struct PublicKeyHash(u8);
use std::sync::RwLock;
impl<T> Eq for Memoized<T> {}
impl MintTransaction { fn hash(&self) -> Hash { Hash(0) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { V1_7, V1_8, V2_0, V2_1 }
// wit/2 in epoch 1000
impl ProtocolVersion { fn from_epoch(e: Epoch) -> Self { match e { 0..=499 => Self::V1_7, 500..=999 => Self::V1_8, 1000..=1999 => Self::V2_0, _ => Self::V2_1 } } }
#[derive(Debug)] pub enum TransactionError { OutputValueOverflow, InputValueOverflow, FeeOverflow, ZeroValueOutput { tx_hash: Hash, output_id: usize } }
impl anyhow::ErrLike for TransactionError {}
#[derive(Debug)] pub enum BlockError { InvalidMintEpoch { mint_epoch: Epoch, block_epoch: Epoch }, MismatchedMintValue { mint_value: u64, fees_value: u64, reward_value: u64 }, TooSplitMint, InvalidMintTransaction, Empty }
impl anyhow::ErrLike for BlockError {}

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let init = match c.below(5) { 0 => 1u64 << c.below(64), 1 => (1u64 << c.below(64)) - 1, 2 => c.num(u64::MAX), 3 => 500_000_000_000, _ => c.below(1000) };
        let period = match c.below(4) { 0 => 1, 1 => 1 + c.below(1000) as u32, 2 => u32::MAX, _ => 1_750_000 };
        let epoch = match c.below(4) { 0 => c.num(u32::MAX as u64) as u32, 1 => c.pick(&[0, 499, 500, 999, 1000, 1999, 2000]), _ => c.below(1000) as u32 };
        let h = epoch / period;
        let reward = if h >= 64 { 0 } else { init >> h };
        let fees = match c.below(5) { 0 => 0, 1 => u64::MAX - reward, 2 => c.num(u64::MAX - reward), _ => c.below(200).min(u64::MAX - reward) };
        let all = reward + fees;
        let pct = match c.below(4) { 0 => 0, 1 => 100, _ => c.below(101) as u8 };
        let ext = if c.flip() { Some(PublicKeyHash(if c.chance(4) { 1 } else { 2 })) } else { None };
        c.case(&(init, period, epoch, fees, pct, ext));
        let out = match ext { Some(_) => (all as u128 * pct as u128 / 100) as u64, None => 0 };
        let mut want = vec![];
        if all > out { want.push(ValueTransferOutput { pkh: PublicKeyHash(1), value: all - out, time_lock: 0 }); }
        if out > 0 { want.push(ValueTransferOutput { pkh: ext.unwrap(), value: out, time_lock: 0 }); }
        match guard(|| MintTransaction::with_external_address(epoch, all, PublicKeyHash(1), ext, pct)) {
            Ok(m) if m.epoch == epoch && m.outputs == want => {}
            r => c.fail(format!("the mint of {} with {} percent for {:?} is {:?}, expected outputs {:?}", all, pct, ext, r, want)),
        }
        // mutations of it
        let mut m = MintTransaction::new(epoch, if c.chance(4) { vec![] } else { want });
        for _ in 0..c.below(3) {
            let n = m.outputs.len() as u64;
            match c.below(7) {
                0 => m.epoch = match c.below(3) { 0 => epoch.wrapping_add(1), 1 => epoch.wrapping_sub(1), _ => c.num(u32::MAX as u64) as u32 },
                1 => m.outputs.push(ValueTransferOutput { pkh: PublicKeyHash(3), value: 0, time_lock: 0 }),
                2 if n > 0 => { let i = c.below(n) as usize; let v = m.outputs[i].value; let d = match c.below(3) { 0 => v, 1 => 1.min(v), _ => c.num(v) }; m.outputs[i].value -= d; if c.chance(3) { } else { m.outputs.push(ValueTransferOutput { pkh: PublicKeyHash(4), value: d, time_lock: c.below(3) }); } }
                3 if n > 0 => { let i = c.below(n) as usize; m.outputs[i].value = m.outputs[i].value.wrapping_add(c.pick(&[1, 1u64 << 63, fees, reward])); }
                4 if n > 0 => { let i = c.below(n) as usize; m.outputs.remove(i); }
                5 if n > 1 => m.outputs.swap(0, 1),
                6 if n > 0 => m.outputs[0].value = c.pick(&[fees, reward, 0, all]),
                _ => {}
            }
        }
        // a hash that has been computed makes no difference
        if c.flip() { *m.hash.hash.write().unwrap() = Some(Hash(c.below(2) as u8)); }
        let sum: u128 = m.outputs.iter().map(|o| o.value as u128).sum();
        let right = m.epoch == epoch && if epoch < 1000 { sum == all as u128 && m.outputs.len() <= 2 && m.outputs.iter().all(|o| o.value > 0) } else { m.outputs.is_empty() };
        match guard(|| validate_mint_transaction(&m, fees, epoch, init, period).is_ok()) {
            Ok(r) if r == right => {}
            r => c.fail(format!("in a block of epoch {} with fees {} (initial reward {}, halving period {}) the mint {:?} is {}: {:?}", epoch, fees, init, period, m, if right { "right, but refused" } else { "wrong, but accepted" }, r)),
        }
        c.sample(|| format!("{} {} {} {}", epoch, fees, pct, right));
    }
    c.done()
}
