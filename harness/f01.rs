use std::num::ParseIntError;
use std::sync::{RwLock, RwLockReadGuard};
use anyhow::Error;
include!("utxo_stub.rs");
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct KeyedSignature;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct RADRequest;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Memoized<T>(PhantomData<T>);
impl<T> Memoized<T> { fn new() -> Self { Memoized(PhantomData) } }
impl RADRequest { fn weight(&self) -> u32 { 0 } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct StakeKey<T>(PhantomData<T>);
impl anyhow::ErrLike for std::io::Error {}

fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash::SHA256([(n / 4) as u8; 32]), output_index: n % 4 } }
fn out(v: u64, l: u64) -> ValueTransferOutput { ValueTransferOutput { pkh: PublicKeyHash::default(), value: v, time_lock: l } }

/// Some(exact value) or None when the transaction has to be rejected.
fn oracle(inputs: &[Input], m: &BTreeMap<OutputPointer, (u64, u64)>, now: Option<i64>, spent: u128) -> Option<u64> {
    let mut seen = BTreeSet::new();
    let mut total: u128 = 0;
    for i in inputs {
        let (v, l) = m.get(i.output_pointer())?;
        if !seen.insert(*i.output_pointer()) { return None; }
        match now { None => return None, Some(t) => if *l as i128 > t as i128 || *l > i64::MAX as u64 { return None; } }
        total += *v as u128;
    }
    if total > u64::MAX as u128 || spent > u64::MAX as u128 || spent > total { return None; }
    Some((total - spent) as u64)
}

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        // values of a similar size, so that sums meet the limits
        let scale = match c.below(5) { 0 => 3, 1 => 100, 2 => u64::MAX, 3 => u64::MAX / 2 + 2, _ => 1 << 33 };
        let mut val = |c: &mut Ctx| -> u64 { match c.below(6) { 0 => 0, 1 => scale, 2 => scale - c.below(3).min(scale), 3 => c.num(scale), _ => c.below(scale.max(1)) } };
        let locks = [0u64, 0, 0, 0, 1, 50, 51, 100, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];
        let mut pool = UnspentOutputsPool::default();
        let mut m: BTreeMap<OutputPointer, (u64, u64)> = BTreeMap::new();
        let n = c.below(6) as u32;
        let allow_lock = c.chance(4);
        for k in 0..n { let (v, l) = (val(&mut c), if allow_lock { c.pick(&locks) } else { 0 }); pool.insert(ptr(k), out(v, l), k); m.insert(ptr(k), (v, l)); }
        let mut d = UtxoDiff::new(&pool, 9);
        for k in 0..n { if c.chance(5) { d.remove_utxo(ptr(k)); m.remove(&ptr(k)); } }
        for k in n..n + c.below(3) as u32 { let (v, l) = (val(&mut c), 0); d.insert_utxo(ptr(k), out(v, l), None); m.insert(ptr(k), (v, l)); }
        let mut inputs: Vec<Input> = vec![];
        let top = n as u64 + 3;
        for k in 0..top as u32 {
            let known = m.contains_key(&ptr(k));
            if (known && c.below(3) > 0) || (!known && c.chance(20)) { inputs.push(Input::new(ptr(k))); }
        }
        if !inputs.is_empty() && c.chance(8) { let i = c.pick(&inputs); let j = c.below(inputs.len() as u64 + 1) as usize; inputs.insert(j, i); }
        let ec = EpochConstants { checkpoint_zero_timestamp: 0, checkpoints_period: 10, ..Default::default() };
        let epoch = match c.below(12) { 0 => u32::MAX, 1 => c.below(12) as u32, _ => 5 };
        let now = if epoch as u64 * 10 > u32::MAX as u64 { None } else { Some(epoch as i64 * 10) };
        let in_sum: u128 = inputs.iter().map(|i| m.get(i.output_pointer()).map_or(0, |x| x.0 as u128)).sum();
        // something close to what the inputs are worth
        let near = |c: &mut Ctx, used: u128| -> u64 { let left = in_sum.saturating_sub(used); (left + c.below(3) as u128).saturating_sub(c.below(3) as u128).min(u64::MAX as u128) as u64 };
        let mut outs: Vec<ValueTransferOutput> = vec![];
        let mut os: u128 = 0;
        for _ in 0..c.below(4) { let v = if c.chance(3) { near(&mut c, os) } else { val(&mut c) }; outs.push(out(v, c.below(3))); os += v as u128; }
        let desc = format!("inputs {:?} epoch {} outputs {:?}", inputs.iter().map(|i| (i.output_pointer().to_string().split_off(62), m.get(i.output_pointer()))).collect::<Vec<_>>(), epoch, outs.iter().map(|o| o.value).collect::<Vec<_>>());
        let check = |c: &mut Ctx, what: &str, extra: String, got: std::result::Result<std::result::Result<u64, Error>, String>, exp: Option<u64>| {
            match got {
                Ok(Ok(v)) if Some(v) == exp => {}
                Ok(Err(_)) if exp.is_none() => {}
                Ok(g) => c.fail(format!("{} of {} {} is {:?}, expected {:?}", what, desc, extra, g.map_err(|e| e.to_string()), exp)),
                Err(p) => c.fail(format!("{} of {} {} panics ({}), expected {:?}", what, desc, extra, p, exp)),
            }
        };
        c.case(&desc);
        let vt = VTTransaction::new(VTTransactionBody::new(inputs.clone(), outs.clone()), vec![]);
        let e = oracle(&inputs, &m, now, os);
        check(&mut c, "value transfer fee", String::new(), guard(|| vt_transaction_fee(&vt, &d, epoch, ec)), e);
        check(&mut c, "sum of inputs", String::new(), guard(|| transaction_inputs_sum(&inputs, &d, epoch, ec)), oracle(&inputs, &m, now, 0));
        check(&mut c, "sum of outputs", String::new(), guard(|| transaction_outputs_sum(&outs).map_err(Error::from)), if os > u64::MAX as u128 { None } else { Some(os as u64) });
        let w = match c.below(4) { 0 => 0, 1 => u16::MAX as u64, _ => c.below(20) };
        let fee = if c.flip() { val(&mut c) } else { c.below(1000) };
        let rw = match c.below(3) { 0 => (near(&mut c, os) / w.max(1)).saturating_sub(fee.saturating_mul(2)), 1 => val(&mut c), _ => c.below(1000) };
        let dro = DataRequestOutput { witness_reward: rw, witnesses: w as u16, commit_and_reveal_fee: fee, ..Default::default() };
        let one = rw as u128 + 2 * fee as u128;
        let dv = if one > u64::MAX as u128 || one * w as u128 > u64::MAX as u128 { None } else { Some(one * w as u128) };
        let x = format!("data request reward {} fee {} witnesses {}", rw, fee, w);
        check(&mut c, "value", x.clone(), guard(|| dro.checked_total_value().map_err(Error::from)), dv.map(|v| v as u64));
        let dr = DRTransaction::new(DRTransactionBody::new(inputs.clone(), dro, outs.clone()), vec![]);
        let e = dv.and_then(|v| oracle(&inputs, &m, now, os + v));
        check(&mut c, "data request fee", x, guard(|| dr_transaction_fee(&dr, &d, epoch, ec)), e);
        let sv = if c.flip() { val(&mut c) } else { near(&mut c, 0) };
        let cv = if c.flip() { near(&mut c, sv as u128) } else { val(&mut c) };
        let ch = if c.chance(3) { None } else { Some(out(cv, 0)) };
        let st = StakeTransaction::new(StakeTransactionBody { inputs: inputs.clone(), output: StakeOutput { value: sv, ..Default::default() }, change: ch.clone(), ..Default::default() }, vec![]);
        let e = oracle(&inputs, &m, now, sv as u128 + ch.as_ref().map_or(0, |c| c.value as u128));
        check(&mut c, "stake fee", format!("staked {} change {:?}", sv, ch.map(|c| c.value)), guard(|| st_transaction_fee(&st, &d, epoch, ec)), e);
        let (wv, uf) = (val(&mut c), val(&mut c));
        let staked = match c.below(3) { 0 => val(&mut c), _ => ((wv as u128 + uf as u128 + c.below(3) as u128).saturating_sub(c.below(3) as u128)).min(u64::MAX as u128) as u64 };
        let ut = UnstakeTransaction { body: UnstakeTransactionBody { withdrawal: out(wv, 0), fee: uf, ..Default::default() }, ..Default::default() };
        check(&mut c, "unstake fee", format!("withdrawn {} fee {} staked {}", wv, uf, staked), guard(|| ut_transaction_fee(&ut, staked)), if wv as u128 + uf as u128 > staked as u128 { None } else { Some(uf) });
        c.sample(|| desc.clone());
    }
    c.done()
}
