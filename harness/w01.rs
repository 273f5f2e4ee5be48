use std::sync::{RwLock, RwLockReadGuard};
use anyhow::Error;
include!("utxo_stub.rs");
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct KeyedSignature;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct RADRequest { size: u32 }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Memoized<T>(PhantomData<T>);
impl<T> Memoized<T> { fn new() -> Self { Memoized(PhantomData) } }
impl RADRequest { fn weight(&self) -> u32 { self.size } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct StakeKey<T>(PhantomData<T>);
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Default)] pub struct OrderedFloat<T>(T);
impl<T: Copy> OrderedFloat<T> { fn into_inner(self) -> T { self.0 } }
impl<T> From<T> for OrderedFloat<T> { fn from(x: T) -> Self { OrderedFloat(x) } }
impl Eq for OrderedFloat<f64> {}
impl num_traits::Zero for OrderedFloat<f64> { fn zero() -> Self { OrderedFloat(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl std::hash::Hash for OrderedFloat<f64> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }
impl OrderedFloat<f64> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.total_cmp(&o.0) } }
impl std::fmt::Display for OrderedFloat<f64> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Add for OrderedFloat<f64> { type Output = Self; fn add(self, o: Self) -> Self { OrderedFloat(self.0 + o.0) } }
impl Sub for OrderedFloat<f64> { type Output = Self; fn sub(self, o: Self) -> Self { OrderedFloat(self.0 - o.0) } }
impl Mul<f64> for OrderedFloat<f64> { type Output = Self; fn mul(self, o: f64) -> Self { OrderedFloat(self.0 * o) } }
impl Div<f64> for OrderedFloat<f64> { type Output = Self; fn div(self, o: f64) -> Self { OrderedFloat(self.0 / o) } }
type ParseIntError = std::num::ParseIntError;
impl anyhow::ErrLike for std::io::Error {}
use std::{cmp, convert, ops, ops::*, str};
mod num_traits { pub trait Zero: Sized + std::ops::Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; } impl Zero for u64 { fn zero() -> u64 { 0 } fn is_zero(&self) -> bool { *self == 0 } } }
use num_traits::Zero;
type Power = u64;
fn calculate_sha256(_: &[u8]) -> SHA256 { [0; 32] }
trait Itertools: Iterator { fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<_> = self.collect(); v.sort_by_key(f); v.into_iter() } }
impl<I: Iterator> Itertools for I {}

fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash::SHA256([(n / 4) as u8; 32]), output_index: n % 4 } }
fn pkh(n: u8) -> PublicKeyHash { PublicKeyHash { hash: [n; 20] } }
#[derive(Clone, Copy, Debug)] struct Out { p: OutputPointer, v: u64, lock: u64, block: u32 }

fn charge(fee: Result<u64, f64>, w: u64) -> u128 { match fee { Ok(a) => a as u128, Err(r) => ((r * w as f64) as u64) as u128 } }

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let me = pkh(1);
        let scale = match c.below(6) { 0 => 3, 1 => 100, 2 => u64::MAX / 16, 3 => 1 << 33, 4 => 30_000_000_000, _ => 100_000 };
        let n = c.below(14) as u32;
        let mut pool = UnspentOutputsPool::default();
        let mut own = OwnUnspentOutputsPool::new();
        let mut all: BTreeMap<OutputPointer, Out> = BTreeMap::new();
        let (allow_lock, allow_age, allow_foreign) = (c.chance(2), c.chance(2), c.chance(2));
        let same = c.chance(5);
        for k in 0..n {
            let v = if same { scale } else { match c.below(5) { 0 => scale, 1 => c.num(scale), 2 => 1, _ => c.below(scale) + 1 } };
            let o = Out { p: ptr(k), v, lock: if allow_lock { c.pick(&[0u64, 0, 50, 99, 100, 101, 300]) } else { 0 }, block: if allow_age { c.below(12) as u32 } else { 0 } };
            let mine = !(allow_foreign && c.chance(4));
            pool.insert(o.p, ValueTransferOutput { pkh: if mine { me } else { pkh(2) }, value: o.v, time_lock: o.lock }, o.block);
            all.insert(o.p, o);
            if mine { own.insert(o.p, if c.chance(5) { c.pick(&[1u64, 100, 101, 200]) } else { 0 }); }
        }
        let mut ts = 100u64;
        let timeout = c.pick(&[0u64, 1, 50, 1000]);
        for _round in 0..c.range(1, 4) {
            let kind = c.below(4);
            let st = if kind == 1 { 0 } else if kind == 2 { 2 } else { c.below(3) };
            let from = if kind == 0 || kind == 3 { match c.below(5) { 0 => Some(me), 1 => Some(pkh(3)), _ => None } } else { None };
            let strategy = match st { 0 => UtxoSelectionStrategy::Random { from }, 1 => UtxoSelectionStrategy::BigFirst { from }, _ => UtxoSelectionStrategy::SmallFirst { from } };
            let lim = if kind == 2 { Some(c.below(12) as u32) } else { None };
            let before: HashMap<OutputPointer, u64> = own.iter().map(|(k, v)| (*k, *v)).collect();
            // the order in which outputs are taken
            let mut order: Vec<OutputPointer> = own.keys().cloned().collect();
            if st == 1 { order.sort_by_key(|p| -(all[p].v as i128)); }
            if st == 2 { order.sort_by_key(|p| all[p].v as i128); }
            if from == Some(pkh(3)) { order.clear(); }
            let usable = |l: Option<u32>, order: &[OutputPointer]| -> Vec<OutputPointer> { order.iter().cloned().filter(|p| all[p].lock <= ts && before[p] <= ts && l.map_or(true, |l| all[p].block <= l)).collect() };
            let e = usable(lim, &order);
            let have: u128 = e.iter().map(|p| all[p].v as u128).sum();
            // something close to what can be spent, or to a part of it
            let part: u128 = { let k = c.below(e.len() as u64 + 1) as usize; e[..k].iter().map(|p| all[p].v as u128).sum() };
            let target = match c.below(4) { 0 => have, 1 => c.num(have.min(u64::MAX as u128) as u64) as u128, _ => part };
            let near = |c: &mut Ctx, x: u128| -> u64 { (x + c.below(3) as u128).saturating_sub(c.below(3) as u128).min(u64::MAX as u128) as u64 };
            let dry = kind != 2 && c.chance(3);
            let fee: Result<u64, f64> = if kind == 2 { Ok(near(&mut c, target)) } else if c.flip() { Ok(c.num(((target / 2) as u64).max(1))) } else { Err(c.pick(&[0.0f64, 0.1, 0.5, 1.0, 1.5, 3.0, 10.0, 1000.0, 1e9]) * if c.chance(3) { (target as f64 / 1000.0).max(0.001) } else { 1.0 }) };
            let fe = match fee { Ok(a) => Fee::absolute_from_nanowits(a), Err(f) => Fee::relative_from_float(f) };
            // what is to be paid, the weight besides inputs, and the weight of the result
            let mut outs: Vec<ValueTransferOutput> = vec![];
            let mut dr = DataRequestOutput::default();
            let mut so = StakeOutput::default();
            let guess = charge(fee, 500).min(target);
            let (value, base): (u128, u64) = match kind {
                0 => {
                    let k = c.below(4);
                    for i in 0..k { let left = target.saturating_sub(guess); let v = if i + 1 == k { let s: u128 = outs.iter().map(|o| o.value as u128).sum(); near(&mut c, left.saturating_sub(s)) } else { c.num(left.min(u64::MAX as u128) as u64) }; outs.push(ValueTransferOutput { pkh: pkh(5 + i as u8), value: v, time_lock: c.below(2) }); }
                    (outs.iter().map(|o| o.value as u128).sum(), 360 * (k + 1))
                }
                1 => {
                    dr.witnesses = c.range(1, 6) as u16;
                    dr.witness_reward = near(&mut c, target.saturating_sub(guess) / dr.witnesses as u128);
                    dr.commit_and_reveal_fee = if c.chance(3) { let w = dr.witnesses as u64; let x = c.num(4); dr.witness_reward = dr.witness_reward.saturating_sub(2 * x); let _ = w; x } else { 0 };
                    dr.data_request = RADRequest { size: c.below(300) as u32 };
                    ((dr.witness_reward as u128 + 2 * dr.commit_and_reveal_fee as u128) * dr.witnesses as u128, dr.data_request.size as u64 + 30 + dr.witnesses as u64 * 636 + 100 + 36)
                }
                2 => (0, 360),
                _ => { so.value = near(&mut c, target.saturating_sub(guess)); (so.value as u128, 141) }
            };
            let max: u64 = if kind == 2 { u32::MAX as u64 } else { match c.below(3) { 0 => 20_000, _ => (base + 133 * c.range(1, e.len() as u64 + 2)).saturating_sub(c.below(134)) } };
            c.case(&(kind, st, &e, value, format!("{fee:?}"), max));
            let cost = |k: usize| value + charge(fee, base + 133 * k as u64);
            let worth = |k: usize| -> u128 { e[..k].iter().map(|p| all[p].v as u128).sum() };
            let mut want: Option<usize> = None;
            if cost(1) > 0 && value + charge(fee, base + 133 * 1) > 0 {
                want = (1..=e.len()).find(|k| worth(*k) >= cost(*k));
                want = want.filter(|k| match fee { Ok(_) => kind == 3 || base + 133 <= max, Err(_) => base + 133 * (*k as u64) <= max });
            }
            let change = want.map_or(0, |k| worth(k) - cost(k));
            if kind == 3 { if let Some(k) = want { if 105 + (if change > 0 { 36 } else { 0 }) + 133 * k as u64 > max { want = None; } } }
            let m = max as u32;
            let what = ["value transfer", "data request", "collateral", "stake"][kind as usize];
            let got: Result<Result<(Vec<Input>, Vec<ValueTransferOutput>, bool), TransactionError>, String> = guard(|| match kind {
                0 => build_vtt(outs.clone(), fe, &mut own, me, &pool, ts, timeout, &strategy, m, dry).map(|b| { let k = outs.len().min(b.outputs.len()); (b.inputs.clone(), b.outputs[k..].to_vec(), b.outputs[..k] == outs[..]) }),
                1 => build_drt(dr.clone(), fe, &mut own, me, &pool, ts, timeout, m, dry).map(|b| (b.inputs.clone(), b.outputs.clone(), b.dr_output == dr)),
                2 => { let yes = check_commit_collateral(Wit::from_nanowits(fee.unwrap()), &own, me, &pool, ts, lim.unwrap());
                       let rich: u128 = usable(None, &order).iter().map(|p| all[p].v as u128).sum();
                       if yes != (want.is_some() && rich >= 100_000_000_000) { c.fail(format!("check_commit_collateral says {yes}, {rich} can be spent, of which {have} are old enough for a collateral of {}", fee.unwrap())); }
                       build_commit_collateral(Wit::from_nanowits(fee.unwrap()), &mut own, me, &pool, ts, timeout, lim.unwrap()).map(|b| (b.0, b.1, true)) }
                _ => build_st(so.clone(), fe, &mut own, me, &pool, ts, timeout, &strategy, m, dry).map(|b| (b.inputs.clone(), b.change.iter().cloned().collect(), b.output == so)),
            });
            let got = match got { Ok(x) => x, Err(_) => { c.fail(format!("building a {what} panics: value {value}, fee {fee:?}, outputs worth {have}, weight limit {max}")); break; } };
            let after: HashMap<OutputPointer, u64> = own.iter().map(|(k, v)| (*k, *v)).collect();
            match (got, want) {
                (Ok((ins, rest, asked)), Some(k)) => {
                    let w: Vec<OutputPointer> = ins.iter().map(|i| *i.output_pointer()).collect();
                    if w != e[..k] { c.fail(format!("a {what} of value {value} and fee {fee:?} spends {:?} instead of the first {k} of {:?}", ins.len(), e.iter().map(|p| all[p].v).collect::<Vec<_>>())); }
                    if !asked { c.fail(format!("a {what} does not pay what was asked")); }
                    let expect: Vec<ValueTransferOutput> = if change > 0 { vec![ValueTransferOutput { pkh: me, value: change as u64, time_lock: 0 }] } else { vec![] };
                    if rest != expect { c.fail(format!("a {what} of value {value} and fee {fee:?} with {k} inputs worth {} returns {rest:?} instead of {expect:?}", worth(k))); }
                    for (p, t) in before.iter() {
                        let until = if !dry && w.contains(p) { ts + timeout } else { *t };
                        if after.get(p) != Some(&until) { c.fail(format!("after a {what} an output of {} is in use until {:?} instead of {until}", all[p].v, after.get(p))); }
                    }
                    if after.len() != before.len() { c.fail(format!("a {what} changes the set of own outputs")); }
                }
                (Err(_), None) => { if after != before { c.fail(format!("a {what} that cannot be built leaves outputs in use")); } }
                (Ok((ins, _, _)), None) => c.fail(format!("a {what} of value {value} and fee {fee:?} is built with {} of {:?}, weight limit {max}", ins.len(), e.iter().map(|p| all[p].v).collect::<Vec<_>>())),
                (Err(x), Some(k)) => c.fail(format!("a {what} of value {value} and fee {fee:?} is refused although the first {k} of {:?} pay for it, weight limit {max}: {x:?}", e.iter().map(|p| all[p].v).collect::<Vec<_>>())),
            }
            ts += c.pick(&[0u64, 0, 1, 49, 50, 1000]);
        }
    }
    c.done()
}
