use std::sync::{RwLock, RwLockReadGuard};
use anyhow::Error;
include!("utxo_stub.rs");
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct KeyedSignature;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct RADRequest { size: u32 }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Memoized<T>(PhantomData<T>);
impl<T> Memoized<T> { fn new() -> Self { Memoized(PhantomData) } }
impl RADRequest { fn weight(&self) -> u32 { self.size } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct StakeKey<T>(PhantomData<T>);
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd, Default)] pub struct OrderedFloat<T>(T);
impl<T: Copy> OrderedFloat<T> { fn into_inner(self) -> T { self.0 } }
impl<T> From<T> for OrderedFloat<T> { fn from(x: T) -> Self { OrderedFloat(x) } }
impl Eq for OrderedFloat<f64> {}
impl num_traits::Zero for OrderedFloat<f64> { fn zero() -> Self { OrderedFloat(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl std::hash::Hash for OrderedFloat<f64> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }
impl OrderedFloat<f64> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.total_cmp(&o.0) } }
impl std::fmt::Display for OrderedFloat<f64> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl Add for OrderedFloat<f64> { type Output = Self; fn add(self, o: Self) -> Self { OrderedFloat(self.0 + o.0) } }
impl Sub for OrderedFloat<f64> { type Output = Self; fn sub(self, o: Self) -> Self { OrderedFloat(self.0 - o.0) } }
impl Mul<f64> for OrderedFloat<f64> { type Output = Self; fn mul(self, o: f64) -> Self { OrderedFloat(self.0 * o) } }
impl Div<f64> for OrderedFloat<f64> { type Output = Self; fn div(self, o: f64) -> Self { OrderedFloat(self.0 / o) } }
type ParseIntError = std::num::ParseIntError;
impl anyhow::ErrLike for std::io::Error {}
use std::{cmp, convert, ops, ops::*, str};
mod num_traits { pub trait Zero: Sized + std::ops::Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; } impl Zero for u64 { fn zero() -> u64 { 0 } fn is_zero(&self) -> bool { *self == 0 } } }
use num_traits::Zero;
type Power = u64;
fn calculate_sha256(_: &[u8]) -> SHA256 { [0; 32] }
trait Itertools: Iterator { fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<_> = self.collect(); v.sort_by_key(f); v.into_iter() } }
impl<I: Iterator> Itertools for I {}

fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash::SHA256([(n / 4) as u8; 32]), output_index: n % 4 } }
fn pkh(n: u8) -> PublicKeyHash { PublicKeyHash { hash: [n; 20] } }
thread_local! { static NOW: std::cell::Cell<i64> = const { std::cell::Cell::new(0) }; }
fn get_timestamp() -> i64 { NOW.with(|x| x.get()) }
fn h32(n: u32) -> Hash { let mut b = [7u8; 32]; b[0] = n as u8; b[31] = (n >> 8) as u8; Hash::SHA256(b) }
fn wptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: h32(n / 3), output_index: n % 3 } }
// the pointer as the wallet keeps it, made here by hand
fn key(p: &OutputPointer) -> OutPtr { let Hash::SHA256(b) = p.transaction_id; OutPtr { txn_hash: b.to_vec(), output_index: p.output_index } }

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let scale = c.pick(&[3u64, 100, u64::MAX / 40, 1 << 33]);
        let n = c.below(16) as u32;
        let mut own: UtxoSet = HashMap::new();
        let mut all: BTreeMap<OutputPointer, (u64, u8, u64)> = BTreeMap::new();
        for k in 0..n {
            if c.chance(5) { continue; }
            let o = (match c.below(4) { 0 => scale, 1 => 1, _ => c.below(scale) + 1 }, c.below(3) as u8, c.pick(&[0u64, 0, 50, 99, 100, 101, 300]));
            all.insert(wptr(k), o);
            own.insert(key(&wptr(k)), OutputInfo { amount: o.0, pkh: pkh(o.1), time_lock: o.2 });
        }
        let mut un: HashSet<Hash> = HashSet::new();
        if c.chance(2) { for k in 0..n / 3 + 1 { if c.chance(4) { un.insert(h32(k)); } } }
        let mut sel: BTreeSet<OutputPointer> = BTreeSet::new();
        if c.chance(3) { for k in 0..n { if c.chance(2) { sel.insert(wptr(k)); } } }
        let mut used: UsedOutputs = HashMap::new();
        let mut uses: BTreeMap<OutputPointer, u64> = BTreeMap::new();
        let mut now = 100u64;
        for round in 0..c.range(1, 4) {
            // some outputs are spent until some time
            let mut ins = vec![];
            for _ in 0..c.below(5) { ins.push(wptr(c.below(n as u64 + 4) as u32)); }
            let until = c.pick(&[0u64, 50, 99, 100, 101, 150, 1000]);
            let mut w = WalletUtxos { utxo_set: &own, used_outputs: &mut used, unconfirmed_transactions: &un, selected_utxos: sel.iter().map(key).collect() };
            w.set_used_output_pointer(ins.iter().map(|p| Input::new(*p)), until);
            for p in &ins { uses.insert(*p, until); }
            for k in 0..n + 4 {
                let p = wptr(k);
                let e = all.get(&p).copied();
                let u = uses.get(&p).copied();
                let t = match (e, u) { (Some(e), Some(u)) => Some(e.2.max(u)), (Some(e), None) => Some(e.2), (None, x) => x };
                if w.get_usage_timeout(&p) != t { c.fail(format!("output {p:?} ({e:?}, used until {u:?}): cannot be spent before {:?}, expected {t:?}", w.get_usage_timeout(&p))); }
                if w.get_value(&p) != e.map(|e| e.0) { c.fail(format!("output {p:?} is worth {:?}, expected {e:?}", w.get_value(&p))); }
                if w.get(&p) != e.map(|e| ValueTransferOutput { pkh: pkh(e.1), value: e.0, time_lock: e.2 }) { c.fail(format!("output {p:?} is {:?}, expected {e:?}", w.get(&p))); }
                if w.get_included_block_number(&p).is_some() { c.fail(format!("output {p:?} has a block number")); }
            }
            for st in 0..3 {
                let from = match c.below(4) { 0 => Some(c.below(4) as u8), _ => None };
                let f = from.map(pkh);
                let strategy = match st { 0 => UtxoSelectionStrategy::Random { from: f }, 1 => UtxoSelectionStrategy::BigFirst { from: f }, _ => UtxoSelectionStrategy::SmallFirst { from: f } };
                let got = match guard(|| w.sort_by(&strategy)) { Ok(x) => x, Err(e) => { c.fail(format!("sort_by crashed: {e}")); break; } };
                let want: BTreeSet<OutputPointer> = all.iter().filter(|(p, o)| !un.contains(&p.transaction_id) && (sel.is_empty() || sel.contains(p)) && from.is_none_or(|f| f == o.1)).map(|(p, _)| *p).collect();
                let set: BTreeSet<OutputPointer> = got.iter().cloned().collect();
                if set != want || got.len() != set.len() { c.fail(format!("{strategy:?} of {all:?}, unconfirmed {un:?}, selected {sel:?}: offered {got:?}, expected {want:?}")); }
                else if st > 0 && got.windows(2).any(|x| { let (a, b) = (all[&x[0]].0, all[&x[1]].0); if st == 1 { a < b } else { a > b } }) { c.fail(format!("{strategy:?} of {all:?}: offered in the order {got:?}")); }
                // and what is taken of them is free
                let free: Vec<OutputPointer> = got.iter().cloned().filter(|p| all[p].2 <= now && uses.get(p).is_none_or(|u| *u <= now)).collect();
                let have: u128 = free.iter().map(|p| all[p].0 as u128).sum();
                let amount = c.num(have as u64) + c.below(2);
                let lim = if c.chance(8) { Some(c.pick(&[0u32, 1, u32::MAX])) } else { None };
                let (free, have) = if lim.is_some() { (vec![], 0) } else { (free, have) };
                let what = || format!("{amount} at {now}, {strategy:?} of {all:?}, in use {uses:?}, blocks {lim:?}");
                let bad = match guard(|| w.take_enough_utxos(amount, now, lim, &strategy)) {
                    Err(e) => Some(format!("crashed: {e}")),
                    Ok(Ok(t)) => {
                        let vals: Vec<u64> = t.pointers.iter().map(|p| all[p].0).collect();
                        let sum: u128 = vals.iter().map(|x| *x as u128).sum();
                        let set: BTreeSet<_> = t.pointers.iter().cloned().collect();
                        let last = vals.last().copied().unwrap_or(0) as u128;
                        let first: Vec<u64> = free.iter().take(vals.len()).map(|p| all[p].0).collect();
                        let same = t.resolved.len() == t.pointers.len() && t.resolved.iter().zip(&t.pointers).all(|(o, p)| { let e = all[p]; *o == ValueTransferOutput { pkh: pkh(e.1), value: e.0, time_lock: e.2 } });
                        if amount == 0 || sum != t.total_value as u128 || sum < amount as u128 || sum - last >= amount as u128 || set.len() != vals.len() || !same || t.pointers.iter().any(|p| !free.contains(p)) || (st > 0 && vals != first) { Some(format!("took {t:?}")) } else { None }
                    }
                    Ok(Err(TransactionError::ZeroAmount)) => if amount == 0 { None } else { Some("nothing asked for".to_string()) },
                    Ok(Err(TransactionError::NoMoney { available_balance, transaction_value, .. })) => if amount > 0 && have < amount as u128 && available_balance as u128 == have && transaction_value == amount { None } else { Some(format!("none taken as {available_balance} is there for {transaction_value}, but {have} is")) },
                    Ok(Err(e)) => Some(format!("failed: {e:?}")),
                };
                if let Some(b) = bad { c.fail(format!("{}: {b}", what())); }
            }
            if used.len() != uses.len() || uses.iter().any(|(p, t)| used.get(&key(p)) != Some(t)) { c.fail(format!("in use: {used:?}, expected {uses:?}")); }
            // time passes, outputs are spent for good, and the state is cleared
            if c.flip() { now += c.pick(&[0u64, 1, 50, 900]); }
            let mut now_own = own.clone();
            if c.chance(3) { let k = c.below(n as u64 + 1) as u32; now_own.remove(&key(&wptr(k))); }
            NOW.with(|x| x.set(now as i64));
            let kept = clean_used_outputs(&used, &now_own);
            for (p, t) in &uses {
                let there = now_own.contains_key(&key(p));
                let k = kept.get(&key(p));
                if there && *t > now && k != Some(t) { c.fail(format!("at {now}: output {p:?} is in use until {t}, which was forgotten ({k:?})")); }
                if k.is_some() && (!there || *t < now || k != Some(t)) { c.fail(format!("at {now}: output {p:?}, used until {t}, still there: {there}: kept as {k:?}")); }
            }
            if kept.keys().any(|k| !used.contains_key(k)) { c.fail(format!("at {now}: uses appeared out of nothing: {kept:?} of {used:?}")); }
            for p in all.keys().cloned().collect::<Vec<_>>() { if !now_own.contains_key(&key(&p)) { all.remove(&p); } }
            own = now_own;
            uses.retain(|p, _| kept.contains_key(&key(p)));
            used = kept;
            c.case(&(round, now, &all, &uses, un.len(), &sel));
            for p in uses.keys() { let q: OutputPointer = (&OutPtr::from(p)).into(); if q != *p || OutPtr::from(p) != key(p) { c.fail(format!("pointer {p:?} became {q:?}")); } }
        }
        c.sample(|| format!("{n} outputs, {} own, {} in use at {now}", all.len(), uses.len()));
    }
    c.done();
}
