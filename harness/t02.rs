use std::fmt::{Debug, Display, Formatter};
use std::sync::{PoisonError, RwLock};
use std::collections::btree_map::Entry;
use num_traits::{Saturating, Zero};
use itertools_stub::Itertools;
mod num_traits {
    pub trait Zero: Sized + std::ops::Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Zero::zero(); } }
    pub trait Saturating { fn saturating_add(self, v: Self) -> Self; fn saturating_sub(self, v: Self) -> Self; }
    macro_rules! im { ($($t:ty)*) => { $(
        impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } }
        impl Saturating for $t { fn saturating_add(self, v: $t) -> $t { <$t>::saturating_add(self, v) } fn saturating_sub(self, v: $t) -> $t { <$t>::saturating_sub(self, v) } }
    )* } }
    im!(u32 u64);
}
mod itertools_stub {
    pub trait Itertools: Iterator {
        fn sorted_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<Self::Item> = self.collect(); v.sort_by(f); v.into_iter() }
        fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<Self::Item> = self.collect(); v.sort_by_key(f); v.into_iter() }
        fn sorted(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Ord { let mut v: Vec<Self::Item> = self.collect(); v.sort(); v.into_iter() }
        fn collect_vec(self) -> Vec<Self::Item> where Self: Sized { self.collect() }
    }
    impl<I: Iterator> Itertools for I {}
}
pub trait Serialize {}
impl<T> Serialize for T {}
pub trait Deserialize<'de> {}
type Epoch = u32;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PublicKeyHash { hash: [u8; 20] }
impl PublicKeyHash { fn bech32(&self, _e: u8) -> String { String::new() } }
impl Display for PublicKeyHash { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.hash[0]) } }
fn get_environment() -> u8 { 0 }
pub struct SO { key: StakeKey<PublicKeyHash>, value: u64 }
pub struct SB { output: SO }
pub struct StakeTransaction { body: SB }
pub struct UO { pkh: PublicKeyHash, value: u64 }
pub struct UB { operator: PublicKeyHash, withdrawal: UO, fee: u64 }
pub struct UnstakeTransaction { body: UB }

type St = Stake<WIT_DECIMAL_PLACES, PublicKeyHash, Wit, u32, u64, u64>;
type K = (u8, u8);
#[derive(Clone, Copy, Debug, PartialEq)]
struct E { coins: u64, ep: [u32; 2], nonce: u64 }
type M = BTreeMap<K, E>;
const W: u64 = 1_000_000_000;
const CAP: u64 = 4_000_000_000 * W;
const CAPS: [Capability; 2] = [Capability::Mining, Capability::Witnessing];
fn a(x: u8) -> PublicKeyHash { PublicKeyHash { hash: [x; 20] } }
fn key(k: K) -> StakeKey<PublicKeyHash> { StakeKey { validator: a(k.0), withdrawer: a(k.1) } }
fn unkey(k: &StakeKey<PublicKeyHash>) -> K { (k.validator.hash[0], k.withdrawer.hash[0]) }
fn e_of(s: &St) -> E { E { coins: s.coins.nanowits(), ep: [s.epochs.get(Capability::Mining), s.epochs.get(Capability::Witnessing)], nonce: s.nonce } }
fn power(e: &E, c: usize, at: u32) -> u64 { e.coins / W * at.saturating_sub(e.ep[c]) as u64 }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Hash { SHA256([u8; 32]) }
fn want<T: PartialEq + Debug>(what: &str, got: T, exp: T) -> std::result::Result<(), String> { if got == exp { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, exp)) } }

// the entries, the most powerful ones first
fn rank(m: &M, c: usize, at: u32) -> Vec<(K, u64)> { let mut v: Vec<(K, u64)> = m.iter().map(|(k, e)| (*k, power(e, c, at))).collect(); v.sort_by(|x, y| (y.1, y.0).cmp(&(x.1, x.0))); v }
fn bits(x: u64) -> u64 { let mut n = 0; let mut x = x; while x > 0 { n += 1; x /= 2; } n }
// what a committer gets: None if not eligible
fn expected(m: &M, v: u8, at: u32, w: u16, r: u16, max: u16) -> Option<(u32, f64)> {
    let own = m.iter().filter(|(k, _)| k.0 == v).map(|(_, e)| power(e, 1, at)).max().unwrap_or(0);
    let l = rank(m, 1, at);
    let nth = |i: usize| l.get(i).map(|x| x.1).unwrap_or(0);
    let limit = nth((1usize << r) * w as usize - 1);
    if own == 0 || own <= limit { return None; }
    let n = max as u64 * bits(own);
    let d = r as u64 * bits(limit) + (max - r) as u64 * bits(nth(0));
    if d == 0 { return Some((u32::MAX, 1.0)); }
    Some((((u64::MAX / d) as u128 * n as u128).min(u64::MAX as u128).checked_shr(32).unwrap() as u32, n as f64 / d as f64))
}
fn first(h: &Hash) -> u32 { let Hash::SHA256(x) = h; u32::from_be_bytes([x[0], x[1], x[2], x[3]]) }
fn run(c: &mut Ctx, log: &mut String) -> std::result::Result<(), String> {
    let mut s = StakesTracker::default();
    let mut m = M::new();
    let n = c.below(14);
    let few = c.flip();
    let size = c.pick(&[1u64, 3, 10, 1_000, 1_000_000]);
    for _ in 0..n {
        let k = (c.below(if few { 3 } else { 9 }) as u8, c.below(3) as u8);
        if m.contains_key(&k) { continue; }
        let coins = (1 + c.below(size)) * W + if c.flip() { c.below(W) } else { 0 };
        let lim = if c.flip() { 5 } else { 1000 };
        let e = c.below(lim) as u32;
        log.push_str(&format!(" stake({:?}, {}, epoch {})", k, coins, e));
        s.add_stake(key(k), Wit::from_nanowits(coins), e, true, Wit::from_nanowits(1)).map_err(|_| "staking fails".to_string())?;
        let mut x = E { coins, ep: [e, e], nonce: e as u64 };
        if c.chance(4) && !m.keys().any(|y| y.0 == k.0) {
            let (i, to) = (c.below(2) as usize, e + c.below(20) as u32);
            log.push_str(&format!(" reset({}, {}, epoch {})", k.0, i, to));
            s.reset_age(a(k.0), CAPS[i], to, 1).map_err(|_| "resetting fails".to_string())?;
            x.ep[i] = to;
        }
        m.insert(k, x);
    }
    let top = m.values().map(|e| e.ep[0].max(e.ep[1])).max().unwrap_or(0);
    for _ in 0..6 {
        let at = match c.below(5) { 0 => c.below(top as u64 + 2) as u32, 1 => top, 2 => top + 1 + c.below(5) as u32, 3 => top + c.below(1_000_000) as u32, _ => u32::MAX - c.below(2) as u32 };
        for i in 0..2 {
            want("ranking", s.by_rank(CAPS[i], at).map(|(k, p)| (unkey(&k), p)).collect(), rank(&m, i, at))?;
            for v in 0..10u8 { want(&format!("power of {} at {}", v, at), s.query_power(a(v), CAPS[i], at).ok(), m.iter().filter(|(k, _)| k.0 == v).map(|(_, e)| power(e, i, at)).max())?; }
        }
        let rf = match c.below(4) { 0 => c.below(16) as u16, 1 => (m.len() * 2 / 3) as u16, 2 => (m.len() * 2 / 3) as u16 + 1, _ => u16::MAX };
        let best: Vec<u8> = rank(&m, 0, at).iter().take((rf as usize).min(m.len() * 2 / 3)).map(|x| x.0 .0).collect();
        for v in 0..10u8 {
            want(&format!("may {} propose at {} with replication {}", v, at, rf), s.mining_eligibility(a(v), at, rf).map(|x| x == Eligible::Yes).map_err(|_| ()), Ok(best.contains(&v)))?;
            want(&format!("may {} propose at {} with replication {} (bool)", v, at, rf), s.mining_eligibility_bool(a(v), at, rf), best.contains(&v))?;
        }
        let lim = if c.flip() { 4 } else { 16 };
        let max = 1 + c.below(lim) as u16;
        let r = 1 + c.below(max as u64) as u16;
        let w = match c.below(4) { 0 => 1, 1 => 1 + c.below(3) as u16, 2 => 1 + c.below(125) as u16, _ => ((m.len() + 1) >> r).max(1) as u16 };
        for v in 0..10u8 {
            let q = format!("may {} witness at {} with {} witnesses in round {} of {}", v, at, w, r, max);
            let exp = expected(&m, v, at, w, r, max);
            match s.witnessing_eligibility(a(v), at, w, r, max) {
                Err(_) => return Err(format!("{}: an error", q)),
                Ok((Eligible::Yes, h, p)) => {
                    want(&format!("{}: target and probability", q), Some((first(&h), p)), exp)?;
                    let Hash::SHA256(h) = h;
                    want(&format!("{}: rest of the target", q), h[4..].iter().all(|x| *x == h[4]), true)?;
                }
                Ok((Eligible::No(x), _, _)) => {
                    want(&format!("{}: eligible", q), false, exp.is_some())?;
                    want(&format!("{}: why not", q), x == IneligibilityReason::NotStaking, !m.keys().any(|k| k.0 == v))?;
                }
            }
            want(&format!("{} (bool)", q), s.witnessing_eligibility_bool(a(v), at, w, r, max), exp.is_some())?;
        }
    }
    Ok(())
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut log = String::new();
        let r = guard(|| run(&mut c, &mut log));
        c.case(&log);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(x)) => c.fail(format!("{}: {}", log, x)),
            Err(x) => c.fail(format!("{}: panics: {}", log, x)),
        }
        c.sample(|| log.clone());
    }
    c.done()
}
