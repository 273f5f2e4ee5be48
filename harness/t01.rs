use std::fmt::{Debug, Display, Formatter};
use std::sync::{PoisonError, RwLock};
use std::collections::btree_map::Entry;
use num_traits::{Saturating, Zero};
use itertools_stub::Itertools;
mod num_traits {
    pub trait Zero: Sized + std::ops::Add<Self, Output = Self> { fn zero() -> Self; fn is_zero(&self) -> bool; fn set_zero(&mut self) { *self = Zero::zero(); } }
    pub trait Saturating { fn saturating_add(self, v: Self) -> Self; fn saturating_sub(self, v: Self) -> Self; }
    macro_rules! im { ($($t:ty)*) => { $(
        impl Zero for $t { fn zero() -> $t { 0 } fn is_zero(&self) -> bool { *self == 0 } }
        impl Saturating for $t { fn saturating_add(self, v: $t) -> $t { <$t>::saturating_add(self, v) } fn saturating_sub(self, v: $t) -> $t { <$t>::saturating_sub(self, v) } }
    )* } }
    im!(u32 u64);
}
mod itertools_stub {
    pub trait Itertools: Iterator {
        fn sorted_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<Self::Item> = self.collect(); v.sort_by(f); v.into_iter() }
        fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item> where Self: Sized { let mut v: Vec<Self::Item> = self.collect(); v.sort_by_key(f); v.into_iter() }
        fn sorted(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Ord { let mut v: Vec<Self::Item> = self.collect(); v.sort(); v.into_iter() }
        fn collect_vec(self) -> Vec<Self::Item> where Self: Sized { self.collect() }
    }
    impl<I: Iterator> Itertools for I {}
}
pub trait Serialize {}
impl<T> Serialize for T {}
pub trait Deserialize<'de> {}
type Epoch = u32;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PublicKeyHash { hash: [u8; 20] }
impl PublicKeyHash { fn bech32(&self, _e: u8) -> String { String::new() } }
impl Display for PublicKeyHash { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.hash[0]) } }
fn get_environment() -> u8 { 0 }
pub struct SO { key: StakeKey<PublicKeyHash>, value: u64 }
pub struct SB { output: SO }
pub struct StakeTransaction { body: SB }
pub struct UO { pkh: PublicKeyHash, value: u64 }
pub struct UB { operator: PublicKeyHash, withdrawal: UO, fee: u64 }
pub struct UnstakeTransaction { body: UB }

type St = Stake<WIT_DECIMAL_PLACES, PublicKeyHash, Wit, u32, u64, u64>;
type K = (u8, u8);
#[derive(Clone, Copy, Debug, PartialEq)]
struct E { coins: u64, ep: [u32; 2], nonce: u64 }
type M = BTreeMap<K, E>;
const W: u64 = 1_000_000_000;
const CAP: u64 = 4_000_000_000 * W;
const CAPS: [Capability; 2] = [Capability::Mining, Capability::Witnessing];
fn a(x: u8) -> PublicKeyHash { PublicKeyHash { hash: [x; 20] } }
fn key(k: K) -> StakeKey<PublicKeyHash> { StakeKey { validator: a(k.0), withdrawer: a(k.1) } }
fn unkey(k: &StakeKey<PublicKeyHash>) -> K { (k.validator.hash[0], k.withdrawer.hash[0]) }
fn e_of(s: &St) -> E { E { coins: s.coins.nanowits(), ep: [s.epochs.get(Capability::Mining), s.epochs.get(Capability::Witnessing)], nonce: s.nonce } }
fn power(e: &E, c: usize, at: u32) -> u64 { e.coins / W * at.saturating_sub(e.ep[c]) as u64 }
fn want<T: PartialEq + Debug>(what: &str, got: T, exp: T) -> std::result::Result<(), String> { if got == exp { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, exp)) } }
type V = Vec<(K, E)>;
fn list(r: std::result::Result<Vec<StakeEntry<WIT_DECIMAL_PLACES, PublicKeyHash, Wit, u32, u64, u64>>, StakesError<PublicKeyHash, Wit, u32>>) -> Option<V> {
    r.ok().map(|v| { let mut v: V = v.iter().map(|e| (unkey(&e.key), e_of(&e.value))).collect(); v.sort_by_key(|x| x.0); v })
}
fn some(v: V) -> Option<V> { if v.is_empty() { None } else { Some(v) } }
fn rank(m: &M, c: usize, at: u32) -> Vec<(K, u64)> { let mut v: Vec<(K, u64)> = m.iter().map(|(k, e)| (*k, power(e, c, at))).collect(); v.sort_by(|x, y| (y.1, y.0).cmp(&(x.1, x.0))); v }

fn agrees(s: &mut StakesTracker, m: &M, at: u32) -> std::result::Result<(), String> {
    want("all entries", list(s.query_stakes(QueryStakesKey::All)), Some(m.iter().map(|(k, e)| (*k, *e)).collect()))?;
    want("number of entries", s.stakes_count(), m.len())?;
    want("number of validators", s.validator_count(), m.keys().map(|k| k.0).collect::<BTreeSet<u8>>().len())?;
    want("total staked", s.total_staked().nanowits(), m.values().map(|e| e.coins).sum())?;
    for x in 0..5u8 {
        let (bv, bw): (V, V) = (m.iter().filter(|(k, _)| k.0 == x).map(|(k, e)| (*k, *e)).collect(), m.iter().filter(|(k, _)| k.1 == x).map(|(k, e)| (*k, *e)).collect());
        want(&format!("entries of validator {}", x), list(s.query_stakes(QueryStakesKey::Validator(a(x)))), some(bv.clone()))?;
        want(&format!("entries of withdrawer {}", x), list(s.query_stakes(QueryStakesKey::Withdrawer(a(x)))), some(bw.clone()))?;
        want(&format!("total of validator {}", x), s.query_total_stake(QueryStakesKey::Validator(a(x))).ok().map(|w| w.nanowits()), some(bv.clone()).map(|v| v.iter().map(|e| e.1.coins).sum()))?;
        for c in 0..2 { for t in [0, at, at.saturating_add(1), u32::MAX] {
            want(&format!("power of validator {} at {}", x, t), s.query_power(a(x), CAPS[c], t).ok(), bv.iter().map(|e| power(&e.1, c, t)).max())?;
        } }
        for w in 0..5u8 {
            want("entry by key", list(s.query_stakes(QueryStakesKey::Key(key((x, w))))), m.get(&(x, w)).map(|e| vec![((x, w), *e)]))?;
            want("nonce", s.query_nonce(key((x, w))).ok(), m.get(&(x, w)).map(|e| e.nonce))?;
            want("validator may use withdrawer", s.check_validator_withdrawer(a(x), a(w)).is_ok(), bv.is_empty() || m.contains_key(&(x, w)))?;
        }
    }
    for c in 0..2 { for t in [0, at, at.saturating_add(7), u32::MAX] {
        let exp = rank(m, c, t);
        want("ranking", s.by_rank(CAPS[c], t).map(|(k, p)| (unkey(&k), p)).collect(), exp.clone())?;
        want("census", s.census(CAPS[c], t, CensusStrategy::All).map(|k| unkey(&k)).collect::<Vec<K>>(), exp.iter().map(|x| x.0).collect())?;
        want("census of two", s.census(CAPS[c], t, CensusStrategy::Take(2)).map(|k| unkey(&k)).collect::<Vec<K>>(), exp.iter().map(|x| x.0).take(2).collect())?;
    } }
    Ok(())
}
fn coins(c: &mut Ctx) -> u64 {
    match c.below(8) { 0 => c.num(CAP), 1 => c.below(20) * W, 2 => c.below(1000) * W + c.below(W), 3 => W, 4 => c.below(5) * W + c.below(3) * (W - 1), 5 => 10_000 * W, 6 => c.below(30) * W / 10, _ => c.num(100_000 * W) }
}
fn epoch(c: &mut Ctx) -> u32 { match c.below(4) { 0 => c.u32(), 1 => c.below(20) as u32, 2 => c.below(1000) as u32, _ => u32::MAX - c.below(4) as u32 } }
fn staked(m: &M, k: K, x: u64, e: u32) -> Option<E> {
    let b = m.get(&k).copied();
    let o = b.unwrap_or(E { coins: 0, ep: [0, 0], nonce: e as u64 });
    let (wb, wa, w) = ((o.coins / W) as u128, (x / W) as u128, (o.coins.checked_add(x)? / W) as u128);
    if w == 0 { return None; }
    let mut n = o;
    n.coins += x;
    for i in 0..2 { n.ep[i] = ((wb * o.ep[i] as u128 + wa * e as u128) / w) as u32; }
    Some(n)
}
fn run(c: &mut Ctx, log: &mut String) -> std::result::Result<(), String> {
    let mut s = StakesTracker::default();
    let mut m = M::new();
    let single = c.flip();
    let mut at = epoch(c);
    for _ in 0..1 + c.below(14) {
        let known: Vec<K> = m.keys().copied().collect();
        let k = if c.below(3) > 0 && !known.is_empty() { c.pick(&known) } else { let v = c.below(4) as u8; (v, if single { v / 2 } else { c.below(3) as u8 }) };
        let e = if c.chance(3) { epoch(c) } else { at = at.saturating_add(c.below(50) as u32); at };
        let cur = m.get(&k).copied();
        let total: u64 = m.values().map(|e| e.coins).sum();
        match c.below(11) {
            0 | 1 | 2 | 3 => {
                let x = coins(c);
                let min = match c.below(5) { 0 => x, 1 => x.saturating_add(1), 2 => 1, 3 => 10_000 * W, _ => W };
                if total.saturating_add(x) > CAP { continue; }
                let set = c.flip();
                log.push_str(&format!(" stake({:?}, {}, epoch {}, nonce {}, min {})", k, x, e, set, min));
                let exp = if x < min { None } else { match staked(&m, k, x, e) { None => continue, Some(n) => Some(E { nonce: if set || cur.is_none() { e as u64 } else { n.nonce }, ..n }) } };
                let r = if set && c.flip() {
                    process_stake_transactions(&mut s, [StakeTransaction { body: SB { output: SO { key: key(k), value: x } } }].iter(), e, min).ok().map(|_| exp.unwrap_or(E { coins: 0, ep: [0, 0], nonce: 0 }))
                } else { s.add_stake(key(k), Wit::from_nanowits(x), e, set, Wit::from_nanowits(min)).ok().map(|x| e_of(&x)) };
                want("staking", r, exp)?;
                if let Some(n) = exp { m.insert(k, n); }
            }
            4 | 5 | 6 => {
                let have = cur.map(|e| e.coins).unwrap_or(0);
                let x = match c.below(7) { 0 | 6 => have, 1 => have.saturating_add(1), 2 => have.saturating_sub(coins(c)), 3 => have / 2, 4 => have.saturating_sub(1), _ => coins(c) };
                let min = match c.below(5) { 0 => have.saturating_sub(x), 1 => have.saturating_sub(x).saturating_add(1), 2 => 1, 3 => 10_000 * W, _ => W };
                let set = c.flip();
                log.push_str(&format!(" unstake({:?}, {}, epoch {}, nonce {}, min {})", k, x, e, set, min));
                let exp = if cur.is_none() || x > have || (have - x > 0 && have - x < min) { None } else { Some(have - x) };
                let r = if set && c.flip() {
                    let fee = c.below(x.saturating_add(1).min(5));
                    process_unstake_transactions(&mut s, [UnstakeTransaction { body: UB { operator: a(k.0), withdrawal: UO { pkh: a(k.1), value: x - fee }, fee } }].iter(), e, min).ok().map(|_| exp.unwrap_or(0))
                } else { s.remove_stake(key(k), Wit::from_nanowits(x), e, set, Wit::from_nanowits(min)).ok().map(|w| w.nanowits()) };
                want("unstaking", r, exp)?;
                match exp { Some(0) => { m.remove(&k); } Some(n) => { let y = m.get_mut(&k).unwrap(); y.coins = n; if set { y.nonce = e as u64; } } None => {} }
            }
            7 if single => {
                let x = if c.flip() { coins(c) } else { cur.map(|e| e.coins).unwrap_or(0) };
                if total.saturating_add(x) > CAP { continue; }
                let kk = known.iter().find(|y| y.0 == k.0).copied();
                log.push_str(&format!(" reward({}, {}, epoch {})", k.0, x, e));
                let exp = match kk { None => None, Some(y) => match staked(&m, y, x, e) { None => continue, n => n } };
                want("rewarding", s.add_reward(a(k.0), Wit::from_nanowits(x), e).is_ok(), kk.is_some())?;
                if let Some(n) = exp { m.insert(kk.unwrap(), n); }
            }
            8 if single => {
                let kk = known.iter().find(|y| y.0 == k.0).copied();
                let have = kk.map(|y| m[&y].coins).unwrap_or(0);
                let x = match c.below(6) { 0 | 4 | 5 => have, 1 => have.saturating_add(1), 2 => have.saturating_sub(coins(c)), _ => coins(c) };
                let min = c.pick(&[1, W, 10_000 * W]);
                log.push_str(&format!(" reserve({}, {}, min {})", k.0, x, min));
                want("reserving", s.reserve_collateral(a(k.0), Wit::from_nanowits(x), Wit::from_nanowits(min)).is_ok(), kk.is_some())?;
                if x <= have && (have == x || have - x >= min) { if let Some(y) = kk { m.get_mut(&y).unwrap().coins -= x; } }
            }
            9 => {
                let cap = c.below(2) as usize;
                let f = c.pick(&[1u32, 2, 3, 10]);
                if m.iter().any(|(y, n)| y.0 == k.0 && n.ep[cap] > e) { continue; }
                log.push_str(&format!(" reset({}, {:?}, epoch {}, factor {})", k.0, CAPS[cap], e, f));
                want("resetting", s.reset_age(a(k.0), CAPS[cap], e, f).is_ok(), m.keys().any(|y| y.0 == k.0))?;
                for (y, n) in m.iter_mut() { if y.0 == k.0 { n.ep[cap] += (e - n.ep[cap]) / f; } }
            }
            _ => {
                let e = e.min(u32::MAX - 100);
                log.push_str(&format!(" reset mining({}, epoch {})", k.0, e));
                let r = rank(&m, 0, e);
                s.reset_mining_age(a(k.0), e).map_err(|_| "resetting fails".to_string())?;
                if let Some(p) = r.iter().position(|x| x.0 .0 == k.0) { for i in 0..=p { m.get_mut(&r[i].0).unwrap().ep[0] = e + (1 + p - i) as u32; } }
            }
        }
        agrees(&mut s, &m, e)?;
        if c.chance(6) {
            log.push_str(" copy");
            let t = s.clone();
            if c.flip() { agrees(&mut s, &m, e)?; let k2 = key(k); let _ = s.add_stake(k2, Wit::from_nanowits(W), e, true, Wit::from_nanowits(W)); }
            s = t;
            agrees(&mut s, &m, e)?;
        }
    }
    Ok(())
}
// one entry
fn entry(c: &mut Ctx, log: &mut String) -> std::result::Result<(), String> {
    let b = coins(c).min(CAP / 2);
    let mut s: St = Default::default();
    s.coins = Wit::from_nanowits(b);
    s.epochs.update(Capability::Mining, epoch(c));
    s.epochs.update(Capability::Witnessing, epoch(c));
    s.nonce = c.u64();
    let o = e_of(&s);
    let x = match c.below(6) { 0 => b, 1 => b + 1, 2 => b.saturating_sub(1), 3 => b / 2, _ => coins(c).min(CAP / 2) };
    let min = match c.below(6) { 0 => x, 1 => x + 1, 2 => b.saturating_sub(x), 3 => b.saturating_sub(x) + 1, 4 => W, _ => coins(c) };
    let e = epoch(c);
    let set = c.flip();
    let p = if set { NoncePolicy::SetFromEpoch(e) } else { NoncePolicy::KeepAsIs };
    let nonce = if set { e as u64 } else { o.nonce };
    let w = |x| Wit::from_nanowits(x);
    if c.flip() {
        log.push_str(&format!("{:?} stake({}, epoch {}, nonce {}, min {})", o, x, e, set, min));
        let mut m = M::new();
        m.insert((0, 0), o);
        let exp = if x < min { None } else { match staked(&m, (0, 0), x, e) { None => return Ok(()), n => n } };
        want("staking", s.add_stake(w(x), e, p, w(min)).ok().map(|y| y.nanowits()), exp.map(|y| y.coins))?;
        want("entry", e_of(&s), exp.map(|y| E { nonce, ..y }).unwrap_or(o))?;
    } else {
        log.push_str(&format!("{:?} unstake({}, nonce {}, min {})", o, x, set, min));
        let ok = x <= b && (x == b || b - x >= min);
        want("unstaking", s.remove_stake(w(x), p, w(min)).ok().map(|y| y.nanowits()), if ok { Some(b - x) } else { None })?;
        want("entry", e_of(&s), if ok { E { coins: b - x, nonce, ..o } } else { o })?;
    }
    let n = e_of(&s);
    for i in 0..2 { for t in [e, n.ep[i], n.ep[i].saturating_add(1), 0, u32::MAX] { want("power", s.power(CAPS[i], t), power(&n, i, t))?; } }
    Ok(())
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut log = String::new();
        let whole = c.below(4) > 0;
        let r = guard(|| if whole { run(&mut c, &mut log) } else { entry(&mut c, &mut log) });
        c.case(&log);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(x)) => c.fail(format!("{}: {}", log, x)),
            Err(x) => c.fail(format!("{}: panics: {}", log, x)),
        }
        c.sample(|| log.clone());
    }
    c.done()
}
