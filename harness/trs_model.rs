use std::collections::BTreeMap;
use witnet_reputation::TotalReputationSet;
type Trs = TotalReputationSet<u64, u64, u64>;
/// Oracle: packets keyed by (expiration, identity).
#[derive(Clone, Default, Debug, PartialEq)]
struct Ledger { p: BTreeMap<(u64, u64), u64>, last: Option<u64> }
impl Ledger {
    fn get(&self, k: u64) -> u64 { self.p.iter().filter(|(x, _)| x.1 == k).map(|x| *x.1).sum() }
    fn total(&self) -> u128 { self.p.values().map(|v| *v as u128).sum() }
    fn take(&mut self, k: u64, mut n: u64) {
        let ks: Vec<(u64, u64)> = self.p.keys().rev().filter(|x| x.1 == k).cloned().collect();
        for x in ks {
            let v = self.p[&x];
            let t = v.min(n);
            n -= t;
            if v == t { self.p.remove(&x); } else { self.p.insert(x, v - t); }
            if n == 0 { break; }
        }
    }
}
fn packets(t: &Trs) -> Result<BTreeMap<(u64, u64), u64>, String> {
    let mut m = BTreeMap::new();
    let mut prev = None;
    for (a, it) in t.queue() {
        if let Some(p) = prev { if p >= *a { return Err(format!("expirations out of order {} {}", p, a)); } }
        prev = Some(*a);
        for (k, v) in it {
            if *v == 0 { return Err(format!("empty packet of {} at {}", k, a)); }
            if m.insert((*a, *k), *v).is_some() { return Err("duplicate packet".into()); }
        }
    }
    Ok(m)
}
fn same(t: &Trs, l: &Ledger, keys: u64) -> Result<(), String> {
    for k in 0..keys + 1 { if t.get(&k) != l.get(k) { return Err(format!("get({}) = {}, the packets sum to {}", k, t.get(&k), l.get(k))); } }
    let all: Vec<u64> = (0..keys).collect();
    if t.get_sum(all.iter()) as u128 != l.total() { return Err("get_sum".into()); }
    if t.get_total_sum() as u128 != l.total() { return Err("get_total_sum".into()); }
    let ids: BTreeMap<u64, u64> = t.identities().map(|(k, v)| (*k, *v)).collect();
    let want: BTreeMap<u64, u64> = (0..keys).filter(|k| l.get(*k) > 0).map(|k| (k, l.get(k))).collect();
    if ids != want || t.identities().count() != want.len() || t.num_identities() != want.len() { return Err(format!("identities {:?} expected {:?}", ids, want)); }
    let p = packets(t)?;
    if p != l.p { return Err(format!("packets {:?} expected {:?}", p, l.p)); }
    Ok(())
}
fn amount(c: &mut Ctx, left: u128) -> u64 {
    let v = if c.chance(6) { 0 } else if c.chance(4) { c.u64() } else { c.below(30) };
    (v as u128).min(left) as u64
}
fn gain_list(c: &mut Ctx, keys: u64, l: &Ledger) -> Vec<(u64, u64)> {
    let mut left = u64::MAX as u128 - l.total();
    let n = c.below(6);
    (0..n).map(|_| { let v = amount(c, left); left -= v as u128; (c.below(keys), v) }).collect()
}
fn model_gain(l: &mut Ledger, e: u64, d: &[(u64, u64)]) -> bool {
    if let Some(x) = l.last { if x > e { return false; } }
    l.last = Some(e);
    for (k, v) in d { if *v > 0 { *l.p.entry((e, *k)).or_insert(0) += v; } }
    true
}
fn model_expire(l: &mut Ledger, a: u64) -> u64 {
    let gone: Vec<((u64, u64), u64)> = l.p.iter().filter(|x| (x.0).0 <= a).map(|x| (*x.0, *x.1)).collect();
    for g in &gone { l.p.remove(&g.0); }
    if let Some(x) = l.last { if x <= a { l.last = None; } }
    gone.iter().map(|g| g.1).sum()
}
