use std::num::ParseIntError;
use std::sync::{RwLock, RwLockReadGuard};
use anyhow::Error;
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
include!("utxo_stub.rs");

type Db = Arc<dyn UtxoDb + Send + Sync>;
type M = BTreeMap<OutputPointer, (ValueTransferOutput, u32)>;
fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> std::result::Result<(), String> { if got == exp { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, exp)) } }

fn pool_agrees(p: &UnspentOutputsPool, m: &M, keys: &[OutputPointer], all: bool) -> std::result::Result<(), String> {
    for k in keys {
        want(&format!("pool get({})", k), p.get(k), m.get(k).map(|x| x.0.clone()))?;
        want(&format!("pool contains({})", k), p.contains_key(k), m.contains_key(k))?;
        want(&format!("pool block number({})", k), p.included_in_block_number(k), m.get(k).map(|x| x.1))?;
    }
    if !all { return Ok(()); }
    let mut v: Vec<_> = p.iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    want("pool iteration", v, m.iter().map(|(k, v)| (*k, v.clone())).collect())?;
    let mut v = vec![];
    p.visit(|_| (), |x| v.push(x.clone()));
    v.sort_by(|a, b| a.0.cmp(&b.0));
    want("pool visit", v, m.iter().map(|(k, v)| (*k, v.clone())).collect())?;
    for h in 0..3u8 {
        let pkh = PublicKeyHash { hash: [h; 20] };
        let mut v = vec![];
        p.visit_with_pkh(pkh, |_| (), |x| v.push(x.clone()));
        v.sort_by(|a, b| a.0.cmp(&b.0));
        want("outputs of one address", v, m.iter().filter(|(_, v)| v.0.pkh == pkh).map(|(k, v)| (*k, v.clone())).collect())?;
    }
    Ok(())
}
fn diff_agrees(c: &mut Ctx, d: &UtxoDiff, m: &M, added: &BTreeSet<OutputPointer>, keys: &[OutputPointer], log: &str) -> std::result::Result<(), String> {
    for k in keys {
        want(&format!("change set get({})", k), d.get(k), m.get(k).map(|x| x.0.clone()))?;
        let (g, e) = (d.included_in_block_number(k), m.get(k).map(|x| x.1));
        if g != e && added.contains(k) {
            c.fail_tag("added-block-number", format!("{}: block number of {}, added in the same change set, is {:?}, expected {:?}", log, k, g, e));
        } else {
            want(&format!("change set block number({})", k), g, e)?;
        }
    }
    Ok(())
}

fn run(c: &mut Ctx, log: &mut String) -> std::result::Result<(), String> {
    let kind = c.below(3);
    let mk = |b: Backend| -> Db { if kind == 1 { Arc::new(CacheUtxosByPkh::new(UtxoDbWrapStorage(b)).unwrap()) } else { Arc::new(UtxoDbWrapStorage(b)) } };
    let mut pool = UnspentOutputsPool::default();
    let mut keys: Vec<OutputPointer> = vec![];
    let mut m = M::new();
    if kind > 0 {
        let b = Backend::default();
        for i in 0..c.below(4) {
            let (k, v) = fresh(c, &mut keys);
            b.put(format!("UTXO-{}", k).into_bytes(), bincode::serialize(&(v.clone(), i as u32)).unwrap()).unwrap();
            log.push_str(&format!(" stored({},{})", k, v.value));
            m.insert(k, (v, i as u32));
        }
        pool.db = Some(mk(b));
    }
    // what was pending when an older copy of the pool was taken, to be written out later
    let mut old: Option<(UnspentOutputsPool, M)> = None;
    for blk in 0..1 + c.below(6) {
        let num = 10 + blk as u32;
        let before = pool.diff.clone();
        let mut md = m.clone();
        let mut added = BTreeSet::new();
        log.push_str(&format!(" block {}:", num));
        let diff = {
            let mut d = UtxoDiff::new(&pool, num);
            for _ in 0..c.below(7) {
                if c.below(3) > 0 || md.is_empty() {
                    let (k, v) = fresh(c, &mut keys);
                    let n = if c.flip() { None } else { Some(c.below(30) as u32) };
                    log.push_str(&format!(" add({},{},{:?})", k, v.value, n));
                    d.insert_utxo(k, v.clone(), n);
                    md.insert(k, (v, n.unwrap_or(num)));
                    added.insert(k);
                } else {
                    let ks: Vec<OutputPointer> = md.keys().copied().collect();
                    let k = c.pick(&ks);
                    log.push_str(&format!(" spend({})", k));
                    d.remove_utxo(k);
                    md.remove(&k);
                    added.remove(&k);
                }
                diff_agrees(c, &d, &md, &added, &keys, log)?;
            }
            pool_agrees(&pool, &m, &keys, false)?;
            d.take_diff()
        };
        if pool.diff != before { return Err("building a change set changed the underlying set".to_string()); }
        let (mut ins, mut del) = (vec![], vec![]);
        diff.visit(&mut (), |_, k, v| ins.push((*k, v.clone())), |_, k| del.push(*k));
        ins.sort_by(|a, b| a.0.cmp(&b.0)); del.sort();
        want("insertions of the change set", ins, added.iter().map(|k| (*k, md[k].0.clone())).collect())?;
        want("removals of the change set", del, m.keys().filter(|k| !md.contains_key(k)).copied().collect())?;
        if c.chance(4) { log.push_str(" dropped"); continue; }
        diff.apply(&mut pool);
        m = md;
        pool_agrees(&pool, &m, &keys, true)?;
        if kind > 0 {
            match c.below(4) {
                0 if old.is_none() => { log.push_str(" persist"); pool.persist(); if pool.diff != Diff::new() { return Err("persisting leaves changes pending".to_string()); } pool_agrees(&pool, &m, &keys, true)?; }
                1 if old.is_none() => { log.push_str(" snapshot"); old = Some((pool.clone(), m.clone())); }
                2 | 3 => if let Some((mut o, om)) = old.take() {
                    log.push_str(" write the snapshot");
                    let d = o.diff.clone();
                    if c.flip() { o.persist(); } else { let mut b = UtxoWriteBatch::default(); o.persist_add_to_batch(&mut b); o.db.as_ref().unwrap().write(b).map_err(|e| format!("write fails: {}", e))?; }
                    pool_agrees(&o, &om, &keys, true)?;
                    pool.remove_persisted_from_memory(&d);
                    pool_agrees(&pool, &m, &keys, true)?;
                },
                _ => {}
            }
        }
    }
    Ok(())
}
fn fresh(c: &mut Ctx, keys: &mut Vec<OutputPointer>) -> (OutputPointer, ValueTransferOutput) {
    // names are distinct, but close to one another
    let n = keys.len() as u32;
    let mut h = [0u8; 32];
    let i = if c.flip() { 0 } else { 31 };
    h[i] = (n / 3) as u8;
    let k = OutputPointer { transaction_id: Hash::SHA256(h), output_index: n };
    keys.push(k);
    (k, ValueTransferOutput { pkh: PublicKeyHash { hash: [c.below(3) as u8; 20] }, value: c.u64(), time_lock: c.below(3) })
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut log = String::new();
        let r = guard(|| run(&mut c, &mut log));
        c.case(&log);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => c.fail(format!("{}: {}", log, e)),
            Err(e) => c.fail(format!("{}: panics: {}", log, e)),
        }
        c.sample(|| log.clone());
    }
    c.done()
}
