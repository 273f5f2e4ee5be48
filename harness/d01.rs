use std::fmt::{Debug, Display};
type Epoch = u32;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Hash(u32);
impl Display for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &[] } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct PublicKeyHash { hash: [u8; 20] }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)] pub struct PublicKey(u8);
fn who(x: u8) -> PublicKeyHash { PublicKeyHash { hash: [x; 20] } }
impl PublicKey { fn pkh(&self) -> PublicKeyHash { who(self.0) } }
impl PublicKeyHash { fn from_public_key(k: &PublicKey) -> Self { k.pkh() } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct KeyedSignature { public_key: PublicKey }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { V1_7, V1_8, V2_0, V2_1 }
// 1.8 from epoch 100 on, 2.0 from 200, 2.1 from 300
impl ProtocolVersion {
    fn from_epoch(e: Epoch) -> Self { match e { 0..=99 => Self::V1_7, 100..=199 => Self::V1_8, 200..=299 => Self::V2_0, _ => Self::V2_1 } }
    fn from_epoch_opt(e: Option<Epoch>) -> Self { e.map(Self::from_epoch).unwrap_or(Self::V1_8) }
}
fn get_protocol_version_activation_epoch(v: ProtocolVersion) -> Epoch { match v { ProtocolVersion::V1_7 => 0, ProtocolVersion::V1_8 => 100, ProtocolVersion::V2_0 => 200, ProtocolVersion::V2_1 => 300 } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] enum Environment { Mainnet, Testnet, Development }
fn get_environment() -> Environment { Environment::Testnet }
const DEFAULT_VALIDATOR_COUNT_FOR_TESTS: usize = 1000;
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct RADRequest {}
impl RADRequest { fn weight(&self) -> u32 { 0 } }
#[derive(Clone, Debug, PartialEq, Eq)] pub enum TransactionError { SignatureNotFound, FeeOverflow }
impl anyhow::ErrLike for TransactionError {}
#[derive(Clone, Debug)] pub enum DataRequestError { AddCommitFail { block_hash: Hash, tx_hash: Hash, dr_pointer: Hash }, AddRevealFail { block_hash: Hash, tx_hash: Hash, dr_pointer: Hash }, AddTallyFail { block_hash: Hash, tx_hash: Hash, dr_pointer: Hash }, NotCommitStage, NotRevealStage, NotTallyStage, UnfinishedDataRequest, NoRetrievalSources }
impl anyhow::ErrLike for DataRequestError {}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct PtrBody { dr_pointer: Hash, pkh: PublicKeyHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct CommitTransaction { body: PtrBody, signatures: Vec<KeyedSignature>, x: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct RevealTransaction { body: PtrBody, signatures: Vec<KeyedSignature>, x: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct DrBody { dr_output: DataRequestOutput }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct DRTransaction { body: DrBody, signatures: Vec<KeyedSignature>, x: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct TallyTransaction { dr_pointer: Hash, x: u32 }
macro_rules! hashed { ($($t:ident)*) => { $( impl $t { fn versioned_hash(&self, _v: ProtocolVersion) -> Hash { Hash(self.x) } fn hash(&self) -> Hash { Hash(self.x) } } )* } }
hashed!(CommitTransaction RevealTransaction DRTransaction TallyTransaction);
fn sigs(k: u8) -> Vec<KeyedSignature> { vec![KeyedSignature { public_key: PublicKey(k) }] }

#[derive(Clone, Debug, PartialEq)]
struct R { o: DataRequestOutput, by: u8, epoch: u32, blk: Option<Hash>, st: DataRequestStage, cr: u16, rr: u16, commits: BTreeMap<u8, u32>, reveals: BTreeMap<u8, u32>, mine: Option<(u8, u32)> }
type M = BTreeMap<u32, R>;
fn txs<T>(m: &HashMap<PublicKeyHash, T>, f: impl Fn(&T) -> u32) -> BTreeMap<u8, u32> { m.iter().map(|(k, t)| (k.hash[0], f(t))).collect() }
fn check(p: &DataRequestPool, m: &M, min: u64) -> Option<String> {
    use DataRequestStage::*;
    let real: BTreeSet<u32> = p.data_request_pool.keys().map(|h| h.0).collect();
    if real != m.keys().copied().collect() { return Some(format!("the pool holds {:?}, expected {:?}", real, m.keys())); }
    for (h, r) in m {
        let s = p.data_request_state(&Hash(*h)).unwrap();
        if s.stage != r.st || s.info.current_stage != Some(r.st) { return Some(format!("request {} is in stage {:?} ({:?}), expected {:?}", h, s.stage, s.info.current_stage, r.st)); }
        if (s.info.current_commit_round, s.info.current_reveal_round) != (r.cr, r.rr) { return Some(format!("request {} is in rounds {:?}, expected {:?}", h, (s.info.current_commit_round, s.info.current_reveal_round), (r.cr, r.rr))); }
        if txs(&s.info.commits, |t| t.x) != r.commits || txs(&s.info.reveals, |t| t.x) != r.reveals { return Some(format!("request {} has commits {:?} and reveals {:?}, expected {:?}", h, s.info.commits, s.info.reveals, r)); }
        if s.epoch != r.epoch || s.data_request != r.o || s.pkh != who(r.by) || s.info.block_hash_dr_tx != r.blk || s.info.tally.is_some() { return Some(format!("request {} changed", h)); }
        if p.get_dr_output(&Hash(*h)).as_ref() != Some(&r.o) { return Some(format!("wrong output for request {}", h)); }
        let b = ((r.o.witnesses as u128) << (r.cr.max(1) - 1).min(16)).min(65535).max(if r.cr > 16 && r.o.witnesses > 0 { 65535 } else { 0 }) as u64;
        let b = if r.cr.max(1) - 1 >= 16 { (r.o.witnesses as u64 * 65535).min(65535) } else { b };
        if s.backup_witnesses() as u64 != b / 2 { return Some(format!("{} backup witnesses for {} witnesses in round {}, expected {}", s.backup_witnesses(), r.o.witnesses, r.cr, b / 2)); }
        if p.waiting_for_reveal.get(&Hash(*h)).map(|t| (t.signatures[0].public_key.0, t.x)) != r.mine { return Some(format!("the reveal kept for request {} is {:?}, expected {:?}", h, p.waiting_for_reveal.get(&Hash(*h)), r.mine)); }
    }
    if p.waiting_for_reveal.len() != m.values().filter(|r| r.mine.is_some()).count() { return Some("a reveal is kept for a request that is gone".to_string()); }
    let listed: BTreeSet<(u32, u32)> = p.data_requests_by_epoch.iter().flat_map(|(e, s)| s.iter().map(|h| (*e, h.0))).collect();
    let exp: BTreeSet<(u32, u32)> = m.iter().filter(|(_, r)| r.st == COMMIT).map(|(h, r)| (r.epoch, *h)).collect();
    if listed != exp || p.data_requests_by_epoch.values().any(|s| s.is_empty()) { return Some(format!("the requests listed as open for commits are {:?}, expected {:?}", p.data_requests_by_epoch, exp)); }
    for e in m.values().flat_map(|r| [r.epoch, r.epoch.saturating_sub(1)]).chain([0, u32::MAX]) {
        let v = p.get_dr_output_pointers_by_epoch(e);
        let w: BTreeSet<u32> = v.iter().map(|h| h.0).collect();
        if v.len() != w.len() || w != exp.iter().filter(|x| x.0 <= e).map(|x| x.1).collect() { return Some(format!("open requests up to epoch {}: {:?}", e, v)); }
    }
    if p.get_tally_ready_drs().iter().map(|h| h.0).collect::<BTreeSet<u32>>() != m.iter().filter(|(_, r)| r.st == TALLY).map(|(h, _)| *h).collect() { return Some(format!("wrong requests ready for tally: {:?}", p.get_tally_ready_drs())); }
    let locked: u64 = m.values().map(|r| {
        let (f, c) = (r.o.commit_and_reveal_fee, if r.o.collateral == 0 { min } else { r.o.collateral });
        let v = (r.o.witness_reward + 2 * f) * r.o.witnesses as u64;
        if r.st == COMMIT { v } else { (v + c * r.commits.len() as u64).saturating_sub(f * (r.commits.len() + r.reveals.len()) as u64) }
    }).sum();
    if p.locked_wits_by_requests(min) != locked { return Some(format!("{} locked by the requests, expected {}", p.locked_wits_by_requests(min), locked)); }
    None
}
fn main() {
    use DataRequestStage::*;
    let mut c = Ctx::new();
    while c.more() {
        let extra = c.pick(&[0u16, 1, 3, 18]);
        let mut p = DataRequestPool::new(extra);
        let mut m = M::new();
        let mut log = format!("{} extra rounds;", extra);
        let mut epoch = c.pick(&[0u32, 90, 190, 195, 290, 1000]);
        let (mut next, min) = (1u32, 1 + c.below(20));
        let mut stored: Vec<(u32, u32)> = vec![];
        'run: for _ in 0..1 + c.below(40) {
            let known: Vec<u32> = m.keys().copied().collect();
            let h = if known.is_empty() || c.chance(9) { 999 } else { c.pick(&known) };
            let k = c.below(5) as u8;
            let before = p.clone();
            let x = next; next += 1;
            let bh = Hash(x + 100_000);
            let op = c.below(12);
            let (mut step, mut out): (String, Option<Vec<u32>>) = (String::new(), None);
            let r: std::result::Result<(bool, bool), String> = match op {
                0 | 1 => {
                    let o = DataRequestOutput { data_request: RADRequest {}, witness_reward: c.below(50), witnesses: c.pick(&[1u16, 2, 3, 5, 100]), commit_and_reveal_fee: c.below(9), min_consensus_percentage: 51, collateral: c.pick(&[0, 0, 30]) };
                    let signed = !c.chance(6);
                    let at = if c.flip() { epoch } else { epoch.saturating_sub(c.below(3) as u32) };
                    let blk = if c.flip() { Some(bh) } else { None };
                    step = format!(" request {} of {} witnesses in epoch {}{};", x, o.witnesses, at, if signed { "" } else { " unsigned" });
                    let t = DRTransaction { body: DrBody { dr_output: o.clone() }, signatures: if signed { sigs(k) } else { vec![] }, x };
                    let q = guard(|| p.process_data_request(&t, at, blk).is_ok());
                    if signed { m.insert(x, R { o, by: k, epoch: at, blk, st: COMMIT, cr: 0, rr: 0, commits: BTreeMap::new(), reveals: BTreeMap::new(), mine: None }); }
                    q.map(|g| (g, signed))
                }
                2 | 3 | 4 => {
                    step = format!(" commit {} of {} for {};", x, k, h);
                    let q = guard(|| p.process_commit(&CommitTransaction { body: PtrBody { dr_pointer: Hash(h), pkh: who(k) }, signatures: sigs(k), x }, epoch, &bh).is_ok());
                    let ok = m.get(&h).map_or(false, |r| r.st == COMMIT);
                    if ok { m.get_mut(&h).unwrap().commits.insert(k, x); }
                    q.map(|g| (g, ok))
                }
                5 | 6 => {
                    step = format!(" reveal {} of {} for {};", x, k, h);
                    let q = guard(|| p.process_reveal(&RevealTransaction { body: PtrBody { dr_pointer: Hash(h), pkh: who(k) }, signatures: sigs(k), x }, epoch, &bh).is_ok());
                    let ok = m.get(&h).map_or(false, |r| r.st == REVEAL);
                    if ok { m.get_mut(&h).unwrap().reveals.insert(k, x); }
                    q.map(|g| (g, ok))
                }
                7 => {
                    step = format!(" tally {} for {};", x, h);
                    let q = guard(|| p.process_tally(&TallyTransaction { dr_pointer: Hash(h), x }, &bh).is_ok());
                    let ok = m.get(&h).map_or(false, |r| r.st == TALLY);
                    if ok { m.remove(&h); stored.push((h, x)); }
                    q.map(|g| (g, ok))
                }
                8 if m.get(&h).map_or(false, |r| r.st == COMMIT) => {
                    step = format!(" own reveal {} of {} for {};", x, k, h);
                    p.insert_reveal(Hash(h), RevealTransaction { body: PtrBody { dr_pointer: Hash(h), pkh: who(k) }, signatures: sigs(k), x });
                    m.get_mut(&h).unwrap().mine = Some((k, x));
                    Ok((true, true))
                }
                _ => {
                    let n = c.pick(&[None, Some(1usize), Some(4), Some(5), Some(1000)]);
                    let at = if c.chance(8) { None } else { Some(epoch) };
                    step = format!(" end of epoch {:?} with {:?} validators;", at, n);
                    let q = guard(|| p.update_data_request_stages(n, at).iter().map(|t| t.x).collect::<Vec<u32>>());
                    for r in m.values_mut() {
                        let big = ProtocolVersion::from_epoch_opt(at) >= ProtocolVersion::V2_0 && r.o.witnesses as usize > n.unwrap_or(1000) / 2;
                        match r.st {
                            COMMIT if !r.commits.is_empty() => { r.st = REVEAL; r.rr = 1; }
                            COMMIT if big || r.cr > extra => { r.st = TALLY; }
                            COMMIT => r.cr += 1,
                            REVEAL if r.reveals.len() < r.o.witnesses as usize && r.rr <= extra => r.rr += 1,
                            _ => r.st = TALLY,
                        }
                        if r.st == TALLY { r.mine = None; }
                    }
                    let mut e: Vec<u32> = m.values().filter_map(|r| r.mine.filter(|(k, _)| r.st == REVEAL && r.commits.contains_key(k) && !r.reveals.contains_key(k)).map(|x| x.1)).collect();
                    e.sort();
                    out = Some(e);
                    epoch = epoch.saturating_add(1 + c.below(3) as u32);
                    match q { Err(e) => Err(e), Ok(mut v) => { v.sort(); if Some(&v) == out.as_ref() { Ok((true, true)) } else { log += &step; c.fail(format!("the reveals to send are {:?}, expected {:?} after:{}", v, out, log)); break 'run; } } }
                }
            };
            log += &step;
            c.case(&log);
            match r {
                Err(e) => { c.fail(format!("panic ({}) after:{}", e, log)); break; }
                Ok((g, w)) if g != w => { c.fail(format!("the last step was {}, but should be {}:{}", if g { "accepted" } else { "rejected" }, if w { "accepted" } else { "rejected" }, log)); break; }
                Ok((false, _)) if p != before => { c.fail(format!("the last step was rejected but changed the pool:{}", log)); break; }
                _ => {}
            }
            if let Some(e) = check(&p, &m, min) { c.fail(format!("{} after:{}", e, log)); break; }
            if c.chance(10) || stored.len() > 3 {
                let f: Vec<(u32, u32)> = p.finished_data_requests().iter().map(|i| (i.tally.as_ref().unwrap().dr_pointer.0, i.tally.as_ref().unwrap().x)).collect();
                let hs = p.to_be_stored.len();
                if f != stored || hs != 0 { c.fail(format!("the finished requests are {:?}, expected {:?} after:{}", f, stored, log)); break; }
                stored.clear();
            }
        }
        c.sample(|| log.clone());
    }
    c.done()
}
