use std::num::ParseIntError;
use std::sync::{RwLock, RwLockReadGuard};
use std::cell::Cell;
use anyhow::Error;
include!("utxo_stub.rs");
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
type Epoch = u32;
impl anyhow::ErrLike for std::io::Error {}
// keys and signatures: numbers; from 200 on they are malformed
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct PublicKey(u8);
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Bn256PublicKey;
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct VrfProof(u8);
impl VrfProof { fn pkh(&self) -> PublicKeyHash { who(self.0) } }
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)] pub struct CheckpointVRF(u8);
impl Signature { fn hash(&self) -> Hash { Hash::SHA256([self.0; 32]) } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Signature(u8);
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct KeyedSignature { pub signature: Signature, pub public_key: PublicKey }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SecpKey(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SecpSig(u8);
impl TryFrom<PublicKey> for SecpKey { type Error = anyhow::Error; fn try_from(k: PublicKey) -> Result<SecpKey> { if k.0 < 200 { Ok(SecpKey(k.0)) } else { Err(Error("key".into())) } } }
impl TryFrom<Signature> for SecpSig { type Error = anyhow::Error; fn try_from(k: Signature) -> Result<SecpSig> { if k.0 < 200 { Ok(SecpSig(k.0)) } else { Err(Error("signature".into())) } } }
fn who(k: u8) -> PublicKeyHash { PublicKeyHash { hash: [k; 20] } }
impl PublicKey { fn pkh(&self) -> PublicKeyHash { who(self.0) } }
impl PublicKeyHash { fn from_public_key(k: &PublicKey) -> PublicKeyHash { who(k.0) } }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum SignaturesToVerify { SecpTx { public_key: SecpKey, data: Vec<u8>, signature: SecpSig }, VrfDr { proof: DataRequestEligibilityClaim, vrf_input: CheckpointVRF, dr_hash: Hash, target_hash: Hash, withdrawer: Option<PublicKeyHash>, inclusion_epoch: Option<Epoch> }, Other }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct RADRequest { time_lock: u64 }
impl RADRequest { fn weight(&self) -> u32 { 0 } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Memoized<T>(PhantomData<T>);
impl<T> Memoized<T> { fn new() -> Self { Memoized(PhantomData) } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct StakeKey<T> { pub validator: T, pub withdrawer: T }
pub enum QueryStakesKey<T> { Key(StakeKey<T>), Validator(T), Withdrawer(T), All }
#[derive(Debug, Clone, Copy)] struct Coins(u64);
impl From<Coins> for u64 { fn from(c: Coins) -> u64 { c.0 } }
impl Coins { fn nanowits(&self) -> u64 { self.0 } fn wits(&self) -> u64 { self.0 / 1_000_000_000 } }
#[derive(Debug, Clone, Copy)] struct Stake { coins: Coins, nonce: u64 }
#[derive(Debug, Clone)] struct StakeEntry { key: StakeKey<PublicKeyHash>, value: Stake }
#[derive(Debug)] struct StakesError;
impl anyhow::ErrLike for StakesError {}
enum Eligible { Yes, No(u8) }
// validator, withdrawer, coins, target if eligible
#[derive(Debug, Default)] struct StakesTracker(Vec<(u8, u8, u64, Option<u8>)>);
impl StakesTracker {
    fn query_stakes(&self, q: QueryStakesKey<PublicKeyHash>) -> std::result::Result<Vec<StakeEntry>, StakesError> {
        let r: Vec<StakeEntry> = self.0.iter().filter(|e| match &q { QueryStakesKey::Key(k) => who(e.0) == k.validator && who(e.1) == k.withdrawer, QueryStakesKey::Validator(v) => who(e.0) == *v, QueryStakesKey::Withdrawer(w) => who(e.1) == *w, QueryStakesKey::All => true })
            .map(|e| StakeEntry { key: StakeKey { validator: who(e.0), withdrawer: who(e.1) }, value: Stake { coins: Coins(e.2), nonce: 0 } }).collect();
        if r.is_empty() { Err(StakesError) } else { Ok(r) }
    }
    fn witnessing_eligibility(&self, v: PublicKeyHash, e: Epoch, n: u16, round: u16, max: u16) -> std::result::Result<(Eligible, Hash, f64), StakesError> {
        match self.0.iter().find(|e| who(e.0) == v) { None => Ok((Eligible::No(0), target(0, 0), 0.0)), Some(x) => match x.3 { None => Ok((Eligible::No(1), target(0, 0), 0.0)), Some(t) => if t == 9 { Err(StakesError) } else { Ok((Eligible::Yes, target(t, e as u16 + n * 2 + round * 3 + max * 5), 1.0)) } } }
    }
}
fn target(a: u8, b: u16) -> Hash { let mut h = [a; 32]; h[1] = b as u8; h[2] = (b >> 8) as u8; Hash::SHA256(h) }
#[derive(Debug)] struct ReputationEngine;
fn calculate_reppoe_threshold(_r: &ReputationEngine, p: &PublicKeyHash, n: u16, d: u32, _w: &ActiveWips) -> (Hash, f64) { (target(p.hash[0], n + d as u16), 1.0) }
impl Hash { fn min() -> Hash { Hash::SHA256([0; 32]) } }
#[derive(Debug, Default)] struct DataRequestPool(BTreeMap<u8, DataRequestState>);
impl DataRequestPool { fn data_request_state(&self, h: &Hash) -> Option<&DataRequestState> { let Hash::SHA256(x) = h; self.0.get(&x[0]) } }
#[derive(Debug, Default, Clone, PartialEq, Eq)] pub struct TallyTransaction;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { #[default] V1_7, V1_8, V2_0, V2_1 }
thread_local! { static VERSION: Cell<ProtocolVersion> = Cell::new(ProtocolVersion::V1_7); }
fn get_protocol_version(_e: Option<Epoch>) -> ProtocolVersion { VERSION.with(|v| v.get()) }
#[derive(Debug)] struct ActiveWips { w8: bool }
impl ActiveWips { fn wip_0008(&self) -> bool { self.w8 } }
// hashes tell the kind
macro_rules! hashed { ($($t:ident $n:expr),*) => { $(impl $t { fn hash(&self) -> Hash { Hash::SHA256([$n; 32]) } })* } }
hashed!(CommitTransaction 50, RevealTransaction 60);

fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash::SHA256([(n / 4) as u8; 32]), output_index: n % 4 } }
fn out(k: u8, v: u64, l: u64) -> ValueTransferOutput { ValueTransferOutput { pkh: who(k), value: v, time_lock: l } }
fn key(k: u8, s: u8) -> KeyedSignature { KeyedSignature { public_key: PublicKey(k), signature: Signature(s) } }
/// owner, value, time lock, block (None: the one being built)
type M = BTreeMap<OutputPointer, (u8, u64, u64, Option<u32>)>;
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let v = c.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0]);
        let mut queue = if c.flip() { vec![] } else { vec![SignaturesToVerify::Other] };
        let q0 = queue.clone();
        let me = c.below(2) as u8;
        let fee = c.below(4);
        let stage = if c.chance(12) { c.pick(&[DataRequestStage::COMMIT, DataRequestStage::REVEAL, DataRequestStage::TALLY]) } else { DataRequestStage::COMMIT };
        let (id, ask) = (c.below(2) as u8, if c.chance(15) { 5 } else { 0 });
        let dp = Hash::SHA256([id + ask; 32]);
        let ks: Vec<KeyedSignature> = match c.below(20) { 0 => vec![], 1 => vec![key(me, 7), key(me, 7)], 2 => vec![key(1 - me, 7)], 3 => vec![key(me, 200)], 4 => vec![key(200, 7)], 5 => vec![key(me, 7); 300], _ => vec![key(me, c.below(3) as u8)] };
        let signed = ks.len() == 1 && ks[0].public_key.0 == me && ks[0].signature.0 < 200;
        let queued = |h: u8| { let mut q = q0.clone(); if signed { q.push(SignaturesToVerify::SecpTx { public_key: SecpKey(me), data: vec![h; 32], signature: SecpSig(ks[0].signature.0) }); } q };
        let witnesses = 1 + c.below(4) as u16;
        let round = 1 + c.below(4) as u16;
        macro_rules! check { ($what:expr, $desc:expr, $got:expr, $exp:expr) => {{
            let desc = $desc; c.case(&(&desc, $what));
            match ($got, $exp) { (Ok(Ok(g)), Some(e)) if g == e => { } (Ok(Err(_)), None) => {} (g, e) => c.fail(format!("{} {} is {:?}, expected {:?}", $what, desc, g.map(|r| r.map_err(|e| format!("{:?}", e))), e)) }
            c.sample(|| desc);
        }} }
        if c.chance(4) {
            let mut st = DataRequestState { data_request: DataRequestOutput { commit_and_reveal_fee: fee, witnesses, ..Default::default() }, stage: if stage == DataRequestStage::COMMIT && !c.chance(10) { DataRequestStage::REVEAL } else { stage }, ..Default::default() };
            let (mut committed, mut revealed) = (None, false);
            for k in 0..3u8 {
                if c.below(6) > 0 { let s = c.below(3) as u8; st.info.commits.insert(who(k), CommitTransaction { body: CommitTransactionBody { commitment: Hash::SHA256([s; 32]), ..Default::default() }, signatures: vec![] }); if k == me { committed = Some(s); } }
                if c.chance(6) { st.info.reveals.insert(who(k), RevealTransaction::default()); revealed |= k == me; }
            }
            let to = if c.chance(12) { 1 - me } else { me };
            let t = RevealTransaction::new(RevealTransactionBody::new(dp, vec![], who(to)), ks.clone());
            let e = if ask == 0 && st.stage == DataRequestStage::REVEAL && signed && to == me && !revealed && committed == Some(ks[0].signature.0) { Some((fee, queued(60))) } else { None };
            let desc = format!("by {} for {} signed by {:?}, request {} in stage {:?}, own commitment {:?}, revealed {}", to, id + ask, ks.iter().take(3).map(|k| (k.public_key.0, k.signature.0)).collect::<Vec<_>>(), id, st.stage, committed, revealed);
            let mut pool = DataRequestPool::default();
            pool.0.insert(id, st);
            let r = guard(|| validate_reveal_transaction(&t, &pool, &mut queue)).map(|r| r.map(|r| (r, queue.clone())));
            check!("a reveal", desc, r, e);
            continue;
        }
        // a pool of outputs of some age, some of them created or spent by earlier transactions of the block
        let block = c.below(60) as u32;
        let w = 1_000_000_000u64;
        let late = c.chance(3);
        let unit = if late { 20 * w } else { 1 };
        let mut pool = UnspentOutputsPool::default();
        let mut m: M = BTreeMap::new();
        let n = 1 + c.below(4) as u32;
        let val = |c: &mut Ctx| -> u64 { if c.chance(20) { u64::MAX - c.below(20) } else { (1 + c.below(6)) * unit + c.below(3) } };
        let own = |c: &mut Ctx| -> u8 { if c.chance(12) { 1 - me } else { me } };
        let lock = |c: &mut Ctx| -> u64 { if c.chance(20) { c.pick(&[22_450_010, 22_450_011, 51, u64::MAX]) } else { 0 } };
        let mut whole: Vec<(u8, u64, u32, bool)> = vec![];
        for k in 0..n { let (o, x, l, b) = (own(&mut c), val(&mut c), lock(&mut c), c.below(block as u64 + 1) as u32); pool.insert(ptr(k), out(o, x, l), b); m.insert(ptr(k), (o, x, l, Some(b))); whole.push((o, x, b, true)); }
        let mut d = UtxoDiff::new(&pool, block);
        for k in 0..n { if c.chance(12) { d.remove_utxo(ptr(k)); m.remove(&ptr(k)); whole[k as usize].3 = false; } }
        if c.chance(3) { let (o, x) = (own(&mut c), val(&mut c)); d.insert_utxo(ptr(n), out(o, x, 0), None); m.insert(ptr(n), (o, x, 0, None)); }
        let ec = EpochConstants { checkpoint_zero_timestamp: 0, checkpoints_period: 10, ..Default::default() };
        let epoch = if late { 2_245_000 + c.below(2) as u32 } else { 5 };
        let now = epoch as u64 * 10;
        let period = c.below(6) as u16;
        let age = match c.below(3) { 0 => 0, 1 => c.below(30) as u32, _ => block };
        let mut ins: Vec<Input> = (0..n + 1).filter(|k| if m.contains_key(&ptr(*k)) { c.below(3) > 0 } else { c.chance(25) }).map(|k| Input::new(ptr(k))).collect();
        if !ins.is_empty() && c.chance(20) { let i = c.pick(&ins); ins.push(i); }
        let sum: u128 = ins.iter().map(|i| m.get(i.output_pointer()).map_or(0, |x| x.1 as u128)).sum();
        let change = match c.below(4) { 0 => vec![], 1 => vec![sum.min(u64::MAX as u128) as u64], _ => vec![c.below(sum.min(1 << 60) as u64 + 1)] };
        let mut outs: Vec<_> = change.iter().map(|x| out(own(&mut c), *x, 0)).collect();
        if c.chance(20) { outs.push(out(me, 1, 0)); }
        let left = sum as i128 - outs.iter().map(|o| o.value as i128).sum::<i128>();
        let min_coll = if c.flip() && (1..1 << 62).contains(&left) { left as u64 } else { 1 + c.below(9) };
        let coll = match c.below(4) { 0 => 0, 1 => u64::MAX - c.below(3), 2 if (1..1 << 64).contains(&left) => left as u64, _ => 1 + c.below(9) };
        let required = if coll == 0 { min_coll } else { coll };
        let min_stake = if c.chance(4) { c.below(30) } else { 1 + c.below(4) };
        let mut stakes = StakesTracker::default();
        for k in 0..2u8 { for j in 0..1 + c.below(2) as u8 { if c.below(8) > 0 { stakes.0.push((k, j, match c.below(4) { 0 => (required as u128 + min_stake as u128 - 1).min(u64::MAX as u128 - 1) as u64, 1 => (required as u128 + min_stake as u128).min(u64::MAX as u128 - 1) as u64, 2 => u64::MAX - 1, _ => c.below(40) }, match c.below(10) { 0 => None, 1 => Some(9), _ => Some(k + 1) })); } } }
        let wips = ActiveWips { w8: c.flip() };
        let tl = if c.chance(6) { now + c.below(2) } else { 0 };
        let mut st = DataRequestState { data_request: DataRequestOutput { commit_and_reveal_fee: fee, witnesses, collateral: coll, data_request: RADRequest { time_lock: tl }, ..Default::default() }, stage, epoch: 3 + fee as u32, ..Default::default() };
        st.info.current_commit_round = round;
        let max_rounds = 4;
        let backup = witnesses * (1 << (round - 1)) / 2;
        let proof = DataRequestEligibilityClaim { proof: VrfProof(me) };
        let t = CommitTransaction::new(CommitTransactionBody::new(dp, Hash::SHA256([9; 32]), proof.clone(), ins.clone(), outs.clone(), None), ks.clone());
        let mut rules = ask == 0 && stage == DataRequestStage::COMMIT && signed && outs.len() <= 1 && outs.iter().all(|o| o.value > 0 && o.pkh == who(me)) && (wips.w8 || tl <= now);
        let mine = stakes.0.iter().find(|e| e.0 == me);
        if v >= ProtocolVersion::V2_0 { rules &= mine.is_some_and(|e| e.3.is_some_and(|t| t != 9) && e.2 as u128 >= required as u128 + min_stake as u128); }
        let mut seen = BTreeSet::new();
        let old: u128 = whole.iter().filter(|x| x.0 == me && x.3 && x.2 < block.saturating_sub(2 * period as u32)).map(|x| x.1 as u128).sum();
        for i in &ins {
            rules &= m.get(i.output_pointer()).is_some_and(|x| x.0 == me && x.2 <= now && x.3.unwrap_or(block) <= block.saturating_sub(age)) && seen.insert(*i.output_pointer());
            if v < ProtocolVersion::V2_0 && epoch > 2_245_000 { rules &= old >= 100 * w as u128; }
        }
        // nobody owns more than there can be
        if (0..2).any(|o| whole.iter().filter(|x| x.0 == o).map(|x| x.1 as u128).sum::<u128>() > u64::MAX as u128) { continue; }
        rules &= sum <= u64::MAX as u128 && left >= 0 && (left == required as i128 || v == ProtocolVersion::V2_0 && left == 0);
        let e = if rules {
            let mut q = queued(50);
            let (th, wd) = if v >= ProtocolVersion::V2_0 { let x = mine.unwrap(); (target(x.3.unwrap(), epoch as u16 + witnesses * 2 + round * 3 + max_rounds * 5), Some(who(x.1))) } else { (target(me, witnesses + backup + 77), None) };
            q.push(SignaturesToVerify::VrfDr { proof, vrf_input: CheckpointVRF(3), dr_hash: dp, target_hash: th, withdrawer: wd, inclusion_epoch: Some(3 + fee as u32) });
            Some(((dp, witnesses, fee), q))
        } else { None };
        let desc = format!("by {} for {} signed by {:?} collateral {:?} change {:?} required {} aged {} at block {}, epoch {} period {}, request {} in stage {:?} locked until {} {:?}, stakes {:?} at least {}, {:?}", me, id + ask, ks.iter().take(3).map(|k| (k.public_key.0, k.signature.0)).collect::<Vec<_>>(),
            ins.iter().map(|i| (i.output_pointer().output_index, m.get(i.output_pointer()))).collect::<Vec<_>>(), outs.iter().map(|o| (o.pkh.hash[0], o.value)).collect::<Vec<_>>(), required, age, block, epoch, period, id, stage, tl, wips, stakes, min_stake, v);
        let mut drs = DataRequestPool::default();
        drs.0.insert(id, st);
        let r = guard(|| validate_commit_transaction(&t, &drs, CheckpointVRF(3), &mut queue, &ReputationEngine, epoch, ec, &d, min_coll, age, block, 77, &wips, period, v, &stakes, max_rounds, min_stake)).map(|r| r.map(|r| (r, queue.clone())));
        check!("a commit", desc, r, e);
    }
    c.done()
}
