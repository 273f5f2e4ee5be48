use std::num::ParseIntError;
use std::sync::{RwLock, RwLockReadGuard};
use std::cell::Cell;
use anyhow::Error;
include!("utxo_stub.rs");
type Result<T, E = anyhow::Error> = std::result::Result<T, E>;
type SHA256 = [u8; 32];
type Epoch = u32;
impl anyhow::ErrLike for std::io::Error {}
// keys and signatures: numbers; from 200 on they are malformed
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct PublicKey(u8);
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Signature(u8);
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct KeyedSignature { pub signature: Signature, pub public_key: PublicKey }
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SecpKey(u8);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct SecpSig(u8);
impl TryFrom<PublicKey> for SecpKey { type Error = anyhow::Error; fn try_from(k: PublicKey) -> Result<SecpKey> { if k.0 < 200 { Ok(SecpKey(k.0)) } else { Err(Error("key".into())) } } }
impl TryFrom<Signature> for SecpSig { type Error = anyhow::Error; fn try_from(k: Signature) -> Result<SecpSig> { if k.0 < 200 { Ok(SecpSig(k.0)) } else { Err(Error("signature".into())) } } }
fn who(k: u8) -> PublicKeyHash { PublicKeyHash { hash: [k; 20] } }
impl PublicKey { fn pkh(&self) -> PublicKeyHash { who(self.0) } }
impl PublicKeyHash { fn from_public_key(k: &PublicKey) -> PublicKeyHash { who(k.0) } }
fn verify(k: &SecpKey, m: &[u8], s: &SecpSig) -> Result<()> { if s.0 == k.0.wrapping_add(m[0]) % 200 { Ok(()) } else { Err(Error("verify".into())) } }
#[derive(Debug, Clone, PartialEq, Eq)] pub enum SignaturesToVerify { SecpTx { public_key: SecpKey, data: Vec<u8>, signature: SecpSig }, Other }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct RADRequest { bad: bool, size: u32 }
impl RADRequest { fn weight(&self) -> u32 { self.size } }
fn validate_rad_request(r: &RADRequest, _w: &ActiveWips) -> Result<()> { if r.bad { Err(Error("rad".into())) } else { Ok(()) } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct Memoized<T>(PhantomData<T>);
impl<T> Memoized<T> { fn new() -> Self { Memoized(PhantomData) } }
#[derive(Debug, Default, Clone, PartialEq, Eq, Hash)] pub struct StakeKey<T> { pub validator: T, pub withdrawer: T }
pub enum QueryStakesKey<T> { Key(StakeKey<T>), Validator(T), Withdrawer(T), All }
#[derive(Debug, Clone, Copy)] struct Coins(u64);
impl From<Coins> for u64 { fn from(c: Coins) -> u64 { c.0 } }
impl Coins { fn nanowits(&self) -> u64 { self.0 } fn wits(&self) -> u64 { self.0 / 1_000_000_000 } }
#[derive(Debug, Clone, Copy)] struct Stake { coins: Coins, nonce: u64 }
#[derive(Debug, Clone)] struct StakeEntry { key: StakeKey<PublicKeyHash>, value: Stake }
#[derive(Debug)] struct StakesError;
impl anyhow::ErrLike for StakesError {}
#[derive(Debug, Default)] struct StakesTracker(Vec<(u8, u8, u64, u64)>);
impl StakesTracker {
    fn check_validator_withdrawer(&self, v: PublicKeyHash, w: PublicKeyHash) -> std::result::Result<(), StakesError> { if self.0.iter().any(|e| who(e.0) == v) && !self.0.iter().any(|e| who(e.0) == v && who(e.1) == w) { Err(StakesError) } else { Ok(()) } }
    fn query_stakes(&self, q: QueryStakesKey<PublicKeyHash>) -> std::result::Result<Vec<StakeEntry>, StakesError> {
        let r: Vec<StakeEntry> = self.0.iter().filter(|e| match &q { QueryStakesKey::Key(k) => who(e.0) == k.validator && who(e.1) == k.withdrawer, QueryStakesKey::Validator(v) => who(e.0) == *v, QueryStakesKey::Withdrawer(w) => who(e.1) == *w, QueryStakesKey::All => true })
            .map(|e| StakeEntry { key: StakeKey { validator: who(e.0), withdrawer: who(e.1) }, value: Stake { coins: Coins(e.2), nonce: e.3 } }).collect();
        if r.is_empty() { Err(StakesError) } else { Ok(r) }
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { #[default] V1_7, V1_8, V2_0, V2_1 }
thread_local! { static VERSION: Cell<ProtocolVersion> = Cell::new(ProtocolVersion::V1_7); }
fn get_protocol_version(_e: Option<Epoch>) -> ProtocolVersion { VERSION.with(|v| v.get()) }
#[derive(Debug)] struct ActiveWips { w22: bool }
impl ActiveWips { fn wip0022(&self) -> bool { self.w22 } }
// hashes tell the kind and the version
macro_rules! hashed { ($($t:ident $n:expr),*) => { $(impl $t { fn hash(&self) -> Hash { Hash::SHA256([$n; 32]) } fn versioned_hash(&self, v: ProtocolVersion) -> Hash { Hash::SHA256([$n + v as u8; 32]) } })* } }
hashed!(VTTransaction 10, DRTransaction 20, StakeTransaction 30, UnstakeTransaction 40);

fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash::SHA256([(n / 4) as u8; 32]), output_index: n % 4 } }
fn out(k: u8, v: u64, l: u64) -> ValueTransferOutput { ValueTransferOutput { pkh: who(k), value: v, time_lock: l } }
fn key(k: u8, s: u8) -> KeyedSignature { KeyedSignature { public_key: PublicKey(k), signature: Signature(s) } }
type M = BTreeMap<OutputPointer, (u8, u64, u64)>;
/// What the inputs leave after what is spent, if they are free to be spent by whoever signed.
fn left(ins: &[Input], ks: &[KeyedSignature], m: &M, now: i64, spent: u128) -> Option<u64> {
    if ins.len() != ks.len() || ins.is_empty() { return None; }
    let mut seen = BTreeSet::new();
    let mut total = 0u128;
    for (i, k) in ins.iter().zip(ks) {
        let (o, v, l) = m.get(i.output_pointer())?;
        if *o != k.public_key.0 || k.public_key.0 >= 200 || k.signature.0 >= 200 || !seen.insert(*i.output_pointer()) || *l > now as u64 { return None; }
        total += *v as u128;
    }
    if total > u64::MAX as u128 || spent > total { None } else { Some((total - spent) as u64) }
}

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let v = c.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1]);
        VERSION.with(|x| x.set(v));
        let big = c.chance(6);
        let val = |c: &mut Ctx| -> u64 { if big { u64::MAX / 2 + c.below(3) } else { 1 + c.below(40) } };
        let mut pool = UnspentOutputsPool::default();
        let mut m: M = BTreeMap::new();
        let n = 1 + c.below(4) as u32;
        for k in 0..n { let (o, x, l) = (c.below(3) as u8, val(&mut c), if c.chance(12) { c.pick(&[50u64, 51, u64::MAX]) } else { 0 }); pool.insert(ptr(k), out(o, x, l), k); m.insert(ptr(k), (o, x, l)); }
        let mut d = UtxoDiff::new(&pool, 9);
        for k in 0..n { if c.chance(10) { d.remove_utxo(ptr(k)); m.remove(&ptr(k)); } }
        if c.chance(3) { let (o, x) = (c.below(3) as u8, val(&mut c)); d.insert_utxo(ptr(n), out(o, x, 0), None); m.insert(ptr(n), (o, x, 0)); }
        let ec = EpochConstants { checkpoint_zero_timestamp: 0, checkpoints_period: 10, ..Default::default() };
        let (epoch, now) = (5, 50i64);
        let mut ins: Vec<Input> = (0..n + 1).filter(|k| if m.contains_key(&ptr(*k)) { c.below(4) > 0 } else { c.chance(20) }).map(|k| Input::new(ptr(k))).collect();
        if !ins.is_empty() && c.chance(15) { let i = c.pick(&ins); ins.push(i); }
        let mut ks: Vec<KeyedSignature> = ins.iter().map(|i| key(m.get(i.output_pointer()).map_or(0, |x| x.0), c.below(100) as u8)).collect();
        if c.chance(8) && !ks.is_empty() {
            let i = c.below(ks.len() as u64) as usize;
            match c.below(5) { 0 => { ks.remove(i); } 1 => ks.push(key(0, 0)), 2 => ks[i].public_key.0 = c.below(4) as u8, 3 => ks[i].signature.0 = 200, _ => ks[i].public_key.0 = 200 }
        }
        let in_sum: u128 = ins.iter().map(|i| m.get(i.output_pointer()).map_or(0, |x| x.1 as u128)).sum();
        let first = ins.first().and_then(|i| m.get(i.output_pointer())).map_or(0, |x| x.0);
        let mut rest = in_sum;
        // a part of what is left, all of it, or a bit more
        let mut part = |c: &mut Ctx| -> u64 { let x = match c.below(8) { 0 => rest + 1, 1 => 0, 2 => rest, _ => if rest == 0 { 1 } else { 1 + c.below(rest.min(1 << 60) as u64) as u128 } }; rest = rest.saturating_sub(x); x.min(u64::MAX as u128) as u64 };
        let kind = c.below(5);
        let mut queue = if c.flip() { vec![] } else { vec![SignaturesToVerify::Other] };
        let q0 = queue.clone();
        let queued = |h: u8| -> Vec<SignaturesToVerify> { let mut q = q0.clone(); q.extend(ks.iter().map(|k| SignaturesToVerify::SecpTx { public_key: SecpKey(k.public_key.0), data: vec![h; 32], signature: SecpSig(k.signature.0) })); q };
        let version = if c.flip() { Some(v) } else { None };
        let used = version.unwrap_or_default() as u8;
        let about = format!("inputs {:?} signed by {:?}", ins.iter().map(|i| (i.output_pointer().output_index, m.get(i.output_pointer()))).collect::<Vec<_>>(), ks.iter().map(|k| (k.public_key.0, k.signature.0)).collect::<Vec<_>>());
        macro_rules! check { ($what:expr, $desc:expr, $got:expr, $exp:expr) => {{
            let desc = $desc; c.case(&(&desc, $what));
            match ($got, $exp) { (Ok(Ok(g)), Some(e)) if g == e => { } (Ok(Err(_)), None) => {} (g, e) => c.fail(format!("{} {} is {:?}, expected {:?}", $what, desc, g.map(|r| r.map_err(|e| format!("{:?}", e))), e)) }
            c.sample(|| desc);
        }} }
        match kind {
            0 => {
                let outs: Vec<_> = (0..c.below(4)).map(|_| { let x = part(&mut c); out(c.below(4) as u8, x, c.below(3)) }).collect();
                let t = VTTransaction::new(VTTransactionBody::new(ins.clone(), outs.clone()), ks.clone());
                let w = ins.len() as u32 * 133 + outs.len() as u32 * 360;
                let max = match c.below(4) { 0 => w, 1 => w.saturating_sub(1), _ => 20_000 };
                let sum: u128 = outs.iter().map(|o| o.value as u128).sum();
                let e = if w > max || outs.iter().any(|o| o.value == 0) { None } else { left(&ins, &ks, &m, now, sum).map(|f| (ins.clone(), outs.clone(), f, queued(10 + used))) };
                let r = guard(|| validate_vt_transaction(&t, &d, epoch, ec, &mut queue, max, version).map(|r| (r.0.into_iter().cloned().collect::<Vec<_>>(), r.1.into_iter().cloned().collect::<Vec<_>>(), r.2))).map(|r| r.map(|r| (r.0, r.1, r.2, queue.clone())));
                check!("a value transfer", format!("of {} outputs {:?} weight {} of {} version {:?}", about, outs.iter().map(|o| o.value).collect::<Vec<_>>(), w, max, version), r, e);
            }
            1 => {
                let outs: Vec<_> = (0..c.below(3)).map(|_| { let x = if c.chance(6) { 0 } else { val(&mut c) }; out(0, x, 0) }).collect();
                let mut gs = if c.chance(4) { ks.clone() } else { vec![] };
                if c.chance(50) { gs = vec![key(0, 0); 255 + c.below(3) as usize]; }
                let gi = if c.chance(4) { ins.clone() } else { vec![] };
                let t = VTTransaction::new(VTTransactionBody::new(gi.clone(), outs.clone()), gs.clone());
                let sum: u128 = outs.iter().map(|o| o.value as u128).sum();
                let e = if !gi.is_empty() || !gs.is_empty() || outs.is_empty() || outs.iter().any(|o| o.value == 0) || sum > u64::MAX as u128 { None } else { Some((outs.clone(), sum as u64)) };
                check!("a genesis transfer", format!("with {} inputs, {} signatures and outputs {:?}", gi.len(), gs.len(), outs.iter().map(|o| o.value).collect::<Vec<_>>()), guard(|| validate_genesis_vt_transaction(&t).map(|r| (r.0.into_iter().cloned().collect::<Vec<_>>(), r.1))), e);
            }
            2 => {
                let outs: Vec<_> = (0..if c.chance(8) { 2 } else { c.below(2) }).map(|_| { let x = part(&mut c); out(if c.chance(6) { 3 } else { first }, x, 0) }).collect();
                let witnesses = if c.chance(15) { 0 } else { 1 + c.below(3) as u16 };
                let fee = c.below(3);
                let reward = if c.chance(12) { 0 } else { 1 + c.below(4) };
                let min = 1 + c.below(20);
                let coll = match c.below(4) { 0 => 0, 1 => min, 2 => min - 1, _ => min + c.below(30) };
                let pct = if c.chance(6) { c.pick(&[0u32, 50, 100, 101]) } else { c.pick(&[51u32, 99, 70]) };
                let ratio = if c.flip() { 125 } else { c.below(20) };
                let wips = ActiveWips { w22: c.flip() };
                let o = DataRequestOutput { witness_reward: reward, witnesses, commit_and_reveal_fee: fee, min_consensus_percentage: pct, collateral: coll, data_request: RADRequest { bad: c.chance(12), size: 0 }, ..Default::default() };
                let t = DRTransaction::new(DRTransactionBody::new(ins.clone(), o.clone(), outs.clone()), ks.clone());
                let w = t.weight();
                let max = match c.below(4) { 0 => w, 1 => w - 1, _ => u32::MAX };
                let cost = (reward as u128 + 2 * fee as u128) * witnesses as u128 + outs.iter().map(|o| o.value as u128).sum::<u128>();
                let cc = if coll == 0 { min } else { coll };
                let rules = w <= max && outs.len() <= 1 && outs.iter().all(|o| o.value > 0 && o.pkh == who(first)) && witnesses > 0 && reward > 0 && (51..=99).contains(&pct) && (coll == 0 || coll >= min) && !o.data_request.bad
                    && (!wips.w22 || cc.div_ceil(reward) <= ratio);
                let e = if rules { left(&ins, &ks, &m, now, cost).map(|f| (ins.clone(), outs.clone(), f, queued(20 + used))) } else { None };
                let r = guard(|| validate_dr_transaction(&t, &d, epoch, ec, &mut queue, min, max, ratio, &wips, version).map(|r| (r.0.into_iter().cloned().collect::<Vec<_>>(), r.1.into_iter().cloned().collect::<Vec<_>>(), r.2))).map(|r| r.map(|r| (r.0, r.1, r.2, queue.clone())));
                check!("a data request", format!("of {} outputs {:?} request {:?} minimum collateral {} ratio {} {:?} weight {} of {}", about, outs, o, min, ratio, wips, w, max), r, e);
            }
            3 => {
                let mut stakes = StakesTracker::default();
                for k in 0..c.below(3) as u8 { if stakes.0.iter().all(|e| e.0 != k) { stakes.0.push((k, c.below(3) as u8, if c.chance(4) { u64::MAX - c.below(50) } else { 1 + c.below(60) }, 0)); } }
                let (sv, sw) = (c.below(3) as u8, c.below(3) as u8);
                let value = part(&mut c);
                let change = if c.flip() { None } else { let x = part(&mut c); Some(out(0, x, 0)) };
                let t = StakeTransaction::new(StakeTransactionBody { inputs: ins.clone(), output: StakeOutput { value, key: StakeKey { validator: who(sv), withdrawer: who(sw) }, ..Default::default() }, change: change.clone(), ..Default::default() }, ks.clone());
                let min = match c.below(3) { 0 => value.saturating_add(c.below(2)), _ => c.below(10) };
                let has = stakes.0.iter().find(|e| e.0 == sv);
                let already = has.filter(|e| e.1 == sw).map_or(0, |e| e.2) as u128;
                let max = match c.below(3) { 0 => (already + value as u128 - c.below(2).min(value) as u128).min(u64::MAX as u128 - 1) as u64, _ => u64::MAX - 1 };
                let rules = v > ProtocolVersion::V1_7 && value >= min && has.map_or(true, |e| e.1 == sw) && already + value as u128 <= max as u128;
                let e = if rules { left(&ins, &ks, &m, now, value as u128 + change.as_ref().map_or(0, |c| c.value as u128)).map(|f| (ins.clone(), t.body.output.clone(), f, t.weight(), change.clone(), queued(30))) } else { None };
                let r = guard(|| validate_stake_transaction(&t, &d, epoch, ec, &mut queue, &stakes, min, max).map(|r| (r.0.into_iter().cloned().collect::<Vec<_>>(), r.1.clone(), r.2, r.3, r.4.clone()))).map(|r| r.map(|r| (r.0, r.1, r.2, r.3, r.4, queue.clone())));
                check!("a stake", format!("of {} staking {} for {:?} change {:?}, staked {:?}, from {} to {}, {:?}", about, value, (sv, sw), change.as_ref().map(|c| c.value), stakes, min, max, v), r, e);
            }
            _ => {
                let mut stakes = StakesTracker::default();
                let coins = match c.below(4) { 0 => u64::MAX - c.below(3), _ => 1 + c.below(60) };
                for (a, b) in [(0, 0), (1, 2), (2, 2)] { if c.below(5) > 0 { stakes.0.push((a, b, coins, c.below(3))); } }
                let signer = c.below(3) as u8;
                let operator = c.pick(&[0u8, 1, 2]);
                let fee = match c.below(5) { 0 => 0, 1 => u64::MAX, _ => c.below(10) };
                let value = match c.below(5) { 0 => coins.wrapping_sub(fee), 1 => 0, 2 => c.below(coins), 3 => u64::MAX - c.below(3), _ => coins.saturating_sub(fee).saturating_sub(c.below(20)) };
                let e0 = stakes.0.iter().find(|e| e.0 == operator && e.1 == signer).cloned();
                let nonce = e0.map_or(0, |e| e.3) + if c.chance(10) { 1 } else { 0 };
                let delay = c.below(100);
                let lock = match c.below(4) { 0 => delay.saturating_sub(1), 1 => delay, _ => delay + c.below(100) };
                let to = if c.chance(8) { c.below(3) as u8 } else { signer };
                let mut t = UnstakeTransaction { body: UnstakeTransactionBody { operator: who(operator), withdrawal: out(to, value, lock), fee, nonce, ..Default::default() }, signature: key(signer, 0) };
                t.signature.signature.0 = if c.chance(10) { c.pick(&[0, 200, 41]) } else { signer + 40 };
                let good = t.signature.signature.0 == signer + 40;
                let min = c.below(15);
                let all = value as u128 + fee as u128;
                let staked = e0.map_or(0, |e| e.2) as u128;
                let taken = if v >= ProtocolVersion::V2_1 && all == 0 { staked } else { all };
                let rules = v >= ProtocolVersion::V2_0 && e0.is_some_and(|e| e.3 == nonce) && all <= staked && (taken == staked || staked - taken >= min as u128) && lock >= delay && to == signer && good;
                let e = if rules { Some((fee, t.weight(), vec![t.body.withdrawal.clone()])) } else { None };
                let r = guard(|| validate_unstake_transaction(&t, epoch, &stakes, min, delay).map(|r| (r.0, r.1, r.2.into_iter().cloned().collect::<Vec<_>>())));
                check!("an unstake", format!("of {} fee {} nonce {} from {} by {} to {} locked {} of {} signed {}, staked {:?} at least {}, {:?}", value, fee, nonce, operator, signer, to, lock, delay, good, stakes, min, v), r, e);
            }
        }
    }
    c.done()
}
