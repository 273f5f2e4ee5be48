use std::fmt::{Debug, Display};
use std::cell::RefCell;
type Epoch = u32;
use itertools_stub::Itertools;
mod itertools_stub {
    pub trait Itertools: Iterator { fn sorted(self) -> std::vec::IntoIter<Self::Item> where Self: Sized, Self::Item: Ord { let mut v: Vec<Self::Item> = self.collect(); v.sort(); v.into_iter() } }
    impl<I: Iterator> Itertools for I {}
}
const DEFAULT_VALIDATOR_COUNT_FOR_TESTS: usize = 1000;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Hash(u32);
impl Display for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl AsRef<[u8]> for Hash { fn as_ref(&self) -> &[u8] { &[7] } }
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct PublicKeyHash { hash: [u8; 1] }
impl Debug for PublicKeyHash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "#{}", self.hash[0]) } }
fn who(x: u8) -> PublicKeyHash { PublicKeyHash { hash: [x] } }
fn concatenate_and_hash(a: &[u8], b: &[u8]) -> Vec<u8> { vec![a[0].wrapping_mul(37) ^ b[0]] }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { V1_7, V1_8, V2_0, V2_1 }
impl ProtocolVersion { fn from_epoch_opt(e: Option<Epoch>) -> Self { if e.unwrap_or(0) < 100 { Self::V1_8 } else { Self::V2_0 } } }
fn get_protocol_version_activation_epoch(_v: ProtocolVersion) -> Epoch { 100 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] enum Environment { Mainnet, Testnet, Development }
thread_local! { static MAINNET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn get_environment() -> Environment { if MAINNET.with(|m| m.get()) { Environment::Mainnet } else { Environment::Testnet } }
#[derive(Clone, Debug)] pub struct ActiveWips { fork2: bool, wip23: bool, wip19: bool }
impl ActiveWips { fn wips_0009_0011_0012(&self) -> bool { self.fork2 } fn wip0023(&self) -> bool { self.wip23 } fn wip0019(&self) -> bool { self.wip19 } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct RADTally { x: u8 }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct RADRequest { tally: RADTally }
#[derive(Clone, Debug)] pub enum TransactionError { FeeOverflow, NoTallyStage, TooManyWitnessesDataRequestNotFound { hash: Hash }, DataRequestNotFound { hash: Hash }, MismatchingOutOfConsensusCount { expected: Vec<PublicKeyHash>, found: Vec<PublicKeyHash> }, MismatchingErrorCount { expected: Vec<PublicKeyHash>, found: Vec<PublicKeyHash> },
    WrongNumberOutputs { expected_outputs: usize, outputs: usize }, MismatchedConsensus { expected_tally: Vec<u8>, miner_tally: Vec<u8> }, InvalidTallyChange { change: u64, expected_change: u64 }, RevealNotFound, DishonestReward, InvalidReward { value: u64, expected_value: u64 },
    CommitNotFound, MultipleRewards { pkh: PublicKeyHash }, InvalidTimeLock { current: u64, expected: u64 }, InvalidTallyValue { value: u64, expected_value: u64 } }
impl anyhow::ErrLike for TransactionError {}
impl Display for TransactionError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
#[derive(Clone, Debug)] pub enum DataRequestError { NotCommitStage, NotRevealStage, NotTallyStage, UnfinishedDataRequest, NoRetrievalSources }
impl anyhow::ErrLike for DataRequestError {}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct PtrBody { dr_pointer: Hash, pkh: PublicKeyHash }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct CommitTransaction { body: PtrBody }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct RevealTransaction { body: PtrBody }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct MemoHash {}
impl MemoHash { fn new() -> Self { MemoHash {} } }
#[derive(Debug)] struct DataRequestPool { data_request_pool: HashMap<Hash, DataRequestState> }
#[derive(Debug)] struct RadonTypes {}
trait TypeLike: Debug {}
impl TypeLike for RadonTypes {}
#[derive(Debug)] struct TallyMetaData { errors: Vec<bool>, liars: Vec<bool> }
#[derive(Debug)] enum Stage { Contextless, Tally(TallyMetaData) }
#[derive(Debug)] struct ReportContext { stage: Stage }
#[derive(Debug)] struct RadonReport<RT: TypeLike> { context: ReportContext, t: PhantomData<RT>, bytes: Option<Vec<u8>> }
impl<RT: TypeLike> TryFrom<&RadonReport<RT>> for Vec<u8> { type Error = String; fn try_from(r: &RadonReport<RT>) -> Result<Vec<u8>, String> { r.bytes.clone().ok_or("no bytes".to_string()) } }
fn tally_bytes_on_encode_error() -> Vec<u8> { vec![99] }
thread_local! { static VERDICT: RefCell<HashMap<PublicKeyHash, (bool, bool)>> = RefCell::new(HashMap::new()); }
// the script's verdict on the reveals, chosen by the search
fn run_tally_panic_safe(reveals: &[&RevealTransaction], script: &RADTally, share: f64, commits: usize, _w: &ActiveWips, crowded: bool) -> RadonReport<RadonTypes> {
    let v: Vec<(bool, bool)> = VERDICT.with(|m| reveals.iter().map(|r| m.borrow()[&r.body.pkh]).collect());
    RadonReport { context: ReportContext { stage: Stage::Tally(TallyMetaData { liars: v.iter().map(|x| x.0).collect(), errors: v.iter().map(|x| x.1).collect() }) }, t: PhantomData, bytes: result(&reveals.iter().map(|r| r.body.pkh).collect::<Vec<_>>(), script.x, (share * 1e6).round() as u32, commits, crowded) }
}
// a result that tells what the script was given; one that cannot be encoded now and then
fn result(reveals: &[PublicKeyHash], script: u8, share: u32, commits: usize, crowded: bool) -> Option<Vec<u8>> {
    if script == 9 { return None; }
    let mut v = vec![script, commits as u8, crowded as u8];
    v.extend(share.to_le_bytes());
    v.extend(reveals.iter().map(|x| x.hash[0]));
    Some(v)
}

struct T { o: DataRequestOutput, by: PublicKeyHash, commits: BTreeSet<PublicKeyHash>, v: BTreeMap<PublicKeyHash, (bool, bool)>, min: u64, w: ActiveWips, p: ProtocolVersion, epoch: Epoch, validators: Option<usize> }
impl T {
    fn crowded(&self) -> bool { self.epoch >= 100 && self.o.witnesses as usize > self.validators.unwrap_or(1000) / if get_environment() == Environment::Mainnet { 4 } else { 2 } }
    fn result(&self) -> Vec<u8> {
        let mut r: Vec<PublicKeyHash> = self.v.keys().copied().collect();
        r.sort();
        if self.w.wip19 { r.sort_by_key(|k| concatenate_and_hash(&k.hash, &[7])); }
        result(&r, self.o.data_request.tally.x, self.o.min_consensus_percentage * 10_000, self.commits.len(), self.crowded()).unwrap_or(vec![99])
    }
    fn coll(&self) -> u64 { if self.o.collateral == 0 { self.min } else { self.o.collateral } }
    fn honest(&self) -> u64 { self.v.values().filter(|x| !x.0).count() as u64 }
    fn any(&self) -> bool { if self.w.fork2 { self.honest() > 0 } else { !self.v.is_empty() } }
    fn wrong(&self) -> u64 { self.v.values().filter(|x| x.0 && x.1).count() as u64 }
    fn lies(&self) -> u64 { self.commits.len() as u64 - self.honest() - self.wrong() }
    fn change(&self) -> u64 { let n = self.o.witnesses as u64; self.o.witness_reward * (n - self.honest()) + self.o.commit_and_reveal_fee * (2 * n - self.commits.len() as u64 - self.v.len() as u64) }
    // (reward of an honest witness, rest for the miner, burned)
    fn reward(&self) -> (u64, u64, u64) {
        if !self.any() { return (0, 0, 0); }
        let (r, c) = (self.o.witness_reward + self.coll(), self.coll() * self.lies());
        if self.w.fork2 && self.w.wip23 { (r, 0, c) } else { (r + c / self.honest(), c % self.honest(), 0) }
    }
    fn outs(&self) -> Vec<(PublicKeyHash, u64)> {
        if self.p >= ProtocolVersion::V2_0 { vec![] }
        else if self.any() { self.v.iter().filter(|(_, x)| !x.0 || x.1).map(|(k, x)| (*k, if x.0 { self.coll() } else { self.reward().0 })).collect() }
        else { self.commits.iter().map(|k| (*k, self.coll())).collect() }
    }
    fn out_of_consensus(&self) -> BTreeSet<PublicKeyHash> { self.commits.iter().copied().filter(|k| !self.any() || self.v.get(k).map_or(true, |x| x.0)).collect() }
    fn errors(&self) -> BTreeSet<PublicKeyHash> { if self.any() { self.v.iter().filter(|x| x.1.1).map(|x| *x.0).collect() } else if self.w.fork2 { self.v.keys().copied().collect() } else { BTreeSet::new() } }
    // what is wrong with this tally
    fn wrong_with(&self, t: &TallyTransaction) -> Option<&'static str> {
        let list = |v: &Vec<PublicKeyHash>, s: BTreeSet<PublicKeyHash>| v.len() == s.len() && v.iter().copied().collect::<BTreeSet<_>>() == s;
        if !list(&t.out_of_consensus, self.out_of_consensus()) { return Some("the list of those out of consensus"); }
        if !list(&t.error_committers, self.errors()) { return Some("the list of those in error"); }
        if t.tally != self.result() { return Some("the result"); }
        if t.outputs.iter().any(|o| o.time_lock != 0) { return Some("a time lock"); }
        let mut outs: Vec<(PublicKeyHash, u64)> = t.outputs.iter().map(|o| (o.pkh, o.value)).collect();
        if self.change() > 0 && outs.pop() != Some((self.by, self.change())) { return Some("the change"); }
        outs.sort();
        let mut e = self.outs(); e.sort();
        if outs != e { return Some("the outputs"); }
        None
    }
}
fn show(t: &T, x: &TallyTransaction) -> String { format!("request of {:?} (epoch {}, script {}, share {}%, {:?} validators, mainnet: {}) with {} witnesses (reward {}, fee {}, collateral {}, minimum {}), {:?}, WIP-0023: {}, commits of {:?}, reveals (liar, error) {:?}, tally {:?}, outputs {:?}, out of consensus {:?}, errors {:?}", t.by, t.epoch, t.o.data_request.tally.x, t.o.min_consensus_percentage, t.validators, get_environment() == Environment::Mainnet, t.o.witnesses, t.o.witness_reward, t.o.commit_and_reveal_fee, t.o.collateral, t.min, t.p, t.w.wip23,
    t.commits, t.v, x.tally, x.outputs.iter().map(|o| (o.pkh, o.value, o.time_lock)).collect::<Vec<_>>(), x.out_of_consensus, x.error_committers) }
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let n = c.range(1, 7) as u16;
        let small = c.flip();
        let mut amount = |c: &mut Ctx, zero: bool| if small { c.range(if zero { 0 } else { 1 }, 6) } else { c.pick(&[if zero { 0u64 } else { 1 }, 10, 20, 1000, 500_000_000, 1 << 50]) };
        let o = DataRequestOutput { data_request: RADRequest { tally: RADTally { x: c.below(10) as u8 } }, witness_reward: amount(&mut c, false), witnesses: n, commit_and_reveal_fee: amount(&mut c, true), min_consensus_percentage: c.range(51, 99) as u32, collateral: amount(&mut c, true) };
        let min = amount(&mut c, false);
        let w = ActiveWips { fork2: true, wip23: c.flip(), wip19: c.flip() };
        let p = c.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_0, ProtocolVersion::V2_1]);
        let mut t = T { o, by: who(c.below(10) as u8), commits: BTreeSet::new(), v: BTreeMap::new(), min, w, p, epoch: c.pick(&[5, 99, 100, 101, 150]), validators: if c.flip() { None } else { Some(c.range(0, 40) as usize) } };
        MAINNET.with(|m| m.set(c.flip()));
        if !c.chance(6) {
            while t.commits.len() < n as usize { t.commits.insert(who(c.below(9) as u8)); }
            let (l, e) = (c.range(1, 5), c.range(1, 4));
            for k in t.commits.clone() { if !c.chance(4) { t.v.insert(k, (c.chance(l), c.chance(e))); } }
        }
        VERDICT.with(|m| *m.borrow_mut() = t.v.iter().map(|(k, x)| (*k, *x)).collect());
        let body = |k: &PublicKeyHash| PtrBody { dr_pointer: Hash(1), pkh: *k };
        let s = DataRequestState { data_request: t.o.clone(), pkh: t.by, info: DataRequestInfo { commits: t.commits.iter().map(|k| (*k, CommitTransaction { body: body(k) })).collect(), reveals: t.v.keys().map(|k| (*k, RevealTransaction { body: body(k) })).collect(), ..Default::default() }, stage: DataRequestStage::TALLY, epoch: t.epoch };
        let mut pool = DataRequestPool { data_request_pool: HashMap::from([(Hash(1), s)]) };
        let none = TallyTransaction::new(Hash(1), vec![], vec![], vec![], vec![]);
        let (mut x, _) = match guard(|| create_expected_tally_transaction(&none, &pool, min, &t.w, t.crowded(), p)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => { c.fail(format!("no tally ({}) for: {}", e, show(&t, &none))); continue; }
            Err(e) => { c.fail(format!("panic ({}) making the tally: {}", e, show(&t, &none))); continue; }
        };
        c.case(&show(&t, &x));
        if let Some(e) = t.wrong_with(&x) { c.fail(format!("the node's tally is wrong ({}): {}", e, show(&t, &x))); continue; }
        if p < ProtocolVersion::V2_0 {
            let sum: u64 = x.outputs.iter().map(|o| o.value).sum();
            let (_, rest, burned) = t.reward();
            let (price, fees) = ((t.o.witness_reward + 2 * t.o.commit_and_reveal_fee) * n as u64, t.o.commit_and_reveal_fee * (t.commits.len() + t.v.len()) as u64);
            if sum + fees + rest + burned != price + t.coll() * t.commits.len() as u64 { c.fail(format!("the tally pays {} (fees {}, rest {}, burned {}), the request holds {} and its collateral {}: {}", sum, fees, rest, burned, price, t.coll() * t.commits.len() as u64, show(&t, &x))); continue; }
        }
        // what a miner may make of it
        for _ in 0..c.below(3) {
            let k = x.outputs.len() as u64;
            match c.below(10) {
                9 => match c.below(3) { 0 => { x.tally.pop(); } 1 => x.tally.push(1), _ => if !x.tally.is_empty() { let i = c.below(x.tally.len() as u64) as usize; x.tally[i] ^= 1; } },
                0 if k > 0 => { let i = c.below(k) as usize; x.outputs[i].pkh = who(c.below(10) as u8); }
                1 if k > 0 => { let i = c.below(k) as usize; x.outputs[i].value = c.pick(&[x.outputs[0].value, t.coll(), t.reward().0, t.change(), x.outputs[i].value + 1]); }
                2 if k > 1 => { let (i, j) = (c.below(k) as usize, c.below(k) as usize); x.outputs.swap(i, j); }
                3 if k > 1 => { let (i, j) = (c.below(k) as usize, c.below(k) as usize); x.outputs[i] = x.outputs[j].clone(); }
                4 if k > 0 => { let i = c.below(k) as usize; if c.flip() { x.outputs[i].time_lock = 1; } else { x.outputs.remove(i); } }
                5 => { if c.flip() { x.out_of_consensus.pop(); } else { x.out_of_consensus.push(who(c.below(10) as u8)); } }
                6 => { if c.flip() { x.error_committers.pop(); } else { x.error_committers.push(who(c.below(10) as u8)); } }
                7 if k > 0 => { let (i, j) = (c.below(k) as usize, c.below(k) as usize); let d = c.range(1, 3).min(x.outputs[i].value); x.outputs[i].value -= d; x.outputs[j].value += d; }
                8 if k > 0 => { let i = k as usize - 1; if let Some(q) = t.v.keys().nth(c.below(7) as usize) { x.outputs[i].pkh = *q; } }
                _ => {}
            }
        }
        let included = c.flip();
        let bad = if t.crowded() && t.epoch > 100 && !included { Some("too many witnesses, in a block without the request") } else { t.wrong_with(&x) };
        match guard(|| validate_tally_transaction(&x, &mut pool, &ConsensusConstants { collateral_minimum: min }, &t.w, &if included { HashSet::from([Hash(1)]) } else { HashSet::new() }, t.validators, p).map(|(o, f)| (o.into_iter().cloned().collect::<Vec<_>>(), f)).map_err(|e| e.to_string())) {
            Err(e) => c.fail(format!("panic ({}) validating: {}", e, show(&t, &x))),
            Ok(Ok(_)) if bad.is_some() => c.fail(format!("a wrong tally ({}) is accepted: {}", bad.unwrap(), show(&t, &x))),
            Ok(Err(e)) if bad.is_none() => c.fail(format!("a tally is rejected ({}): {}", e, show(&t, &x))),
            Ok(Ok((o, f))) if o != x.outputs || (p < ProtocolVersion::V2_0 && f != t.reward().1) => c.fail(format!("the rest for the miner is {}: {}", f, show(&t, &x))),
            _ => {}
        }
        c.sample(|| show(&t, &x));
    }
    c.done()
}
