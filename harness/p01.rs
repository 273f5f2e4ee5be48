use std::fmt::{Debug, Display};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Hash(u32);
impl Display for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct PublicKeyHash(u8);
impl Display for PublicKeyHash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)] pub struct PublicKey(u8);
impl PublicKey { fn pkh(&self) -> PublicKeyHash { PublicKeyHash(self.0) } }
impl PublicKeyHash { fn from_public_key(k: &PublicKey) -> Self { k.pkh() } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)] pub struct KeyedSignature { public_key: PublicKey }
// ordered as by the ordered_float crate
#[derive(Clone, Copy, Debug, PartialEq, Default)] pub struct OrderedFloat<T>(T);
impl Eq for OrderedFloat<f64> {}
impl Ord for OrderedFloat<f64> { fn cmp(&self, o: &Self) -> Ordering { self.0.partial_cmp(&o.0).unwrap_or_else(|| self.0.is_nan().cmp(&o.0.is_nan())) } }
impl PartialOrd for OrderedFloat<f64> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl OrderedFloat<f64> { fn into_inner(self) -> f64 { self.0 } }
impl From<f64> for OrderedFloat<f64> { fn from(x: f64) -> Self { OrderedFloat(x) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] enum ProtocolVersion { V1_7, V1_8, V2_0, V2_1 }
trait Hashable { fn hash(&self) -> Hash; }
trait VersionedHashable { fn versioned_hash(&self, v: ProtocolVersion) -> Hash; }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct DataRequestOutput { witness_reward: u64, witnesses: u16, commit_and_reveal_fee: u64, collateral: u64 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct InBody { inputs: Vec<Input>, x: u32, w: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct DrBody { inputs: Vec<Input>, dr_output: DataRequestOutput, x: u32, w: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Proof { k: u8 }
impl Proof { fn pkh(&self) -> PublicKeyHash { PublicKeyHash(self.k) } }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Claim { proof: Proof }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct CoBody { dr_pointer: Hash, proof: Claim, collateral: Vec<Input>, x: u32, w: u32 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct ReBody { dr_pointer: Hash, pkh: PublicKeyHash, x: u32, w: u32 }
macro_rules! tx { ($($t:ident $b:ident;)*) => { $(
    #[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct $t { body: $b, signatures: Vec<KeyedSignature> }
    impl $t { fn hash(&self) -> Hash { Hash(self.body.x) } fn versioned_hash(&self, _v: ProtocolVersion) -> Hash { Hash(self.body.x) } fn weight(&self) -> u32 { self.body.w } }
)* } }
tx! { VTTransaction InBody; DRTransaction DrBody; StakeTransaction InBody; UnstakeTransaction InBody; CommitTransaction CoBody; RevealTransaction ReBody; MintTransaction ReBody; TallyTransaction ReBody; }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Transaction { ValueTransfer(VTTransaction), DataRequest(DRTransaction), Commit(CommitTransaction), Reveal(RevealTransaction), Tally(TallyTransaction), Mint(MintTransaction), Stake(StakeTransaction), Unstake(UnstakeTransaction) }
impl Transaction {
    fn hash(&self) -> Hash { match self { Self::ValueTransfer(t) => t.hash(), Self::DataRequest(t) => t.hash(), Self::Commit(t) => t.hash(), Self::Reveal(t) => t.hash(), Self::Tally(t) => t.hash(), Self::Mint(t) => t.hash(), Self::Stake(t) => t.hash(), Self::Unstake(t) => t.hash() } }
    fn versioned_hash(&self, _v: ProtocolVersion) -> Hash { self.hash() }
    fn weight(&self) -> u32 { match self { Self::ValueTransfer(t) => t.weight(), Self::DataRequest(t) => t.weight(), Self::Commit(t) => t.weight(), Self::Reveal(t) => t.weight(), Self::Tally(t) => t.weight(), Self::Mint(t) => t.weight(), Self::Stake(t) => t.weight(), Self::Unstake(t) => t.weight() } }
}
#[derive(Clone, Debug, PartialEq, Eq)] pub enum TransactionError { NotValidTransaction, DuplicatedCommit { pkh: PublicKeyHash, dr_pointer: Hash }, DuplicatedReveal { pkh: PublicKeyHash, dr_pointer: Hash } }
impl anyhow::ErrLike for TransactionError {}
#[derive(Clone, Debug, Default)] pub struct DataRequestPool { known: BTreeMap<Hash, DataRequestOutput> }
impl DataRequestPool { fn get_dr_output(&self, h: &Hash) -> Option<DataRequestOutput> { self.known.get(h).cloned() } }

type Slots = BTreeMap<(u32, u8), u32>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] enum K { Vt, Dr, St, Ut, Co, Re }
use K::*;
#[derive(Clone, Debug)] struct T { k: K, x: u32, w: u32, fee: u64, ins: Vec<u32>, dr: u32, by: u8, out: DataRequestOutput }
impl T {
    fn rate(&self) -> (OrderedFloat<f64>, u32) { (OrderedFloat(self.fee as f64 / f64::from(self.w)), self.x) }
    fn tx(&self) -> Transaction {
        let i: Vec<Input> = self.ins.iter().map(|p| input(*p)).collect();
        let (x, w, signatures) = (self.x, self.w, vec![KeyedSignature { public_key: PublicKey(self.by) }]);
        match self.k {
            Vt => Transaction::ValueTransfer(VTTransaction { body: InBody { inputs: i, x, w }, signatures }),
            Dr => Transaction::DataRequest(DRTransaction { body: DrBody { inputs: i, dr_output: self.out.clone(), x, w }, signatures }),
            St => Transaction::Stake(StakeTransaction { body: InBody { inputs: i, x, w }, signatures }),
            Ut => Transaction::Unstake(UnstakeTransaction { body: InBody { inputs: vec![], x, w }, signatures }),
            Co => Transaction::Commit(CommitTransaction { body: CoBody { dr_pointer: Hash(self.dr), proof: Claim { proof: Proof { k: self.by } }, collateral: i, x, w }, signatures }),
            Re => Transaction::Reveal(RevealTransaction { body: ReBody { dr_pointer: Hash(self.dr), pkh: PublicKeyHash(self.by), x, w }, signatures }),
        }
    }
}
fn ptr(n: u32) -> OutputPointer { OutputPointer { transaction_id: Hash(n / 4), output_index: n % 4 } }
fn input(n: u32) -> Input { Input { output_pointer: ptr(n) } }
#[derive(Clone, Default, Debug)] struct M { held: BTreeMap<u32, T>, co: Slots, re: Slots, un: Vec<u32>, prev: Vec<u32> }
impl M {
    fn of(&self, k: K) -> Vec<&T> { let mut v: Vec<&T> = self.held.values().filter(|t| t.k == k).collect(); v.sort_by_key(|t| t.rate()); v.reverse(); v }
    fn weight(&self, k: K) -> u64 { self.of(k).iter().map(|t| t.w as u64).sum() }
    fn total(&self) -> u64 { self.weight(Vt) + self.weight(Dr) + self.weight(St) }
    fn drop_spenders(&mut self, ins: &[u32]) { self.held.retain(|_, t| t.k == Ut || !t.ins.iter().any(|i| ins.contains(i))); }
}
fn slots(ix: &HashMap<Hash, HashMap<PublicKeyHash, Hash>>) -> Slots { ix.iter().flat_map(|(d, m)| m.iter().map(|(p, h)| ((d.0, p.0), h.0))).collect() }
fn check(p: &TransactionsPool, m: &M, all: &[T]) -> Option<String> {
    for (k, n, got) in [(Vt, p.vt_len(), p.vt_iter().map(|t| t.body.x).collect::<Vec<u32>>()), (Dr, p.dr_len(), p.dr_iter().map(|t| t.body.x).collect()), (St, p.st_len(), p.st_iter().map(|t| t.body.x).collect()), (Ut, p.ut_len(), p.ut_iter().map(|t| t.body.x).collect())] {
        let exp: Vec<u32> = m.of(k).iter().map(|t| t.x).collect();
        if got != exp { return Some(format!("the {:?} of the pool, by fee per weight, are {:?}, expected {:?}", k, got, exp)); }
        if n != exp.len() { return Some(format!("{} {:?} counted, expected {}", n, k, exp.len())); }
    }
    let sums = (p.total_vt_weight, p.total_dr_weight, p.total_st_weight, p.total_ut_weight);
    if sums != (m.weight(Vt), m.weight(Dr), m.weight(St), m.weight(Ut)) || p.total_transactions_weight() != m.total() { return Some(format!("the weights are {:?} ({}), expected {:?}", sums, p.total_transactions_weight(), (m.weight(Vt), m.weight(Dr), m.weight(St), m.weight(Ut)))); }
    let mut ops: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
    for t in m.held.values().filter(|t| t.k != Ut) { for i in &t.ins { ops.entry(*i).or_default().push(t.x); } }
    let real: BTreeMap<u32, Vec<u32>> = p.output_pointer_map.iter().map(|(o, v)| (o.transaction_id.0 * 4 + o.output_index, { let mut v: Vec<u32> = v.iter().map(|h| h.0).collect(); v.sort(); v })).collect();
    if real != ops { return Some(format!("the outputs are listed as spent by {:?}, expected {:?}", real, ops)); }
    if slots(&p.co_transactions) != m.co || slots(&p.re_transactions) != m.re { return Some(format!("commits {:?} and reveals {:?}, expected {:?} and {:?}", p.co_transactions, p.re_transactions, m.co, m.re)); }
    for (ix, s, k) in [(p.co_hash_index.keys().map(|h| h.0).collect::<BTreeSet<u32>>(), &m.co, Co), (p.re_hash_index.keys().map(|h| h.0).collect(), &m.re, Re)] {
        if ix != s.values().copied().collect() { return Some(format!("the {:?} by hash are {:?}, expected {:?}", k, ix, s)); }
    }
    for t in all {
        let slot = match t.k { Co => m.co.get(&(t.dr, t.by)), Re => m.re.get(&(t.dr, t.by)), _ => m.held.get(&t.x).map(|u| &u.x) }.copied();
        let exp = match slot { None => Ok(false), Some(x) if x == t.x => Ok(true), _ => Err(()) };
        if p.contains(&t.tx()).map_err(|_| ()) != exp { return Some(format!("contains {} ({:?}) answers {:?}, expected {:?}", t.x, t.k, p.contains(&t.tx()), exp)); }
        if p.get(&Hash(t.x)) != if slot == Some(t.x) { Some(t.tx()) } else { None } { return Some(format!("get {} ({:?}) answers {:?}", t.x, t.k, p.get(&Hash(t.x)))); }
    }
    if p.is_empty() != (m.held.is_empty() && m.co.is_empty() && m.re.is_empty()) { return Some("is_empty is wrong".to_string()); }
    None
}
// the pool makes room by evicting the cheapest of a kind, and no more than it must
fn made_room(before: &M, after: &[u32], limit: u64) -> Result<M, String> {
    let mut m = before.clone();
    for (i, x) in after.iter().enumerate() {
        if m.total() <= limit { return Err(format!("{} evicted when there was room", x)); }
        let Some(t) = m.held.get(x).cloned() else { return Err(format!("evicted {} is not in the pool ({})", x, i)) };
        if t.k == Ut || m.of(t.k).last().unwrap().x != t.x { return Err(format!("{} evicted, which is not the cheapest {:?}", x, t.k)); }
        m.held.remove(x);
    }
    if m.total() > limit { return Err(format!("weight {} left over the limit {}", m.total(), limit)); }
    Ok(m)
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut p = TransactionsPool::new();
        let mut m = M::default();
        let (mut limit, mut minfee, mut mincoll, mut ratio) = (u64::MAX, 0u64, 0u64, u64::MAX);
        let (mut sfee, mut ufee) = (0u64, 0u64);
        let mut log = String::new();
        if c.flip() { minfee = c.below(20); p.set_minimum_vtt_fee(minfee); log += &format!(" minimum vtt fee {};", minfee); }
        if c.flip() { mincoll = 20 * c.below(4); p.set_collateral_minimum(mincoll / 20); ratio = 1 + c.below(6); p.set_required_reward_collateral_ratio(ratio); log += &format!(" minimum collateral {}, ratio {};", mincoll, ratio); }
        if c.chance(4) { sfee = c.below(9); ufee = c.below(9); p.minimum_st_fee = sfee; p.minimum_ut_fee = ufee; log += &format!(" minimum stake fee {}, unstake {};", sfee, ufee); }
        let mut all: Vec<T> = vec![];
        let outs: u32 = c.pick(&[2u32, 4, 12]);
        let mut known = DataRequestPool::default();
        for d in 0..4 { if !c.chance(4) { known.known.insert(Hash(d), DataRequestOutput { witness_reward: 1, witnesses: 1 + c.below(4) as u16, commit_and_reveal_fee: c.below(9), collateral: 0 }); } }
        let kinds: Vec<K> = match c.below(4) { 0 => vec![Vt, Dr, St, Ut, Co, Re], 1 => vec![Vt, Dr, St], 2 => vec![Co, Co, Re], _ => vec![Vt, Dr, St, Ut] };
        let one_kind = c.chance(4);
        let kinds = if one_kind { vec![c.pick(&kinds)] } else { kinds };
        'run: for _ in 0..1 + c.below(60) {
            let before = m.clone();
            let op = c.below(30);
            let mut step = String::new();
            let anyx = if all.is_empty() || c.chance(12) { 9999 } else { c.pick(&all.iter().map(|t| t.x).collect::<Vec<u32>>()) };
            let held: Vec<u32> = m.held.keys().copied().collect();
            let res: Result<Option<String>, String> = match op {
                0..=15 => {
                    let t = if !all.is_empty() && c.chance(8) { all[c.below(all.len() as u64) as usize].clone() } else {
                        let k = c.pick(&kinds);
                        let n = if c.chance(8) { 0 } else { 1 + c.below(3) };
                        let ins: Vec<u32> = if k == Ut || k == Re { vec![] } else { (0..n).map(|_| c.below(outs as u64) as u32).collect() };
                        let dr = c.below(5) as u32;
                        let t = T { k, x: (all.len() as u32 * 7919 + 13) % 10007 + 10_000, w: 1 + c.below(30) as u32, fee: c.below(60), ins, dr, by: c.below(6) as u8, out: DataRequestOutput { witness_reward: c.below(30), witnesses: 2, commit_and_reveal_fee: 1, collateral: c.below(80) * c.below(2) } };
                        all.push(t.clone()); t
                    };
                    step = format!(" insert {:?};", t);
                    let q = guard(|| p.insert(t.tx(), t.fee));
                    q.map(|out| {
                        let got: Vec<u32> = out.iter().map(|t| t.hash().0).collect();
                        let coll = if t.out.collateral == 0 { mincoll } else { t.out.collateral };
                        let refused = match t.k { Vt => t.fee < minfee, St => t.fee < sfee, Ut => t.fee < ufee,
                            Dr => (if t.out.witness_reward == 0 { u64::MAX } else { coll.div_ceil(t.out.witness_reward) }) > ratio, _ => false };
                        if m.held.contains_key(&t.x) { if !got.is_empty() { return Some(format!("{:?} handed back", got)); } }
                        else if refused { if got != vec![t.x] { return Some(format!("{:?} handed back of a transaction to refuse", got)); } }
                        else {
                            match t.k { Co => { m.co.insert((t.dr, t.by), t.x); } Re => { m.re.insert((t.dr, t.by), t.x); } _ => { m.held.insert(t.x, t.clone()); } }
                            match made_room(&m, &got, limit) { Ok(n) => m = n, Err(e) => return Some(e) }
                            for t in &out { if all.iter().find(|u| u.x == t.hash().0).map(|u| u.tx()).as_ref() != Some(t) { return Some("an evicted transaction changed".to_string()); } }
                        }
                        None
                    })
                }
                16 => {
                    limit = if c.flip() { c.below(m.total() + 2) } else { c.pick(&[0, 50, 200, u64::MAX]) };
                    step = format!(" limit {};", limit);
                    let f = c.pick(&[1.0f64, 4.0, 0.25, 0.0]);
                    guard(|| p.set_total_weight_limit(limit, f)).map(|out| { let got: Vec<u32> = out.iter().map(|t| t.hash().0).collect(); match made_room(&m, &got, limit) { Ok(n) => { m = n; None } Err(e) => Some(e) } })
                }
                17..=19 => {
                    let Some(t) = all.iter().find(|t| t.x == anyx).cloned() else { continue };
                    step = format!(" included {} ({:?});", t.x, t.k);
                    let was = m.held.remove(&t.x).is_some();
                    if t.k != Ut { m.drop_spenders(&t.ins); }
                    let q = guard(|| match t.tx() {
                        Transaction::ValueTransfer(t) => p.vt_remove(&t).map(Transaction::ValueTransfer), Transaction::DataRequest(t) => p.dr_remove(&t).map(Transaction::DataRequest),
                        Transaction::Stake(t) => p.st_remove(&t).map(Transaction::Stake), Transaction::Unstake(t) => p.ut_remove(&t).map(Transaction::Unstake),
                        Transaction::Commit(t) => { p.remove_inputs(&t.body.collateral); None } _ => None });
                    q.map(|r| if r != (if was { Some(t.tx()) } else { None }) { Some(format!("{:?} handed back", r)) } else { None })
                }
                20 => {
                    let mut v: Vec<u32> = (0..c.below(3)).map(|_| if held.is_empty() { anyx } else { c.pick(&held) }).collect(); v.push(anyx);
                    let k = c.pick(&[St, Ut]);
                    step = format!(" invalid {:?} {:?};", k, v);
                    m.held.retain(|x, t| t.k != k || !v.contains(x));
                    let hs: Vec<Hash> = v.iter().map(|x| Hash(*x)).collect();
                    guard(|| { if k == St { p.remove_invalid_stake_transactions(hs) } else { p.remove_invalid_unstake_transactions(hs) }; None })
                }
                21 => {
                    let which = c.below(5);
                    step = format!(" clear {};", ["commits", "reveals", "stakes", "unstakes", "all"][which as usize]);
                    match which { 0 => m.co.clear(), 1 => m.re.clear(), 2 => m.held.retain(|_, t| t.k != St), 3 => m.held.retain(|_, t| t.k != Ut), _ => m = M::default() }
                    guard(|| { match which { 0 => p.clear_commits(), 1 => p.clear_reveals(), 2 => p.clear_stake_transactions(), 3 => p.clear_unstake_transactions(), _ => p.clear() }; None })
                }
                22 => {
                    let cut = c.below(40) as u32;
                    step = format!(" keep value transfers of weight from {} on;", cut);
                    m.held.retain(|_, t| t.k != Vt || t.w >= cut);
                    guard(|| { p.vt_retain(|t| t.body.w >= cut); None })
                }
                23 => {
                    if c.chance(3) { step = " next superepoch;".to_string(); m.prev = std::mem::take(&mut m.un); guard(|| { p.update_unconfirmed_transactions(); None }) }
                    else { step = format!(" unconfirmed {};", anyx); m.un.push(anyx); guard(|| { p.insert_unconfirmed_transactions(Hash(anyx)); None }) }
                }
                24 => {
                    if c.chance(2) { continue; }
                    step = " take the unconfirmed;".to_string();
                    let gone: BTreeSet<u32> = m.un.drain(..).chain(m.prev.drain(..)).collect();
                    let exp: BTreeSet<u32> = m.held.keys().copied().filter(|x| gone.contains(x)).collect();
                    m.held.retain(|x, _| !gone.contains(x));
                    m.co.clear(); m.re.clear();
                    guard(|| p.remove_unconfirmed_transactions()).map(|v| if v.len() != exp.len() || v.iter().map(|t| t.hash().0).collect::<BTreeSet<u32>>() != exp || v.iter().any(|t| all.iter().find(|u| u.x == t.hash().0).map(|u| u.tx()).as_ref() != Some(t)) { Some(format!("{:?} handed back, expected {:?}", v, exp)) } else { None })
                }
                25 | 26 => {
                    if c.flip() { continue; }
                    step = format!(" commits for {:?};", known.known);
                    let cs: Vec<T> = m.co.values().map(|x| all.iter().find(|t| t.x == *x).unwrap().clone()).collect();
                    m.co.clear();
                    guard(|| p.remove_commits(&known)).map(|(v, fee, ds)| {
                        let ds: Vec<u32> = ds.iter().map(|h| h.0).collect();
                        if ds.iter().collect::<BTreeSet<_>>().len() != ds.len() { return Some(format!("requests {:?}", ds)); }
                        let mut used: BTreeSet<u32> = BTreeSet::new();
                        let mut per: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
                        for t in &v {
                            let Some(u) = cs.iter().find(|u| u.x == t.body.x && u.tx() == Transaction::Commit(t.clone())) else { return Some(format!("{:?} is no commit of the pool", t)) };
                            for i in &u.ins { if !used.insert(*i) { return Some(format!("output {} is the collateral of two commits, or twice of one: {:?}", i, v.iter().map(|t| t.body.x).collect::<Vec<u32>>())); } }
                            per.entry(u.dr).or_default().insert(u.x);
                        }
                        let exp: u64 = ds.iter().map(|d| { let o = &known.known[&Hash(*d)]; o.commit_and_reveal_fee * o.witnesses as u64 }).sum();
                        if fee != exp { return Some(format!("fees of {} for the commits of {:?}, expected {}", fee, ds, exp)); }
                        if per.values().map(|s| s.len()).sum::<usize>() != v.len() || per.keys().copied().collect::<BTreeSet<u32>>() != ds.iter().copied().collect() { return Some(format!("commits for {:?}, listed for {:?}", per, ds)); }
                        for d in &ds { if per[d].len() != known.known[&Hash(*d)].witnesses as usize { return Some(format!("{} commits for request {} of {:?}", per[d].len(), d, known.known[&Hash(*d)])); } }
                        // a request that had enough commits on its own is not left out
                        for (d, o) in known.known.iter().filter(|(d, _)| !ds.contains(&d.0)) {
                            let mine: Vec<&T> = cs.iter().filter(|t| t.dr == d.0).collect();
                            let free = mine.iter().filter(|t| t.ins.iter().collect::<BTreeSet<_>>().len() == t.ins.len() && !t.ins.iter().any(|i| used.contains(i) || mine.iter().any(|u| u.x != t.x && u.ins.contains(i)))).count();
                            if free >= o.witnesses as usize { return Some(format!("request {} of {} witnesses is left out with {} good commits", d, o.witnesses, free)); }
                        }
                        None
                    })
                }
                27 => {
                    step = format!(" reveals for {:?};", known.known);
                    let exp: BTreeSet<u32> = m.re.iter().filter(|(k, _)| known.known.contains_key(&Hash(k.0))).map(|(_, x)| *x).collect();
                    let fees: u64 = m.re.keys().filter_map(|k| known.known.get(&Hash(k.0))).map(|o| o.commit_and_reveal_fee).sum();
                    guard(|| { let (v, fee) = p.get_reveals(&known); (v.iter().map(|t| t.body.x).collect::<Vec<u32>>(), fee) }).map(|(v, fee)| if v.len() != exp.len() || v.iter().copied().collect::<BTreeSet<u32>>() != exp || fee != fees { Some(format!("reveals {:?} with fees of {}, expected {:?} with {}", v, fee, exp, fees)) } else { None })
                }
                28 => {
                    let Some((&(d, by), &x)) = m.re.iter().nth(c.below(m.re.len().max(1) as u64) as usize) else { continue };
                    let x = if c.chance(6) { 9998 } else { x };
                    step = format!(" remove reveal {} of {} for {};", x, by, d);
                    let was = x != 9998;
                    if was { m.re.remove(&(d, by)); }
                    guard(|| p.remove_one_reveal(&Hash(d), &PublicKeyHash(by), &Hash(x))).map(|r| if r.map(|t| t.body.x) != (if was { Some(x) } else { None }) { Some("wrong reveal handed back".to_string()) } else { None })
                }
                _ => {
                    let d = c.below(5) as u32;
                    step = format!(" request {} is finished;", d);
                    m.re.retain(|k, _| k.0 != d);
                    guard(|| { p.clear_reveals_from_finished_dr(&Hash(d)); None })
                }
            };
            log += &step;
            c.case(&(op, before.held.len(), before.co.len(), before.re.len(), m.held.len(), limit != u64::MAX));
            let bad = match res { Err(e) => Some(format!("panics: {}", e)), Ok(Some(e)) => Some(e), Ok(None) => match guard(|| check(&p, &m, &all)) { Ok(x) => x, Err(e) => Some(format!("looking at the pool panics: {}", e)) } };
            if let Some(e) = bad { c.fail(format!("after{} {}", log, e)); break 'run; }
            c.sample(|| format!("{} -> {:?}", log, m.held.keys()));
        }
    }
    c.done()
}
