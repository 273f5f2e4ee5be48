fn calculate_superblock_signing_committee(a: ARSIdentities, _n: u32, _i: u32, _h: Hash, _e: Epoch) -> HashSet<PublicKeyHash> { a.identities }
fn get_environment() -> Environment { Environment::Development }
fn p(x: u8) -> PublicKeyHash { PublicKeyHash { x: x as u16 } }
fn h(x: u8) -> Hash { Hash::SHA256([x; 32]) }
type V = (u8, u8, u32, u8); // who, hash, index, signature
fn vote(v: V) -> SuperBlockVote { SuperBlockVote { bn256_signature: Bn256Signature { signature: vec![v.3] }, secp256k1_signature: KeyedSignature { signature: Signature { x: v.3 }, public_key: PublicKey { x: v.0 as u16 } }, superblock_hash: h(v.1), superblock_index: v.2 } }
#[derive(Clone, Debug)]
enum Op { Vote(V, u32), Close { index: u32, ours: u8, ars: Vec<u8> } }
#[derive(Clone, Default)]
struct Model { seen: BTreeSet<V>, known: BTreeSet<V>, counted: BTreeMap<u8, (u8, u32)>, out: BTreeSet<u8>, committee: BTreeSet<u8>, prev: BTreeSet<u8>, cur: BTreeSet<u8>, ours: u8 }
impl Model {
    fn take(&mut self, v: V) -> AddSuperBlockVote {
        let dbl = self.out.contains(&v.0) || self.counted.get(&v.0).map_or(false, |c| c.1 == v.2 && c.0 != v.1);
        if dbl { self.out.insert(v.0); self.counted.remove(&v.0); return AddSuperBlockVote::DoubleVote; }
        self.counted.entry(v.0).or_insert((v.1, v.2));
        if v.1 == self.ours { AddSuperBlockVote::ValidWithSameHash } else { AddSuperBlockVote::ValidButDifferentHash }
    }
    fn add(&mut self, v: V, cur: u32) -> AddSuperBlockVote {
        if !self.seen.insert(v) { return AddSuperBlockVote::AlreadySeen; }
        self.known.insert(v);
        if v.2 == cur { if self.committee.contains(&v.0) { self.take(v) } else { AddSuperBlockVote::NotInSigningCommittee } }
        else if v.2 == cur + 1 { AddSuperBlockVote::MaybeValid }
        else if self.prev.is_empty() { AddSuperBlockVote::NotInSigningCommittee } else { AddSuperBlockVote::InvalidIndex }
    }
    fn close(&mut self, index: u32, ours: u8, ars: &[u8]) {
        self.prev = std::mem::take(&mut self.cur);
        self.cur = ars.iter().copied().collect();
        self.committee = self.prev.clone();
        self.ours = ours;
        self.counted.clear(); self.out.clear();
        for v in std::mem::take(&mut self.seen) { if v.2 == index && self.committee.contains(&v.0) { self.take(v); } }
    }
}
fn check(s: &SuperBlockState, m: &Model) -> std::result::Result<(), String> {
    let mut per: BTreeMap<u8, usize> = BTreeMap::new();
    for (_, (x, _)) in &m.counted { *per.entry(*x).or_insert(0) += 1; }
    for x in 0..6u8 {
        let n = s.votes_counter_from_superblock(&h(x));
        let e = per.get(&x).copied().unwrap_or(0);
        if n != e { return Err(format!("{} votes reported for superblock {}, {} members voted for it", n, x, e)); }
    }
    if s.valid_votes_counter() != m.counted.len() { return Err(format!("{} valid votes reported, {} members counted", s.valid_votes_counter(), m.counted.len())); }
    let cv = s.get_current_superblock_votes();
    let mut who = BTreeSet::new();
    for v in &cv {
        let q = v.secp256k1_signature.public_key.x as u8;
        if !who.insert(q) { return Err(format!("two votes of member {} are counted", q)); }
        if m.counted.get(&q).map(|c| h(c.0)) != Some(v.superblock_hash) { return Err(format!("a vote of {} is counted that should not be", q)); }
        if !m.known.iter().any(|k| vote(*k) == *v) { return Err("a vote nobody sent is counted".to_string()); }
    }
    if who.len() != m.counted.len() { return Err("some counted member has no vote listed".to_string()); }
    let n = m.committee.len();
    let need = n * 2 / 3;
    let best = per.values().copied().max().unwrap_or(0);
    let best_of: Vec<u8> = per.iter().filter(|e| *e.1 == best).map(|e| *e.0).collect();
    match s.most_voted_superblock() {
        None => if best > 0 { return Err("no most voted superblock although there are votes".to_string()); },
        Some((x, k)) => if k != best || !best_of.iter().any(|b| h(*b) == x) { return Err(format!("most voted superblock reported with {} votes, the most votes are {}", k, best)); }
    }
    let missing = n - m.counted.len() - m.out.len();
    let ok = match s.has_consensus() {
        SuperBlockConsensus::SameAsLocal => n == 0 || (best > 0 && best >= need && best_of.contains(&m.ours)),
        SuperBlockConsensus::Different(x) => n > 0 && best > 0 && best >= need && best_of.iter().any(|b| *b != m.ours && h(*b) == x),
        SuperBlockConsensus::NoConsensus => n > 0 && best > 0 && best < need && best + missing < need,
        SuperBlockConsensus::Unknown => n > 0 && (best == 0 || (best < need && best + missing >= need)),
    };
    if !ok { return Err(format!("consensus reported {:?} with {} of {} members for the most voted superblock, {} missing", s.has_consensus(), best, n, missing)); }
    Ok(())
}
fn run(ops: &[Op]) -> Option<String> {
    let boot = vec![];
    let mut s = SuperBlockState::new(h(0), boot);
    let mut m = Model::default();
    for (i, op) in ops.iter().enumerate() {
        let r = guard(|| -> std::result::Result<(), String> {
            match op {
                Op::Vote(v, cur) => {
                    let sv = vote(*v);
                    if s.contains(&sv) != m.seen.contains(v) { return Err("contains is wrong about a vote".to_string()); }
                    let got = s.add_vote(&sv, *cur);
                    let exp = m.add(*v, *cur);
                    if got != exp { return Err(format!("answered {:?}, expected {:?}", got, exp)); }
                }
                Op::Close { index, ours, ars } => {
                    s.build_superblock(&[], ARSIdentities::new(ars.iter().map(|x| p(*x)).collect()), 100, *index, h(*ours), &AltKeys {}, None, index * 10);
                    m.close(*index, *ours, ars);
                    let b = s.get_beacon();
                    if b.checkpoint != *index || b.hash_prev_block != h(*ours) { return Err("wrong beacon after closing a period".to_string()); }
                    if s.get_committee_length() as usize != m.committee.len() { return Err("wrong committee size".to_string()); }
                }
            }
            check(&s, &m)
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Some(format!("{} after step {} of {:?}", e, i, ops)),
            Err(e) => return Some(format!("panic ({}) at step {} of {:?}", e, i, ops)),
        }
    }
    None
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let n = c.range(1, 7) as u8;
        let mut ops = vec![];
        let ars = |c: &mut Ctx| -> Vec<u8> { (1..=n + 1).filter(|_| !c.chance(4)).collect() };
        let mut idx = c.range(1, 5) as u32;
        let a = ars(&mut c); ops.push(Op::Close { index: idx, ours: 1, ars: a });
        let a = ars(&mut c); idx += 1; ops.push(Op::Close { index: idx, ours: 1, ars: a });
        let nh = c.range(2, 5);
        let mut sent: Vec<V> = vec![];
        for _ in 0..c.range(1, 25) {
            if c.chance(10) { if !c.chance(6) { idx += 1; } let a = ars(&mut c); ops.push(Op::Close { index: idx, ours: c.range(0, nh) as u8, ars: a }); continue; }
            let cur = if c.chance(8) { idx + 1 } else { idx };
            let v = if !sent.is_empty() && c.chance(3) { let mut v = c.pick(&sent); match c.below(4) { 0 => {} 1 => v.3 = c.below(3) as u8, 2 => v.1 = c.range(1, nh) as u8, _ => v.2 = idx } v }
                else { (c.range(1, n as u64 + 1) as u8, if c.chance(2) { 1 } else { c.range(1, nh) as u8 }, match c.below(8) { 0 => idx + 1, 1 => idx.saturating_sub(1), 2 => idx + 2, _ => idx }, c.below(2) as u8) };
            sent.push(v);
            ops.push(Op::Vote(v, cur));
        }
        c.case(format!("{:?}", ops));
        if let Some(e) = run(&ops) {
            let mut best = ops.clone();
            let mut msg = e;
            'o: loop {
                for i in 0..best.len() { let mut t = best.clone(); t.remove(i); if let Some(e) = run(&t) { best = t; msg = e; continue 'o; } }
                break;
            }
            c.fail(msg);
        }
        c.sample(|| format!("{:?}", ops));
    }
    c.done()
}
