use std::cell::Cell;
thread_local! { static ENV: Cell<Environment> = Cell::new(Environment::Development); }
fn get_environment() -> Environment { ENV.with(|e| e.get()) }
fn after_second_hard_fork(epoch: Epoch, e: Environment) -> bool { match e { Environment::Mainnet => epoch >= 376320, _ => true } }
#[derive(Clone, Copy)] pub struct Sha256(pub [u8; 32]);
impl AsRef<[u8]> for Sha256 { fn as_ref(&self) -> &[u8] { &self.0 } }
fn calculate_sha256(b: &[u8]) -> Sha256 {
    use std::hash::Hasher;
    let mut r = [0u8; 32];
    for i in 0..4u8 { let mut x = std::collections::hash_map::DefaultHasher::new(); x.write(b); x.write_u8(i); r[8 * i as usize..8 * i as usize + 8].copy_from_slice(&x.finish().to_be_bytes()); }
    Sha256(r)
}
impl From<Sha256> for Hash { fn from(x: Sha256) -> Hash { Hash::SHA256(x.0) } }
impl Hash {
    pub fn div_mod(&self, n: u64) -> (Hash, u64) {
        let mut r: u128 = 0; let mut d = [0u8; 32];
        for (i, b) in self.as_ref().iter().enumerate() { r = r * 256 + *b as u128; d[i] = (r / n as u128) as u8; r %= n as u128; }
        (Hash::SHA256(d), r as u64)
    }
}
fn ids(n: u16, base: u16) -> Vec<PublicKeyHash> { (0..n).map(|i| PublicKeyHash { x: base + i }).collect() }
fn judge(c: &HashSet<PublicKeyHash>, from: &[PublicKeyHash], size: u32) -> Option<String> {
    let exp = from.len().min(size as usize);
    if c.len() != exp { return Some(format!("{} members, expected {}", c.len(), exp)); }
    if !c.iter().all(|x| from.contains(x)) { return Some("a member that is not eligible".to_string()); }
    None
}
fn main() {
    let mut c = Ctx::new();
    c.phase(0.6);
    while c.more() {
        let n = match c.below(4) { 0 => c.range(1, 8), 1 => c.range(1, 40), 2 => c.range(100, 104), _ => c.range(1, 300) } as u16;
        let size = match c.below(6) { 0 => n as u64, 1 => n as u64 + 1, 2 => (n as u64 / c.range(1, 5)).max(1), 3 => (n as u64).saturating_sub(c.below(3)).max(1), 4 => c.range(1, 8), _ => c.range(1, n as u64 + 5) } as u32;
        let v = ids(n, c.below(50) as u16);
        let mut hb = [0u8; 32]; for b in hb.iter_mut() { *b = if c.chance(5) { 255 } else { c.next() as u8 }; }
        let (index, env, epoch) = (c.u32(), if c.flip() { Environment::Mainnet } else { Environment::Development }, if c.flip() { c.range(376318, 376322) as u32 } else { c.u32() });
        let msg = format!("{} identities, size {}, hash starting {:?}, index {}, epoch {}, {}", n, size, &hb[..4], index, epoch, if env == Environment::Mainnet { "mainnet" } else { "development" });
        c.case(&msg);
        ENV.with(|e| e.set(env));
        match guard(|| { let a = calculate_superblock_signing_committee(ARSIdentities::new(v.clone()), size, index, Hash::SHA256(hb), epoch);
                         let b = calculate_superblock_signing_committee(ARSIdentities::new(v.clone()), size, index, Hash::SHA256(hb), epoch); (a, b) }) {
            Err(e) => c.fail(format!("panic ({}) choosing a committee: {}", e, msg)),
            Ok((a, b)) => { if let Some(e) = judge(&a, &v, size) { c.fail(format!("{}: {}", e, msg)); } else if a != b { c.fail(format!("two different committees for the same input: {}", msg)); } }
        }
        c.sample(|| msg);
    }
    // the committee in charge, read back through the votes it accepts
    c.phase(1.0);
    while c.more() {
        ENV.with(|e| e.set(Environment::Development));
        let size = c.range(1, 12) as u32;
        let mut s = SuperBlockState::new(Hash::SHA256([0; 32]), vec![]);
        let mut lists: Vec<Vec<PublicKeyHash>> = vec![vec![]];
        let k = c.range(2, 5);
        for i in 1..=k {
            let v = ids(c.range(1, 20) as u16, c.below(30) as u16);
            let sync = if c.chance(4) { Some(SuperBlock { signing_committee_length: c.range(1, 12) as u32, hash: Hash::SHA256([9; 32]) }) } else { None };
            let want = sync.as_ref().map_or(size, |b| b.signing_committee_length);
            let prev = lists.last().unwrap().clone();
            lists.push(v.clone());
            let msg = format!("period {} of {:?}, size {}", i, lists.iter().map(|l| (l.first().map(|x| x.x), l.len())).collect::<Vec<_>>(), want);
            c.case(&msg);
            let r = guard(|| {
                s.build_superblock(&[], ARSIdentities::new(v.clone()), size, i as u32, Hash::SHA256([i as u8; 32]), &AltKeys {}, sync, 10 * i as u32);
                let mut t = s.clone();
                let mut members = HashSet::new();
                for x in 0..60u16 {
                    let sv = SuperBlockVote { bn256_signature: Bn256Signature::default(), secp256k1_signature: KeyedSignature { signature: Signature::default(), public_key: PublicKey { x } }, superblock_hash: Hash::SHA256([1; 32]), superblock_index: i as u32 };
                    if matches!(t.add_vote(&sv, i as u32), AddSuperBlockVote::ValidWithSameHash | AddSuperBlockVote::ValidButDifferentHash) { members.insert(PublicKeyHash { x }); }
                }
                (members, t.get_committee_length())
            });
            match r {
                Err(e) => { c.fail(format!("panic ({}): {}", e, msg)); break; }
                Ok((m, n)) => {
                    if n as usize != m.len() { c.fail(format!("committee length {} but {} members may vote: {}", n, m.len(), msg)); break; }
                    if let Some(e) = judge(&m, &prev, want) { c.fail(format!("{} (eligible: identities of the period before): {}", e, msg)); break; }
                }
            }
        }
    }
    c.done()
}
