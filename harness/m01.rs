use witnet_crypto::hash::{calculate_sha256, Sha256, EMPTY_SHA256};
use witnet_crypto::merkle::*;

fn sh(a: Sha256, b: Sha256) -> Sha256 { let mut v = a.0.to_vec(); v.extend_from_slice(&b.0); calculate_sha256(&v) }
fn mix(a: u64, b: u64) -> u64 { (a.rotate_left(17) ^ 0x9E37).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b.rotate_left(41) ^ (b >> 3)).wrapping_mul(0xD1B54A32D192ED03) }
fn up<T: Copy>(s: &[T], h: fn(T, T) -> T) -> Vec<T> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() { if i + 1 < s.len() { o.push(h(s[i], s[i + 1])); } else { o.push(s[i]); } i += 2; }
    o
}
fn layers<T: Copy>(s: &[T], h: fn(T, T) -> T) -> Vec<Vec<T>> {
    if s.is_empty() { return vec![]; }
    let mut l = vec![s.to_vec()];
    while l.last().unwrap().len() > 1 { let n = up(l.last().unwrap(), h); l.push(n); }
    l
}
// expected proof: siblings and sides, bottom up
fn path<T: Copy>(l: &[Vec<T>], mut i: usize) -> (Vec<T>, Vec<bool>) {
    let (mut v, mut b) = (vec![], vec![]);
    for s in l {
        if i % 2 == 1 { v.push(s[i - 1]); b.push(true); } else if i + 1 < s.len() { v.push(s[i + 1]); b.push(false); }
        i /= 2;
    }
    (v, b)
}
fn fold<T: Copy>(e: T, index: usize, lemma: &[T], h: fn(T, T) -> T) -> T {
    let mut x = e;
    for (k, s) in lemma.iter().enumerate() {
        let left = k < 64 && (index >> k) & 1 == 1;
        x = if left { h(*s, x) } else { h(x, *s) };
    }
    x
}
fn check<T: Copy + PartialEq + std::fmt::Debug + 'static>(c: &mut Ctx, leaves: &[T], h: fn(T, T) -> T, empty: &'static T, other: T, bad: usize) {
    let n = leaves.len();
    let l = layers(leaves, h);
    let root = l.last().map(|x| x[0]).unwrap_or(*empty);
    let t = FullMerkleTree::new(leaves.to_vec(), h, empty);
    let got = t.root();
    if got != root { return c.fail(format!("{} leaves: full tree root {:?}, pairwise tree {:?}", n, got, root)); }
    let idx: Vec<usize> = if n <= 70 { (0..n).collect() } else { (0..24).map(|_| c.below(n as u64) as usize).chain([0, n - 1, n - 2, n / 2]).collect() };
    for i in idx {
        let p = match t.inclusion_proof(i) { Some(p) => p, None => return c.fail(format!("{} leaves: no proof for index {}", n, i)) };
        let (v, b) = path(&l, i);
        let want: usize = b.iter().enumerate().map(|(k, x)| (*x as usize) << k).sum();
        if p.lemma() != &v[..] || p.proof_index() != want { return c.fail(format!("{} leaves, index {}: proof index {} lemma of {}, expected {} and {}", n, i, p.proof_index(), p.lemma().len(), want, v.len())); }
        if p.root(leaves[i]) != root || !p.verify(leaves[i], root) { return c.fail(format!("{} leaves: the proof of index {} does not verify", n, i)); }
        if p.verify(leaves[i], other) != (root == other) || p.verify(other, root) != (fold(other, p.proof_index(), p.lemma(), h) == root) {
            return c.fail(format!("{} leaves: the proof of index {} accepts another leaf or root", n, i));
        }
        // a proof with changed index bits
        let j = p.proof_index() ^ (1usize << c.below(64));
        let q = InclusionProof::new(j, v.clone(), h);
        if q.verify(leaves[i], root) != (fold(leaves[i], j, &v, h) == root) { return c.fail(format!("{} leaves: proof of index {} with proof index {} instead of {}", n, i, j, want)); }
    }
    for i in [n, n + 1, bad, usize::MAX] { if i >= n && t.inclusion_proof(i).is_some() { return c.fail(format!("{} leaves: a proof for index {}", n, i)); } }
}
fn main() {
    let mut c = Ctx::new();
    static E: u64 = 0xABCD;
    let mut n = 0u64;
    c.phase(0.7);
    let mut sizes: Vec<u64> = (0..=70).collect();
    for k in 7..12 { for d in [0i64, 1, -1, 2, 3] { sizes.push(((1i64 << k) + d) as u64); } }
    let mut queue = sizes.clone();
    queue.reverse();
    while c.more() {
        let m = queue.pop().unwrap_or_else(|| if c.chance(3) { c.below(2100) } else { c.below(140) }) as usize;
        let leaves: Vec<u64> = (0..m).map(|i| if c.chance(12) && i > 0 { 7 } else { c.next() }).collect();
        c.case((m, n));
        n += 1;
        c.sample(|| format!("{} leaves", m));
        let bad = c.u64() as usize;
        let other = c.next();
        if let Err(e) = guard(|| check(&mut c, &leaves, mix, &E, other, bad)) { c.fail(format!("{} leaves: {}", m, e)); }
        // the public sha256 forms
        let s: Vec<Sha256> = leaves.iter().map(|x| { let mut b = [0u8; 32]; b[..8].copy_from_slice(&x.to_be_bytes()); b[31] = 1; Sha256(b) }).collect();
        if m <= 140 {
            let l = layers(&s, sh);
            let root = l.last().map(|x| x[0]).unwrap_or(EMPTY_SHA256);
            let r = guard(|| {
                let a = merkle_tree_root(&s);
                if a != root { return Err(format!("merkle_tree_root {:?}", a)); }
                let mut p = ProgressiveMerkleTree::sha256();
                if p.root() != EMPTY_SHA256 { return Err("the empty incremental root".into()); }
                for (i, x) in s.iter().enumerate() {
                    p.push(*x);
                    if i + 1 == m || (m < 40) {
                        let w = layers(&s[..i + 1], sh).last().unwrap()[0];
                        if p.root() != w { return Err(format!("incremental root after {} leaves", i + 1)); }
                    }
                }
                let t = FullMerkleTree::sha256(s.clone());
                if t.root() != root { return Err("FullMerkleTree::sha256 root".into()); }
                if t.nodes() != &l[..] { return Err("FullMerkleTree nodes".into()); }
                if m > 0 {
                    let i = m - 1;
                    let p = t.inclusion_proof(i).ok_or("no proof of the last leaf")?;
                    let q = InclusionProof::sha256(p.proof_index(), p.lemma().to_vec());
                    if !q.verify(s[i], root) { return Err("rebuilt proof of the last leaf".into()); }
                }
                Ok(())
            });
            match r { Ok(Ok(())) => {} Ok(Err(e)) => c.fail(format!("{} leaves: {}", m, e)), Err(e) => c.fail(format!("{} leaves: panic {}", m, e)) }
        } else {
            let root = layers(&s, sh).last().unwrap()[0];
            match guard(|| merkle_tree_root(&s)) { Ok(r) if r == root => {} r => c.fail(format!("{} leaves: merkle_tree_root {:?}", m, r)) }
        }
    }
    c.phase(1.0);
    // proofs from anywhere
    while c.more() {
        let k = if c.chance(4) { 60 + c.below(12) } else { c.below(20) } as usize;
        let index = if c.flip() { c.next() as usize } else { c.u64() as usize };
        let v: Vec<u64> = (0..k).map(|_| c.next()).collect();
        let e = c.next();
        c.case((index, k, e));
        let want = fold(e, index, &v, mix);
        let w2 = v.clone();
        match guard(|| { let p = InclusionProof::new(index, w2, mix as fn(u64, u64) -> u64); (p.root(e), p.verify(e, want), p.verify(e, want ^ 1), p.proof_index()) }) {
            Ok((r, t, f, i)) if r == want && t && !f && i == index => {}
            r => c.fail(format!("proof with index {} and {} siblings for leaf {}: {:?}, folding gives {}", index, k, e, r, want)),
        }
    }
    c.done();
}
