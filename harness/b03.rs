use ProtocolVersion::*;
#[derive(Clone, Debug)]
struct Cand { hash: [u8; 32], rep: u32, vrf: [u8; 32], active: bool, power: u64 }
fn bytes(c: &mut Ctx) -> [u8; 32] {
    let mut b = match c.below(3) { 0 => [0u8; 32], 1 => [255u8; 32], _ => [7u8; 32] };
    for _ in 0..c.below(3) { let i = c.pick(&[0usize, 0, 1, 15, 30, 31]); b[i] = c.pick(&[0u8, 1, 127, 128, 255]); }
    b
}
fn cmp(a: &Cand, b: &Cand, s: &VrfSlots, v: ProtocolVersion) -> Ordering {
    compare_block_candidates(Hash::SHA256(a.hash), Reputation(a.rep), Hash::SHA256(a.vrf), a.active, a.power, Hash::SHA256(b.hash), Reputation(b.rep), Hash::SHA256(b.vrf), b.active, b.power, s, v)
}
fn want(a: &Cand, b: &Cand, targets: &[[u8; 32]], v: ProtocolVersion) -> Ordering {
    let slot = |c: &Cand| { let mut i = 0; while i < targets.len() && c.vrf > targets[i] { i += 1; } i };
    let ties = b.vrf.cmp(&a.vrf).then(b.hash.cmp(&a.hash));
    match v {
        V2_0 | V2_1 => a.power.cmp(&b.power).then(ties),
        V1_7 | V1_8 => slot(b).cmp(&slot(a)).then((a.rep > 0).cmp(&(b.rep > 0))).then(a.active.cmp(&b.active)).then(ties),
    }
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut targets: Vec<[u8; 32]> = (0..c.below(7)).map(|_| bytes(&mut c)).collect();
        if !c.chance(4) { targets.sort(); }
        let s = VrfSlots::new(targets.iter().map(|t| Hash::SHA256(*t)).collect());
        let mut base = Cand { hash: bytes(&mut c), rep: c.pick(&[0, 1, u32::MAX]), vrf: bytes(&mut c), active: c.flip(), power: c.pick(&[0, 1, 2, u64::MAX, 1 << 63]) };
        if !targets.is_empty() && c.chance(3) { base.vrf = c.pick(&targets); }
        let mut cs = vec![base.clone()];
        for _ in 0..2 {
            let mut x = base.clone();
            for _ in 0..c.below(4) {
                match c.below(5) { 0 => x.hash = bytes(&mut c), 1 => x.rep = c.pick(&[0, 1, 2, u32::MAX, 1 << 31]), 2 => x.vrf = bytes(&mut c), 3 => x.active = c.flip(), _ => x.power = c.pick(&[0, 1, 2, u64::MAX, 1 << 63, 1 << 32]) }
            }
            cs.push(x);
        }
        for v in [V1_7, V1_8, V2_0, V2_1] {
            for a in &cs { for b in &cs {
                c.case(&(a.hash, a.rep, a.vrf, a.active, a.power, b.hash, b.rep, b.vrf, b.active, b.power, &targets, v as u8));
                match guard(|| cmp(a, b, &s, v)) {
                    Ok(r) if r == want(a, b, &targets, v) => {}
                    Ok(r) => c.fail(format!("in {:?} the first of these candidates compares {:?} to the second, expected {:?}: {:?} and {:?} with slots {:?}", v, r, want(a, b, &targets, v), a, b, targets)),
                    Err(e) => c.fail(format!("panic ({}) comparing {:?} and {:?} with {} slots in {:?}", e, a, b, targets.len(), v)),
                }
            } }
        }
        c.sample(|| format!("{:?} with {} slots", cs, targets.len()));
    }
    c.done()
}
