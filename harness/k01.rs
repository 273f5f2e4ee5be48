use bech32::{FromBase32, ToBase32};
use witnet_crypto::key::{ExtendedSK, KeyPath, SK};
use witnet_protected::Protected;

fn valid_secret(b: &[u8]) -> bool {
    const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
    b.len() == 32 && b.iter().any(|x| *x != 0) && b < &N[..]
}
/// what a payload means: path, chain code, secret
fn meaning(b: &[u8]) -> Option<(Vec<u32>, Vec<u8>, Vec<u8>)> {
    let d = *b.first()? as usize;
    if b.len() != 66 + 4 * d { return None; }
    let p = (0..d).map(|i| u32::from_be_bytes([b[1 + 4 * i], b[2 + 4 * i], b[3 + 4 * i], b[4 + 4 * i]])).collect();
    let r = &b[1 + 4 * d..];
    if r[32] != 0 || !valid_secret(&r[33..65]) { return None; }
    Some((p, r[..32].to_vec(), r[33..65].to_vec()))
}
fn import(s: &str) -> Option<(Vec<u32>, Vec<u8>, Vec<u8>)> {
    let (hrp, d) = bech32::decode(s).ok()?;
    if hrp != "xprv" { return None; }
    meaning(&Vec::<u8>::from_base32(&d).ok()?)
}
fn words(p: &KeyPath) -> Vec<u32> { p.iter().map(|i| *i.as_ref()).collect() }
fn secret(c: &mut Ctx) -> Vec<u8> {
    loop {
        let mut b = c.bytes(32);
        if c.chance(8) { for i in 0..31 { b[i] = 0; } }
        if c.chance(8) { for i in 0..15 { b[i] = 0xff; } }
        if valid_secret(&b) { return b; }
    }
}
fn path(c: &mut Ctx, n: usize) -> Vec<u32> { (0..n).map(|_| match c.below(5) { 0 => 0, 1 => 0x8000_0000 + c.below(3) as u32, 2 => u32::MAX - c.below(2) as u32, _ => c.next() as u32 }).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
/// import a text and compare with what it means
fn probe(c: &mut Ctx, s: &str, what: &str) {
    let want = import(s);
    match guard(|| ExtendedSK::from_slip32(s).map(|(k, p)| (words(&p), k.chain_code().as_ref().to_vec(), k.secret().as_ref().to_vec()))) {
        Ok(Ok(g)) => if Some(&g) != want.as_ref() { c.fail(format!("{}: importing {:?} gives path {:?} chain {} secret {}, expected {:?}", what, s, g.0, hex(&g.1), hex(&g.2), want)); },
        Ok(Err(e)) => if want.is_some() { c.fail(format!("{}: importing {:?} is rejected ({})", what, s, e)); },
        Err(e) => c.fail(format!("{}: importing {:?} panics: {}", what, s, e)),
    }
}
fn main() {
    let mut c = Ctx::new();
    let mut n = 0usize;
    while c.more() {
        let depth = if n <= 262 { n } else if c.chance(3) { c.below(300) as usize } else { c.below(12) as usize };
        n += 1;
        let (p, cc, sk) = (path(&mut c, depth), c.bytes(32), secret(&mut c));
        c.case((depth, sk.clone()));
        c.sample(|| format!("path of {} steps, secret {}", depth, hex(&sk)));
        let key = ExtendedSK::new(SK::from_slice(&sk).unwrap(), Protected::from(cc.clone()));
        let kp = KeyPath::from(p.clone());
        let text = match guard(|| key.to_slip32(&kp)) {
            Err(e) => { c.fail(format!("exporting with a path of {} steps panics: {}", depth, e)); continue; }
            Ok(Err(e)) => { if depth <= 255 { c.fail(format!("exporting with a path of {} steps is rejected: {}", depth, e)); } continue; }
            Ok(Ok(t)) => t,
        };
        if depth > 255 { c.fail(format!("exporting with a path of {} steps is accepted", depth)); continue; }
        match guard(|| ExtendedSK::from_slip32(&text)) {
            Ok(Ok((k, q))) if k == key && q == kp && words(&q) == p => {}
            r => { c.fail(format!("round trip of secret {} chain code {} path {:?} through {}: {:?}", hex(&sk), hex(&cc), p, text, r.map(|x| x.map(|y| words(&y.1))))); continue; }
        }
        let mut payload = vec![depth as u8];
        for w in &p { payload.extend_from_slice(&w.to_be_bytes()); }
        payload.extend_from_slice(&cc);
        payload.push(0);
        payload.extend_from_slice(&sk);
        if text != bech32::encode("xprv", payload.to_base32()).unwrap() { c.fail(format!("export of secret {} path {:?} has another layout: {}", hex(&sk), p, text)); continue; }
        // malformed texts
        for _ in 0..6 {
            let mut b = payload.clone();
            let mut hrp = "xprv".to_string();
            let at = 1 + 4 * depth + 32;
            let what = match c.below(10) {
                0 => { b[at] = if c.flip() { 1 } else { (c.next() as u8).max(1) }; "non-zero secret prefix" }
                1 => { let k = c.below(b.len() as u64 + 1) as usize; b.truncate(k); "truncated payload" }
                2 => { let k = 1 + c.below(9) as usize; let x = c.bytes(k); b.extend_from_slice(&x); "over-long payload" }
                3 => { b[0] = c.next() as u8; "wrong depth" }
                4 => { for i in at + 1..at + 33 { b[i] = 0; } "zero secret" }
                5 => { for i in at + 1..at + 33 { b[i] = 0xff; } "secret above the curve order" }
                6 => { hrp = c.pick(&["xpub".to_string(), "xpr".into(), "xprvv".into(), "yprv".into(), "x".into(), "wit".into()]); "wrong prefix" }
                7 => { let d = c.below(256) as usize; b = vec![d as u8]; let k = (65 + 4 * d + c.below(3) as usize).saturating_sub(1); let x = c.bytes(k); b.extend_from_slice(&x); if c.flip() && b.len() > 33 + 4 * d { b[33 + 4 * d] = 0; } "random payload" }
                8 => { let k = 1 + c.below(4) as usize; if b.len() >= 4 * k { b[0] = b[0].wrapping_add(k as u8); } "depth off by some" }
                _ => { let k = c.below(b.len() as u64) as usize; b[k] ^= 1 << c.below(8); "one flipped payload bit" }
            };
            let s = bech32::encode(&hrp, b.to_base32()).unwrap();
            probe(&mut c, &s, what);
            c.case(s);
        }
        for _ in 0..3 {
            let mut t: Vec<u8> = text.clone().into_bytes();
            let k = c.below(t.len() as u64) as usize;
            let what = match c.below(6) {
                0 => { t[k] = b'q' ^ (c.below(16) as u8); "changed character" }
                1 => { t.truncate(k); "truncated text" }
                2 => { t.insert(k, b'q'); "inserted character" }
                3 => { t.make_ascii_uppercase(); "upper case" }
                4 => { t[k] = t[k].to_ascii_uppercase(); "mixed case" }
                _ => { t = (0..c.below(100)).map(|_| 32 + c.below(95) as u8).collect(); "random text" }
            };
            if let Ok(s) = String::from_utf8(t) { probe(&mut c, &s, what); }
        }
    }
    c.done();
}
