use hmac::{Hmac, Mac};
use witnet_crypto::key::*;
use witnet_crypto::secp256k1::{PublicKey, Secp256k1, SecretKey};
use witnet_protected::Protected;

const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
fn mac(key: &[u8], data: &[u8]) -> Vec<u8> { let mut m = Hmac::<sha2::Sha512>::new_varkey(key).unwrap(); m.input(data); m.result().code().to_vec() }
fn add_mod(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; 32];
    let mut carry = 0u16;
    for i in (0..32).rev() { let x = a[i] as u16 + b[i] as u16 + carry; o[i] = x as u8; carry = x >> 8; }
    if carry == 1 || &o[..] >= &N[..] {
        let mut br = 0i16;
        for i in (0..32).rev() { let x = o[i] as i16 - N[i] as i16 - br; br = (x < 0) as i16; o[i] = (x & 0xff) as u8; }
    }
    o
}
fn pubkey(sk: &[u8]) -> Vec<u8> { PublicKey::from_secret_key(&Secp256k1::new(), &SecretKey::from_slice(sk).unwrap()).serialize().to_vec() }
fn step(k: &(Vec<u8>, Vec<u8>), i: u32) -> (Vec<u8>, Vec<u8>) {
    let mut d = if i >= 1 << 31 { let mut v = vec![0u8]; v.extend_from_slice(&k.0); v } else { pubkey(&k.0) };
    d.extend_from_slice(&[(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8]);
    let m = mac(&k.1, &d);
    (add_mod(&m[..32], &k.0), m[32..].to_vec())
}
fn parts(k: &ExtendedSK) -> (Vec<u8>, Vec<u8>) { (k.secret().as_ref().to_vec(), k.chain_code().as_ref().to_vec()) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn index(c: &mut Ctx) -> u32 { match c.below(7) { 0 => 0, 1 => 0x7fff_ffff, 2 => 0x8000_0000, 3 => u32::MAX, 4 => 0x8000_0000 + c.below(60) as u32, 5 => c.below(60) as u32, _ => c.next() as u32 } }

fn main() {
    let mut c = Ctx::new();
    // BIP-32 test vector 1
    let m = MasterKeyGen::new(unhex("000102030405060708090a0b0c0d0e0f")).generate().unwrap();
    if hex(&parts(&m).0) != "e8f32e723decf4051aefac8e2c93c9c5b214313817cdb01a1494b917c8436b35" || hex(&parts(&m).1) != "873dff81c02f525623fd1fe5167eac3a55a049de3d314bb42ee227ffed37d508" { c.fail("BIP-32 test vector 1, chain m".into()); }
    let v1 = m.derive(&KeyPath::default().hardened(0).index(1).hardened(2).index(2).index(1000000000)).unwrap();
    if hex(&parts(&v1).0) != "471b76e389e528d6de6d816857e012c5455051cad6660850e58372a6c3e6e7c8" { c.fail(format!("BIP-32 test vector 1, chain m/0h/1/2h/2/1000000000: {}", hex(&parts(&v1).0))); }
    let mut n = 0;
    while c.more() {
        let len = if n < 100 { n } else if c.chance(3) { c.below(80) as usize } else { 16 + c.below(49) as usize };
        n += 1;
        let seed = if c.chance(6) { vec![c.next() as u8; len] } else { c.bytes(len) };
        c.case(seed.clone());
        c.sample(|| format!("seed of {} bytes {}", len, hex(&seed)));
        let custom = if c.chance(3) { let k = c.below(140) as usize; Some(c.bytes(k)) } else { None };
        let g = guard(|| { let g = MasterKeyGen::new(seed.clone()); match &custom { Some(k) => g.with_key(k).generate(), None => g.generate() } });
        let ok = len >= 16 && len <= 64;
        let key = match g {
            Ok(Ok(k)) if ok => k,
            Ok(Err(_)) if !ok => continue,
            r => { c.fail(format!("master key of a seed of {} bytes: {}", len, match r { Ok(Ok(_)) => "accepted".to_string(), Ok(Err(e)) => e.to_string(), Err(e) => e })); continue; }
        };
        let w = mac(custom.as_deref().unwrap_or(b"Bitcoin seed"), &seed);
        let mut cur = (w[..32].to_vec(), w[32..].to_vec());
        if parts(&key) != cur { c.fail(format!("master key of seed {}: {:?}, expected {}", hex(&seed), hex(&parts(&key).0), hex(&cur.0))); continue; }
        // a secret with leading zeros now and then
        let mut key = key;
        if c.chance(4) {
            let mut s = c.bytes(32);
            let z = 1 + c.below(31) as usize;
            for i in 0..z { s[i] = if c.chance(9) { 0xff } else { 0 }; }
            if let Ok(sk) = SecretKey::from_slice(&s) { let cc = c.bytes(32); key = ExtendedSK::new(sk, Protected::from(cc.clone())); cur = (s, cc); }
        }
        let start = cur.clone();
        let d = c.below(8) as usize;
        let idx: Vec<u32> = (0..d).map(|_| index(&mut c)).collect();
        let mut p = KeyPath::default();
        let mut bad = None;
        for i in &idx { p = match guard(|| if *i >= 1 << 31 { p.clone().hardened(*i - (1 << 31)) } else { p.clone().index(*i) }) { Ok(q) => q, Err(e) => { bad = Some(format!("path builder panics on {}: {}", i, e)); break; } }; }
        if let Some(b) = bad { c.fail(b); continue; }
        let got: Vec<u32> = p.iter().map(|i| *i.as_ref()).collect();
        if got != idx || p.depth() != d || p.is_master() != (d == 0) || KeyPath::from(idx.clone()) != p { c.fail(format!("path built from {:?} is {:?}", idx, got)); continue; }
        let shown = idx.iter().fold("m".to_string(), |a, i| if *i >= 1 << 31 { format!("{}/{}'", a, i - (1 << 31)) } else { format!("{}/{}", a, i) });
        if p.to_string() != shown { c.fail(format!("path {:?} is shown as {}", idx, p)); continue; }
        for i in p.iter() { if i.is_hardened() != (*i.as_ref() >= 1 << 31) { c.fail(format!("is_hardened({})", i.as_ref())); } }
        let mut k = key.clone();
        let mut failed = false;
        for (j, i) in p.iter().enumerate() {
            let want = step(&cur, idx[j]);
            match guard(|| k.child(i)) {
                Ok(Ok(x)) if parts(&x) == want => { k = x; cur = want; }
                r => { c.fail(format!("child {} of secret {} chain code {}: {:?}, expected secret {} chain code {}", idx[j], hex(&cur.0), hex(&cur.1), r.map(|x| x.map(|y| (hex(&parts(&y).0), hex(&parts(&y).1)))), hex(&want.0), hex(&want.1))); failed = true; break; }
            }
        }
        if failed { continue; }
        match guard(|| key.derive(&p)) { Ok(Ok(x)) if parts(&x) == cur && x == k => {} r => { c.fail(format!("deriving {} from secret {} chain code {} differs from deriving step by step: {:?}", shown, hex(&start.0), hex(&start.1), r.map(|x| x.map(|y| hex(&parts(&y).0))))); continue; } }
        let mut cat = cur.0.clone();
        cat.extend_from_slice(&cur.1);
        if k.concat().as_ref() != &cat[..] { c.fail("concat".into()); }
        let pk = ExtendedPK::from_secret_key(&k);
        if pk.key.serialize().to_vec() != pubkey(&cur.0) || pk.chain_code != k.chain_code() { c.fail(format!("public key of {}", hex(&cur.0))); }
    }
    // panics of the builders outside their range
    for i in [1u32 << 31, u32::MAX] { if guard(|| KeyPath::default().index(i)).is_ok() { c.fail(format!("index({}) accepted as a normal index", i)); } if guard(|| KeyPath::default().hardened(i)).is_ok() { c.fail(format!("hardened({}) accepted", i)); } }
    c.done();
}
