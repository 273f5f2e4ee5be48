mod hex {
    pub type FromHexError = String;
    pub fn decode(s: impl AsRef<str>) -> Result<Vec<u8>, String> {
        let b = s.as_ref().as_bytes();
        if b.len() % 2 != 0 { return Err("odd".to_string()); }
        (0..b.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())).collect()
    }
    pub fn decode_to_slice(s: impl AsRef<str>, h: &mut [u8]) -> Result<(), String> {
        let v = decode(s)?;
        if v.len() != h.len() { return Err("length".to_string()); }
        h.copy_from_slice(&v);
        Ok(())
    }
}
// the values are stored as text of our own: the encoding is not under test
mod bincode {
    use super::{PublicKeyHash, ValueTransferOutput};
    pub trait De: Sized { fn de(b: &[u8]) -> Result<Self, String>; }
    impl De for (ValueTransferOutput, u32) {
        fn de(b: &[u8]) -> Result<Self, String> {
            let mut h = [0u8; 20];
            if b.len() != 40 { return Err("length".to_string()); }
            h.copy_from_slice(&b[..20]);
            let n = |i: usize| u64::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]]);
            Ok((ValueTransferOutput { pkh: PublicKeyHash { hash: h }, value: n(20), time_lock: n(28) }, u32::from_le_bytes([b[36], b[37], b[38], b[39]])))
        }
    }
    pub fn deserialize<T: De>(b: &[u8]) -> Result<T, String> { T::de(b) }
    pub fn serialize(x: &(ValueTransferOutput, u32)) -> Result<Vec<u8>, String> {
        let mut v = x.0.pkh.hash.to_vec();
        v.extend_from_slice(&x.0.value.to_le_bytes());
        v.extend_from_slice(&x.0.time_lock.to_le_bytes());
        v.extend_from_slice(&x.1.to_le_bytes());
        Ok(v)
    }
}

