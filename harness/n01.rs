use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use SessionStatus::*;
use SessionType::*;
#[derive(Clone, Default, PartialEq, Debug)]
struct Model { m: [BTreeMap<SocketAddr, u32>; 4], cons: BTreeMap<SocketAddr, u32>, lim: [Option<usize>; 4], rl: u8 }
fn ix(t: SessionType, s: SessionStatus) -> usize { (if t == Inbound { 0 } else { 2 }) + (if s == Consolidated { 1 } else { 0 }) }
fn range(a: &SocketAddr, l: u8) -> [u8; 4] {
    match a { SocketAddr::V4(v) => { let o = v.ip().octets(); let mut r = [0u8; 4]; for b in 0..(l.min(32) as usize) { r[b / 8] |= o[b / 8] & (128 >> (b % 8)); } r } _ => [0; 4] }
}
fn dump(b: &BoundedSessions<u32>) -> BTreeMap<SocketAddr, u32> { b.collection.iter().map(|(k, v)| (*k, v.reference)).collect() }
impl Model {
    fn check(&self, s: &Sessions<u32>, addrs: &[SocketAddr]) -> Option<String> {
        let real = [dump(&s.inbound_unconsolidated), dump(&s.inbound_consolidated), dump(&s.outbound_unconsolidated), dump(&s.outbound_consolidated)];
        for (i, n) in ["inbound unconsolidated", "inbound consolidated", "outbound unconsolidated", "outbound consolidated"].iter().enumerate() {
            if real[i] != self.m[i] { return Some(format!("{} sessions are {:?}, expected {:?}", n, real[i], self.m[i])); }
            if let Some(l) = self.lim[i] { if real[i].len() > l { return Some(format!("{} {} sessions, the limit is {}", real[i].len(), n, l)); } }
        }
        if dump(&s.outbound_consolidated_consensus) != self.cons { return Some(format!("consensus sessions are {:?}, expected {:?}", dump(&s.outbound_consolidated_consensus), self.cons)); }
        let taken: BTreeSet<[u8; 4]> = self.m[0].keys().chain(self.m[1].keys()).map(|a| range(a, self.rl)).collect();
        for a in addrs {
            let want = if taken.contains(&range(a, self.rl)) { Some(range(a, self.rl)) } else { None };
            let got = s.is_similar_to_inbound_session(a).copied();
            if got != want { return Some(format!("{} is similar to inbound sessions: {:?}, expected {:?}", a, got, want)); }
            let el = !self.m[2].contains_key(a) && !self.m[3].contains_key(a) && s.public_address != Some(*a);
            if s.is_outbound_address_eligible(*a) != el { return Some(format!("{} is eligible as outbound peer: {}", a, !el)); }
        }
        let out = self.m[2].len() + self.m[3].len();
        if s.get_num_outbound_sessions() != out || s.get_num_inbound_sessions() != self.m[1].len() { return Some("wrong number of sessions".to_string()); }
        if s.is_outbound_bootstrap_needed() != self.lim[3].map_or(true, |l| out < l) { return Some("wrong answer to whether outbound bootstrap is needed".to_string()); }
        if let Some(l) = self.lim[3] { if s.num_missing_outbound() != l.saturating_sub(out) { return Some(format!("{} missing outbound sessions with {} of {}", s.num_missing_outbound(), out, l)); } }
        None
    }
    fn register(&mut self, k: usize, a: SocketAddr, x: u32) -> bool {
        if self.lim[k].map_or(false, |l| self.m[k].len() >= l) || self.m[k].contains_key(&a) { return false; }
        self.m[k].insert(a, x); true
    }
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let mut s: Sessions<u32> = Sessions::default();
        let mut m = Model::default();
        m.rl = *[0u8, 8, 18, 24, 31, 32, 255].get(c.below(7) as usize).unwrap();
        s.inbound_network_ranges.set_range_limit(m.rl);
        let addrs: Vec<SocketAddr> = (0..6).map(|i| if c.chance(6) { SocketAddr::new(IpAddr::V6(Ipv6Addr::from(i as u128)), 1) }
            else { SocketAddr::new(IpAddr::V4(Ipv4Addr::new(c.pick(&[10, 10, 11]), c.pick(&[0, 0, 128, 255]), c.pick(&[0, 0, 1, 63, 64, 192]), c.pick(&[1, 1, 2, 254]))), c.pick(&[1000, 1001])) }).collect();
        let mut log = format!("range limit {}; ", m.rl);
        if !c.chance(5) {
            let (i, o) = (c.below(5) as u16, c.below(5) as u16);
            s.set_limits(i, o); m.lim[1] = Some(i as usize); m.lim[3] = Some(o as usize); log += &format!("limits {} in, {} out; ", i, o);
        }
        if c.flip() { let a = c.pick(&addrs); s.set_public_address(Some(a)); }
        let n = c.range(1, 60);
        for x in 0..n as u32 {
            let (t, st, a) = (c.pick(&[Inbound, Inbound, Outbound, Outbound, Outbound, Feeler]), c.pick(&[Unconsolidated, Consolidated]), c.pick(&addrs));
            let op = c.below(7);
            log += &match op { 0 | 1 => format!("register {:?} {}; ", t, a), 2 | 3 => format!("consolidate {:?} {}; ", t, a), 4 => format!("unregister {:?} {:?} {}; ", t, st, a), 5 => format!("consensus {}; ", a), _ => format!("unconsensus {}; ", a) };
            c.case(&log);
            let got = guard(|| match op { 0 | 1 => s.register_session(t, a, x).is_ok(), 2 | 3 => s.consolidate_session(t, a).is_ok(), 4 => s.unregister_session(t, st, a).is_ok(), 5 => s.consensus_session(a).is_ok(), _ => s.unconsensus_session(a).is_ok() });
            let want = match op {
                0 | 1 => t != Feeler && m.register(ix(t, Unconsolidated), a, x),
                2 | 3 => t != Feeler && match m.m[ix(t, Unconsolidated)].get(&a).copied() { None => false, Some(y) => { let ok = m.register(ix(t, Consolidated), a, y); if ok { m.m[ix(t, Unconsolidated)].remove(&a); } ok } },
                4 => t != Feeler && { let ok = m.m[ix(t, st)].remove(&a).is_some(); if ok && (t, st) == (Outbound, Consolidated) { m.cons.remove(&a); } ok },
                5 => match m.m[3].get(&a).copied() { None => false, Some(y) => if m.cons.contains_key(&a) { false } else { m.cons.insert(a, y); true } },
                _ => m.cons.remove(&a).is_some(),
            };
            match got {
                Err(e) => { c.fail(format!("panic ({}) after: {}", e, log)); break; }
                Ok(g) if g != want => { c.fail(format!("the last step {}, but should {}: {}", if g { "succeeded" } else { "failed" }, if want { "succeed" } else { "fail" }, log)); break; }
                _ => {}
            }
            if let Some(e) = m.check(&s, &addrs) { c.fail(format!("{} after: {}", e, log)); break; }
        }
        c.sample(|| log.clone());
    }
    c.done()
}
