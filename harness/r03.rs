use std::collections::HashSet as HS;
use witnet_reputation::ActiveReputationSet;

/// Oracle: the list of (epoch, identities) ever accepted; activity is membership in the last `cap` epochs.
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let cap = 1 + c.below(7) as usize;
        let keys = 1 + c.below(6);
        let steps = 1 + c.below(40);
        let mut ars: ActiveReputationSet<u64> = ActiveReputationSet::new(cap);
        let mut hist: Vec<(u64, HS<u64>)> = vec![];
        let mut last: u64 = 0;
        let mut log = format!("cap={}", cap);
        let mut first = true;
        for _ in 0..steps {
            let e = match c.below(10) {
                0 => last,
                1 => c.below(last + 1),
                2 => last + cap as u64,
                3 => last + cap as u64 + 1,
                4 => last + cap as u64 - 1,
                5 => last + 1 + c.below(12),
                6 => { if c.chance(20) { last + c.below(1000000) } else { last + 2 } }
                _ => last + 1,
            };
            if e > u32::MAX as u64 { break; }
            let n = c.below(6);
            let ids: Vec<u64> = (0..n).map(|_| c.below(keys)).collect();
            log.push_str(&format!(" update({:?},{})", ids, e));
            let before = ars.clone();
            let r = guard(|| ars.update(ids.clone(), e as u32).is_ok());
            c.case((cap, e, last, &ids));
            let ok = match r { Ok(b) => b, Err(m) => { c.fail(format!("{} panics: {}", log, m)); break; } };
            if e > last {
                if !ok { c.fail(format!("{}: a later epoch was rejected", log)); break; }
                hist.push((e, ids.iter().cloned().collect()));
                last = e;
            } else {
                if ok != (e == 0) { c.fail(format!("{}: stale update accepted={}", log, ok)); break; }
                if !(before == ars) { c.fail(format!("{}: a stale update changed the set", log)); break; }
            }
            let mut active: HS<u64> = HS::new();
            for (x, s) in &hist { if *x + cap as u64 > last { active.extend(s.iter().cloned()); } }
            let got: HS<u64> = ars.active_identities().cloned().collect();
            if got != active || ars.active_identities_number() != active.len() || (0..keys + 1).any(|k| ars.contains(&k) != active.contains(&k)) {
                c.fail(format!("{}: active {:?} expected {:?}", log, got, active));
                break;
            }
            if ars.active_identities().count() != active.len() { c.fail(format!("{}: duplicated active identity", log)); break; }
            if ars.buffer_size() > cap || ars.buffer_capacity() != cap { c.fail(format!("{}: buffer size", log)); break; }
        }
        c.sample(|| log.clone());
        // clear
        if c.chance(10) {
            ars.clear();
            if ars.active_identities_number() != 0 || ars.contains(&0) { c.fail(format!("{} clear() leaves active identities", log)); }
        }
    }
    // push_activity directly: the last `cap` pushes
    c.phase(1.0);
    c.done()
}
