include!("trs_model.rs");
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let keys = 1 + c.below(6);
        let steps = 1 + c.below(40);
        let mut t = Trs::new();
        let mut l = Ledger::default();
        let mut log = String::new();
        let mut now = 0u64;
        for _ in 0..steps {
            match c.below(10) {
                0..=4 => {
                    let base = l.last.unwrap_or(now);
                    let e = match c.below(6) { 0 => base, 1 => base.saturating_add(1), 2 => base.saturating_sub(1), 3 => { if c.chance(50) { u64::MAX } else { base } }, _ => base.saturating_add(c.below(5)) };
                    let d = gain_list(&mut c, keys, &l);
                    log.push_str(&format!(" gain({},{:?})", e, d));
                    c.case(("gain", e, &d, keys));
                    let ok = match guard(|| t.gain(e, d.clone()).is_ok()) { Ok(b) => b, Err(m) => { c.fail(format!("{} panics: {}", log, m)); break; } };
                    let want = model_gain(&mut l, e, &d);
                    if ok != want { c.fail(format!("{}: accepted={} expected {}", log, ok, want)); break; }
                }
                5..=6 => {
                    let a = match c.below(4) { 0 => l.last.unwrap_or(now), 1 => now.saturating_add(c.below(8)), 2 => l.p.keys().next().map(|x| x.0).unwrap_or(0), _ => l.p.keys().next().map(|x| x.0).unwrap_or(3).saturating_sub(1) };
                    now = now.max(if a == u64::MAX { now } else { a });
                    log.push_str(&format!(" expire({})", a));
                    c.case(("expire", a, l.p.len()));
                    let got = match guard(|| t.expire(&a)) { Ok(b) => b, Err(m) => { c.fail(format!("{} panics: {}", log, m)); break; } };
                    let want = model_expire(&mut l, a);
                    if got != want { c.fail(format!("{} returned {} expected {}", log, got, want)); break; }
                }
                7..=8 => {
                    let k = c.below(keys);
                    let cur = l.get(k);
                    let target = match c.below(4) { 0 => 0, 1 => cur, 2 => cur / 2, _ => c.below(cur.max(1)) };
                    log.push_str(&format!(" penalize({}->{})", k, target));
                    c.case(("pen", k, target));
                    match guard(|| t.penalize(&k, |_| target).is_ok()) { Ok(true) => {}, Ok(false) => { break; } Err(m) => { c.fail(format!("{} panics: {}", log, m)); break; } }
                    l.take(k, cur - target);
                }
                _ => {
                    if c.chance(4) {
                        log.push_str(" clear()");
                        t.clear();
                        l = Ledger::default();
                    } else {
                        // rebuild from the queue
                        let q: Vec<(u64, Vec<(u64, u64)>)> = t.queue().map(|(a, it)| (*a, it.map(|(k, v)| (*k, *v)).collect())).collect();
                        match guard(|| Trs::from_queue(q)) { Ok(Ok(x)) => { if x != t { c.fail(format!("{}: from_queue(queue) differs", log)); break; } if let Err(m) = same(&x, &l, keys) { c.fail(format!("{} from_queue: {}", log, m)); break; } }
                            Ok(Err(e)) => { c.fail(format!("{}: from_queue(queue) rejected {}", log, e.alpha)); break; }
                            Err(m) => { c.fail(format!("{} from_queue panics: {}", log, m)); break; } }
                    }
                }
            }
            if let Err(m) = same(&t, &l, keys) { c.fail(format!("{}: {}", log, m)); break; }
        }
        c.sample(|| log.clone());
    }
    c.done()
}
