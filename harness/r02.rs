include!("trs_model.rs");
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let keys = 1 + c.below(6);
        let mut t = Trs::new();
        let mut l = Ledger::default();
        let mut log = String::new();
        let mut e = 0;
        for _ in 0..1 + c.below(8) {
            e += c.below(4);
            let d = gain_list(&mut c, keys, &l);
            t.gain(e, d.clone()).unwrap();
            model_gain(&mut l, e, &d);
            log.push_str(&format!(" gain({},{:?})", e, d));
        }
        if same(&t, &l, keys).is_err() { continue; }
        for _ in 0..1 + c.below(6) {
            let n = if c.chance(2) { 1 } else { c.below(7) };
            let before = l.clone();
            let mut want: Result<u64, ()> = Ok(0);
            let mut list: Vec<(u64, u64)> = vec![];   // identity, function: constant target
            for _ in 0..n {
                let k = c.below(keys + 1);
                let cur = l.get(k);
                let border: Vec<u64> = { let mut s = 0; let mut v = vec![0]; for (x, y) in l.p.iter() { if x.1 == k { s += y; v.push(s); } } v };
                let target = match c.below(8) { 0 => 0, 1 => cur, 2 => cur / 2, 3 | 4 => c.pick(&border), 5 => { if c.chance(3) { cur.saturating_add(1 + c.below(3)) } else { cur.saturating_sub(1) } } _ => c.below(cur.max(1)) };
                list.push((k, target));
                if want.is_ok() {
                    if target > cur { want = Err(()); } else { l.take(k, cur - target); want = want.map(|w| w + (cur - target)); }
                }
            }
            log.push_str(&format!(" penalize{:?}", list));
            c.case((&list, &before.p));
            if want.is_err() { l = before.clone(); }
            let single = list.len() == 1 && c.flip();
            let seen = std::cell::RefCell::new(vec![]);
            let got = guard(|| if single { let tg = list[0].1; t.penalize(&list[0].0, |_| tg).map_err(|_| ()) }
                else { t.penalize_many(list.iter().map(|(k, tg)| (k, { let tg = *tg; let k = *k; let seen = &seen; move |v: u64| { seen.borrow_mut().push((k, v)); tg } }))).map_err(|_| ()) });
            let got = match got { Ok(g) => g, Err(m) => { c.fail(format!("{} panics: {}", log, m)); break; } };
            if got != want { c.fail(format!("{} returned {:?} expected {:?}", log, got, want)); break; }
            if !single {
                // the functions see the reputation the identity has at that point
                let mut m = before.clone();
                let mut ok = true;
                for (i, (k, v)) in seen.borrow().iter().enumerate() { if i >= list.len() || *k != list[i].0 || m.get(*k) != *v { ok = false; break; } if list[i].1 <= *v { m.take(*k, *v - list[i].1); } }
                if !ok { c.fail(format!("{}: penalty functions were given {:?}", log, seen.borrow())); break; }
            }
            if let Err(m) = same(&t, &l, keys) { c.fail(format!("{}: {}", log, m)); break; }
            // expirations still follow
            if c.chance(4) { let a = c.below(e + 2); log.push_str(&format!(" expire({})", a)); let g = guard(|| t.expire(&a)); let w = model_expire(&mut l, a); if g != Ok(w) { c.fail(format!("{} returned {:?} expected {}", log, g, w)); break; } }
        }
        c.sample(|| log.clone());
    }
    c.done()
}
