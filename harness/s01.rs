use std::collections::BTreeMap;
use witnet_storage::backends::{hashmap, nobackend};
use witnet_storage::storage::{Storage, WriteBatch};

type M = BTreeMap<Vec<u8>, Vec<u8>>;

/// Everything observable agrees with the ordered map.
fn agrees(s: &dyn Storage, m: &M, probes: &[Vec<u8>]) -> Result<(), String> {
    for k in probes {
        let g = s.get(k).map_err(|e| format!("get fails: {}", e))?;
        if g != m.get(k).cloned() { return Err(format!("get({:?}) = {:?}, expected {:?}", k, g, m.get(k))); }
    }
    for p in probes {
        let mut got: Vec<(Vec<u8>, Vec<u8>)> = s.prefix_iterator(p).map_err(|e| format!("prefix_iterator fails: {}", e))?.collect();
        got.sort();
        let want: Vec<(Vec<u8>, Vec<u8>)> = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        if got != want { return Err(format!("prefix {:?} yields {:?}, expected {:?}", p, got, want)); }
    }
    Ok(())
}

fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let alpha = 1 + c.below(3);
        let maxlen = c.below(5);
        fn key(c: &mut Ctx, alpha: u64, maxlen: u64) -> Vec<u8> {
            let n = c.below(maxlen + 1);
            (0..n).map(|_| { let x = c.below(alpha + 1); if x == alpha { 255 } else { x as u8 } }).collect()
        }
        let s: Box<dyn Storage> = Box::<hashmap::Backend>::default();
        let mut m = M::new();
        let mut log = String::new();
        let mut probes: Vec<Vec<u8>> = vec![vec![]];
        let steps = 1 + c.below(30);
        for _ in 0..steps {
            let k = key(&mut c, alpha, maxlen);
            if !probes.contains(&k) { probes.push(k.clone()); }
            let n = c.below(4) as usize;
            let v = c.bytes(n);
            let r = guard(|| -> Result<(), String> {
                match c.below(5) {
                    0 | 1 => {
                        log.push_str(&format!(" put({:?},{:?})", k, v));
                        s.put(k.clone(), v.clone()).map_err(|e| format!("put fails: {}", e))?;
                        m.insert(k.clone(), v.clone());
                    }
                    2 => {
                        log.push_str(&format!(" delete({:?})", k));
                        s.delete(&k).map_err(|e| format!("delete fails: {}", e))?;
                        m.remove(&k);
                    }
                    _ => {
                        let mut b = WriteBatch::default();
                        log.push_str(" batch[");
                        for _ in 0..c.below(7) {
                            let k = key(&mut c, alpha, maxlen);
                            if !probes.contains(&k) { probes.push(k.clone()); }
                            let n = c.below(3) as usize;
                            let v = c.bytes(n);
                            if c.below(3) == 0 { log.push_str(&format!("del({:?})", k)); m.remove(&k); b.delete(k); }
                            else { log.push_str(&format!("put({:?},{:?})", k, v)); m.insert(k.clone(), v.clone()); b.put(k, v); }
                        }
                        log.push_str("]");
                        s.write(b).map_err(|e| format!("write fails: {}", e))?;
                    }
                }
                agrees(&*s, &m, &probes)
            });
            c.case(&log);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => { c.fail(format!("{}: {}", log, e)); break; }
                Err(e) => { c.fail(format!("{}: panics: {}", log, e)); break; }
            }
        }
        c.sample(|| log.clone());
        // the iterator consumed step by step, reads in between: each entry once, then nothing
        let p = key(&mut c, alpha, 2);
        let want = m.keys().filter(|k| k.starts_with(&p)).count();
        if let Ok(mut it) = s.prefix_iterator(&p) {
            let mut n = 0;
            while let Some((k, v)) = it.next() {
                n += 1;
                if n > m.len() + 2 { break; }
                if m.get(&k) != Some(&v) { c.fail(format!("{}: prefix {:?} yields {:?}", log, p, (k, v))); break; }
            }
            if n != want || it.next().is_some() { c.fail(format!("{}: prefix {:?} yields {} entries, expected {}", log, p, n, want)); }
        }
        // the disabled back end
        let d = nobackend::Backend;
        let k = key(&mut c, alpha, maxlen);
        let mut wb = WriteBatch::default();
        wb.put(k.clone(), k.clone());
        if d.get(&k).is_ok() || d.put(k.clone(), k.clone()).is_ok() || d.delete(&k).is_ok() || d.write(wb).is_ok() || d.prefix_iterator(&p).is_ok() || d.write(WriteBatch::default()).is_ok() {
            c.fail(format!("the disabled back end accepts an operation on {:?}", k));
        }
    }
    c.done()
}
