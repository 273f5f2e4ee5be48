#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_snake_case, unused_macros, unused_parens, unused_braces)]
#[macro_use]
mod srch {
    use std::collections::hash_map::DefaultHasher;
    use std::collections::HashSet;
    use std::hash::{Hash, Hasher};
    use std::time::{Duration, Instant};
    pub struct Ctx {
        s: u64,
        pub deadline: Instant,
        start: Instant,
        budget: f64,
        pub evals: u64,
        distinct: HashSet<u64>,
        samples: Vec<String>,
        pub fails: Vec<String>,
        tags: HashSet<String>,
        pub consts: Vec<u64>,
        phase_end: Instant,
    }
    impl Ctx {
        pub fn new() -> Ctx {
            let a: Vec<String> = std::env::args().collect();
            let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
            let budget: f64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(5.0);
            let consts: Vec<u64> = a.get(3).map(|x| x.split(',').filter_map(|y| y.parse().ok()).collect()).unwrap_or_default();
            std::panic::set_hook(Box::new(|_| {}));
            let now = Instant::now();
            Ctx { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, deadline: now + Duration::from_secs_f64(budget), start: now, budget,
                  evals: 0, distinct: HashSet::new(), samples: vec![], fails: vec![], tags: HashSet::new(), consts,
                  phase_end: now + Duration::from_secs_f64(budget) }
        }
        /// a phase gets at most this fraction of the total budget
        pub fn phase(&mut self, frac: f64) {
            let e = Instant::now() + Duration::from_secs_f64(self.budget * frac);
            self.phase_end = e.min(self.deadline);
        }
        pub fn more(&self) -> bool { Instant::now() < self.phase_end && self.fails.len() < 3 }
        pub fn next(&mut self) -> u64 {
            self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
        pub fn range(&mut self, lo: u64, hi: u64) -> u64 { if hi <= lo { lo } else { let w = hi - lo; if w == u64::MAX { self.next() } else { lo + self.next() % (w + 1) } } }
        pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
        pub fn chance(&mut self, n: u64) -> bool { self.below(n) == 0 }
        pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { let i = self.below(v.len() as u64) as usize; v[i].clone() }
        /// boundary-biased integer in [0, max]
        pub fn num(&mut self, max: u64) -> u64 {
            let v = match self.below(8) {
                0 => self.below(4),
                1 => self.below(20),
                2 => { let b = self.below(64); (1u64 << b).wrapping_add(self.below(3)).wrapping_sub(1) }
                3 => max - self.below(4).min(max),
                4 => { if self.consts.is_empty() { self.next() } else { let c = self.consts.clone(); self.pick(&c).wrapping_add(self.below(3)).wrapping_sub(1) } }
                5 => { let b = self.below(64); self.next() >> b }
                6 => self.below(1000),
                _ => self.next(),
            };
            if max == u64::MAX || v <= max { v } else { v % (max + 1) }
        }
        pub fn u8(&mut self) -> u8 { self.num(u8::MAX as u64) as u8 }
        pub fn u16(&mut self) -> u16 { self.num(u16::MAX as u64) as u16 }
        pub fn u32(&mut self) -> u32 { self.num(u32::MAX as u64) as u32 }
        pub fn u64(&mut self) -> u64 { self.num(u64::MAX) }
        pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
        pub fn case<K: Hash>(&mut self, key: K) -> () {
            self.evals += 1;
            if self.distinct.len() < 3_000_000 {
                let mut h = DefaultHasher::new();
                key.hash(&mut h);
                self.distinct.insert(h.finish());
            }
        }
        pub fn sample(&mut self, f: impl FnOnce() -> String) {
            if self.samples.len() < 6 && (self.evals & (self.evals - 1).min(self.evals)) == 0 { let s = f(); self.samples.push(s.chars().take(280).collect()); }
        }
        pub fn fail(&mut self, msg: String) {
            self.fails.push(msg.clone());
            println!("FAIL {}", msg.replace('\n', " "));
        }
        /// reported once per tag, does not stop the search (a listed known finding)
        pub fn fail_tag(&mut self, tag: &str, msg: String) {
            if self.tags.insert(tag.to_string()) { println!("FAIL [{}] {}", tag, msg.replace('\n', " ")); }
        }
        pub fn done(self) -> ! {
            for s in &self.samples { println!("SAMPLE {}", s.replace('\n', " ")); }
            println!("EVALS {} {}", self.evals, self.distinct.len());
            std::process::exit(if self.fails.is_empty() { 0 } else { 10 });
        }
    }
    pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
            if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".to_string() }
        })
    }
}
use srch::{guard, Ctx};
