// An independent reading of what a tally concludes.
#[derive(Clone, Debug, PartialEq)]
enum M { I(i64), F(f64), B(bool), S(String), Y(Vec<u8>), O(Vec<(String, M)>), A(Vec<M>), E(RadError) }
use M::*;
impl M {
    fn kind(&self) -> usize { match self { A(_) => 0, B(_) => 1, Y(_) => 2, F(_) => 3, I(_) => 4, O(_) => 5, E(_) => 6, S(_) => 7 } }
    fn real(&self) -> RadonTypes {
        match self {
            I(x) => RadonTypes::Integer(RadonInteger::from(*x as i128)), F(x) => RadonTypes::Float(RadonFloat::from(*x)), B(x) => RadonTypes::Boolean(RadonBoolean::from(*x)),
            S(x) => RadonTypes::String(RadonString::from(x.clone())), Y(x) => RadonTypes::Bytes(RadonBytes::from(x.clone())), A(v) => RadonTypes::Array(RadonArray::from(v.iter().map(|x| x.real()).collect::<Vec<_>>())),
            O(m) => RadonTypes::Map(RadonMap::from(m.iter().map(|(k, v)| (k.clone(), v.real())).collect::<std::collections::BTreeMap<_, _>>())), E(e) => RadonTypes::RadonError(RadonError::new(e.clone())),
        }
    }
    fn num(&self) -> Option<f64> { match self { I(x) => Some(*x as f64), F(x) => Some(*x), _ => None } }
}
#[derive(Clone, Debug, PartialEq)]
enum Out { Val(M), Near(M), Bad(String, String), Open }      // a value, a float near it, an error (and what is inside it), not told here
struct Case { v: Vec<M>, raw: Vec<Option<Vec<u8>>>, filters: Vec<(u32, Vec<u8>)>, reducer: u32, min: f64, commits: usize, fork2: bool, w17: bool, crowd: bool }
type Res<T> = std::result::Result<T, String>;
fn top(v: &[M]) -> (usize, Vec<M>) { let n = |x: &M| v.iter().filter(|y| *y == x).count(); let m = v.iter().map(n).max().unwrap_or(0); let mut t: Vec<M> = vec![]; for x in v { if n(x) == m && !t.contains(x) { t.push(x.clone()); } } (m, t) }
fn mode_of(v: &[M]) -> Res<M> { if v.is_empty() { return Err("EmptyArray".into()); } let (_, t) = top(v); if t.len() == 1 { Ok(t[0].clone()) } else { Err("ModeTie".into()) } }
fn stats(v: &[f64]) -> (f64, f64) { let n = v.len() as f64; let m = v.iter().sum::<f64>() / n; (m, (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n).sqrt()) }
// whether each value lies within s deviations; None when too close to tell
fn inside(v: &[f64], s: f64) -> Option<Vec<bool>> { let (m, d) = stats(v); let w = s * d; let mut r = vec![]; for x in v { let y = (x - m).abs(); if d != 0.0 && (y - w).abs() < 1e-9 * (1.0 + y.abs()) { return None; } r.push(if d == 0.0 { true } else { y < w }); } Some(r) }
fn columns(v: &[M]) -> Option<Vec<Vec<M>>> { let rows: Vec<&Vec<M>> = v.iter().map(|x| if let A(a) = x { a } else { unreachable!() }).collect(); if rows.iter().any(|r| r.len() != rows[0].len()) { return None; } Some((0..rows[0].len()).map(|i| rows.iter().map(|r| r[i].clone()).collect()).collect()) }
fn same_kind(v: &[M]) -> bool { v.iter().all(|x| x.kind() == v[0].kind()) }
fn sigmas(a: &[u8]) -> Option<f64> { match serde_cbor::from_slice(a) { Ok(serde_cbor::Value::Integer(i)) => Some(i as f64), Ok(serde_cbor::Value::Float(f)) => Some(f), _ => None } }
// which values a filter keeps: Ok(None) when too close to tell
fn keeps(v: &[M], f: &(u32, Vec<u8>)) -> Res<Option<Vec<bool>>> {
    if f.0 == 8 { let m = mode_of(v)?; return Ok(Some(v.iter().map(|x| *x == m).collect())); }
    let s = match sigmas(&f.1) { Some(s) if !f.1.is_empty() => s, _ => return Err("WrongArguments".into()) };
    if v.is_empty() { return Ok(Some(vec![])); }
    match v[0].kind() {
        3 | 4 => Ok(inside(&v.iter().map(|x| x.num().unwrap()).collect::<Vec<_>>(), s)),
        0 => {
            let A(r) = &v[0] else { unreachable!() };
            if r.is_empty() || !same_kind(r) || r[0].kind() == 0 { return Err("UnsupportedFilter".into()); }
            let cols = columns(v).ok_or("DifferentSizeArrays")?;
            let mut keep = Some(vec![true; v.len()]);
            for c in cols {
                if !same_kind(&c) { return Err("UnsupportedOpNonHomogeneous".into()); }
                if c[0].num().is_none() { return Err("UnsupportedFilter".into()); }
                match (inside(&c.iter().map(|x| x.num().unwrap()).collect::<Vec<_>>(), s), &mut keep) { (Some(k), Some(q)) => for i in 0..k.len() { q[i] &= k[i]; }, _ => keep = None }
            }
            Ok(keep)
        }
        _ => Err("UnsupportedFilter".into()),
    }
}
fn mean_of(v: &[M]) -> Res<Out> {
    if v.is_empty() { return Ok(Out::Near(F(f64::NAN))); }
    match v[0].kind() {
        3 => Ok(Out::Near(F(v.iter().map(|x| x.num().unwrap()).sum::<f64>() / v.len() as f64))),
        4 => Ok(Out::Val(I((v.iter().map(|x| x.num().unwrap()).sum::<f64>() / v.len() as f64).round() as i64))),
        0 => { let mut r = vec![]; for c in columns(v).ok_or("DifferentSizeArrays")? { if !same_kind(&c) { return Ok(Out::Open); } match mean_of(&c)? { Out::Val(x) | Out::Near(x) => r.push(x), o => return Ok(o) } } Ok(Out::Near(A(r))) }
        _ => Err("UnsupportedReducer".into()),
    }
}
fn reduce_of(v: &[M], r: u32) -> Res<Out> {
    match r {
        2 => mode_of(v).map(Out::Val),
        3 => mean_of(v),
        5 => { if v.is_empty() { return Err("EmptyArray".into()); } if !(v[0].kind() == 3 || v[0].kind() == 4) { return Err("UnsupportedReducer".into()); }
            let mut s = v.to_vec(); s.sort_by(|a, b| a.num().partial_cmp(&b.num()).unwrap()); let n = s.len(); if n % 2 == 1 { Ok(Out::Val(s[n / 2].clone())) } else { mean_of(&s[n / 2 - 1..n / 2 + 1]) } }
        _ => Ok(Out::Open),
    }
}
// what is known to be handed on as it is; the rest is wrapped
fn wrap(e: &str) -> Out { if ["TooManyWitnesses", "InsufficientCommits", "NoReveals", "InsufficientConsensus", "TallyExecution"].contains(&e) { Out::Bad(e.into(), String::new()) } else { Out::Bad("Unhandled".into(), e.into()) } }
// result, who lied and who erred (the errors are not told for a script that failed before the second fork)
fn expected(k: &Case) -> Option<(Out, Vec<bool>, Option<Vec<bool>>)> {
    let n = k.v.len();
    let aside = |e: &str| Some(if k.fork2 { (wrap(e), vec![true; n], Some(vec![true; n])) } else { (wrap(e), vec![false; n], Some(vec![true; n])) });
    if k.crowd { return aside("TooManyWitnesses"); }
    if k.commits == 0 { return aside("InsufficientCommits"); }
    if n == 0 { return aside("NoReveals"); }
    let share = |a: usize, b: usize| a as f64 / b as f64;
    let counts: Vec<usize> = (0..8).map(|t| k.v.iter().filter(|x| x.kind() == t).count()).collect();
    let m = *counts.iter().max().unwrap();
    if !(share(m, k.commits) >= k.min) { return aside("InsufficientConsensus"); }
    if counts.iter().filter(|x| **x == m).count() > 1 { return aside("ModeTie"); }
    let kind = counts.iter().position(|x| *x == m).unwrap();
    if kind == 6 {
        let es: Vec<M> = k.v.iter().filter(|x| x.kind() == 6).cloned().collect();
        let (c, t) = top(&es);
        if share(c, if k.fork2 { k.commits } else { n }) < k.min { return aside("InsufficientConsensus"); }
        if t.len() > 1 { return aside("ModeTie"); }
        return Some((Out::Val(t[0].clone()), vec![false; n], Some(vec![true; n])));
    }
    let mut liars: Vec<bool> = k.v.iter().map(|x| x.kind() != kind).collect();
    let errors: Vec<bool> = k.v.iter().map(|x| x.kind() == 6).collect();
    let mut left: Vec<M> = k.v.iter().filter(|x| x.kind() == kind).cloned().collect();
    let planned = k.filters.iter().all(|f| (f.0 == 5 || f.0 == 8) && (f.1.is_empty() || serde_cbor::from_slice(&f.1).is_ok())) && (k.reducer == 2 || k.reducer == 3 || k.w17 && (k.reducer == 5 || k.reducer == 11));
    if !planned { return Some(if k.fork2 { (wrap("TallyExecution"), vec![true; n], Some(vec![true; n])) } else { (wrap("TallyExecution"), vec![false; n], None) }); }
    let mut bad = None;
    for f in &k.filters {
        match keeps(&left, f) {
            Err(e) => { bad = Some(e); break; }
            Ok(None) => return None,
            Ok(Some(q)) => { let mut it = q.iter(); for l in liars.iter_mut() { if !*l { *l = !*it.next().unwrap(); } } left = left.into_iter().zip(q).filter(|(_, y)| *y).map(|(x, _)| x).collect(); }
        }
    }
    let out = match bad { Some(e) => wrap(&e), None => match reduce_of(&left, k.reducer) { Ok(o) => o, Err(e) => wrap(&e) } };
    if out == Out::Open { return None; }
    if k.fork2 && !matches!(out, Out::Bad(..)) && !(share(liars.iter().filter(|l| !**l).count(), k.commits) > k.min) { return aside("InsufficientConsensus"); }
    Some((out, liars, Some(errors)))
}
fn name(e: &RadError) -> String { format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect() }
fn near(a: &RadonTypes, b: &RadonTypes) -> bool {
    match (a, b) { (RadonTypes::Float(x), RadonTypes::Float(y)) => { let (x, y) = (x.value(), y.value()); x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-9 * (1.0 + y.abs()) }
        (RadonTypes::Array(x), RadonTypes::Array(y)) => x.value().len() == y.value().len() && x.value().iter().zip(y.value().iter()).all(|(p, q)| near(p, q)), _ => a == b }
}
fn fits(r: &RadonTypes, o: &Out, w18: bool) -> bool {
    match (o, r) {
        (Out::Val(E(RadError::UnhandledIntercept { inner, .. })), RadonTypes::RadonError(e)) if w18 => *e.inner() == RadError::UnhandledInterceptV2 { inner: inner.clone() },
        (Out::Val(m), _) => m.real() == *r, (Out::Near(m), _) => near(r, &m.real()),
        (Out::Bad(a, b), RadonTypes::RadonError(e)) => match e.inner() {
            RadError::UnhandledIntercept { inner, .. } => a == "Unhandled" && !w18 && inner.as_ref().map(|x| name(x)) == Some(b.clone()),
            RadError::UnhandledInterceptV2 { inner } => a == "Unhandled" && w18 && inner.as_ref().map(|x| name(x)) == Some(b.clone()),
            x => name(x) == *a },
        _ => false,
    }
}
fn value(c: &mut Ctx, kind: usize, spread: u64) -> M {
    match kind {
        0 => { let n = if c.chance(8) { c.below(3) } else { 2 }; let t = if c.chance(6) { 7 } else if c.flip() { 3 } else { 4 }; A((0..n).map(|_| value(c, t, spread)).collect()) }
        1 => B(c.flip()), 2 => Y(vec![c.below(spread) as u8; c.below(3) as usize]), 3 => F(c.below(spread) as f64 / 4.0), 4 => if c.chance(12) { I(1000) } else { I(c.below(spread) as i64 - (spread / 2) as i64) },
        5 => O(vec![("k".into(), I(c.below(spread) as i64))]),
        6 => E(match c.below(5) { 0 => RadError::RetrieveTimeout, 1 => RadError::HttpStatus { status_code: 400 + c.below(2) as u16 }, 2 => RadError::MalformedReveal, 3 => RadError::UnhandledIntercept { inner: None, message: Some("m".into()) }, _ => RadError::Overflow }),
        _ => S(["a", "b", "c"][c.below(spread.min(3)) as usize].to_string()),
    }
}
fn gen_case(c: &mut Ctx) -> Case {
    let n = match c.below(12) { 0 => 0, 1 => 120 + c.below(20), 2 => 250 + c.below(20), _ => 1 + c.below(9) };
    let main = [4, 4, 4, 3, 0, 6, 6, 7, 1, 2, 5][c.below(11) as usize];
    let spread = c.pick(&[1u64, 2, 3, 8]);
    let odd = c.pick(&[2u64, 3, 5, 1000]);
    let mut v: Vec<M> = (0..n).map(|_| { let k = if c.chance(odd) { c.below(8) as usize } else { main }; value(c, k, spread) }).collect();
    if c.chance(4) && n > 1 { let x = v[0].clone(); let m = c.below(n) as usize; for i in 0..m { v[i] = x.clone(); } }
    // reveals that are no values: garbage, errors inside of arrays
    let raw: Vec<Option<Vec<u8>>> = v.iter_mut().map(|x| if c.chance(60) { *x = E(RadError::MalformedReveal); Some(c.pick(&[&[0x81u8, 0xd8, 0x27, 0x81, 0x00][..], &[0x82, 0x01, 0xd8, 0x27, 0x81, 0x30], &[0x81, 0x81, 0xd8, 0x27, 0x81, 0xff], &[0xff], &[]]).to_vec()) } else { None }).collect();
    let filters = (0..c.below(3)).map(|_| { let op = if c.chance(12) { c.below(12) as u32 } else { c.pick(&[5u32, 5, 8]) }; let arg = match c.below(8) { 0 => vec![], 1 => vec![0xff], 2 => vec![0x61, 0x61], 3 => vec![0xfb, 0x3f, 0xf8, 0, 0, 0, 0, 0, 0], x => vec![(x - 4) as u8] }; (op, arg) }).collect();
    let reducer = if c.chance(12) { c.below(14) as u32 } else { c.pick(&[2u32, 2, 3, 5]) };
    let commits = if c.chance(20) { 0 } else { n as usize + if c.chance(3) { c.below(6) as usize } else { 0 } };
    let k = c.below(n + 2) as f64;
    let min = if c.flip() { 0.01 * (1 + c.below(100)) as f64 } else { (k / commits.max(1) as f64).min(1.0) };
    Case { v, raw, filters, reducer, min, commits, fork2: !c.chance(4), w17: !c.chance(4), crowd: c.chance(40) }
}
fn main() {
    let mut c = Ctx::new();
    while c.more() {
        let k = gen_case(&mut c);
        let mut w = std::collections::HashMap::new();
        if k.fork2 { w.insert("WIP0009-0011-0012".to_string(), 0u32); }
        if k.w17 { w.insert("WIP0017-0018-0019".to_string(), 0u32); }
        let wips = ActiveWips { active_wips: w, block_epoch: 1 };
        let tally = RADTally { filters: k.filters.iter().map(|f| RADFilter { op: f.0, args: f.1.clone() }).collect(), reducer: k.reducer };
        let show = || { let v = format!("{:?}", k.v); format!("reveals {} ({} of them), filters {:?}, reducer {}, consensus {}, commits {}, second fork {}, wip17-19 {}, too many witnesses {}", v.chars().take(300).collect::<String>(), k.v.len(), k.filters, k.reducer, k.min, k.commits, k.fork2, k.w17, k.crowd) };
        c.case(&(k.v.len(), k.reducer, k.commits, format!("{:?}{:?}{}", k.v, k.filters, k.min)));
        let reports: Vec<_> = k.v.iter().zip(k.raw.iter()).flat_map(|(x, raw)| match raw { None => vec![RadonReport::from_result(Ok(x.real()), &ReportContext::default())],
            Some(b) => serial_iter_decode(&mut [(b.as_slice(), &())].into_iter(), |_, _, _| Some(RadonReport::from_result(Err(RadError::MalformedReveal), &ReportContext::default())), &wips) }).collect();
        let want = expected(&k);
        match guard(|| run_tally(reports, &tally, k.min, k.commits, &wips, k.crowd)) {
            Err(e) => c.fail(format!("panic ({}): {}", e, show())),
            Ok(r) => if let Some((o, liars, errors)) = want {
                if let Stage::Tally(m) = &r.context.stage {
                    if !fits(&r.result, &o, k.w17) { c.fail(format!("the result is {:?}, should be {:?}: {}", r.result, o, show())); }
                    else if m.liars != liars { c.fail(format!("the liars are {:?}, should be {:?}: {}", m.liars, liars, show())); }
                    else if errors.as_ref().is_some_and(|e| *e != m.errors) { c.fail(format!("the errors are {:?}, should be {:?}: {}", m.errors, errors, show())); }
                } else { c.fail(format!("not a tally: {}", show())); }
            },
        }
        c.sample(|| show());
    }
    c.done()
}
