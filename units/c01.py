from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
import re, radlib
ID = "C01"
CO, MR, MF, DF, FM, LI, SC, RR, VA, TY, AR, ER, OP = ["rad/src/" + x for x in ("conditions.rs", "reducers/mode.rs", "filters/mode.rs", "filters/deviation.rs", "filters/mod.rs", "lib.rs", "script.rs")] + ["data_structures/src/radon_report.rs", "validations/src/validations.rs"] + ["rad/src/" + x for x in ("types/mod.rs", "types/array.rs", "error.rs", "operators/array.rs")]
FILES = [CO, MR, MF, DF, FM, LI, SC, RR, VA, TY, AR, ER, OP, "rad/src/reducers/mod.rs", "rad/src/operators/mod.rs"]
RULE = "0 to 270 reveals of all eight kinds (mostly one kind, some repeated, some of another kind), up to two filters with good and bad arguments, every reducer code, 0 to 5 commits without a reveal, shares on and off the boundary, both sides of the second hard fork and of WIP-0017/18, with and without too many witnesses"
ASSUMPTIONS = ["floating-point arithmetic is uninterpreted (only counting up and conversion of counts is exact)", "the reducers average, median, deviation and hash, and the standard-deviation filter of numbers, decide values and verdicts as they please (mode, the mode filter and the row-wise deviation filter are proved)",
               "RadonArray::from_iter and the homogeneity flag, transpose, unpack_subscript and CBOR decoding of the filter arguments", "num_enum conversions, as_operable and the dispatch tables of operators/array.rs call codes outside filter and reduce are not reached by a tally script", "std HashMap counts and picks maxima; equality and hashing of RADON values are by value",
               "the conversion between an error and the RADON value for it (RadonTypes::RadonError, UnhandledIntercept)", "catch_unwind in run_tally_panic_safe", "the search builds the real rad crate against stand-ins for serde_cbor, cbor-codec, num_enum, ordered_float, regex, bs58 and others not available offline"]
NOTE = "run_tally, both clause evaluations, the script made from filters and reducer, its execution, mode, mode filter and the filter plumbing that tells liars are proved; what average, deviation and friends compute as numbers is only searched."
CN = "data_structures/src/chain/mod.rs"
OPAQUE = ["Bytes", "Float", "Integer", "Map", "String"]


def verus(u):
    co, mr, mf, df, fm, li, sc, rr, va, ty, ar, er, op = [u.src(x) for x in (CO, MR, MF, DF, FM, LI, SC, RR, VA, TY, AR, ER, OP)]
    bo = u.src("rad/src/types/boolean.rs")
    u.no_inline.update(["boolean_standard_filter", "transpose", "partial_results_extract"])
    u.result_fns.update(["try_from", "unpack_subscript", "filter_at", "reducer_at", "from_cbor"])
    u.file("consensus", LIGHT_PRELUDE)
    u.emit("global size_of usize == 8; broadcast use {vstd::std_specs::hash::group_hash_axioms, km::k1, fl::fax};")
    for n in OPAQUE:
        u.emit("#[derive(Clone, Debug)] pub struct Radon%s { x: u64 }" % n)
    u.emit_raw(u.struct_text(bo, "RadonBoolean", derive="Clone, Debug"))
    u.emit_impl(" RadonBoolean", [u.fn(bo, "RadonBoolean::value", trait="RadonType", ret="r", spec="ensures r == self.value"), u.fn(bo, "RadonBoolean::from", ret="r", spec="ensures r.value == input")])
    disc = u.struct_text(ty, "RadonTypesDiscriminant", derive="Clone, Copy, Debug")
    no = dict(re.findall(r"(\w+)\s*=\s*(\d+)", disc))
    u.emit_raw(re.sub(r"\s*=\s*\d+", "", disc).replace("#[repr(u8)]", ""))
    u.emit_raw(u.struct_text(ty, "RadonTypes", derive="", subst=[(r"RadonError<RadError>", "RadonError")]))
    u.emit_raw(u.struct_text(ar, "RadonArray", derive=""))
    u.emit_raw(u.struct_text(er, "RadError", derive="", keep_fields=["Unknown", "ModeTie", "EmptyArray", "InsufficientCommits", "TooManyWitnesses", "NoReveals", "InsufficientConsensus", "TallyExecution", "UnhandledIntercept", "UnhandledInterceptV2"]))
    u.emit("pub struct RadonError { inner: RadError }")
    for n in ("RadonTypes", "RadonArray", "RadError", "RadonError"):
        u.emit("impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % n)
    u.emit("#[derive(Clone, Debug)] pub struct ActiveWips { w17: bool, w18: bool, w19: bool, x: u64 }")
    G = [(r"<RT>", ""), (r"\bRT\b", "RadonTypes")]
    u.emit_raw(u.struct_text(rr, "TallyMetaData", keep_fields=["errors", "liars"], generics="", derive="Clone"))
    u.emit_raw(u.struct_text(rr, "Stage", keep_fields=["Aggregation", "Contextless", "Tally"], generics="", subst=G, derive="Clone"))
    u.emit_raw(u.struct_text(rr, "ReportContext", keep_fields=["call_index", "stage", "active_wips"], generics="", subst=G, derive="Clone"))
    u.emit_raw(u.struct_text(rr, "RadonReport", keep_fields=["context", "result"], generics="", subst=G, derive="Clone"))
    u.emit_raw(u.struct_text(co, "TallyPreconditionClauseResult", subst=[(r"RadonError<RadError>", "RadonError")]))
    u.emit_raw(u.struct_text(co, "Counter"))
    cn, op0, rm, av = [u.src(x) for x in (CN, "rad/src/operators/mod.rs", "rad/src/reducers/mod.rs", "rad/src/reducers/average.rs")]
    u.emit_raw(u.struct_text(cn, "RADFilter", derive="Clone, Debug"))
    u.emit_raw(u.struct_text(cn, "RADTally", derive="Clone, Debug"))
    u.emit_raw(u.struct_text(sc, "RadonScriptExecutionSettings", derive="Clone, Copy"))
    u.emit("""
    // two RADON values are the same when they encode alike
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RadonTypes { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for RadonTypes { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    impl Eq for RadonTypes {}
    impl std::hash::Hash for RadonTypes { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for RadonTypesDiscriminant { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
    impl PartialEq for RadonTypesDiscriminant { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
    mod km { use super::*; pub broadcast axiom fn k1() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<RadonTypes>(); }
    // shares: floating point stays uninterpreted, only counting up is exact
    pub mod fl { use super::*;
        pub uninterp spec fn num(n: int) -> f64;
        pub uninterp spec fn share(a: f64, b: f64) -> f64;
        pub uninterp spec fn reaches(a: f64, b: f64) -> bool;
        pub uninterp spec fn exceeds(a: f64, b: f64) -> bool;
        pub uninterp spec fn below(a: f64, b: f64) -> bool;
        pub broadcast group fax { f1, f2, f3, f4, f5 }
        pub broadcast axiom fn f1(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
        pub broadcast axiom fn f2(a: f64, b: f64, r: f64) ensures #[trigger] vstd::std_specs::ops::div_ensures(a, b, r) ==> r == share(a, b);
        pub broadcast axiom fn f3(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::ge_ensures(a, b, r) ==> r == reaches(a, b);
        pub broadcast axiom fn f4(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::gt_ensures(a, b, r) ==> r == exceeds(a, b);
        pub broadcast axiom fn f5(a: f64, b: f64, r: bool) ensures #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, r) ==> r == below(a, b);
    }
    use fl::*;
    pub trait Count { spec fn n(&self) -> int; }
    impl Count for i32 { open spec fn n(&self) -> int { *self as int } }
    impl Count for u32 { open spec fn n(&self) -> int { *self as int } }
    impl Count for u16 { open spec fn n(&self) -> int { *self as int } }
    impl Count for usize { open spec fn n(&self) -> int { *self as int } }
    #[verifier::external_body] fn f_from<T: Count>(x: T) -> (r: f64) requires x.n() <= u32::MAX ensures r == num(x.n()) { unimplemented!() }
    #[verifier::external_body] fn f_zero() -> (r: f64) ensures r == num(0) { unimplemented!() }
    #[verifier::external_body] fn f_inc(x: f64) -> (r: f64) ensures forall|n: int| 0 <= n < u32::MAX && x == #[trigger] num(n) ==> r == num(n + 1) { unimplemented!() }
    uninterp spec fn fork2(w: ActiveWips) -> bool;
    impl ActiveWips {
        #[verifier::external_body] fn wips_0009_0011_0012(&self) -> (r: bool) ensures r == fork2(*self) { unimplemented!() }
        #[verifier::external_body] fn wip0018(&self) -> (r: bool) ensures r == self.w18 { unimplemented!() }
        #[verifier::external_body] fn wip0017(&self) -> (r: bool) ensures r == self.w17 { unimplemented!() }
        #[verifier::external_body] fn wip0019(&self) -> (r: bool) ensures r == self.w19 { unimplemented!() }
    }
    #[verifier::external_body] fn crash() -> RadonReport requires false { panic!() }
    #[verifier::external_body] fn ok_or<T, E>(r: Result<T, E>, d: T) -> (x: T) ensures x == (match r { Ok(y) => y, Err(_) => d }) { unimplemented!() }
    #[verifier::external_body] fn cl<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
    // HashMap::entry + or_insert, values().max(), into_iter()
    #[verifier::external_body] fn entry_or_insert<'a>(m: &'a mut HashMap<RadonTypes, usize>, k: RadonTypes, d: usize) -> (r: &'a mut usize) ensures *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { d }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] fn max_value(m: &HashMap<RadonTypes, usize>) -> (r: Option<&usize>) ensures match r { None => m@.dom() =~= Set::empty(), Some(x) => (exists|k: RadonTypes| m@.contains_key(k) && m@[k] == *x) && forall|k: RadonTypes| #[trigger] m@.contains_key(k) ==> m@[k] <= *x } { unimplemented!() }
    spec fn firsts(p: Seq<(RadonTypes, usize)>) -> Seq<RadonTypes> { p.map_values(|x: (RadonTypes, usize)| x.0) }
    #[verifier::external_body] fn map_pairs(m: HashMap<RadonTypes, usize>) -> (r: Vec<(RadonTypes, usize)>) ensures firsts(r@).no_duplicates(), forall|i: int| 0 <= i < r@.len() ==> m@.contains_key((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1, forall|k: RadonTypes| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
    """)
    u.emit("spec fn no(d: RadonTypesDiscriminant) -> int { match d { %s } }" % ", ".join("RadonTypesDiscriminant::%s => %sint" % kv for kv in no.items()))
    u.emit("#[verifier::external_body] fn disc_usize(d: RadonTypesDiscriminant) -> (r: usize) ensures r == no(d) { unimplemented!() }")
    u.emit("""
    spec fn kind(x: RadonTypes) -> RadonTypesDiscriminant { match x { RadonTypes::Array(_) => RadonTypesDiscriminant::Array, RadonTypes::Boolean(_) => RadonTypesDiscriminant::Boolean, RadonTypes::Bytes(_) => RadonTypesDiscriminant::Bytes,
        RadonTypes::RadonError(_) => RadonTypesDiscriminant::Error, RadonTypes::Float(_) => RadonTypesDiscriminant::Float, RadonTypes::Integer(_) => RadonTypesDiscriminant::Integer, RadonTypes::Map(_) => RadonTypesDiscriminant::Map, RadonTypes::String(_) => RadonTypesDiscriminant::String } }
    type Vals = Seq<RadonTypes>;
    // how many of the first n values are x; the most frequent value
    spec fn times(v: Vals, x: RadonTypes, n: int) -> int decreases n { if n <= 0 { 0 } else { times(v, x, n - 1) + if v[n - 1] == x { 1int } else { 0int } } }
    spec fn all_times(v: Vals, x: RadonTypes) -> int { times(v, x, v.len() as int) }
    spec fn is_mode(v: Vals, x: RadonTypes) -> bool { v.len() > 0 && forall|y: RadonTypes| y != x ==> #[trigger] all_times(v, y) < all_times(v, x) }
    spec fn is_tied(v: Vals, m: int) -> bool { (exists|x: RadonTypes, y: RadonTypes| x != y && #[trigger] all_times(v, x) == m && #[trigger] all_times(v, y) == m) && m > 0 && forall|z: RadonTypes| #[trigger] all_times(v, z) <= m }
    spec fn mode_of(v: Vals, r: Result<RadonTypes, RadError>) -> bool {
        match r { Ok(x) => is_mode(v, x), Err(e) => if v.len() == 0 { e == RadError::EmptyArray } else { e matches RadError::ModeTie { values, max_count } && values.value@ == v && exists|m: int| #[trigger] is_tied(v, m) && max_count == (if m <= u16::MAX { m } else { u16::MAX as int }) } }
    }
    proof fn times_bound(v: Vals, x: RadonTypes, n: int) requires 0 <= n ensures 0 <= times(v, x, n) <= n, times(v, x, n) > 0 ==> exists|i: int| 0 <= i < n && v[i] == x decreases n
    { PROBE(times_bound); if n > 0 { times_bound(v, x, n - 1); if times(v, x, n) > 0 { if v[n - 1] == x { assert(0 <= n - 1 < n); } } } }
    // the entries of a list of pairs with value m
    spec fn picked(p: Seq<(RadonTypes, usize)>, m: int, n: int) -> Vals decreases n { if n <= 0 { Seq::empty() } else { let q = picked(p, m, n - 1); if p[n - 1].1 == m { q.push(p[n - 1].0) } else { q } } }
    proof fn picked_is(p: Seq<(RadonTypes, usize)>, m: int, n: int) requires 0 <= n <= p.len(), firsts(p).no_duplicates()
        ensures picked(p, m, n).no_duplicates(), forall|x: RadonTypes| #[trigger] picked(p, m, n).contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] p[i]).0 == x && p[i].1 == m decreases n
    {
        PROBE(picked_is);
        if n > 0 {
            picked_is(p, m, n - 1);
            let (q, r) = (picked(p, m, n - 1), picked(p, m, n));
            assert forall|x: RadonTypes| #[trigger] r.contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] p[i]).0 == x && p[i].1 == m by {
                if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; if j < q.len() { assert(q[j] == x); assert(q.contains(x)); } else { assert(p[n - 1].0 == x && p[n - 1].1 == m); } }
                if exists|i: int| 0 <= i < n && (#[trigger] p[i]).0 == x && p[i].1 == m { let i = choose|i: int| 0 <= i < n && (#[trigger] p[i]).0 == x && p[i].1 == m; if i < n - 1 { assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(r[j] == x); } else { assert(r[q.len() as int] == x); } }
            }
            if p[n - 1].1 == m && q.contains(p[n - 1].0) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] p[i]).0 == p[n - 1].0 && p[i].1 == m; assert(firsts(p)[i] == firsts(p)[n - 1]); }
        }
    }
    proof fn tops(v: Vals, m: Map<RadonTypes, usize>) requires forall|k: RadonTypes| #[trigger] m.contains_key(k) <==> all_times(v, k) > 0 ensures v.len() == 0 <==> m.dom() =~= Set::empty()
    {
        PROBE(tops);
        if v.len() > 0 { assert(times(v, v[v.len() - 1], v.len() as int) > 0) by { times_bound(v, v[v.len() - 1], v.len() - 1); } assert(m.contains_key(v[v.len() - 1])); }
        else { assert forall|k: RadonTypes| !m.dom().contains(k) by { assert(all_times(v, k) == 0); } }
    }
    """)
    u.emit_impl(" RadonArray", [u.fn(ar, "RadonArray::value", ret="r", subst=[(r"self\.value\.clone\(\)", "cl(&self.value)")], spec="ensures r@ == self.value@")])
    u.emit("""impl From<RadonArray> for RadonTypes { fn from(a: RadonArray) -> Self { RadonTypes::Array(a) } }
    impl vstd::std_specs::convert::FromSpecImpl<RadonArray> for RadonTypes { open spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(a: RadonArray) -> Self { RadonTypes::Array(a) } }
    impl RadonArray { #[verifier::external_body] fn from_vec(value: Vec<RadonTypes>) -> (r: RadonArray) ensures r.value@ == value@, r.is_homogeneous == homogeneous(value@) { unimplemented!() }
        fn is_homogeneous(&self) -> (r: bool) ensures r == self.is_homogeneous { self.is_homogeneous }
        fn into_radon(self) -> (r: RadonTypes) ensures r == RadonTypes::Array(self) { RadonTypes::Array(self) } }""")
    u.emit_impl(" RadonTypes", [u.fn(ty, "RadonTypes::discriminant", ret="r", spec="ensures r == kind(*self)"), u.fn(ty, "RadonTypes::num_types", ret="r", spec="ensures r == 8")])
    AF = (r"RadonArray::from\(", "RadonArray::from_vec(")
    u.emit_fn(mr, "mode", ret="r", desugar=["filter", "map", "collect", "next"], subst=[(r"(u16::try_from\([^()]*\))\s*\.unwrap_or\(([^()]*)\)", r"ok_or(\1, \2)"), (r"\*counter\s*\.entry\(item\)\s*\.or_insert\(0\)\s*\+= 1", "let e = entry_or_insert(&mut counter, item, 0); *e = *e + 1"), (r"counter\.clone\(\)", "cl(&counter)"), (r"temp_counter\.values\(\)\.max\(\)", "max_value(&temp_counter)"), (r"input\.clone\(\)", "cl(input)"), (r"let &\(([^)]*)\) = &(__e\d+)", r"let (\1) = \2")],
        loops={0: dict(inv="it0.seq() == input.value@, it0.seq().len() <= usize::MAX, forall|k: RadonTypes| #[trigger] counter@.contains_key(k) <==> times(input.value@, k, it0.index@ as int) > 0, forall|k: RadonTypes| #[trigger] counter@.contains_key(k) ==> counter@[k] == times(input.value@, k, it0.index@ as int)",
                before="assert(value.len() == value@.len());", start="proof { times_bound(input.value@, item, it0.index@ as int); }"),
            1: dict(bind="__s1", cty="Vec<RadonTypes>", iter_of=["counter.into_iter()"], iter_as=lambda its, n, r: "map_pairs(counter)", before="let ghost p = __s1@; let ghost m = *max_count as int; proof { tops(input.value@, temp_counter@); }",
                inv="it1.seq() == p, *max_count == m, firsts(p).no_duplicates(), __c@ == picked(p, m, it1.index@ as int)", after="""proof { picked_is(p, m, p.len() as int); let w = __c@; let v = input.value@;
            assert forall|x: RadonTypes| #[trigger] w.contains(x) implies all_times(v, x) == m by { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x && p[i].1 == m; assert(temp_counter@.contains_key(p[i].0)); }
            assert forall|x: RadonTypes| #[trigger] all_times(v, x) == m && m > 0 implies w.contains(x) by { assert(temp_counter@.contains_key(x)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x; assert(temp_counter@[p[i].0] == p[i].1); } }""")},
        after=[(r"let temp_counter", "proof { tops(input.value@, temp_counter@); }")],
        before=[(r"if mode_vector\.len\(\) > 1", """proof { let w = mode_vector@; let v = input.value@; let m = *max_count as int;
                        assert forall|x: RadonTypes| #[trigger] all_times(v, x) <= m by { times_bound(v, x, v.len() as int); if all_times(v, x) > 0 { assert(temp_counter@.contains_key(x)); } }
            let k0 = choose|k: RadonTypes| temp_counter@.contains_key(k) && temp_counter@[k] == m; assert(all_times(v, k0) == m); assert(w.contains(k0)); times_bound(v, k0, v.len() as int);
            assert(w.len() > 0); assert(w.contains(w[0]));
            if w.len() > 1 { assert(w[0] != w[1] && w.contains(w[1])); assert(is_tied(v, m)); }
            else { assert forall|y: RadonTypes| y != w[0] implies #[trigger] all_times(v, y) < all_times(v, w[0]) by { if all_times(v, y) == m { assert(w.contains(y)); } } } }""")],
        spec="ensures mode_of(input.value@, r)")
    u.emit("""
    impl Counter {
        // max_val is the largest of the counters, max_pos the only one that has it
        spec fn ok(&self) -> bool {
            &&& forall|i: int| 0 <= i < self.categories@.len() ==> 0 <= #[trigger] self.categories@[i] <= self.max_val
            &&& match self.max_pos {
                    Some(p) => p < self.categories@.len() && self.categories@[p as int] == self.max_val && self.max_val > 0 && forall|i: int| 0 <= i < self.categories@.len() && i != p ==> #[trigger] self.categories@[i] < self.max_val,
                    None => self.max_val == 0 || exists|i: int, j: int| 0 <= i < j < self.categories@.len() && #[trigger] self.categories@[i] == self.max_val && #[trigger] self.categories@[j] == self.max_val,
                }
        }
    }
    """)
    u.emit_impl(" Counter", [
        u.fn(co, "Counter::new", ret="r", spec="ensures r.ok(), r.categories@.len() == n, r.max_val == 0, forall|i: int| 0 <= i < n ==> #[trigger] r.categories@[i] == 0"),
        u.fn(co, "Counter::increment", end="""proof { let (o, n, c) = (*old(self), *self, category_id as int);
            assert forall|i: int| 0 <= i < n.categories@.len() implies 0 <= #[trigger] n.categories@[i] <= n.max_val by { assert(o.categories@[i] <= o.max_val); }
            if n.categories@[c] == o.max_val { match o.max_pos { Some(p) => { assert(p != c); if c < p { assert(n.categories@[c] == n.max_val && n.categories@[p as int] == n.max_val); } else { assert(n.categories@[p as int] == n.max_val && n.categories@[c] == n.max_val); } }
                None => { let (i, j) = choose|i: int, j: int| 0 <= i < j < o.categories@.len() && #[trigger] o.categories@[i] == o.max_val && #[trigger] o.categories@[j] == o.max_val; assert(n.categories@[i] == n.max_val && n.categories@[j] == n.max_val); } } }
            else if n.categories@[c] < o.max_val && o.max_pos is None { let (i, j) = choose|i: int, j: int| 0 <= i < j < o.categories@.len() && #[trigger] o.categories@[i] == o.max_val && #[trigger] o.categories@[j] == o.max_val; assert(n.categories@[i] == n.max_val && n.categories@[j] == n.max_val); } }""", spec="requires old(self).ok(), category_id < old(self).categories@.len(), old(self).categories@[category_id as int] < i32::MAX ensures final(self).ok(), final(self).categories@ == old(self).categories@.update(category_id as int, (old(self).categories@[category_id as int] + 1) as i32)"),
    ])
    u.emit("""
    #[verifier::prophetic] spec fn left<'a>(i: std::slice::Iter<'a, bool>) -> Seq<&'a bool> { vstd::std_specs::iter::IteratorSpec::remaining(&i) }
    // marks: unmarked ones among the first n; a second round of marks over the unmarked ones; the values left unmarked
    spec fn free(l: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { free(l, n - 1) + if l[n - 1] { 0int } else { 1int } } }
    spec fn all_free(l: Seq<bool>) -> int { free(l, l.len() as int) }
    spec fn merged(l: Seq<bool>, x: Seq<bool>) -> Seq<bool> { Seq::new(l.len(), |i: int| l[i] || x[free(l, i)]) }
    spec fn remarked(l: Seq<bool>, x: Seq<bool>) -> Seq<bool> { if l.len() == 0 { x } else if x.len() == 0 { l } else { merged(l, x) } }
    proof fn free_bound(l: Seq<bool>, n: int, m: int) requires 0 <= n <= m ensures 0 <= free(l, n) <= free(l, m), free(l, m) - free(l, n) <= m - n decreases m
    { PROBE(free_bound); if n < m { free_bound(l, n, m - 1); } else if n > 0 { free_bound(l, n - 1, m - 1); } }
    """)
    u.emit_impl(" TallyMetaData", [
        u.fn(rr, "TallyMetaData::default", trait="Default", ret="r", subst=[(r"consensus: 1\.0,|subscript_partial_results: vec!\[\],", "")], spec="ensures r.errors@.len() == 0, r.liars@.len() == 0"),
        u.fn(rr, "TallyMetaData::update_liars", desugar=["next", "iter_mut"], subst=[(r"self\.consensus = [^;]*;", "")], start="let ghost (l0, x) = (self.liars@, new_liars@);",
            loops={0: dict(inv="__i0 <= self.liars@.len(), self.liars@.len() == l0.len(), self.errors == old(self).errors, all_free(l0) == x.len(), left(new_iter).unref() == x.skip(free(l0, __i0 as int)), forall|j: int| __i0 <= j < l0.len() ==> #[trigger] self.liars@[j] == l0[j], forall|j: int| 0 <= j < __i0 ==> #[trigger] self.liars@[j] == (l0[j] || x[free(l0, j)])", dec="self.liars@.len() - __i0",
                before="proof { assert(x.skip(0) =~= x); }", start="proof { free_bound(l0, __i0 as int, __i0 as int); free_bound(l0, __i0 as int + 1, l0.len() as int); let f = free(l0, __i0 as int); if !l0[__i0 as int] { assert(x.skip(f)[0] == x[f]); assert(x.skip(f).skip(1) =~= x.skip(f + 1)); } }", after="proof { assert(self.liars@ =~= merged(l0, x)); }")},
            spec="requires old(self).liars@.len() > 0 && new_liars@.len() > 0 ==> all_free(old(self).liars@) == new_liars@.len() ensures final(self).errors == old(self).errors, final(self).liars@ == remarked(old(self).liars@, new_liars@)")])
    u.emit("""
    // errors become values: those without an encoding are wrapped
    uninterp spec fn radon_error(e: RadError) -> Result<RadonError, RadError>;
    #[verifier::external_body] fn try_radon_error(e: RadError) -> (r: Result<RadonError, RadError>) ensures r == radon_error(e) { unimplemented!() }
    spec fn as_value(r: Result<RadonTypes, RadError>) -> RadonTypes { match r { Ok(x) => x, Err(e) => RadonTypes::RadonError(match radon_error(e) { Ok(x) => x, Err(e2) => RadonError { inner: RadError::UnhandledIntercept { inner: Some(Box::new(e2)), message: None } } }) } }
    impl RadonError { fn new(inner: RadError) -> (r: RadonError) ensures r.inner == inner { RadonError { inner } }
        fn inner(&self) -> (r: &RadError) ensures *r == self.inner { &self.inner } }
    """)
    u.emit_impl(" RadonTypes", [
        u.fn(ty, "RadonTypes::intercept", trait="TypeLike", ret="r", sig_subst=[(r"Self::Error", "RadError")], subst=[(r"RadonError::try_from\(", "try_radon_error(")], desugar=["opt_unwrap_or_else"], spec="ensures r == as_value(result)"),
        u.fn(ty, "RadonTypes::remove_message_from_error_unhandled_intercept", spec="ensures *final(self) == unmessaged(*old(self))")])
    u.emit("""
    spec fn unmessaged(x: RadonTypes) -> RadonTypes { match x { RadonTypes::RadonError(RadonError { inner: RadError::UnhandledIntercept { inner, message } }) => RadonTypes::RadonError(RadonError { inner: RadError::UnhandledInterceptV2 { inner } }), _ => x } }
    """)
    u.emit_impl(" RadonReport", [
        u.fn(rr, "RadonReport::from_result", ret="r", sig_subst=[(r"RT::Error", "RadError"), (r"\bRT\b", "RadonTypes"), (r"<RadonTypes>", "")], subst=[(r"RT::intercept", "RadonTypes::intercept"), (r"context\.clone\(\)", "cl(context)"), (r"partial_results: None,", ""), (r"running_time: context\.duration\(\),", "")], spec="ensures r.result == as_value(result), r.context == *context"),
        u.fn(rr, "RadonReport::into_inner", ret="r", sig_subst=[(r"\bRT\b", "RadonTypes")], spec="ensures r == self.result")])
    u.emit_impl(" ReportContext", [
        u.fn(rr, "ReportContext::default", trait="Default", ret="r", subst=[(r"\b(call_arguments|call_argument_index|call_operator|completion_time|start_time|script_index|protocol_version): None,", "")], spec="ensures r.stage == Stage::Contextless, r.active_wips is None"),
        u.fn(rr, "ReportContext::from_stage", ret="r", sig_subst=[(r"<RT>", "")], subst=[(r"Default::default", "ReportContext::default")], spec="ensures r.stage == stage, r.active_wips is None")])
    RT = [(r"<RadonTypes>", "")]
    u.emit("""
    spec fn kept(v: Vals, l: Seq<bool>, n: int) -> Vals decreases n { if n <= 0 { Seq::empty() } else { let q = kept(v, l, n - 1); if l[n - 1] { q } else { q.push(v[n - 1]) } } }
    // a filter marks what it drops
    spec fn marked(a: Stage, x: Seq<bool>, b: Stage) -> bool { match a { Stage::Tally(m) => b matches Stage::Tally(m2) && m2.errors == m.errors && m2.liars@ == remarked(m.liars@, x), _ => b == a } }
    spec fn fits(s: Stage, n: int) -> bool { s matches Stage::Tally(m) ==> m.liars@.len() > 0 && n > 0 ==> all_free(m.liars@) == n }
    spec fn others(v: Vals, x: RadonTypes) -> Seq<bool> { v.map_values(|y: RadonTypes| y != x) }
    """)
    u.emit_fn(mf, "mode_filter", ret="r", sig_subst=RT, desugar=["filter", "collect"], subst=[AF, (r"let mode = mode\(input\)\?", "let m = mode(input)?"), (r"&mode\b", "&m"), (r"\(filtered_vec\)\.into\(\)", "(filtered_vec).into_radon()"), (r"let Stage::Tally\(ref mut metadata\) = context\.stage", "let Stage::Tally(metadata) = &mut context.stage")],
        loops={0: dict(bind="__s0", inv="it0.seq() == v, liars@ == others(v, m).take(it0.index@ as int), __c@ == kept(v, others(v, m), it0.index@ as int)", before="let ghost v = input.value@; proof { assert(others(v, m).take(0) =~= Seq::empty()); }", after="proof { assert(others(v, m).take(v.len() as int) =~= others(v, m)); }",
            start="proof { assert(others(v, m).take(it0.index@ + 1) =~= others(v, m).take(it0.index@ as int).push(v[it0.index@ as int] != m)); }")},
        spec="""requires fits(old(context).stage, input.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, match r {
            Ok(x) => exists|m: RadonTypes| #[trigger] is_mode(input.value@, m) && (x matches RadonTypes::Array(a) && a.is_homogeneous == homogeneous(a.value@) && a.value@ == kept(input.value@, others(input.value@, m), input.value@.len() as int)) && marked(old(context).stage, others(input.value@, m), final(context).stage),
            Err(_) => final(context).stage == old(context).stage && mode_of(input.value@, r) }""")
    u.emit("spec fn kind_no(i: int) -> RadonTypesDiscriminant { %s RadonTypesDiscriminant::%s }" % ("".join("if i == %s { RadonTypesDiscriminant::%s } else { " % (v, k) for k, v in list(no.items())[:-1]), list(no)[-1]) + " }" * (len(no) - 1))
    u.emit("""
    proof fn numbers() ensures forall|i: int| 0 <= i < 8 ==> no(#[trigger] kind_no(i)) == i, forall|d: RadonTypesDiscriminant| 0 <= #[trigger] no(d) < 8 && kind_no(no(d)) == d { PROBE(numbers); }
    type Reports = Seq<RadonReport>;
    type Kind = RadonTypesDiscriminant;
    spec fn values_of(r: Reports) -> Vals { r.map_values(|x: RadonReport| x.result) }
    spec fn of_kind(v: Vals, k: Kind, n: int) -> int decreases n { if n <= 0 { 0 } else { of_kind(v, k, n - 1) + if kind(v[n - 1]) == k { 1int } else { 0int } } }
    spec fn all_of(v: Vals, k: Kind) -> int { of_kind(v, k, v.len() as int) }
    proof fn kinds_bound(v: Vals, k: Kind, n: int) requires 0 <= n ensures 0 <= of_kind(v, k, n) <= n decreases n { PROBE(kinds_bound); if n > 0 { kinds_bound(v, k, n - 1); } }
    // the number of values of the most frequent kind; the only most frequent kind
    spec fn top_count(v: Vals, m: int) -> bool { (exists|k: Kind| #[trigger] all_of(v, k) == m) && forall|k: Kind| #[trigger] all_of(v, k) <= m }
    spec fn top_kind(v: Vals, k: Kind) -> bool { forall|j: Kind| j != k ==> #[trigger] all_of(v, j) < all_of(v, k) }
    spec fn other_kind(v: Vals, k: Kind) -> Seq<bool> { v.map_values(|x: RadonTypes| kind(x) != k) }
    spec fn in_error(v: Vals) -> Seq<bool> { v.map_values(|x: RadonTypes| kind(x) == Kind::Error) }
    spec fn rest(v: Vals, l: Seq<bool>) -> Vals { kept(v, l, v.len() as int) }
    type Verdict = Result<TallyPreconditionClauseResult, RadError>;
    // a majority of errors: the most frequent one, if enough
    spec fn on_errors(e: Vals, min: f64, of: int, r: Verdict) -> bool {
        ||| exists|x: RadonTypes| #[trigger] is_mode(e, x) && ({ let a = share(num(all_times(e, x)), num(of)); r == (if reaches(a, min) { Verdict::Ok(TallyPreconditionClauseResult::MajorityOfErrors { errors_mode: x->RadonError_0 }) } else { Verdict::Err(RadError::InsufficientConsensus { achieved: a, required: min }) }) && x is RadonError })
        ||| exists|m: int| #[trigger] is_tied(e, m) && ({ let a = share(num(m), num(of)); if below(a, min) { r == Verdict::Err(RadError::InsufficientConsensus { achieved: a, required: min }) } else { r matches Err(RadError::ModeTie { values, max_count }) && values.value@ == e && max_count == m } })
    }
    // what the reveals amount to
    spec fn verdict(v: Vals, min: f64, commits: int, fork2: bool, crowd: bool, r: Verdict) -> bool {
        if crowd { r == Verdict::Err(RadError::TooManyWitnesses) }
        else if commits == 0 { r == Verdict::Err(RadError::InsufficientCommits) }
        else if v.len() == 0 { r == Verdict::Err(RadError::NoReveals) }
        else { exists|m: int| #[trigger] top_count(v, m) && ({ let a = share(num(m), num(commits));
            if !reaches(a, min) { r == Verdict::Err(RadError::InsufficientConsensus { achieved: a, required: min }) }
            else {
                ||| (forall|k: Kind| !#[trigger] top_kind(v, k)) && (r matches Err(RadError::ModeTie { values, max_count }) && values.value@ == v && max_count == m)
                ||| exists|k: Kind| #[trigger] top_kind(v, k) && if k == Kind::Error { on_errors(rest(v, other_kind(v, k)), min, if fork2 { commits } else { v.len() as int }, r) }
                        else { r matches Ok(TallyPreconditionClauseResult::MajorityOfValues { values, liars, errors }) && values@ == rest(v, other_kind(v, k)) && liars@ == other_kind(v, k) && errors@ == in_error(v) }
            } }) }
    }
    proof fn kept_errors(v: Vals, l: Seq<bool>, n: int, k: Kind) requires 0 <= n <= v.len(), l == other_kind(v, k) ensures forall|i: int| 0 <= i < kept(v, l, n).len() ==> kind(#[trigger] kept(v, l, n)[i]) == k, kept(v, l, n).len() == of_kind(v, k, n) decreases n
    { PROBE(kept_errors); if n > 0 { kept_errors(v, l, n - 1, k); } }
    proof fn kept_modes(v: Vals, x: RadonTypes, n: int) requires 0 <= n <= v.len() ensures kept(v, others(v, x), n).len() == times(v, x, n) decreases n
    { PROBE(kept_modes); if n > 0 { kept_modes(v, x, n - 1); } }
    """)
    u.emit("""
    proof fn mode_facts(es: Vals) requires es.len() > 0, forall|i: int| 0 <= i < es.len() ==> kind(#[trigger] es[i]) == Kind::Error
        ensures forall|x: RadonTypes| #[trigger] is_mode(es, x) ==> x is RadonError && kept(es, others(es, x), es.len() as int).len() == all_times(es, x) && 0 < all_times(es, x) <= es.len(),
            forall|x: RadonTypes, y: RadonTypes| #[trigger] is_mode(es, x) && #[trigger] is_mode(es, y) ==> x == y, forall|m: int, x: RadonTypes| #[trigger] is_tied(es, m) && #[trigger] is_mode(es, x) ==> false, forall|m: int| #[trigger] is_tied(es, m) ==> 0 < m <= es.len(),
    {
        PROBE(mode_facts);
        let n = es.len() as int;
        assert forall|x: RadonTypes| #[trigger] is_mode(es, x) implies x is RadonError && kept(es, others(es, x), n).len() == all_times(es, x) && 0 < all_times(es, x) <= n by {
            kept_modes(es, x, n); times_bound(es, x, n); let y = es[n - 1]; times_bound(es, y, n - 1); assert(all_times(es, y) > 0); if x != y { assert(all_times(es, y) < all_times(es, x)); } let i = choose|i: int| 0 <= i < n && es[i] == x; assert(kind(es[i]) == Kind::Error); }
        assert forall|x: RadonTypes, y: RadonTypes| #[trigger] is_mode(es, x) && #[trigger] is_mode(es, y) implies x == y by { if x != y { assert(all_times(es, x) < all_times(es, y)); assert(all_times(es, y) < all_times(es, x)); } }
        assert forall|m: int| #[trigger] is_tied(es, m) implies 0 < m <= n && forall|x: RadonTypes| !is_mode(es, x) by {
            let (a, b) = choose|a: RadonTypes, b: RadonTypes| a != b && #[trigger] all_times(es, a) == m && #[trigger] all_times(es, b) == m; times_bound(es, a, n);
            assert forall|x: RadonTypes| !is_mode(es, x) by { assert(all_times(es, x) <= m); if is_mode(es, x) { if x != a { assert(all_times(es, a) < all_times(es, x)); } else { assert(all_times(es, b) < all_times(es, x)); } } } }
    }
    """)
    NUM = [(r"usize::from\(", "disc_usize("), (r"f64::from\(", "f_from("), (r"([\w.]+(?:\(\))?) as f64", r"f_from(\1)")]
    u.emit_fn(co, "update_liars", ret="r", spec="ensures final(liars)@ == old(liars)@.push(!condition), r == (if condition { Some(item) } else { None })")
    u.emit_fn(co, "evaluate_tally_precondition_clause", ret="r", sig_subst=RT, desugar=["filter_map", "map", "collect"], cty="Vec<RadonTypes>",
        subst=NUM + [AF, (r"filters::mode::", ""), (r"let mut (errors|liars) = vec!\[\];", r"let mut \1: Vec<bool> = vec![];"), (r"radon_types @ RadonTypes::RadonError\(_\) => Some\(radon_types\)", "RadonTypes::RadonError(e) => Some(RadonTypes::RadonError(e))")],
        start="let ghost rv = reveals@; let ghost vs = values_of(rv); let ghost e = other_kind(vs, Kind::Error); proof { numbers(); }",
        loops={0: dict(inv="it0.seq().unref() == reveals@, reveals@.len() <= u16::MAX, vs == values_of(reveals@), error_type_discriminant == Kind::Error, counter.ok(), counter.categories@.len() == 8, forall|k: Kind| counter.categories@[#[trigger] no(k)] == of_kind(vs, k, it0.index@ as int), errors@ == in_error(vs).take(it0.index@ as int)",
                before="proof { assert(in_error(vs).take(0) =~= Seq::empty()); }", start="proof { numbers(); let i = it0.index@ as int; kinds_bound(vs, kind(vs[i]), i); assert(vs[i] == reveal.result); assert(in_error(vs).take(i + 1) =~= in_error(vs).take(i).push(kind(vs[i]) == Kind::Error)); assert(counter.categories@[no(kind(vs[i]))] == of_kind(vs, kind(vs[i]), i)); }",
                after="proof { assert(in_error(vs).take(vs.len() as int) =~= in_error(vs)); }"),
            1: dict(inv="it1.seq() == rv, values_of(rv) == vs, __c@ == vs.take(it1.index@ as int)", before="proof { assert(vs.take(0) =~= Seq::empty()); }", start="proof { let i = it1.index@ as int; assert(vs[i] == rv[i].result); assert(vs.take(i + 1) =~= vs.take(i).push(vs[i])); }", after="proof { assert(vs.take(vs.len() as int) =~= vs); }"),
            2: dict(inv="it2.seq() == rv, values_of(rv) == vs, e == other_kind(vs, Kind::Error), __c@ == kept(vs, e, it2.index@ as int)", before="", start="proof { let i = it2.index@ as int; assert(vs[i] == rv[i].result); assert(e[i] == (kind(vs[i]) != Kind::Error)); }", after="proof { kept_errors(vs, e, vs.len() as int, Kind::Error); }"),
            3: dict(inv="it3.seq() == rv, values_of(rv) == vs, most_frequent_type < 8, o == other_kind(vs, kind_no(most_frequent_type as int)), liars@ == o.take(it3.index@ as int), __c@ == kept(vs, o, it3.index@ as int)", before="let ghost o = other_kind(vs, kind_no(most_frequent_type as int)); proof { assert(o.take(0) =~= Seq::empty()); }",
                start="proof { numbers(); let i = it3.index@ as int; assert(vs[i] == rv[i].result); assert(o[i] == (kind(vs[i]) != kind_no(most_frequent_type as int))); assert(o.take(i + 1) =~= o.take(i).push(o[i])); }", after="proof { assert(o.take(vs.len() as int) =~= o); }")},
        before=[(r"let mut num_commits_f", """proof { let (c, n) = (counter.categories@, vs.len() as int);
            assert forall|k: Kind| #[trigger] all_of(vs, k) <= counter.max_val by { kinds_bound(vs, k, n); assert(c[no(k)] == all_of(vs, k)); }
            kinds_bound(vs, kind(vs[n - 1]), n - 1); assert(all_of(vs, kind(vs[n - 1])) > 0);
            match counter.max_pos { Some(p) => { let k = kind_no(p as int); assert(c[no(k)] == all_of(vs, k)); assert forall|j: Kind| j != k implies #[trigger] all_of(vs, j) < all_of(vs, k) by { assert(c[no(j)] == all_of(vs, j)); assert(no(j) != p); } assert(top_kind(vs, k)); kinds_bound(vs, k, n); }
                None => { let (i, j) = choose|i: int, j: int| 0 <= i < j < 8 && #[trigger] c[i] == counter.max_val && #[trigger] c[j] == counter.max_val; let (a, b) = (kind_no(i), kind_no(j)); assert(c[no(a)] == all_of(vs, a) && c[no(b)] == all_of(vs, b)); kinds_bound(vs, a, n);
                    assert forall|k: Kind| !#[trigger] top_kind(vs, k) by { if no(k) == i { assert(k != b); assert(all_of(vs, b) >= all_of(vs, k)); } else { assert(k != a); assert(all_of(vs, a) >= all_of(vs, k)); } } } }
            assert(top_count(vs, counter.max_val as int)); }"""), (r"let most_common_error_array", "proof { assert(top_kind(vs, Kind::Error)); let es = errors_array.value@; assert(es == rest(vs, e)); mode_facts(es); }")],
        spec="requires reveals@.len() <= u16::MAX, num_commits <= u32::MAX ensures verdict(values_of(reveals@), minimum_consensus, num_commits as int, fork2(*active_wips), too_many_witnesses, r)")
    en = lambda src, name, fn: (lambda t: (u.emit_raw(re.sub(r"\s*=\s*\w+", "", re.sub(r"#\[[^\]]*\]", "", t))), u.emit("spec fn %s(f: %s) -> int { match f { %s } }" % (fn, name, ", ".join("%s::%s => %dint" % (name, k, int(v, 0)) for k, v in re.findall(r"^\s*(\w+)\s*=\s*(\w+)", t, re.M))))))(u.struct_text(src, name, derive="Clone, Copy"))
    en(op0, "RadonOpCodes", "opcode_no")
    en(fm, "RadonFilters", "filter_no")
    en(rm, "RadonReducers", "reducer_no")
    u.emit_raw(u.struct_text(av, "MeanReturnPolicy", derive="Clone, Copy"))
    u.emit("""
    pub enum Value { Null, Bool(bool), Integer(i128), Float(f64), Bytes(Vec<u8>), Text(String), Array(Vec<Value>), Other }
    impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    pub type RadonCall = (RadonOpCodes, Option<Vec<Value>>);
    #[verifier::external_body] fn filter_at(n: u8) -> (r: Result<RadonFilters, NumberError>) ensures match r { Ok(f) => filter_no(f) == n, Err(_) => forall|f: RadonFilters| #[trigger] filter_no(f) != n } { unimplemented!() }
    #[verifier::external_body] fn reducer_at(n: u8) -> (r: Result<RadonReducers, NumberError>) ensures match r { Ok(f) => reducer_no(f) == n, Err(_) => forall|f: RadonReducers| #[trigger] reducer_no(f) != n } { unimplemented!() }
    pub struct NumberError { x: u64 }
    #[verifier::external_body] fn u8_try(n: i128) -> (r: Result<u8, NumberError>) ensures match r { Ok(m) => m == n, Err(_) => !(0 <= n <= 255) } { unimplemented!() }
    fn wide(n: u32) -> (r: i128) ensures r == n { n as i128 }
    proof fn known() ensures filter_no(RadonFilters::DeviationStandard) == 5, filter_no(RadonFilters::Mode) == 8, reducer_no(RadonReducers::Mode) == 2, reducer_no(RadonReducers::AverageMean) == 3, reducer_no(RadonReducers::AverageMedian) == 5, reducer_no(RadonReducers::HashConcatenate) == 11, reducer_no(RadonReducers::DeviationStandard) == 7 { PROBE(known); }
    #[verifier::external_body] fn any_error() -> RadError { unimplemented!() }
    uninterp spec fn decoded(b: Seq<u8>) -> Option<Value>;
    #[verifier::external_body] fn from_cbor(b: &[u8]) -> (r: Result<Value, NumberError>) ensures match r { Ok(v) => decoded(b@) == Some(v), Err(_) => decoded(b@) is None } { unimplemented!() }
    // what a filter of a request becomes
    spec fn call_args(f: RADFilter) -> Seq<Value> { if f.args@.len() == 0 { seq![Value::Integer(f.op as i128)] } else { seq![Value::Integer(f.op as i128), decoded(f.args@)->Some_0] } }
    spec fn accepted(f: RADFilter) -> bool { (f.op == 5 || f.op == 8) && (f.args@.len() > 0 ==> decoded(f.args@) is Some) }
    spec fn reducible(n: int, w: ActiveWips) -> bool { n == 2 || n == 3 || n == 5 && w.w17 || n == 11 && w.w19 }
    spec fn planned(t: RADTally, w: ActiveWips) -> bool { reducible(t.reducer as int, w) && forall|i: int| 0 <= i < t.filters@.len() ==> accepted(#[trigger] t.filters@[i]) }
    spec fn is_call(c: RadonCall, f: RADFilter) -> bool { c.0 == RadonOpCodes::ArrayFilter && c.1 is Some && c.1->Some_0@ == call_args(f) }
    spec fn is_script(s: Seq<RadonCall>, f: Seq<RADFilter>, reducer: int) -> bool {
        s.len() == f.len() + 1 && (forall|i: int| 0 <= i < f.len() ==> is_call(#[trigger] s[i], f[i])) && s[f.len() as int].0 == RadonOpCodes::ArrayReduce && s[f.len() as int].1 is Some && s[f.len() as int].1->Some_0@ == seq![Value::Integer(reducer as i128)]
    }
    """)
    u.emit_fn(sc, "create_radon_script_from_filters_and_reducer", ret="r", desugar=["closure", "opt_map_err"], before=[(r"radoncall_vec\.push\(\(RadonOpCodes::ArrayFilter", "proof { assert(args->Some_0@ =~= call_args(*filter)); }"), (r"radoncall_vec\.push\(\(RadonOpCodes::ArrayReduce", "proof { assert(args->Some_0@ =~= seq![Value::Integer(reducer as i128)]); }")], subst=[(r"i128::from\(", "wide("), (r"u8::try_from\(reducer\)", "u8_try(reducer as i128)"), (r"u8::try_from\(filter_op\)", "u8_try(filter_op)"), (r"RadonFilters::try_from\(", "filter_at("), (r"RadonReducers::try_from\(", "reducer_at("), (r"cbor::from_slice\(", "from_cbor("), (r"RadError::\w+ \{[^{}]*\}", "any_error()"), (r"errorify\(", "("), (r"vec!\[\]", "Vec::new()")],
        loops={0: dict(inv="it0.seq().unref() == filters@, radoncall_vec@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> accepted(#[trigger] filters@[i]) && is_call(radoncall_vec@[i], filters@[i])", start="proof { known(); assert(*filter == filters@[it0.index@ as int]); let q = accepted(filters@[it0.index@ as int]); }")}, start="proof { known(); }",
        spec="ensures match r { Ok(s) => is_script(s@, filters@, reducer as int) && reducible(reducer as int, *active_wips) && forall|i: int| 0 <= i < filters@.len() ==> accepted(#[trigger] filters@[i]), Err(_) => !(reducible(reducer as int, *active_wips) && forall|i: int| 0 <= i < filters@.len() ==> accepted(#[trigger] filters@[i])) }")
    u.emit("""
    spec fn homogeneous(v: Vals) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> kind(#[trigger] v[i]) == kind(v[0]) }
    spec fn sound(a: RadonArray) -> bool { a.is_homogeneous == homogeneous(a.value@) }
    spec fn fit(v: Vals) -> bool { homogeneous(v) || v.len() == 0 }
    // the deviation filter: which values are inside is left to the arithmetic of floats
    uninterp spec fn within(v: Vals, s: f64) -> Option<Vals>;
    uninterp spec fn as_float(n: i128) -> f64;
    #[verifier::external_body] fn float_of(n: i128) -> (r: f64) ensures r == as_float(n) { unimplemented!() }
    spec fn sigmas(v: Value) -> Option<f64> { match v { Value::Integer(i) => Some(as_float(i)), Value::Float(f) => Some(f), _ => None } }
    spec fn is_true(x: RadonTypes) -> bool { x matches RadonTypes::Boolean(b) && b.value }
    spec fn keeps(x: RadonTypes) -> bool { match x { RadonTypes::Boolean(b) => b.value, RadonTypes::Array(a) => forall|i: int| 0 <= i < a.value@.len() ==> is_true(#[trigger] a.value@[i]), _ => false } }
    proof fn not_kept(a: RadonArray, i: int) requires 0 <= i < a.value@.len(), !is_true(a.value@[i]) ensures !keeps(RadonTypes::Array(a)) { PROBE(not_kept); let x = RadonTypes::Array(a); assert(x->Array_0 == a); if keeps(x) { assert(forall|i: int| 0 <= i < a.value@.len() ==> is_true(#[trigger] a.value@[i])); } }
    spec fn all_booleans(m: Vals) -> bool { forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] is Boolean }
    spec fn rows_of_booleans(m: Vals) -> bool { forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Array && all_booleans(m[i]->Array_0.value@) }
    spec fn outlying(m: Vals) -> Seq<bool> { m.map_values(|y: RadonTypes| !keeps(y)) }
    spec fn code(a: Seq<Value>) -> int { a[0]->Integer_0 as int }
    // x marks what the filter drops
    spec fn drops(v: Vals, a: Seq<Value>, x: Seq<bool>) -> bool {
        &&& fit(v) && a.len() > 0 && x.len() == v.len()
        &&& (code(a) == 8 && exists|m: RadonTypes| #[trigger] is_mode(v, m) && x == others(v, m)) || (code(a) == 5 && a.len() == 2 && sigmas(a[1]) is Some && (v.len() == 0 || within(v, sigmas(a[1])->Some_0) is Some && x == outlying(within(v, sigmas(a[1])->Some_0)->Some_0)))
    }
    type Outcome = Result<RadonTypes, RadError>;
    spec fn filtered(v: Vals, a: Seq<Value>, s: Stage, r: Outcome, t: Stage) -> bool {
        match r {
            Ok(y) => y is Array && sound(y->Array_0) && exists|x: Seq<bool>| #[trigger] drops(v, a, x) && y->Array_0.value@ == rest(v, x) && marked(s, x, t),
            Err(_) => t == s && (code(a) == 8 && fit(v) ==> mode_of(v, r)) && (code(a) == 5 && a.len() == 2 && sigmas(a[1]) is Some && fit(v) ==> v.len() > 0),
        }
    }
    #[verifier::external_body] fn boolean_standard_filter(input: &RadonArray, s: f64) -> (r: Result<RadonArray, RadError>) requires fit(input.value@)
        ensures match r { Ok(m) => m.value@.len() == input.value@.len() && (input.value@.len() > 0 ==> within(input.value@, s) == Some(m.value@) && if input.value@[0] is Array { rows_of_booleans(m.value@) } else { all_booleans(m.value@) }), Err(_) => true } { unimplemented!() }
    #[verifier::external_body] fn pairs<A: Clone, B: Clone>(a: Vec<A>, b: &Vec<B>) -> (r: Vec<(A, B)>) requires a@.len() == b@.len() ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
    #[verifier::external_body] fn crashed() requires false { panic!() }
    """)
    ZIP = [(r"\(item, &b\)", "(item, b)"), (r"panic!\([^()]*\)", "{ crashed(); unreached() }"), (r"\w+\.to_string\(\)", "text()"), (r"RadError::\w+ \{[^{}]*\}", "any_error()"), (r"RadonArray::from\(", "RadonArray::from_vec("), (r"RadonTypes::from\(((?:[^()]|\([^()]*\))*)\)", r"(\1).into_radon()"),
        (r"let Stage::Tally\(ref mut metadata\) = context\.stage", "let Stage::Tally(metadata) = &mut context.stage"), (r"\*i as f64", "float_of(*i)"), (r"let mut (result|bool_vec) = vec!\[\];", lambda m: "let mut %s: Vec<%s> = vec![];" % (m.group(1), "bool" if m.group(1) == "bool_vec" else "RadonTypes")), (r"input\.clone\(\)", "cl(input)"), (r"(RadonArray::from_vec\(result\))\.into\(\)", r"\1.into_radon()")]
    u.emit("#[verifier::external_body] fn unreached<T>() -> T requires false { unimplemented!() }")
    u.emit_fn(df, "keep_rows", ret="r", sig_subst=RT, desugar=["all"], subst=ZIP,
        loops={0: dict(iter_of=["input.value().into_iter().zip(keep.value())"], iter_as=lambda its, n, r: "pairs(input.value(), &keep.value())", inv="it0.seq().len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] it0.seq()[i] == (v[i], m[i]), v.len() == m.len(), rows_of_booleans(m), result@ == kept(v, outlying(m), it0.index@ as int), bool_vec@ == outlying(m).take(it0.index@ as int)", before="let ghost (v, m) = (input.value@, keep.value@); proof { assert(outlying(m).take(0) =~= Seq::empty()); }", start="proof { assert(m[it0.index@ as int] is Array); assert(outlying(m).take(it0.index@ + 1) =~= outlying(m).take(it0.index@ as int).push(!keeps(m[it0.index@ as int]))); }", after="proof { assert(outlying(m).take(m.len() as int) =~= outlying(m)); }"), 1: dict(iter_as=lambda its, n, r: re.sub(r"\.\s*value\(\)\s*\.\s*iter\(\)$", ".value.iter()", its.strip()), before="let ghost row = keep_array.value@; proof { assert(m[it0.index@ as int] == RadonTypes::Array(keep_array)); }", inv="it1.seq().unref() == row, row == keep_array.value@, all_booleans(row), m[it0.index@ as int] == RadonTypes::Array(keep_array)", inv_except_break="__r && forall|j: int| 0 <= j < it1.index@ ==> is_true(#[trigger] row[j])", ensures="__r == keeps(m[it0.index@ as int])", brk="proof { let k = keep_array; let i = it1.index@ as int; assert(0 <= i < k.value@.len()); assert(!is_true(k.value@[i])); not_kept(k, i); }", start="proof { assert(row[it1.index@ as int] is Boolean); assert(*x == row[it1.index@ as int]); }")},
        spec="requires keep.value@.len() == input.value@.len(), rows_of_booleans(keep.value@), fits(old(context).stage, input.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, r matches RadonTypes::Array(a) && sound(a) && a.value@ == rest(input.value@, outlying(keep.value@)), marked(old(context).stage, outlying(keep.value@), final(context).stage)")
    u.emit_fn(df, "standard_filter", ret="r", sig_subst=RT, desugar=["closure", "map", "collect"], subst=ZIP, cty="Vec<bool>", loops={0: dict(iter_as=lambda its, n, r: re.sub(r"\.\s*value\(\)\s*\.\s*iter\(\)$", ".value.iter()", its.strip()), before="let ghost m = bool_array.value@; proof { assert(outlying(m).take(0) =~= Seq::empty()); }", inv="it0.seq().unref() == m, m == bool_array.value@, all_booleans(m), __c@ == outlying(m).take(it0.index@ as int)", start="proof { let i = it0.index@ as int; assert(m[i] is Boolean); assert(outlying(m).take(i + 1) =~= outlying(m).take(i).push(!keeps(m[i]))); }", after="proof { assert(outlying(m).take(m.len() as int) =~= outlying(m)); }"),
            1: dict(iter_of=["input.value().into_iter().zip(bool_vec.iter())"], iter_as=lambda its, n, r: "pairs(input.value(), &bool_vec)", inv="it1.seq().len() == v.len(), x == bool_vec@, v == input.value@, x.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] it1.seq()[i] == (v[i], x[i]), result@ == kept(v, x, it1.index@ as int)", before="let ghost (v, x) = (input.value@, bool_vec@);")},
        spec="""requires fit(input.value@), input.is_homogeneous == homogeneous(input.value@), fits(old(context).stage, input.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, match r {
            Ok(y) => extra_args@.len() == 1 && (sigmas(extra_args@[0]) matches Some(s) && y is Array && sound(y->Array_0) && if input.value@.len() == 0 { y == RadonTypes::Array(*input) && final(context).stage == old(context).stage } else { within(input.value@, s) matches Some(m) && m.len() == input.value@.len() && y->Array_0.value@ == rest(input.value@, outlying(m)) && marked(old(context).stage, outlying(m), final(context).stage) }),
            Err(_) => final(context).stage == old(context).stage && (extra_args@.len() == 1 && sigmas(extra_args@[0]) is Some ==> input.value@.len() > 0) }""")
    u.emit("""
    // reducers other than the mode are left to their arithmetic
    uninterp spec fn mean_of(v: Vals, p: MeanReturnPolicy) -> Outcome;
    uninterp spec fn median_of(v: Vals) -> Outcome;
    uninterp spec fn deviation_of(v: Vals) -> Outcome;
    uninterp spec fn hash_of(v: Vals) -> Outcome;
    #[verifier::external_body] fn average_mean(a: &RadonArray, p: MeanReturnPolicy) -> (r: Outcome) ensures r == mean_of(a.value@, p) { unimplemented!() }
    #[verifier::external_body] fn median_median(a: &RadonArray) -> (r: Outcome) ensures r == median_of(a.value@) { unimplemented!() }
    #[verifier::external_body] fn deviation_standard(a: &RadonArray) -> (r: Outcome) ensures r == deviation_of(a.value@) { unimplemented!() }
    #[verifier::external_body] fn hash_concatenate_hash_concatenate(a: &RadonArray) -> (r: Outcome) ensures r == hash_of(a.value@) { unimplemented!() }
    spec fn has17(w: Option<ActiveWips>) -> bool { w matches Some(x) && x.w17 }
    spec fn has19(w: Option<ActiveWips>) -> bool { w matches Some(x) && x.w19 }
    spec fn reduced(v: Vals, n: int, w: Option<ActiveWips>, r: Outcome) -> bool {
        if !fit(v) { r is Err } else if n == 2 { mode_of(v, r) } else if n == 3 { r == mean_of(v, MeanReturnPolicy::RoundToInteger) } else if n == 5 && has17(w) { r == median_of(v) } else if n == 7 { r == deviation_of(v) } else if n == 11 && has19(w) { r == hash_of(v) } else { r is Err }
    }
    #[verifier::external_body] fn text() -> String { unimplemented!() }
    #[verifier::external_body] fn u8_of(v: Value) -> (r: Result<u8, NumberError>) ensures match r { Ok(n) => v == Value::Integer(n as i128), Err(_) => v matches Value::Integer(n) ==> !(0 <= n <= 255) } { unimplemented!() }
    // a subscript instead of a code: not in a tally
    #[verifier::external_body] fn unpack_subscript(v: &Value) -> Result<Vec<RadonCall>, RadError> { unimplemented!() }
    #[verifier::external_body] fn run_subscript(x: RadonTypes, s: &[RadonCall], c: &mut ReportContext, settings: RadonScriptExecutionSettings) -> Result<RadonReport, RadError> { unimplemented!() }
    #[verifier::external_body] fn tailored_to_stage(s: &Stage) -> RadonScriptExecutionSettings { unimplemented!() }
    #[verifier::external_body] fn partial_results_extract(s: &Vec<RadonCall>, r: &Vec<RadonReport>, c: &mut ReportContext) { unimplemented!() }
    """)
    FR = [(r"[^{};]*\.to_string\(\)", "text()"), (r"Err\(RadError::\w+ \{[^{}]*\}\)", "Err(any_error())"), (r"\bRadError::\w+ \{[^{}]*\}", "any_error()"), (r"deviation::(?=standard_filter)|mode::(?=mode)", ""), (r"(average|median|deviation|hash_concatenate)::(?=mean|median|standard\(|hash_concatenate)", r"\1_"), (r"average::MeanReturnPolicy", "MeanReturnPolicy"), (r"average_MeanReturnPolicy", "MeanReturnPolicy")]
    u.emit_fn(fm, "filter", ret="r", name="filter_with", sig_subst=RT, desugar=["closure"], subst=FR, end="""proof { let v = input.value@; known(); assert forall|a: Seq<Value>| a.len() == extra_args@.len() + 1 && #[trigger] a.skip(1) == extra_args@ && a[0] is Integer && code(a) == filter_no(filter_code) implies filtered(input.value@, a, old(context).stage, __ret, context.stage) by {
            if a.len() == 2 { assert(a[1] == a.skip(1)[0]); }
            if __ret is Ok { if filter_code == RadonFilters::Mode { let m = choose|m: RadonTypes| #[trigger] is_mode(v, m) && __ret->Ok_0->Array_0.value@ == kept(v, others(v, m), v.len() as int) && marked(old(context).stage, others(v, m), context.stage); assert(drops(v, a, others(v, m))); }
                else if v.len() == 0 { let x = Seq::<bool>::empty(); assert(drops(v, a, x)); assert(rest(v, x) =~= v); match context.stage { Stage::Tally(t) => { assert(remarked(t.liars@, x) =~= t.liars@); } _ => {} } }
                else { assert(drops(v, a, outlying(within(v, sigmas(a[1])->Some_0)->Some_0))); } } } }""",
        spec="""requires input.is_homogeneous == homogeneous(input.value@), fits(old(context).stage, input.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, forall|a: Seq<Value>| a.len() == extra_args@.len() + 1 && #[trigger] a.skip(1) == extra_args@ && a[0] is Integer && code(a) == filter_no(filter_code) ==> filtered(input.value@, a, old(context).stage, r, final(context).stage)""")
    u.emit_fn(rm, "reduce", ret="r", name="reduce_with", sig_subst=RT, desugar=["closure"], subst=FR, spec="requires input.is_homogeneous == homogeneous(input.value@) ensures *final(context) == *old(context), reduced(input.value@, reducer_no(reducer_code), old(context).active_wips, r)")
    AO = [AF, (r"u8::try_from\(\*arg\)", "u8_try(*arg)"), (r"RadonFilters::try_from\(", "filter_at("), (r"RadonReducers::try_from\(", "reducer_at("), (r"from_value::<u8>\(", "u8_of("), (r"filters::filter\(", "filter_with("), (r"reducers::reduce\(", "reduce_with("), (r"execute_radon_script\(", "run_subscript("), (r"RadonScriptExecutionSettings::tailored_to_stage\(", "tailored_to_stage("), (r"\.to_owned\(\)", ".clone()"),
        (r"RadError::(\w+) \{[^{}]*\}", "any_error()"), (r"error\.clone\(\)\.into_inner\(\)", "any_error()")]
    u.emit_fn(op, "reduce", ret="r", name="array_reduce", sig_subst=RT, desugar=["closure", "opt_map_err"], subst=AO, start="proof { known(); }", spec="requires input.is_homogeneous == homogeneous(input.value@), args@.len() == 1, args@[0] is Integer ensures *final(context) == *old(context), match args@[0] { Value::Integer(n) => reduced(input.value@, n as int, old(context).active_wips, r), _ => true }")
    u.emit_fn(op, "filter", ret="r", name="array_filter", sig_subst=RT, desugar=["closure", "opt_map_err", "opt_ok_or_else"], subst=AO, start="proof { known(); }", loops={0: dict(inv="false")},
        spec="requires input.is_homogeneous == homogeneous(input.value@), fits(old(context).stage, input.value@.len() as int), args@.len() > 0, args@[0] is Integer ensures final(context).active_wips == old(context).active_wips, filtered(input.value@, args@, old(context).stage, r, final(context).stage)")
    u.emit("""
    #[verifier::external_body] fn as_array(x: &RadonTypes) -> (r: &RadonArray) requires x is Array ensures *r == x->Array_0 { unimplemented!() }
    #[verifier::external_body] fn any_flag() -> bool { unimplemented!() }
    #[verifier::external_body] fn other_call() -> Outcome { unimplemented!() }
    spec fn stepped(c: RadonCall, w: Option<ActiveWips>, r1: Outcome, s1: Stage, r: Outcome, s: Stage) -> bool {
        match r1 { Err(_) => r == r1 && s == s1,
            Ok(y) => y is Array && c.1 is Some && if c.0 == RadonOpCodes::ArrayFilter { filtered(y->Array_0.value@, c.1->Some_0@, s1, r, s) } else { c.0 == RadonOpCodes::ArrayReduce && s == s1 && reduced(y->Array_0.value@, code(c.1->Some_0@), w, r) } }
    }
    // the result and the marks after the first n calls of a script, starting from the values v
    spec fn after(c: Seq<RadonCall>, w: Option<ActiveWips>, v: Vals, s0: Stage, n: int, r: Outcome, s: Stage) -> bool decreases n {
        if n <= 0 { r is Ok && r->Ok_0 is Array && r->Ok_0->Array_0.value@ == v && s == s0 } else { exists|r1: Outcome, s1: Stage| after(c, w, v, s0, n - 1, r1, s1) && #[trigger] stepped(c[n - 1], w, r1, s1, r, s) }
    }
    proof fn stays(c: Seq<RadonCall>, w: Option<ActiveWips>, v: Vals, s0: Stage, k: int, n: int, r: Outcome, s: Stage) requires 0 <= k <= n, after(c, w, v, s0, k, r, s), r is Err ensures after(c, w, v, s0, n, r, s) decreases n
    { PROBE(stays); if k < n { stays(c, w, v, s0, k, n - 1, r, s); assert(stepped(c[n - 1], w, r, s, r, s)); } }
    proof fn onward(c: Seq<RadonCall>, w: Option<ActiveWips>, v: Vals, s0: Stage, n: int, r1: Outcome, s1: Stage, r: Outcome, s: Stage) requires n > 0, after(c, w, v, s0, n - 1, r1, s1), stepped(c[n - 1], w, r1, s1, r, s) ensures after(c, w, v, s0, n, r, s) { PROBE(onward); }
    // filters first, a reducer last
    spec fn a_filter(c: RadonCall) -> bool { c.0 == RadonOpCodes::ArrayFilter && c.1 is Some && c.1->Some_0@.len() > 0 && c.1->Some_0@[0] is Integer }
    spec fn a_reducer(c: RadonCall) -> bool { c.0 == RadonOpCodes::ArrayReduce && c.1 is Some && c.1->Some_0@.len() == 1 && c.1->Some_0@[0] is Integer }
    spec fn runnable(c: Seq<RadonCall>) -> bool { c.len() > 0 && a_reducer(c[c.len() - 1]) && forall|i: int| 0 <= i < c.len() - 1 ==> a_filter(#[trigger] c[i]) }
    proof fn kept_free(v: Vals, x: Seq<bool>, n: int) requires 0 <= n <= v.len(), n <= x.len() ensures kept(v, x, n).len() == free(x, n) decreases n
    { PROBE(kept_free); if n > 0 { kept_free(v, x, n - 1); } }
    proof fn merged_free(l: Seq<bool>, x: Seq<bool>, n: int) requires 0 <= n <= l.len(), all_free(l) == x.len() ensures free(merged(l, x), n) == free(x, free(l, n)), 0 <= free(l, n) <= x.len() decreases n
    { PROBE(merged_free); free_bound(l, n, l.len() as int); if n > 0 { merged_free(l, x, n - 1); free_bound(l, n - 1, l.len() as int); } }
    // marking again the values not yet marked leaves the same values as filtering them
    proof fn kept_merged(v: Vals, l: Seq<bool>, x: Seq<bool>, n: int) requires 0 <= n <= l.len(), v.len() == l.len(), all_free(l) == x.len()
        ensures kept(v, merged(l, x), n) == kept(rest(v, l), x, free(l, n)) decreases n
    { PROBE(kept_merged); free_bound(l, n, l.len() as int); if n > 0 { kept_merged(v, l, x, n - 1); free_bound(l, n - 1, l.len() as int); if !l[n - 1] { kept_at(v, l, n - 1, v.len() as int); } } }
    proof fn kept_at(v: Vals, l: Seq<bool>, i: int, n: int) requires 0 <= i < n <= v.len(), v.len() == l.len(), !l[i] ensures free(l, i) < kept(v, l, n).len(), kept(v, l, n)[free(l, i)] == v[i] decreases n
    { PROBE(kept_at); kept_free(v, l, n); kept_free(v, l, n - 1); free_bound(l, i, n); if i < n - 1 { kept_at(v, l, i, n - 1); } }
    proof fn still_fits(v: Vals, a: Seq<Value>, s: Stage, r: Outcome, t: Stage) requires filtered(v, a, s, r, t), r is Ok, fits(s, v.len() as int) ensures fits(t, r->Ok_0->Array_0.value@.len() as int)
    {
        PROBE(still_fits);
        let x = choose|x: Seq<bool>| #[trigger] drops(v, a, x) && r->Ok_0->Array_0.value@ == rest(v, x) && marked(s, x, t);
        kept_free(v, x, v.len() as int);
        if s is Tally { let l = s->Tally_0.liars@; if l.len() > 0 && x.len() > 0 { merged_free(l, x, l.len() as int); } }
    }
    // what is left after the filters is what is left unmarked
    spec fn only_unmarked(base: Vals, s: Stage, v: Vals) -> bool { s is Tally && s->Tally_0.liars@.len() == base.len() && v == rest(base, s->Tally_0.liars@) }
    proof fn filters_mark(c: Seq<RadonCall>, w: Option<ActiveWips>, base: Vals, v: Vals, s0: Stage, n: int, r: Outcome, s: Stage) requires 0 <= n < c.len(), runnable(c), after(c, w, v, s0, n, r, s), only_unmarked(base, s0, v), r is Ok
        ensures r->Ok_0 is Array, only_unmarked(base, s, r->Ok_0->Array_0.value@), s->Tally_0.errors == s0->Tally_0.errors, forall|i: int| 0 <= i < base.len() && s0->Tally_0.liars@[i] ==> #[trigger] s->Tally_0.liars@[i] decreases n
    {
        PROBE(filters_mark);
        if n > 0 {
            let (r1, s1) = choose|r1: Outcome, s1: Stage| after(c, w, v, s0, n - 1, r1, s1) && #[trigger] stepped(c[n - 1], w, r1, s1, r, s);
            assert(a_filter(c[n - 1]));
            filters_mark(c, w, base, v, s0, n - 1, r1, s1);
            let (v1, a, l) = (r1->Ok_0->Array_0.value@, c[n - 1].1->Some_0@, s1->Tally_0.liars@);
            let x = choose|x: Seq<bool>| #[trigger] drops(v1, a, x) && r->Ok_0->Array_0.value@ == rest(v1, x) && marked(s1, x, s);
            kept_free(base, l, base.len() as int);
            assert(all_free(l) == x.len());
            if l.len() > 0 && x.len() > 0 { kept_merged(base, l, x, l.len() as int); } else { assert(rest(v1, x) =~= v1); if l.len() == 0 { assert(base =~= Seq::empty()); } }
        }
    }
    """)
    OA = AO + [(r"input\.as_operable\(\)", "as_array(&input)"), (r"array_operators::filter\(", "array_filter("), (r"array_operators::reduce\(", "array_reduce("), (r"Ok\(array_operators::count\(self\)\.into\(\)\)|identity\(RadonTypes::from\(self\.clone\(\)\)\)|array_operators::(map|sort|get|legacy)[\w:<>, ]*\(self, args(, context)?\)", "other_call()"), (r"\.map\(RadonTypes::from\)|(?<=\})\s*\.map\(RadonTypes::from\)", "")]
    u.emit_impl(" RadonArray", [u.fn(ar, "RadonArray::operate_in_context", trait="Operable", ret="r", sig_subst=RT, subst=OA + [(r"context\s*\.active_wips\s*\.as_ref\(\)\s*\.map\(ActiveWips::wip0024\)\s*\.unwrap_or\(true\)", "any_flag()")], spec="requires sound(*self), call.1 is Some, call.0 == RadonOpCodes::ArrayFilter || call.0 == RadonOpCodes::ArrayReduce, a_filter(*call) || a_reducer(*call), fits(old(context).stage, self.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, stepped(*call, old(context).active_wips, Ok(RadonTypes::Array(*self)), old(context).stage, r, final(context).stage)")])
    u.emit_fn(op0, "operate_in_context", ret="r", sig_subst=RT, subst=OA, spec="requires input is Array, sound(input->Array_0), a_filter(*call) || a_reducer(*call), fits(old(context).stage, input->Array_0.value@.len() as int) ensures final(context).active_wips == old(context).active_wips, stepped(*call, old(context).active_wips, Ok(input), old(context).stage, r, final(context).stage)")
    u.emit("""
    impl ReportContext {
        #[verifier::external_body] fn start(&mut self) ensures final(self).stage == old(self).stage, final(self).active_wips == old(self).active_wips { unimplemented!() }
        #[verifier::external_body] fn complete(&mut self) ensures final(self).stage == old(self).stage, final(self).active_wips == old(self).active_wips { unimplemented!() }
    }
    impl RadonReport { #[verifier::external_body] fn from_partial_results(p: Vec<Outcome>, c: &ReportContext) -> (r: Self) requires false { unimplemented!() } }
    #[verifier::external_body] fn current_active_wips() -> ActiveWips { unimplemented!() }
    """)
    u.emit_fn(sc, "execute_radon_script", ret="r", sig_subst=RT, desugar=["try_fold", "index"], cty="Outcome", subst=[(r"input\.clone\(\)", "cl(&input)"), (r"partial_result\.clone\(\)", "cl(&partial_result)")], start="let ghost (v, s0, w, n) = (input->Array_0.value@, context.stage, context.active_wips, script@.len() as int);",
        loops={0: dict(inv_except_break="__i0 <= n, after(script@, w, v, s0, __i0 as int, __acc, context.stage), __i0 < n && __acc is Ok ==> __acc->Ok_0 is Array && sound(__acc->Ok_0->Array_0) && fits(context.stage, __acc->Ok_0->Array_0.value@.len() as int)", inv="n == script@.len(), runnable(script@), context.active_wips == w, partial_results is None", dec="n - __i0", ensures="after(script@, w, v, s0, n, __acc, context.stage)",
            start="let ghost (r1, s1, j) = (__acc, context.stage, __i0 as int);", end="proof { assert(stepped(script@[j], w, r1, s1, __acc, context.stage)); onward(script@, w, v, s0, j + 1, r1, s1, __acc, context.stage); if j < n - 1 && __acc is Ok { let a = script@[j].1->Some_0@; still_fits(r1->Ok_0->Array_0.value@, a, s1, __acc, context.stage); } }", brk="proof { stays(script@, w, v, s0, j, n, __acc, context.stage); }")},
        spec="requires input is Array, sound(input->Array_0), runnable(script@), !settings.partial_results, fits(old(context).stage, input->Array_0.value@.len() as int) ensures r is Ok, exists|o: Outcome| #[trigger] after(script@, old(context).active_wips, input->Array_0.value@, old(context).stage, script@.len() as int, o, r->Ok_0.context.stage) && r->Ok_0.result == as_value(o)")
    u.emit("""
    spec fn ran_script(vs: Vals, t: RADTally, s0: Stage, w: ActiveWips, r: Result<RadonReport, RadError>) -> bool {
        match r {
            Err(_) => !planned(t, w),
            Ok(p) => planned(t, w) && if vs.len() == 0 { p.result == as_value(Err(RadError::NoReveals)) && p.context.stage == s0 }
                else { exists|c: Seq<RadonCall>, o: Outcome| #[trigger] is_script(c, t.filters@, t.reducer as int) && #[trigger] after(c, Some(w), vs, s0, c.len() as int, o, p.context.stage) && p.result == as_value(o) },
        }
    }
    // the values kept, the script run over them
    spec fn ran(vs: Vals, t: RADTally, liars: Seq<bool>, errors: Seq<bool>, w: ActiveWips, r: Result<RadonReport, RadError>) -> bool {
        exists|s0: Stage| s0 is Tally && s0->Tally_0.liars@ == liars && s0->Tally_0.errors@ == errors && #[trigger] ran_script(vs, t, s0, w, r)
    }
    proof fn scripts_run(c: Seq<RadonCall>, f: Seq<RADFilter>, n: int) requires is_script(c, f, n) ensures runnable(c) { PROBE(scripts_run); assert(is_call(c[0], f[0]) || f.len() == 0); assert forall|i: int| 0 <= i < c.len() - 1 implies a_filter(#[trigger] c[i]) by { assert(is_call(c[i], f[i])); } }
    // marks are only added, one per value all along
    proof fn marks_stay(c: Seq<RadonCall>, w: Option<ActiveWips>, v: Vals, s0: Stage, n: int, r: Outcome, s: Stage) requires 0 <= n <= c.len(), after(c, w, v, s0, n, r, s), s0 is Tally, s0->Tally_0.liars@.len() > 0 ensures s is Tally, s->Tally_0.liars@.len() == s0->Tally_0.liars@.len(), s->Tally_0.errors == s0->Tally_0.errors decreases n
    {
        PROBE(marks_stay);
        if n > 0 { let (r1, s1) = choose|r1: Outcome, s1: Stage| after(c, w, v, s0, n - 1, r1, s1) && #[trigger] stepped(c[n - 1], w, r1, s1, r, s); marks_stay(c, w, v, s0, n - 1, r1, s1); }
    }
    """)
    u.emit_fn(li, "run_tally_with_context_report", ret="r", sig_subst=[(r"(RadonReport|ReportContext)<RadonTypes>", r"\1"), (r"\bResult<RadonReport>", "Result<RadonReport, RadError>")], desugar=["opt_unwrap_or_else", "opt_map"], subst=[AF, (r"RadonTypes::from\((RadonArray::from_vec\([^()]*\))\)", r"\1.into_radon()"), (r"active_wips\.clone\(\)", "cl(active_wips)")],
        spec="requires old(context).active_wips is Some, !settings.partial_results, fits(old(context).stage, radon_types_vec@.len() as int) ensures ran_script(radon_types_vec@, *consensus, old(context).stage, old(context).active_wips->Some_0, r)")
    u.emit_fn(li, "run_tally_report", ret="r", sig_subst=[(r"(RadonReport|ReportContext)<RadonTypes>", r"\1"), (r"\bResult<RadonReport>", "Result<RadonReport, RadError>")], subst=[(r"active_wips\.clone\(\)", "cl(active_wips)"), (r"\.\.Default::default\(\)", "call_index: None")], before=[(r"let res\b", "let ghost s0 = context.stage;")],
        after=[(r"let res\b", """proof { let vs = values; assert(ran_script(vs, *consensus, s0, *active_wips, res)); if res is Ok && vs.len() > 0 { let (c, o) = choose|c: Seq<RadonCall>, o: Outcome| #[trigger] is_script(c, consensus.filters@, consensus.reducer as int) && #[trigger] after(c, Some(*active_wips), vs, s0, c.len() as int, o, res->Ok_0.context.stage); marks_stay(c, Some(*active_wips), vs, s0, c.len() as int, o, res->Ok_0.context.stage); } }""")], start="let ghost values = radon_types_vec@;",
        spec="requires liars is Some, errors is Some, liars->Some_0@.len() > 0, all_free(liars->Some_0@) == radon_types_vec@.len(), !settings.partial_results ensures ran(radon_types_vec@, *consensus, liars->Some_0@, errors->Some_0@, *active_wips, r.0), r.0 matches Ok(p) ==> p.context.stage is Tally && p.context.stage->Tally_0.liars@.len() == liars->Some_0@.len()")
    u.emit_impl(" RadonScriptExecutionSettings", [u.fn(sc, "RadonScriptExecutionSettings::" + x, ret="r", spec="ensures " + y, subst=[(r"\.\.Self::enable_all\(\)", "..(Self::enable_all())")]) for x, y in (("enable_all", "true"), ("all_but_partial_results", "!r.partial_results"))])
    u.emit("""
    spec fn wip18(w: ActiveWips) -> bool { w.w18 }
    // everyone out of consensus: neither rewarded nor penalized
    spec fn all_true(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
    spec fn all_false(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| false) }
    spec fn set_aside(e: RadError, n: int, r: RadonReport) -> bool { r.result == as_value(Err(e)) && (r.context.stage matches Stage::Tally(m) && m.liars@ == all_true(n) && m.errors@ == all_true(n)) }
    // the report made of what the reveals amount to
    spec fn settled(c: Verdict, t: RADTally, n: int, w: ActiveWips, r: RadonReport) -> bool {
        match c {
            Ok(TallyPreconditionClauseResult::MajorityOfValues { values, liars, errors }) => {
                ||| ran(values@, t, liars@, errors@, w, Ok(r))
                ||| exists|e: RadError| #[trigger] ran(values@, t, liars@, errors@, w, Err(e)) && ({ let x = RadError::TallyExecution { inner: Some(Box::new(e)), message: None };
                        if fork2(w) { set_aside(x, n, r) } else { r.result == as_value(Err(x)) && (r.context.stage matches Stage::Tally(m) && m.liars@ == all_false(n) && m.errors@.len() == 0) } })
            }
            Ok(TallyPreconditionClauseResult::MajorityOfErrors { errors_mode }) => r.result == RadonTypes::RadonError(errors_mode) && (r.context.stage matches Stage::Tally(m) && m.liars@ == all_false(n) && m.errors@ == all_true(n)),
            Err(e) => if fork2(w) { set_aside(e, n, r) } else { r.result == as_value(Err(e)) && (r.context.stage matches Stage::Tally(m) && m.liars@ == all_false(n) && m.errors@ == all_true(n)) },
        }
    }
    // enough of the commits agreed with the result, or it is an error
    spec fn agreed(a: RadonReport, min: f64, commits: int, b: RadonReport) -> bool {
        if kind(a.result) == Kind::Error { b == a }
        else { let l = a.context.stage->Tally_0.liars@; let c = share(num(all_free(l)), num(commits)); if exceeds(c, min) { b == a } else { set_aside(RadError::InsufficientConsensus { achieved: c, required: min }, l.len() as int, b) } }
    }
    """)
    u.emit_fn(co, "radon_report_from_error", ret="r", sig_subst=RT, subst=[(r"\.\.Default::default\(\)", "")], before=[(r"RadonReport::from_result", "proof { assert(metadata.errors@ =~= all_true(num_reveals as int)); assert(metadata.liars@ =~= all_true(num_reveals as int)); }")], spec="ensures set_aside(rad_error, num_reveals as int, r)")
    u.emit_fn(co, "evaluate_tally_postcondition_clause", ret="r", sig_subst=RT, desugar=["fold"], cty="f64", subst=NUM + [(r"\b0\.(?!\w)", "f_zero()"), (r"count \+ 1\.", "f_inc(count)"), (r"report\.context\.stage\.clone\(\)", "cl(&report.context.stage)"), (r"panic!\([^()]*\)", "crash()")],
        loops={0: dict(inv="it0.seq().unref() == metadata.liars@, it0.seq().len() < u32::MAX, count == num(free(metadata.liars@, it0.index@ as int))", start="proof { free_bound(metadata.liars@, 0, it0.index@ as int); free_bound(metadata.liars@, it0.index@ as int, it0.index@ as int); }")},
        spec="requires report.context.stage is Tally, report.context.stage->Tally_0.liars@.len() < u32::MAX, commits_count <= u32::MAX ensures agreed(report, minimum_consensus, commits_count as int, r), r.context.stage is Tally, r.context.stage->Tally_0.liars@.len() == report.context.stage->Tally_0.liars@.len()")
    u.emit_fn(co, "construct_report_from_clause_result", ret="r", sig_subst=RT, before=[(r"metadata\.errors = vec", "proof { assert(metadata.liars@ =~= all_false(reports_len as int)); }")],
        after=[(r"metadata\.update_liars\(vec!\[false; reports_len\]\);", "proof { assert(metadata.liars@ =~= all_false(reports_len as int)); }"), (r"metadata\.errors = vec!\[true; reports_len\];", "proof { assert(metadata.errors@ =~= all_true(reports_len as int)); }")],
        spec="requires clause_result matches Ok(TallyPreconditionClauseResult::MajorityOfValues { values, liars, errors }) ==> liars@.len() == reports_len && reports_len > 0 && all_free(liars@) == values@.len() ensures settled(clause_result, *script, reports_len as int, *active_wips, r), r.context.stage is Tally, r.context.stage->Tally_0.liars@.len() == reports_len")
    u.emit("""
    spec fn concluded(v: Vals, min: f64, commits: int, w: ActiveWips, crowd: bool, t: RADTally, c: Verdict, a: RadonReport, b: RadonReport) -> bool
    { verdict(v, min, commits, fork2(w), crowd, c) && settled(c, t, v.len() as int, w, a) && (if fork2(w) { agreed(a, min, commits, b) } else { b == a }) }
    """)
    u.emit_fn(va, "run_tally", ret="r", sig_subst=RT, after=[(r"let clause_result", "let ghost c = clause_result; proof { assert forall|k: Kind| all_free(#[trigger] other_kind(v, k)) == rest(v, other_kind(v, k)).len() by { kept_free(v, other_kind(v, k), v.len() as int); } }"), (r"let mut report", "let ghost a = report;")],
        before=[(r"if active_wips\.wip0018", "let ghost b = report; proof { assert(concluded(v, non_error_min, commits_count as int, *active_wips, too_many_witnesses, *tally, c, a, b)); }")], start="let ghost v = values_of(results@);",
        spec="""requires results@.len() <= u16::MAX, commits_count <= u32::MAX ensures exists|c: Verdict, a: RadonReport, b: RadonReport| #[trigger] concluded(values_of(results@), non_error_min, commits_count as int, *active_wips, too_many_witnesses, *tally, c, a, b) && r.context == b.context && r.result == (if wip18(*active_wips) { unmessaged(b.result) } else { b.result }),
        r.context.stage is Tally, r.context.stage->Tally_0.liars@.len() == results@.len()""")
    u.close()


def build(u):
    return """
use witnet_rad::{*, conditions::*, error::RadError, script::*, types::{*, array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString}};
use witnet_data_structures::{chain::{*, tapi::*}, radon_report::*, radon_error::*};
""" + Extract([VA], no=["x"]).build(["run_tally"])


harness = dict(kind="crate", name="c01", build=build, main="c01.rs", setup=lambda w: radlib.crates(w, ["run_tally_report", "run_tally_with_context_report"]), edition="2024", lock=False)
