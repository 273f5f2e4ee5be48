ID = "S01"
HB, NB, ST = "storage/src/backends/hashmap.rs", "storage/src/backends/nobackend.rs", "storage/src/storage.rs"
FILES = [HB, NB, ST]
RULE = "histories of up to 30 puts, deletes and batches over keys sharing prefixes; after each every key and prefix is read back and compared with an ordered map"
ASSUMPTIONS = ["the RwLock is never poisoned and serialises operations; the interior-mutable map is passed as &mut",
               "std HashMap with Vec<u8> keys is a map over byte strings whose iteration order does not change while it is not modified (BMap, an external specification)",
               "the rocksdb back end is not part of the property (the crate cannot be built offline)"]

ENV = """
    #[derive(Debug)] struct AnyError {}
    type Result<T> = std::result::Result<T, AnyError>;
    // std::collections::HashMap<Vec<u8>, Vec<u8>>
    #[verifier::external_body]
    struct BMap { m: HashMap<Vec<u8>, Vec<u8>> }
    impl BMap {
        uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>;
        // the entries in iteration order
        spec fn entries(&self) -> Seq<(Seq<u8>, Seq<u8>)>  { order(self@) }
        #[verifier::external_body]
        fn get(&self, k: &[u8]) -> (r: Option<&Vec<u8>>) ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) } { self.m.get(k) }
        #[verifier::external_body]
        fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Option<Vec<u8>>) ensures final(self)@ == old(self)@.insert(k@, v@) { self.m.insert(k, v) }
        #[verifier::external_body]
        fn remove(&mut self, k: &[u8]) -> (r: Option<Vec<u8>>) ensures final(self)@ == old(self)@.remove(k@) { self.m.remove(k) }
        // iter().skip(n)
        #[verifier::external_body]
        fn iter_skip(&self, n: usize) -> (r: Vec<(&Vec<u8>, &Vec<u8>)>)
            ensures r@.len() == (if n <= self.entries().len() { self.entries().len() - n } else { 0 }),
                forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.entries()[n + i].0 && r@[i].1@ == self.entries()[n + i].1,
                self.entries().len() < usize::MAX
        { self.m.iter().skip(n).collect() }
    }
    uninterp spec fn order(m: Map<Seq<u8>, Seq<u8>>) -> Seq<(Seq<u8>, Seq<u8>)>;
    // iterating a map visits every entry once
    #[verifier::external_body]
    proof fn order_ok(m: Map<Seq<u8>, Seq<u8>>)
        ensures forall|i: int| 0 <= i < order(m).len() ==> m.contains_key((#[trigger] order(m)[i]).0) && m[order(m)[i].0] == order(m)[i].1,
            forall|k: Seq<u8>| m.contains_key(k) ==> order(m).contains((k, m[k])),
            forall|i: int, j: int| 0 <= i < j < order(m).len() ==> order(m)[i].0 != order(m)[j].0 {}
    #[verifier::external_body]
    fn to_vec8(s: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
    #[verifier::external_body]
    fn starts_with(s: &Vec<u8>, p: &[u8]) -> (r: bool) ensures r == is_prefix(p@, s@) { s.starts_with(p) }
    spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
    enum Op { Put(Seq<u8>, Seq<u8>), Delete(Seq<u8>) }
    spec fn op(i: WriteBatchItem) -> Op { match i { WriteBatchItem::Put(k, v) => Op::Put(k@, v@), WriteBatchItem::Delete(k) => Op::Delete(k@) } }
    spec fn apply1(m: Map<Seq<u8>, Seq<u8>>, o: Op) -> Map<Seq<u8>, Seq<u8>> { match o { Op::Put(k, v) => m.insert(k, v), Op::Delete(k) => m.remove(k) } }
    // the operations one after the other
    spec fn apply(m: Map<Seq<u8>, Seq<u8>>, s: Seq<Op>) -> Map<Seq<u8>, Seq<u8>> decreases s.len() { if s.len() == 0 { m } else { apply1(apply(m, s.drop_last()), s.last()) } }
    spec fn ops(b: Seq<WriteBatchItem>) -> Seq<Op> { b.map_values(|i: WriteBatchItem| op(i)) }
    // no entry from a to b starts with the prefix
    spec fn none_between(e: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b && i < e.len() ==> !is_prefix(p, (#[trigger] e[i]).0) }
"""


def verus(u):
    st, hb, nb = u.src(ST), u.src(HB), u.src(NB)
    u.file("storage")
    u.emit_raw(u.struct_text(st, "WriteBatch"))
    u.emit_raw(u.struct_text(st, "WriteBatchItem"))
    u.emit(ENV)
    u.emit("struct Backend { m: BMap }\nstruct NoBackend {}\nstruct DBIterator<'a, 'b> { data: &'a BMap, prefix: &'b [u8], skip: usize }")
    u.emit_impl(" WriteBatch", [
        u.fn(st, "WriteBatch::put", spec="ensures ops(final(self).batch@) == ops(old(self).batch@).push(Op::Put(key@, value@))", ret="",
             end="proof { assert(ops(self.batch@) =~= ops(old(self).batch@).push(Op::Put(key@, value@))); }"),
        u.fn(st, "WriteBatch::delete", spec="ensures ops(final(self).batch@) == ops(old(self).batch@).push(Op::Delete(key@))", ret="",
             end="proof { assert(ops(self.batch@) =~= ops(old(self).batch@).push(Op::Delete(key@))); }"),
    ])
    sub = [(r"self\.read\(\)\.unwrap\(\)", "(&self.m)"), (r"self\.write\(\)\.unwrap\(\)", "(&mut self.m)"), (r"let mut map = ", "let map = "), (r"\bslice\.to_vec\(\)", "to_vec8(slice)"),
           (r"\.remove\(&key\)", ".remove(key.as_slice())")]
    W = dict(subst=sub, sig_subst=[(r"&self\b", "&mut self")], trait="Storage")
    f = lambda n: hb.find_fn("Backend::" + n, trait="Storage") if any(o == "Backend" for o, *_ in hb.fns()) else hb.find_fn("RwLock::" + n, trait="Storage")
    u.emit_impl(" Backend", [
        u.fn(f("get"), "", subst=sub, desugar=["opt_map"], spec="""
            ensures r is Ok, match r->Ok_0 { Some(v) => self.m@.contains_key(key@) && v@ == self.m@[key@], None => !self.m@.contains_key(key@) }"""),
        u.fn(f("put"), "", **W, spec="ensures r is Ok, final(self).m@ == old(self).m@.insert(key@, value@)"),
        u.fn(f("delete"), "", **W, spec="ensures r is Ok, final(self).m@ == old(self).m@.remove(key@)"),
        u.fn(f("write"), "", **W, skel=["for"], spec="ensures r is Ok, final(self).m@ == apply(old(self).m@, ops(batch.batch@))", loops={0: dict(
            bind="v0", before="let ghost s0 = batch.batch@; let ghost m0 = map@; proof { assert(s0.take(0) =~= Seq::empty()); }", inv="it0.seq() == s0, s0 == batch.batch@, map@ == apply(m0, ops(s0.take(it0.index@)))",
            start="proof { let i = it0.index@; assert(ops(s0.take(i + 1)).drop_last() =~= ops(s0.take(i))); assert(ops(s0.take(i + 1)).last() == op(s0[i])); assert(s0[i] == item); }",
            after="proof { assert(s0.take(s0.len() as int) =~= s0); }")}),
        u.fn(f("prefix_iterator"), "", subst=sub + [(r"Box::new", "")], sig="fn prefix_iterator<'a, 'b>(&'a self, prefix: &'b [u8]) -> (r: Result<DBIterator<'a, 'b>>)",
             spec="ensures r is Ok, r->Ok_0.data@ == self.m@, r->Ok_0.prefix@ == prefix@, r->Ok_0.skip == 0"),
    ])
    u.notes.add("the boxed iterator is returned unboxed; RwLock guards become plain references")
    u.emit_impl("<'a, 'b> DBIterator<'a, 'b>", [
        u.fn(hb, "DBIterator::next", trait="Iterator", desugar=["inspect", "filter_map", "filter", "map", "next"], cty="Option<(Vec<u8>, Vec<u8>)>",
             subst=[(r"\b(\w+)\.starts_with\(self\.prefix(?:\.as_ref\(\))?\)", r"starts_with(\1, self.prefix)"), (r"\b([kv])\.clone\(\)", r"to_vec8(\1)"), (r"self\s*\.data\s*\.iter\(\)\s*\.skip\((\w+)\)", r"self.data.iter_skip(\1)")],
             sig="fn next(&mut self) -> (r: Option<(Vec<u8>, Vec<u8>)>)", spec="""
             ensures final(self).data == old(self).data, final(self).prefix == old(self).prefix,
                match r {
                    None => final(self).skip >= old(self).skip && none_between(old(self).data.entries(), old(self).prefix@, old(self).skip as int, old(self).data.entries().len() as int) && (old(self).skip <= old(self).data.entries().len() ==> final(self).skip == old(self).data.entries().len()),
                    Some(kv) => {
                        let j = final(self).skip - 1; let e = old(self).data.entries();
                        old(self).skip <= j < e.len() && none_between(e, old(self).prefix@, old(self).skip as int, j) && is_prefix(old(self).prefix@, e[j].0) && kv.0@ == e[j].0 && kv.1@ == e[j].1
                    }
                }
             """, loops={0: dict(bind="v0", before="let ghost s0 = v0@;", inv_except_break="__r is None", ensures="__r is None ==> it0.index@ == s0.len()", inv="""
                it0.seq() == s0, s0.len() == (if old(self).skip <= self.data.entries().len() { self.data.entries().len() - old(self).skip } else { 0 }), self.data.entries().len() < usize::MAX,
                forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0@ == self.data.entries()[old(self).skip + i].0 && s0[i].1@ == self.data.entries()[old(self).skip + i].1,
                self.data == old(self).data, self.prefix == old(self).prefix, self.skip == old(self).skip,
                __r is None ==> skip == old(self).skip + it0.index@ && none_between(self.data.entries(), self.prefix@, old(self).skip as int, old(self).skip + it0.index@),
                __r is Some ==> old(self).skip <= skip - 1 < self.data.entries().len() && none_between(self.data.entries(), self.prefix@, old(self).skip as int, skip - 1)
                    && is_prefix(self.prefix@, self.data.entries()[skip - 1].0) && __r.unwrap().0@ == self.data.entries()[skip - 1].0 && __r.unwrap().1@ == self.data.entries()[skip - 1].1
                """)})
    ])
    nf = lambda n: nb.find_fn("Backend::" + n, trait="Storage")
    nsub = [(r"bail!\((?:[^()]|\([^()]*\))*\)", "return Err(AnyError {})")]
    u.emit_impl(" NoBackend", [u.fn(nf(x), "", subst=nsub, spec="ensures r is Err", **({"sig": "fn prefix_iterator<'a, 'b>(&'a self, _prefix: &'b [u8]) -> (r: Result<DBIterator<'a, 'b>>)"} if x == "prefix_iterator" else {}))
                               for x in ("get", "put", "delete", "prefix_iterator", "write")])
    u.emit("""
    // iterating a prefix to the end yields exactly the entries with that prefix, in order, each once
    spec fn hits(e: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<u8>, n: int) -> Seq<(Seq<u8>, Seq<u8>)> decreases n
    { if n <= 0 { Seq::empty() } else if is_prefix(p, e[n - 1].0) { hits(e, p, n - 1).push(e[n - 1]) } else { hits(e, p, n - 1) } }
    proof fn hits_skip(e: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<u8>, a: int, b: int) requires 0 <= a <= b <= e.len(), none_between(e, p, a, b) ensures hits(e, p, b) == hits(e, p, a) decreases b - a
    { if a < b { hits_skip(e, p, a, b - 1); assert(!is_prefix(p, e[b - 1].0)); } }
    proof fn hits_all(e: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<u8>, n: int, x: (Seq<u8>, Seq<u8>)) requires 0 <= n <= e.len()
        ensures hits(e, p, n).contains(x) <==> exists|i: int| 0 <= i < n && e[i] == x && is_prefix(p, e[i].0) decreases n
    {
        if n > 0 {
            hits_all(e, p, n - 1, x);
            let h = hits(e, p, n - 1);
            if is_prefix(p, e[n - 1].0) {
                assert(h.push(e[n - 1])[h.len() as int] == e[n - 1]);
                if h.contains(x) { let i = choose|i: int| 0 <= i < h.len() && h[i] == x; assert(h.push(e[n - 1])[i] == x); }
                let hp = h.push(e[n - 1]);
                if hp.contains(x) { let i = choose|i: int| 0 <= i < hp.len() && #[trigger] hp[i] == x; if i < h.len() { assert(h[i] == x); } else { assert(e[n - 1] == x); } }
            }
        }
    }
    proof fn hits_distinct(e: Seq<(Seq<u8>, Seq<u8>)>, p: Seq<u8>, n: int) requires 0 <= n <= e.len(), forall|i: int, j: int| 0 <= i < j < e.len() ==> e[i].0 != e[j].0
        ensures hits(e, p, n).no_duplicates() decreases n
    {
        if n > 0 { hits_distinct(e, p, n - 1); hits_all(e, p, n - 1, e[n - 1]); }
    }
    fn prefix_all(b: &Backend, p: &[u8], key: Vec<u8>) {
        let ghost e = b.m.entries();
        let mut it = b.prefix_iterator(p).unwrap();
        let ghost mut got: Seq<(Seq<u8>, Seq<u8>)> = Seq::empty();
        let mut done = false;
        while !done
            invariant it.data@ == b.m@, e == b.m.entries(), it.prefix@ == p@, it.skip <= e.len(), got == hits(e, p@, it.skip as int), done ==> it.skip == e.len()
            decreases e.len() - it.skip, (if done { 0int } else { 1 })
        {
            let ghost s = it.skip as int;
            match it.next() {
                Some(kv) => { proof { hits_skip(e, p@, s, it.skip - 1); got = got.push((kv.0@, kv.1@)); assert(got == hits(e, p@, it.skip as int)); } }
                None => { proof { hits_skip(e, p@, s, e.len() as int); } done = true; }
            }
        }
        proof {
            order_ok(b.m@);
            hits_distinct(e, p@, e.len() as int);
            assert forall|k: Seq<u8>, v: Seq<u8>| got.contains((k, v)) <==> b.m@.contains_key(k) && b.m@[k] == v && is_prefix(p@, k) by { hits_all(e, p@, e.len() as int, (k, v)); }
            assert(got.no_duplicates());
        }
    }
    // reads after writes, over the contracts
    fn rw(b: &mut Backend, k: Vec<u8>, v: Vec<u8>, other: &[u8]) {
        let ghost m = b.m@; let ghost (ks, vs) = (k@, v@);
        let ghost k2 = k@;
        let probe = to_vec8(&k);
        let _ = b.put(k, v);
        let g = b.get(probe.as_slice()).unwrap();
        assert(g.unwrap()@ == vs);
        let o = b.get(other).unwrap();
        assert(other@ != ks ==> (o is Some <==> m.contains_key(other@)));
        let _ = b.delete(probe.as_slice());
        let g2 = b.get(probe.as_slice()).unwrap();
        assert(g2 is None);
        assert(b.m@ =~= m.remove(ks));
    }
    """)
    u.close()


harness = dict(kind="crate", name="s01", deps={"witnet_storage": "storage"}, main="s01.rs")
