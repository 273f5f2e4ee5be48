import re
ID = "M01"
ME = "crypto/src/merkle.rs"
FILES = [ME]
RULE = "trees of 0..70 leaves (plus sizes around powers of two up to 2100), every algorithm against the pairwise tree, all indices, proofs with altered index, lemma, leaf or root, lemmas up to 70 levels"
ASSUMPTIONS = ["the hash function is a pure function of its two arguments (it is an uninterpreted function in the proof)",
               "T is instantiated at u64: the code uses only Copy and PartialEq of it",
               "slice::chunks(2), usize::next_power_of_two and usize::div_ceil behave as documented in std"]

MATH = """
    uninterp spec fn h(a: u64, b: u64) -> u64;
    #[verifier::external_body]
    fn hash_concat(a: u64, b: u64) -> (r: u64) ensures r == h(a, b) { unimplemented!() }
    #[verifier::external_body]
    fn chunks2(s: &[u64]) -> (r: Vec<&[u64]>)
        ensures r@.len() == (s@.len() + 1) / 2,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(2 * i, if 2 * i + 2 <= s@.len() { 2 * i + 2 } else { s@.len() as int }),
    { s.chunks(2).collect() }
    pub assume_specification[usize::next_power_of_two](x: usize) -> (r: usize)
        requires x <= 0x8000_0000_0000_0000
        ensures exists|e: nat| #[trigger] is_np2(r as int, e, x as int);
    // r is the smallest power of two not below x, and e its exponent
    pub open spec fn is_np2(r: int, e: nat, x: int) -> bool { r == pow2(e) && r >= x && (e > 0 ==> pow2((e - 1) as nat) < x) }
    pub assume_specification[usize::div_ceil](x: usize, y: usize) -> (r: usize)
        requires y > 0
        ensures r == (x as int + y - 1) / y as int;
    // one step up: pairs are hashed, an odd last node is promoted unchanged
    spec fn up(s: Seq<u64>) -> Seq<u64> { Seq::new(((s.len() + 1) / 2) as nat, |i: int| if 2 * i + 1 < s.len() { h(s[2 * i], s[2 * i + 1]) } else { s[2 * i] }) }
    // the root of the pairwise tree
    spec fn mroot(s: Seq<u64>) -> u64 decreases s.len() { if s.len() <= 1 { s[0] } else { mroot(up(s)) } }
    proof fn mroot_layer(s: Seq<u64>) requires s.len() >= 1 ensures mroot(up(s)) == mroot(s)
    { if s.len() == 1 { assert(up(s) =~= s); } }
    // splitting at a power of two that leaves the right part non-empty and not longer
    proof fn mroot_split(s: Seq<u64>, e: nat)
        requires pow2(e) < s.len() <= 2 * pow2(e)
        ensures mroot(s) == h(mroot(s.take(pow2(e) as int)), mroot(s.skip(pow2(e) as int)))
        decreases e
    {
        lemma2_to64();
        let k = pow2(e) as int;
        lemma_pow2_pos(e);
        if e == 0 {
            assert(s.len() == 2);
            assert(up(s) =~= seq![h(s[0], s[1])]);
            assert(mroot(up(s)) == h(s[0], s[1]));
        } else {
            lemma_pow2_unfold(e);
            let k2 = pow2((e - 1) as nat) as int;
            let l = up(s);
            assert(l.take(k2) =~= up(s.take(k)));
            assert(l.skip(k2) =~= up(s.skip(k)));
            mroot_split(l, (e - 1) as nat);
            mroot_layer(s.take(k));
            mroot_layer(s.skip(k));
            assert(mroot(s) == mroot(l));
        }
    }
    // the slots of the incremental tree stand for the leaves c; the last slot holds a block of 2^e leaves
    spec fn repr(l: Seq<Option<u64>>, e: nat, c: Seq<u64>) -> bool decreases l.len() {
        if l.len() == 0 { c.len() == 0 } else {
            match l.last() {
                None => repr(l.drop_last(), e + 1, c),
                Some(v) => c.len() >= pow2(e) && v == mroot(c.skip(c.len() - pow2(e))) && repr(l.drop_last(), e + 1, c.take(c.len() - pow2(e))),
            }
        }
    }
    proof fn repr_empty(l: Seq<Option<u64>>, e: nat) requires forall|i: int| 0 <= i < l.len() ==> l[i] is None ensures repr(l, e, Seq::empty()) decreases l.len()
    { if l.len() > 0 { repr_empty(l.drop_last(), e + 1); } }
    // after all slots are free, a tree one level deeper holds the whole content in its first slot
    proof fn repr_top(l: Seq<Option<u64>>, e: nat, c: Seq<u64>)
        requires l.len() >= 1, forall|i: int| 1 <= i < l.len() ==> l[i] is None, l[0] == Some(mroot(c)), c.len() == pow2((l.len() - 1 + e) as nat)
        ensures repr(l, e, c) decreases l.len()
    {
        if l.len() == 1 {
            assert(c.skip(0) =~= c);
            assert(c.take(0) =~= Seq::empty());
            assert(l.drop_last() =~= Seq::empty());
            assert(c.len() == pow2(e));
            assert(repr(l.drop_last(), e + 1, c.take(0)));
            assert(l.last() == l[0]);
        } else {
            assert(l.last() is None);
            repr_top(l.drop_last(), e + 1, c);
        }
    }
    // setting a free slot, everything after it being free
    proof fn repr_set(l: Seq<Option<u64>>, i: int, e: nat, c: Seq<u64>, b: Seq<u64>)
        requires 0 <= i < l.len(), l[i] == Some(mroot(b)), b.len() == pow2((l.len() - 1 - i + e) as nat), forall|j: int| i < j < l.len() ==> l[j] is None,
            repr(l.take(i), (l.len() - i + e) as nat, c)
        ensures repr(l, e, c + b) decreases l.len() - i
    {
        if i == l.len() - 1 {
            assert(l.drop_last() =~= l.take(i));
            assert((c + b).skip((c + b).len() - pow2(e)) =~= b);
            assert((c + b).take((c + b).len() - pow2(e)) =~= c);
        } else {
            assert(l.last() is None);
            assert(l.drop_last().take(i) =~= l.take(i));
            repr_set(l.drop_last(), i, e + 1, c, b);
        }
    }
    // bit of a proof index at a level
    spec fn pbit(index: usize, level: int) -> bool { 0 <= level < 64 && ((index >> (level as usize)) & 1) == 1 }
    // folding an element with the siblings of a proof
    spec fn pfold(index: usize, lemma: Seq<u64>, e: u64) -> u64 decreases lemma.len() {
        if lemma.len() == 0 { e } else {
            let p = pfold(index, lemma.drop_last(), e);
            if pbit(index, lemma.len() - 1) { h(lemma.last(), p) } else { h(p, lemma.last()) }
        }
    }
    // the fold only looks at as many bits as there are siblings
    proof fn pfold_bits(i1: usize, i2: usize, lemma: Seq<u64>, e: u64)
        requires forall|l: int| 0 <= l < lemma.len() ==> #[trigger] pbit(i1, l) == pbit(i2, l) ensures pfold(i1, lemma, e) == pfold(i2, lemma, e) decreases lemma.len()
    { if lemma.len() > 0 { pfold_bits(i1, i2, lemma.drop_last(), e); assert(pbit(i1, lemma.len() - 1) == pbit(i2, lemma.len() - 1)); } }
    spec fn full(n: Seq<Vec<u64>>, leaves: Seq<u64>) -> bool {
        if leaves.len() == 0 { n.len() == 0 } else {
            &&& n.len() > 0
            &&& n[0]@ == leaves
            &&& forall|i: int| 0 <= i < n.len() - 1 ==> (#[trigger] n[i + 1])@ == up(n[i]@)
            &&& forall|i: int| 0 <= i < n.len() - 1 ==> (#[trigger] n[i])@.len() > 1
            &&& n.last()@.len() == 1
        }
    }
    proof fn full_root(n: Seq<Vec<u64>>, leaves: Seq<u64>, i: int)
        requires full(n, leaves), 0 <= i < n.len() ensures mroot(n[i]@) == mroot(leaves), n[i]@.len() >= 1 decreases i
    { if i > 0 { full_root(n, leaves, i - 1); assert(n[i - 1 + 1]@ == up(n[i - 1]@)); mroot_layer(n[i - 1]@); } }
    // layer sizes halve
    proof fn full_size(n: Seq<Vec<u64>>, leaves: Seq<u64>, i: int)
        requires full(n, leaves), 0 <= i < n.len() ensures leaves.len() - 1 >= pow2(i as nat) * (n[i]@.len() - 1), n[i]@.len() >= 1 decreases i
    {
        if i == 0 { lemma2_to64(); } else {
            full_size(n, leaves, i - 1);
            assert(n[i - 1 + 1]@ == up(n[i - 1]@));
            lemma_pow2_unfold(i as nat);
            let a = n[i - 1]@.len() - 1; let b = n[i]@.len() - 1; let p = pow2((i - 1) as nat);
            assert(a >= 2 * b);
            assert(p * a >= p * (2 * b)) by (nonlinear_arith) requires a >= 2 * b, p >= 0;
            assert(p * (2 * b) == (2 * p) * b) by (nonlinear_arith);
            assert(pow2(i as nat) * b == (2 * p) * b);
        }
    }
    proof fn zero_bits(l: int) ensures 0 <= l ==> !pbit(0, l)
    { if 0 <= l < 64 { let m = l as usize; assert((0usize >> m) & 1 == 0) by (bit_vector); } }
    proof fn bits1(i: usize) ensures i & 1 == i % 2, i ^ 1 == (if i % 2 == 0 { i + 1 } else { i - 1 }), i >> 1 == i / 2, i & 1 <= 1
    {
        assert(i & 1 == i % 2) by (bit_vector);
        assert(i >> 1 == i / 2) by (bit_vector);
        assert(i % 2 == 0 ==> i < 0xffff_ffff_ffff_ffff && i ^ 1 == add(i, 1)) by (bit_vector);
        assert(i % 2 == 1 ==> i ^ 1 == sub(i, 1)) by (bit_vector);
        assert(i & 1 <= 1) by (bit_vector);
    }
    proof fn or_bits(p: usize, i: usize, n: usize, l: int) requires n < 64, 0 <= l, !pbit(p, n as int)
        ensures pbit(p | ((i & 1) << n), l) == (if l == n { i % 2 == 1 } else { pbit(p, l) })
    {
        if l < 64 {
            let m = l as usize;
            assert(((p >> n) & 1) == 0 || ((p >> n) & 1) == 1) by (bit_vector);
            assert(n < 64 && m < 64 && m != n ==> ((p | ((i & 1) << n)) >> m) & 1 == (p >> m) & 1) by (bit_vector);
            assert(n < 64 && (p >> n) & 1 == 0 ==> ((p | ((i & 1) << n)) >> n) & 1 == i % 2) by (bit_vector);
        }
    }
    proof fn pow2_le(k: nat, a: int, b: int) requires a >= pow2(k) * b, b >= 1, a < 0x1_0000_0000_0000_0000 ensures k < 64
    { assert(pow2(k) * b >= pow2(k)) by (nonlinear_arith) requires b >= 1, pow2(k) >= 0; if k >= 64 { pow2_64(k); } }
    proof fn pow2_64(n: nat) requires n >= 64 ensures pow2(n) >= 0x1_0000_0000_0000_0000 { lemma2_to64(); if n > 64 { lemma_pow2_strictly_increases(64, n); } }
"""

SUB = [(r"<T: Copy>\(", "("), (r"hash_concat: fn\(T, T\) -> T,\s*", ""), (r",\s*hash_concat: fn\(T, T\) -> T\b", ""), (r"\(hash_concat, ", "("), (r", hash_concat\)", ")"),
       (r"\(self\.hash_concat\)\(", "hash_concat("), (r", self\.hash_concat\)", ")"), (r"let hash_concat = self\.hash_concat;", ""),
       (r"\bhash_concat,\s*(?=[}\w.])", ""), (r"\b(ProgressiveMerkleTree|FullMerkleTree|InclusionProof)<T>", r"\1"), (r"\bT\b", "u64"), (r"\bSelf \{", "Self {"),
       (r"let ProgressiveMerkleTree \{\s*leaves,\s*\.\.\s*\} = self;", "let leaves = &mut self.leaves;")]


def verus(u):
    s = u.src(ME)
    u.file("merkle")
    u.emit("use vstd::arithmetic::power2::*;\nglobal size_of usize == 8;")
    u.emit(MATH)
    fields = [(r"\b(ProgressiveMerkleTree|FullMerkleTree|InclusionProof)<T(: 'static)?>", r"\1"), (r"hash_concat: fn\(T, T\) -> T,", ""), (r"\bT\b", "u64")]
    for t in ("ProgressiveMerkleTree", "FullMerkleTree", "InclusionProof"):
        u.emit_raw(u.struct_text(s, t, subst=fields))
    u.notes.add("the function pointer hash_concat (a parameter and a field) is replaced by one uninterpreted pure function")
    u.emit_fn(s, "merkle_tree_root_with_hashing_function", subst=SUB, spec="""
        requires hashes@.len() >= 1
        ensures r == mroot(hashes@)
        decreases hashes@.len()
    """, start="proof { lemma2_to64(); if hashes@.len() == 2 { assert(pow2(0) == 1); mroot_split(hashes@, 0); } }",
        before=[(r"let \(left, right\)", """proof {
            let x = (hashes@.len() as int + 1) / 2;
            assert forall|r: int, e: nat| #[trigger] is_np2(r, e, x) implies r < hashes@.len() && hashes@.len() <= 2 * r by {
                if e > 0 { lemma_pow2_unfold(e);
                    if e > 1 { lemma_pow2_unfold((e - 1) as nat); } else { assert(pow2(0) == 1); } }
            } }""")],
        after=[(r"let \(left, right\)", """proof { let half = (hashes@.len() as int + 1) / 2; let e = choose|e: nat| #[trigger] is_np2(left@.len() as int, e, half); mroot_split(hashes@, e);
            assert(left@ == hashes@.take(left@.len() as int)); assert(right@ == hashes@.skip(left@.len() as int)); }""")])
    u.emit("const EMPTY_SHA256: u64 = 0;")
    u.emit_fn(s, "merkle_tree_root", subst=[(r"\(sha256_concat, ", "("), (r"\bSha256\b", "u64")], spec="ensures r == (if hashes@.len() == 0 { EMPTY_SHA256 } else { mroot(hashes@) })")
    u.notes.add("Sha256 is an abstract 64-bit value in the proof of merkle_tree_root")
    u.emit_impl(" ProgressiveMerkleTree", [
        u.fn(s, "ProgressiveMerkleTree::push", subst=SUB + [(r"\bleaves\[", "leaves["), ], ret="", desugar=["try_fold"], skel=[".try_fold"],
             sig="fn push(&mut self, x: u64, Ghost(c): Ghost<Seq<u64>>)", spec="""
             requires repr(old(self).leaves@, 0, c), old(self).leaves@.len() < usize::MAX
             ensures repr(final(self).leaves@, 0, c.push(x)), final(self).empty_hash == old(self).empty_hash
             """, start="let ghost l0 = self.leaves@; let ghost mut b: Seq<u64> = seq![x]; let ghost mut c1 = c; proof { lemma2_to64(); assert(l0.take(l0.len() as int) =~= l0); assert(b + Seq::empty() =~= b); assert(c1 + b =~= c.push(x)); }",
             loops={0: dict(inv_except_break="__acc == Some(mroot(b)), forall|j: int| __i0 <= j < l0.len() ==> leaves@[j] is None, repr(l0.take(__i0 as int), (l0.len() - __i0) as nat, c1), b.len() == pow2((l0.len() - __i0) as nat)",
                            inv="__i0 <= l0.len(), leaves@.len() == l0.len(), forall|j: int| 0 <= j < __i0 ==> leaves@[j] == l0[j], c1 + b == c.push(x), self.empty_hash == old(self).empty_hash",
                            ensures="""__acc is Some ==> __i0 == 0 && __acc == Some(mroot(b)) && (forall|j: int| 0 <= j < l0.len() ==> leaves@[j] is None) && c1.len() == 0 && b.len() == pow2(l0.len()),
                                __acc is None ==> repr(leaves@, 0, c.push(x))""",
                            dec="__i0",
                            brk="proof { assert(leaves@.take(__i0 as int) =~= l0.take(__i0 as int)); repr_set(leaves@, __i0 as int, 0, c1, b); }",
                            start="""proof { assert(l0.take(__i0 as int).drop_last() =~= l0.take(__i0 - 1)); assert(l0.take(__i0 as int).last() == l0[__i0 - 1]); }""",
                            end="""proof {
                                let e = (l0.len() - __i0 - 1) as nat;
                                let b0 = c1.skip(c1.len() - pow2(e)); let c0 = c1.take(c1.len() - pow2(e));
                                lemma_pow2_pos(e); lemma_pow2_unfold(e + 1);
                                mroot_split(b0 + b, e);
                                assert((b0 + b).take(pow2(e) as int) =~= b0); assert((b0 + b).skip(pow2(e) as int) =~= b);
                                assert(c0 + (b0 + b) =~= c1 + b);
                                b = b0 + b; c1 = c0;
                            }""")},
             end="""proof { if self.leaves@.len() > l0.len() { assert(c1 + b =~= b); repr_top(self.leaves@, 0, c.push(x)); } }"""),
        u.fn(s, "ProgressiveMerkleTree::root", subst=SUB, desugar=["fold", "index"], skel=[".fold"],
             sig="fn root(&self, Ghost(c): Ghost<Seq<u64>>) -> (r: u64)", spec="""
             requires repr(self.leaves@, 0, c)
             ensures r == (if c.len() == 0 { *self.empty_hash } else { mroot(c) })
             """, start="let ghost mut right: Seq<u64> = Seq::empty(); let ghost mut c1 = c; proof { lemma2_to64(); assert(self.leaves@.take(self.leaves@.len() as int) =~= self.leaves@); assert(c1 + right =~= c); }",
             loops={0: dict(inv="""
                __i0 <= self.leaves@.len(), c1 + right == c, repr(self.leaves@.take(__i0 as int), (self.leaves@.len() - __i0) as nat, c1),
                right.len() < pow2((self.leaves@.len() - __i0) as nat),
                h1 == (if right.len() == 0 { None } else { Some(mroot(right)) })
                """, dec="__i0", start="""proof { assert(self.leaves@.take(__i0 as int).drop_last() =~= self.leaves@.take(__i0 - 1)); assert(self.leaves@.take(__i0 as int).last() == self.leaves@[__i0 - 1]); }""",
                end="""proof {
                    let e = (self.leaves@.len() - __i0 - 1) as nat;
                    lemma_pow2_pos(e); lemma_pow2_unfold(e + 1);
                    if self.leaves@[__i0 as int] is Some {
                        let b0 = c1.skip(c1.len() - pow2(e)); let c0 = c1.take(c1.len() - pow2(e));
                        if right.len() > 0 { mroot_split(b0 + right, e); } else { assert(b0 + right =~= b0); }
                        assert((b0 + right).take(pow2(e) as int) =~= b0); assert((b0 + right).skip(pow2(e) as int) =~= right);
                        assert(c0 + (b0 + right) =~= c1 + right);
                        right = b0 + right; c1 = c0;
                    }
                }""")}, end="proof { assert(c1 + right =~= right); }"),
    ])
    u.emit_impl(" InclusionProof", [
        u.fn(s, "InclusionProof::new", subst=SUB, spec="ensures r.index == index, r.lemma == lemma"),
        u.fn(s, "InclusionProof::root", subst=SUB, desugar=["index"], skel=["for"], spec="ensures r == pfold(self.index, self.lemma@, element)",
             loops={0: dict(inv="__i0 <= self.lemma@.len(), elem == pfold(self.index, self.lemma@.take(__i0 as int), element)", dec="self.lemma@.len() - __i0",
                            end="proof { assert(self.lemma@.take(__i0 as int).drop_last() =~= self.lemma@.take(__i0 - 1)); }",
                            after="proof { assert(self.lemma@.take(self.lemma@.len() as int) =~= self.lemma@); }")}),
        u.fn(s, "InclusionProof::verify", subst=SUB, spec="ensures r == (pfold(self.index, self.lemma@, element) == root)"),
        u.fn(s, "InclusionProof::lemma", subst=SUB, spec="ensures r@ == self.lemma@"),
        u.fn(s, "InclusionProof::proof_index", subst=SUB, spec="ensures r == self.index"),
    ])
    u.emit_impl(" FullMerkleTree", [
        u.fn(s, "FullMerkleTree::build", subst=SUB + [(r"leaves\s*\.chunks\(2\)", "chunks2(leaves)"), (r"vec!\[\]", "Vec::<Vec<u64>>::new()")],
             desugar=["closure", "map", "collect", "slice_match"], skel=["while"], spec="ensures full(r@, leaves@)",
             loops={0: dict(inv="""
                nodes@.len() > 0, nodes@[0]@ == leaves0, leaves0.len() > 0, nodes@.last()@.len() >= 1,
                forall|i: int| 0 <= i < nodes@.len() - 1 ==> (#[trigger] nodes@[i + 1])@ == up(nodes@[i]@),
                forall|i: int| 0 <= i < nodes@.len() - 1 ==> (#[trigger] nodes@[i])@.len() > 1
                """, dec="nodes@.last()@.len()", start="let ghost n0 = nodes@;",
                end="""proof { assert(nodes@.last()@ =~= up(n0.last()@));
                   assert forall|i: int| 0 <= i < nodes@.len() - 1 implies (#[trigger] nodes@[i + 1])@ == up(nodes@[i]@) by { if i < n0.len() - 1 { assert(nodes@[i + 1] == n0[i + 1]); assert(n0[i + 1]@ == up(n0[i]@)); } } }"""),
                1: dict(inv="""
                it1.seq() == chs@, chs@.len() == (lv.len() + 1) / 2, __c@.len() == it1.index@, lv == n0.last()@, lv.len() > 1,
                forall|i: int| 0 <= i < chs@.len() ==> (#[trigger] chs@[i])@ == lv.subrange(2 * i, if 2 * i + 2 <= lv.len() { 2 * i + 2 } else { lv.len() as int }),
                forall|i: int| 0 <= i < __c@.len() ==> #[trigger] __c@[i] == up(lv)[i]
                """, bind="chs", before="let ghost lv = leaves@;")},
             start="let ghost leaves0 = leaves@;"),
        u.fn(s, "FullMerkleTree::root", subst=SUB, ret="r", desugar=["opt_map"], sig="fn root(&self, Ghost(leaves): Ghost<Seq<u64>>) -> (r: u64)", spec="""
             requires full(self.nodes@, leaves)
             ensures r == (if leaves.len() == 0 { *self.empty_hash } else { mroot(leaves) })
             """, start="proof { if leaves.len() > 0 { full_root(self.nodes@, leaves, self.nodes@.len() - 1); } }"),
        u.fn(s, "FullMerkleTree::new", subst=SUB, ret="r", spec="ensures full(r.nodes@, leaves@), *r.empty_hash == *empty_hash"),
        u.fn(s, "FullMerkleTree::nodes", subst=SUB, spec="ensures r@ == self.nodes@"),
        u.fn(s, "FullMerkleTree::inclusion_proof", subst=SUB + [(r"InclusionProof::new\(([^()]*?), self\.hash_concat\)", r"InclusionProof::new(\1)")], desugar=["index"], skel=["for"],
             sig="fn inclusion_proof(&self, index: usize, Ghost(leaves): Ghost<Seq<u64>>) -> (r: Option<InclusionProof>)", spec="""
             requires full(self.nodes@, leaves), leaves.len() <= usize::MAX
             ensures r is Some <==> index < leaves.len(),
                r is Some ==> pfold(r.unwrap().index, r.unwrap().lemma@, leaves[index as int]) == mroot(leaves),
             """, loops={0: dict(inv="""
                __i0 <= self.nodes@.len(), full(self.nodes@, leaves), leaves.len() <= usize::MAX, index < leaves.len(), v@.len() <= __i0,
                __i0 < self.nodes@.len() ==> i < self.nodes@[__i0 as int]@.len() && pfold(proof_index, v@, leaves[index as int]) == self.nodes@[__i0 as int]@[i as int],
                __i0 == self.nodes@.len() ==> pfold(proof_index, v@, leaves[index as int]) == self.nodes@.last()@[0],
                forall|l: int| v@.len() <= l ==> !#[trigger] pbit(proof_index, l)
                """, dec="self.nodes@.len() - __i0", before="proof { assert forall|l: int| 0 <= l implies !#[trigger] pbit(0, l) by { zero_bits(l); } }",
                start="let ghost (k0, i0, pi0, v0) = (__i0 as int, i, proof_index, v@);",
                end="""proof {
                   let s = self.nodes@[k0]@;
                   bits1(i0); full_size(self.nodes@, leaves, k0);
                   if v@ != v0 {
                       let x = v@.last();
                       assert(v@ =~= v0.push(x));
                       assert(v@.drop_last() =~= v0);
                       assert forall|l: int| 0 <= l implies #[trigger] pbit(proof_index, l) == (if l == v0.len() { i0 % 2 == 1 } else { pbit(pi0, l) }) by { or_bits(pi0, i0, v0.len() as usize, l); }
                       pfold_bits(proof_index, pi0, v0, leaves[index as int]);
                   }
                   if __i0 < self.nodes@.len() { assert(self.nodes@[k0 + 1]@ == up(s)); } else { assert(self.nodes@.last() == self.nodes@[k0]); }
                }""")},
             before=[(r"proof_index \|=", "proof { bits1(i0); full_size(self.nodes@, leaves, k0); pow2_le(k0 as nat, leaves.len() as int - 1, self.nodes@[k0]@.len() - 1); }"),
                     (r"Some\(InclusionProof::new", "proof { full_root(self.nodes@, leaves, self.nodes@.len() - 1); }")]),
    ])
    u.emit("""
    // the whole property, over the contracts alone
    fn all_agree(leaves: Vec<u64>, empty: &'static u64, index: usize) {
        let ghost s = leaves@;
        let mut pt = ProgressiveMerkleTree { leaves: Vec::new(), empty_hash: empty };
        proof { repr_empty(pt.leaves@, 0); }
        let mut k: usize = 0;
        while k < leaves.len() && pt.leaves.len() < usize::MAX invariant k <= leaves@.len(), leaves@ == s, repr(pt.leaves@, 0, s.take(k as int)), pt.empty_hash == empty
            decreases leaves@.len() - k
        { pt.push(leaves[k], Ghost(s.take(k as int))); k = k + 1; proof { assert(s.take(k as int) =~= s.take(k - 1).push(s[k - 1])); } }
        let r1 = pt.root(Ghost(s.take(k as int)));
        let r2 = if leaves.len() == 0 { *empty } else { merkle_tree_root_with_hashing_function(leaves.as_slice()) };
        let n = leaves.len();
        let t = FullMerkleTree::new(leaves, empty);
        let r3 = t.root(Ghost(s));
        assert(k == n ==> s.take(k as int) =~= s);
        assert(r2 == r3 && (k == n ==> r1 == r2));
        match t.inclusion_proof(index, Ghost(s)) {
            None => { assert(index >= s.len()); }
            Some(p) => { let leaf = t.nodes()[0][index]; let ok = p.verify(leaf, r3); assert(ok && leaf == s[index as int]); }
        }
    }
    """)
    u.close()


harness = dict(kind="crate", name="m01", deps={"witnet_crypto": "crypto"}, main="m01.rs")
