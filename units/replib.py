"""Contracts of the cache helpers of reputation/src/trs.rs, shared by R01-R03."""
TRS = "reputation/src/trs.rs"


SEQ = """
proof fn take_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures
        s.take(i + 1) == s.take(i).push(s[i]),
        s.take(s.len() as int) == s,
        forall|k: T| #[trigger] s.take(i + 1).contains(k) <==> s.take(i).contains(k) || k == s[i],
        s.no_duplicates() ==> !s.take(i).contains(s[i]),
        s.contains(s[i]), s.to_set().contains(s[i]),
{
    let t = s.take(i);
    assert(s.take(i + 1) =~= t.push(s[i]));
    assert(s.take(s.len() as int) =~= s);
    assert(s.contains(s[i])) by { assert(s[i] == s[i]); }
    assert forall|k: T| #[trigger] s.take(i + 1).contains(k) <==> s.take(i).contains(k) || k == s[i] by {
        if t.contains(k) { let j = t.index_of(k); assert(s.take(i + 1)[j] == k); }
        if k == s[i] { assert(s.take(i + 1)[i] == k); }
        if s.take(i + 1).contains(k) { let j = s.take(i + 1).index_of(k); if j < i { assert(t[j] == k); } }
    }
}
proof fn take_all<T>(s: Seq<T>) ensures s.take(s.len() as int) == s, forall|k: T| #[trigger] s.to_set().contains(k) <==> s.contains(k)
{ assert(s.take(s.len() as int) =~= s); }
"""


def helpers(u, V, keysubst=()):
    """increment_cache / decrement_cache, instantiated at K = u64 and the given value type."""
    s = u.src(TRS)
    sub = [(r"<K, V, S>\(", "("), (r"HashMap<K, V, S>", "HashMap<K, V>"), (r"\bV\b", V), (r"\bK\b", "u64"),
           (r"\.or_default\(\)", ".or_insert(Default::default())")]
    u.notes.add("type parameters instantiated: K = u64, V = %s, S = RandomState (the code uses only Clone, Eq, Hash and Ord, +=, -= of them)" % V)
    u.notes.add("entry(k).or_default() becomes entry(k).or_insert(Default::default()), its definition in std")
    u.emit("""
    #[derive(Debug)]
    struct InconsistentCacheError;
    spec fn mval(m: Map<u64, %(V)s>, k: u64) -> int { if m.contains_key(k) { m[k] as int } else { 0 } }
    // no explicit zero entries: absent means zero
    spec fn positive(m: Map<u64, %(V)s>) -> bool { forall|k: u64| m.contains_key(k) ==> m[k] > 0 }
    """ % dict(V=V))
    u.emit_fn(s, "increment_cache", subst=sub, ret="", spec="""
      requires mval(old(map)@, k) + v <= %(V)s::MAX
      ensures
        v == 0 ==> final(map)@ == old(map)@,
        v != 0 ==> final(map)@ == old(map)@.insert(k, (mval(old(map)@, k) + v) as %(V)s),
    """ % dict(V=V))
    u.emit_fn(s, "decrement_cache", subst=sub, spec="""
      ensures
        r.is_ok() <==> (v == 0 || (old(map)@.contains_key(k) && old(map)@[k] >= v)),
        r.is_err() ==> final(map)@ == old(map)@,
        v == 0 ==> final(map)@ == old(map)@,
        r.is_ok() && v != 0 ==> final(map)@ ==
            (if old(map)@[k] == v { old(map)@.remove(k) } else { old(map)@.insert(k, (old(map)@[k] - v) as %(V)s) }),
    """ % dict(V=V))
