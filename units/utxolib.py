"""Unspent outputs: types and contracts shared by U01 and F01."""
CH, UT, DB = "data_structures/src/chain/mod.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs"
CL = [(r"\b(x|v|vt|output)\.clone\(\)", r"cl(\1)")]
D = ["opt_map", "opt_and_then", "opt_or_else", "opt_ok_or_else", "opt_filter", "opt_map_err", "opt_map_or"]

TYPES = """
    type Epoch = u32;
    type SHA256 = [u8; 32];
    mod km {
        use super::*;
        pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<OutputPointer>();
        pub broadcast axiom fn key_model_ref() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&OutputPointer>();
    }
    broadcast use {vstd::std_specs::hash::group_hash_axioms, km::key_model, km::key_model_ref};
    #[verifier::external_body]
    fn cl<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
    // &'static dyn UtxoDb: the persisted outputs
    #[verifier::external_body]
    struct Db { x: u8 }
    #[derive(Debug)] struct DbError {}
    type Outs = Map<OutputPointer, (ValueTransferOutput, u32)>;
    impl Db {
        uninterp spec fn view(&self) -> Outs;
        #[verifier::external_body]
        fn get_utxo(&self, k: &OutputPointer) -> (r: std::result::Result<Option<(ValueTransferOutput, u32)>, DbError>)
            ensures r is Ok, r->Ok_0 == (if self@.contains_key(*k) { Some(self@[*k]) } else { None }) { unimplemented!() }
    }
    spec fn db_view(d: Option<Db>) -> Outs { match d { Some(d) => d@, None => Map::empty() } }
    // outputs after the changes: additions first, then removals
    spec fn overlay(base: Outs, d: Diff) -> Outs { base.union_prefer_right(d.utxos_to_add@).remove_keys(d.utxos_to_remove@) }
    spec fn look(m: Outs, k: OutputPointer) -> Option<(ValueTransferOutput, u32)> { if m.contains_key(k) { Some(m[k]) } else { None } }
    impl UnspentOutputsPool {
        spec fn view(&self) -> Outs { overlay(db_view(self.db), self.diff) }
    }
    impl<'a> UtxoDiff<'a> {
        // the outputs after the pending changes
        spec fn view(&self) -> Outs { overlay(self.utxo_set@, self.diff) }
        // an output is created once: what is added here is unknown to the underlying set
        spec fn fresh(&self, k: OutputPointer) -> bool {
            !self.utxo_set@.contains_key(k) && !self.utxo_set.diff.utxos_to_add@.contains_key(k) && !self.utxo_set.diff.utxos_to_remove@.contains(k) && !self.diff.utxos_to_remove@.contains(k)
        }
        // and only what the underlying set has is removed from it
        spec fn inv(&self) -> bool {
            &&& forall|k: OutputPointer| #[trigger] self.diff.utxos_to_add@.contains_key(k) ==> self.fresh(k)
            &&& forall|k: OutputPointer| #[trigger] self.diff.utxos_to_remove@.contains(k) ==> self.utxo_set@.contains_key(k)
        }
    }
"""


def types(u):
    ch, ut = u.src(CH), u.src(UT)
    u.need_derives(ch, "OutputPointer", ["Copy", "Eq", "Hash", "PartialEq"])
    u.emit_raw(u.struct_text(ch, "Hash", derive="Clone, Copy, PartialEq, Eq, Hash").replace("Hash)]", "std::hash::Hash)]"))
    for t, d in (("PublicKeyHash", "Clone, Copy, PartialEq, Eq"), ("OutputPointer", "Clone, Copy, PartialEq, Eq, std::hash::Hash"), ("Input", "Clone, Copy"), ("ValueTransferOutput", "Clone, Copy")):
        u.emit_raw(u.struct_text(ch, t, derive=d))
    u.notes.add("ValueTransferOutput is made Copy, so that .clone() is known to copy")
    u.emit_raw(u.struct_text(ut, "Diff"))
    u.emit_raw(u.struct_text(ut, "UnspentOutputsPool", subst=[(r"Arc<dyn UtxoDb \+ Send \+ Sync>", "Db")]))
    u.emit_raw(u.struct_text(ut, "UtxoDiff"))
    u.notes.add("the database behind the pool is an external type with a map as its view")
    u.emit(TYPES)


def pool_reads(u):
    ut = u.src(UT)
    u.emit_impl(" UnspentOutputsPool", [
        u.fn(ut, "UnspentOutputsPool::db_get", desugar=D, subst=CL, spec="ensures r == look(db_view(self.db), *k)"),
        u.fn(ut, "UnspentOutputsPool::get_map", desugar=D, subst=CL, spec="ensures r == look(self@, *k)"),
        u.fn(ut, "UnspentOutputsPool::get", desugar=D, subst=CL, spec="ensures r == (match look(self@, *k) { Some(x) => Some(x.0), None => None })"),
        u.fn(ut, "UnspentOutputsPool::contains_key", desugar=D, subst=CL, spec="ensures r == self@.contains_key(*k)"),
        u.fn(ut, "UnspentOutputsPool::included_in_block_number", desugar=D, subst=CL, spec="ensures r == (match look(self@, *k) { Some(x) => Some(x.1), None => None })"),
    ])


def diff_get(u):
    return u.fn(u.src(UT), "UtxoDiff::get", desugar=D, subst=CL, spec="requires self.inv() ensures r == (match look(self@, *output_pointer) { Some(x) => Some(x.0), None => None })")
