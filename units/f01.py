from unit import LIGHT_PRELUDE
from utxolib import *
from extract import Extract, HEADER
ID = "F01"
TF, VA, TX, ER = "data_structures/src/transaction_factory.rs", "validations/src/validations.rs", "data_structures/src/transaction.rs", "data_structures/src/error.rs"
FILES = [TF, VA, TX]
SL = lambda its, n, r: its if "(" in its else its.strip() + ".iter()"
CONST_FNS = ("transaction_inputs_sum", "transaction_outputs_sum", "vt_transaction_fee", "dr_transaction_fee", "st_transaction_fee", "ut_transaction_fee", "checked_total_value")
RULE = "transactions over a set of outputs with pending changes: values at the limits of 64 bits, unknown, repeated and locked inputs, and mutations of them"
ASSUMPTIONS = ["which error is returned is not part of the property: errors are one opaque value",
               "EpochConstants::epoch_timestamp returns the start of the epoch (decided by E01)",
               "the lookup of an output is the contract of UtxoDiff::get (decided by U01)"]
D = ["opt_map", "opt_and_then", "opt_ok_or_else", "opt_ok_or", "opt_map_err", "opt_map_or"]


def verus(u, name="fees", types_before=None, fields=None, after=None):
    """The fee functions; F04 adds the rules of transactions to them."""
    more = lambda t, f: f + (fields or {}).get(t, [])
    tf, va, tx, ch, er = u.src(TF), u.src(VA), u.src(TX), u.src(CH), u.src(ER)
    u.file(name, LIGHT_PRELUDE)
    types(u)
    if types_before:
        types_before(u)
    for t, f in (("StakeOutput", ["value"]), ("DataRequestOutput", ["witness_reward", "witnesses", "commit_and_reveal_fee"])):
        u.emit_raw(u.struct_text(ch, t, keep_fields=more(t, f), subst=[(r"StakeKey<PublicKeyHash>", "StakeKey")]))
    for t, f in (("VTTransactionBody", ["inputs", "outputs"]), ("DRTransactionBody", ["inputs", "outputs", "dr_output"]), ("StakeTransactionBody", ["inputs", "output", "change"]), ("UnstakeTransactionBody", ["withdrawal", "fee"])):
        u.emit_raw(u.struct_text(tx, t, keep_fields=more(t, f)))
    for t in ("VTTransaction", "DRTransaction", "StakeTransaction", "UnstakeTransaction"):
        u.emit_raw(u.struct_text(tx, t, keep_fields=more(t, ["body"])))
    u.emit_raw(u.struct_text(er, "TransactionError", derive="" if fields else "Clone, Copy", keep_fields=more("TransactionError", ["FeeOverflow", "InputValueOverflow", "OutputValueOverflow", "NegativeFee", "OutputNotFound", "TimeLock"])))
    u.emit("""
    // anyhow::Error: one opaque value
    struct AnyError {}
    impl From<TransactionError> for AnyError { #[verifier::external_body] fn from(e: TransactionError) -> AnyError { AnyError {} } }
    impl From<EpochCalculationError> for AnyError { #[verifier::external_body] fn from(e: EpochCalculationError) -> AnyError { AnyError {} } }
    impl From<std::num::TryFromIntError> for AnyError { #[verifier::external_body] fn from(e: std::num::TryFromIntError) -> AnyError { AnyError {} } }
    struct EpochCalculationError {}
    #[derive(Clone, Copy)] struct EpochConstants { x: u8 }
    impl EpochConstants {
        // the second in which an epoch starts, if it is in range
        uninterp spec fn start(&self, e: Epoch) -> Option<i64>;
        #[verifier::external_body]
        fn epoch_timestamp(&self, e: Epoch) -> (r: Result<(i64, bool), EpochCalculationError>)
            ensures r is Ok <==> self.start(e) is Some, r is Ok ==> r->Ok_0.0 == self.start(e)->0 { unimplemented!() }
    }
    pub assume_specification[<i64 as TryFrom<u64>>::try_from](x: u64) -> (r: Result<i64, <i64 as TryFrom<u64>>::Error>) ensures r is Ok <==> x <= i64::MAX, r is Ok ==> r->Ok_0 == x;
    // the value of a list of outputs
    spec fn outs_sum(s: Seq<ValueTransferOutput>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { outs_sum(s.drop_last()) + s.last().value as nat } }
    proof fn outs_step(s: Seq<ValueTransferOutput>, i: int) requires 0 <= i < s.len() ensures outs_sum(s.take(i + 1)) == outs_sum(s.take(i)) + s[i].value, outs_sum(s.take(i + 1)) <= outs_sum(s) decreases s.len() - i
    { PROBE(outs_step); assert(s.take(i + 1).drop_last() =~= s.take(i)); if i + 1 < s.len() { outs_step(s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
    // the value of the outputs a list of inputs refers to
    spec fn ins_sum(m: Outs, s: Seq<Input>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ins_sum(m, s.drop_last()) + m[s.last().output_pointer].0.value as nat } }
    proof fn ins_step(m: Outs, s: Seq<Input>, i: int) requires 0 <= i < s.len() ensures ins_sum(m, s.take(i + 1)) == ins_sum(m, s.take(i)) + m[s[i].output_pointer].0.value, ins_sum(m, s.take(i + 1)) <= ins_sum(m, s) decreases s.len() - i
    { PROBE(ins_step); assert(s.take(i + 1).drop_last() =~= s.take(i)); if i + 1 < s.len() { ins_step(m, s, i + 1); } else { assert(s.take(i + 1) =~= s); } }
    spec fn unlocked(o: ValueTransferOutput, e: Epoch, c: EpochConstants) -> bool { c.start(e) is Some && o.time_lock <= i64::MAX && o.time_lock as int <= c.start(e)->0 }
    // every input refers to an existing unlocked output, none twice, and the sum fits
    spec fn ins_ok(m: Outs, s: Seq<Input>, e: Epoch, c: EpochConstants) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).output_pointer) && unlocked(m[s[i].output_pointer].0, e, c)
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).output_pointer != (#[trigger] s[j]).output_pointer
        &&& ins_sum(m, s) <= u64::MAX
    }
    impl DataRequestOutput {
        // what a data request locks: per witness its reward and both fees
        spec fn total(&self) -> int { (self.witness_reward + 2 * self.commit_and_reveal_fee) * self.witnesses }
        // the range of the code: one witness' share fits in 64 bits, and so does the total
        spec fn total_ok(&self) -> bool { self.witness_reward + 2 * self.commit_and_reveal_fee <= u64::MAX && self.total() <= u64::MAX }
    }
    // inputs worth at least what is spent: the fee is exactly the difference. Anything else is rejected.
    spec fn fee_is(m: Outs, s: Seq<Input>, e: Epoch, c: EpochConstants, spent: int, r: Result<u64, AnyError>) -> bool {
        &&& r is Ok <==> ins_ok(m, s, e, c) && spent <= ins_sum(m, s)
        &&& r is Ok ==> r->Ok_0 == ins_sum(m, s) - spent
    }
    """)
    pool_reads(u)
    A = [(r"anyhow::Error", "AnyError")]
    u.emit_impl("<'a> UtxoDiff<'a>", [diff_get(u)])
    u.emit_impl(" Input", [u.fn(ch, "Input::output_pointer", spec="ensures *r == self.output_pointer")])
    u.emit_impl(" DataRequestOutput", [u.fn(ch, "DataRequestOutput::checked_total_value", desugar=D,
        spec="ensures r is Ok <==> self.total_ok(), r is Ok ==> r->Ok_0 == self.total()")])
    u.emit_impl(" UnstakeTransactionBody", [u.fn(tx, "UnstakeTransactionBody::value", spec="ensures r == self.withdrawal.value")])
    u.emit_fn(tf, "transaction_outputs_sum", desugar=D, skel=["for"], spec="ensures r is Ok <==> outs_sum(outputs@) <= u64::MAX, r is Ok ==> r->Ok_0 == outs_sum(outputs@)",
        loops={0: dict(inv="it0.seq().unref() == outputs@, total_value == outs_sum(outputs@.take(it0.index@))", iter_as=SL, before="proof { assert(outputs@.take(0) =~= Seq::empty()); }",
            start="proof { outs_step(outputs@, it0.index@); }", after="proof { assert(outputs@.take(outputs@.len() as int) =~= outputs@); }")})
    u.emit_fn(tf, "transaction_inputs_sum", desugar=D, sig_subst=A, skel=["for"], spec="requires utxo_diff.inv() ensures fee_is(utxo_diff@, inputs@, epoch, epoch_constants, 0, r)",
        start="let ghost m = utxo_diff@;",
        loops={0: dict(inv="""it0.seq().unref() == inputs@, m == utxo_diff@, utxo_diff.inv(), total_value == ins_sum(m, inputs@.take(it0.index@)),
            forall|i: int| 0 <= i < it0.index@ ==> m.contains_key((#[trigger] inputs@[i]).output_pointer) && unlocked(m[inputs@[i].output_pointer].0, epoch, epoch_constants),
            forall|i: int, j: int| 0 <= i < j < it0.index@ ==> (#[trigger] inputs@[i]).output_pointer != (#[trigger] inputs@[j]).output_pointer,
            forall|p: &OutputPointer| #[trigger] seen_output_pointers@.contains(p) <==> exists|i: int| 0 <= i < it0.index@ && (#[trigger] inputs@[i]).output_pointer == *p""", iter_as=SL, before="proof { assert(inputs@.take(0) =~= Seq::empty()); }",
            start="proof { ins_step(m, inputs@, it0.index@); assert(*input == inputs@[it0.index@]); }", after="proof { assert(inputs@.take(inputs@.len() as int) =~= inputs@); }")})
    for f, spent, pre in (("vt_transaction_fee", "outs_sum(vt_tx.body.outputs@) as int", "vt_tx"), ("dr_transaction_fee", "outs_sum(dr_tx.body.outputs@) + dr_tx.body.dr_output.total()", "dr_tx"),
                     ("st_transaction_fee", "st_tx.body.output.value + (match st_tx.body.change { Some(c) => c.value as int, None => 0 })", "st_tx")):
        if f[0] == "d":
            sp = "ensures r is Ok ==> dr_tx.body.dr_output.total_ok() && fee_is(utxo_diff@, dr_tx.body.inputs@, epoch, epoch_constants, %s, r), dr_tx.body.dr_output.total_ok() ==> fee_is(utxo_diff@, dr_tx.body.inputs@, epoch, epoch_constants, %s, r)" % (spent, spent)
        else:
            sp = "ensures fee_is(utxo_diff@, %s.body.inputs@, epoch, epoch_constants, %s, r)" % (pre, spent)
        u.emit_fn(va, f, desugar=D, sig_subst=A, subst=A, spec="requires utxo_diff.inv() " + sp)
    u.emit_fn(va, "ut_transaction_fee", desugar=D, sig_subst=A, subst=A, spec="ensures r is Ok <==> ut_tx.body.withdrawal.value + ut_tx.body.fee <= staked_amount, r is Ok ==> r->Ok_0 == ut_tx.body.fee")
    if after:
        after(u)
    u.close()


def build(u):
    x = Extract([TF, VA, TX, CH, ER, UT, DB, "storage/src/storage.rs"], mods=["utxo_pool", "utxo_db", "transaction_factory", "storage"], stubs=["Result", "SHA256", "KeyedSignature", "RADRequest", "Memoized", "StakeKey", "OldUnspentOutputsPool"],
                traits=["Display", "Debug", "FromStr"], no=["Display for PublicKeyHash", "Debug for PublicKeyHash", "FromStr for PublicKeyHash", "From<Sha256> for Hash", "From<Hash> for Sha256", "From<UnspentOutputsPool> for OldUnspentOutputsPool", "UnspentOutputsPool::migrate_old_unspent_outputs_pool_to_db", "StakeTransactionBody::authorization_is_valid"])
    return HEADER + x.build(["UtxoDiff::*", "Diff::*", "UnspentOutputsPool::*", "vt_transaction_fee", "dr_transaction_fee", "st_transaction_fee", "ut_transaction_fee", "transaction_inputs_sum", "transaction_outputs_sum",
                             "EpochConstants::*", "OutputPointer", "ValueTransferOutput", "PublicKeyHash", "Hash"])


harness = dict(kind="extract", name="f01", build=build, main="f01.rs")
