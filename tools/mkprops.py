#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to read and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

TRS = "reputation/src/trs.rs"; ARS = "reputation/src/ars.rs"
prop("R01", "Reputation of every identity equals the sum of its unexpired packets",
 "After any sequence of gains, expirations and penalizations, the reputation reported for each identity is exactly the sum of the reputation packets it still holds; an identity with none has reputation zero. "
 "A gain adds, for every listed pair in order (identities may repeat), exactly that much and changes nobody else; a gain whose expiration is earlier than the latest queued one is rejected and changes nothing. "
 "Expiring up to a point removes exactly the packets whose expiration is at or before that point, returns their exact total, and leaves all later packets alone.",
 ["inputs", "histories"], "every identity type, amount, expiration and every finite sequence of operations whose grand total does not overflow the reputation type",
 "The unit tests drive a handful of fixed histories with at most a few identities; the ledger invariant is over all histories, including repeated identities inside one gain and equal expirations.",
 [TRS], [("gain", TRS), ("expire", TRS), ("get", TRS), ("queue + cached totals", TRS)],
 [("queue", "packets in expiration order", TRS), ("cache", "per-identity totals", TRS)], ["get", "identities", "gain", "expire"])
prop("R02", "A penalty takes exactly the requested reputation, newest packets first",
 "Penalizing an identity with a target total not above its current total leaves that identity with exactly the target, takes the difference from its latest-expiring packets first (splitting at most one packet), keeps every other identity's packets and totals unchanged, and returns exactly the amount removed. "
 "A target above the current total is rejected and leaves the whole ledger as it was. Penalizing many identities at once has the same effect as penalizing each listed identity in order, and on rejection changes nothing.",
 ["inputs", "histories"], "every ledger reachable through the public operations, every identity (also absent ones), every list of identities (repeats included) and every penalty function",
 "Tests penalize one or two identities holding one to three packets with fixed amounts; they do not cover repeated identities, rejected penalties in the middle of a list, or splits at packet borders for all amounts.",
 [TRS], [("penalize", TRS), ("penalize_many", TRS)], None, ["penalize", "penalize_many", "get", "expire"])
prop("R03", "Active reputation set: active means active within the last window of epochs",
 "An identity is reported active exactly when it was listed as active in at least one of the last N epochs, N being the window size, counting skipped epochs as epochs without activity; the reported number of active identities and the iteration over them agree with that. "
 "An update for an epoch not later than the last one is rejected and changes nothing (except for the explicit no-op at epoch zero). A gap of at least N epochs empties the set before the new epoch is recorded.",
 ["inputs", "histories"], "every window size of at least one, every sequence of updates with arbitrary gaps, identity lists (with repeats) and every probe identity",
 "The tests use windows of a few epochs and a dozen scripted updates; window arithmetic and per-identity counters must agree for every gap length and every repetition pattern.",
 [ARS], [("push_activity", ARS), ("update", ARS), ("contains / active_identities", ARS)],
 [("buffer", "identities active per epoch in the window", ARS), ("map", "number of epochs in the window in which an identity was active", ARS)], ["contains", "active_identities_number", "active_identities", "update"])

ME = "crypto/src/merkle.rs"
prop("M01", "Merkle roots agree and inclusion proofs are complete and sound",
 "For every list of leaves and every hash function, the recursive root, the incremental root and the root of the full tree are the same value (the pairwise tree in which a last odd node is promoted unchanged). "
 "Every index inside the tree has an inclusion proof that verifies against that root for the leaf at that index, indices outside have none. "
 "Verifying a proof succeeds exactly when folding the leaf with the proof's siblings, left or right according to the index bits, gives the root, and never crashes.",
 ["inputs"], "every number of leaves (also empty), every leaf value, every index, every proof including malformed ones, every hash function",
 "Tests compare fixed trees of up to a few leaves with a fixed hash; agreement of three algorithms and proof completeness are statements over all sizes.",
 [ME], [("merkle_tree_root_with_hashing_function", ME), ("ProgressiveMerkleTree", ME), ("FullMerkleTree", ME), ("InclusionProof", ME)],
 None, ["merkle_tree_root", "FullMerkleTree::root", "inclusion_proof", "verify"])

KEY = "crypto/src/key.rs"
prop("K01", "Serialized extended keys round-trip and malformed ones are rejected",
 "Exporting an extended secret key with any derivation path of up to 255 steps and importing the text gives back the same secret, chain code and path. "
 "Importing never crashes and rejects text with a wrong human-readable prefix, bad checksum, truncated or over-long payload, or a non-zero secret prefix byte.",
 ["inputs"], "every key, chain code and path of 0 to 255 steps, and every input text",
 "Tests round-trip a couple of vectors with depth up to five; the length arithmetic depends on the depth and is only exercised at tiny values.",
 [KEY], [("to_slip32", KEY), ("from_slip32", KEY)], None, ["ExtendedSK::to_slip32", "ExtendedSK::from_slip32"])
prop("K02", "Hierarchical key derivation follows BIP-32 for every seed, path and index",
 "A master key is derived only from seeds of 16 to 64 bytes, other lengths are rejected; deriving along a path is deriving step by step. "
 "Each step feeds the chain code as key and, for hardened indices, a zero byte plus the parent secret, otherwise the parent's compressed public key, followed by the big-endian index, into the 512-bit MAC; the left half added to the parent secret is the child secret and the right half its chain code. "
 "Path indices from 2^31 up are hardened, and composing path builders keeps order and hardening.",
 ["inputs"], "every seed length, every parent key, every child index and every path",
 "Tests check the published BIP-32 vectors; they cannot show that all indices and seed lengths are treated by the same rule.",
 [KEY], [("MasterKeyGen::generate", KEY), ("ExtendedSK::derive / child", KEY), ("KeyPath", KEY)], None, ["MasterKeyGen", "ExtendedSK::derive", "ExtendedSK::child", "KeyPath"])

ST = "storage/src/backends/hashmap.rs"
prop("S01", "The in-memory storage back end behaves as a map",
 "Reading a key returns the value most recently written to it and not deleted since, or nothing; writes and deletions of one key never affect another. "
 "A batch applies its operations in the order they were queued, as if made one by one. "
 "Iterating a prefix yields exactly the entries whose key starts with the prefix, each once with its current value; the disabled back end reports an error for every operation.",
 ["inputs", "histories"], "every key, value, prefix and every finite sequence of puts, deletes and batches",
 "The tests write and read one or two keys; map behaviour and batch order are over all histories.",
 [ST, "storage/src/backends/nobackend.rs", "storage/src/storage.rs"], [("Storage for Backend", ST), ("WriteBatch", "storage/src/storage.rs")], None, ["Storage::get", "Storage::put", "Storage::delete", "Storage::write", "Storage::prefix_iterator"])

CH = "data_structures/src/chain/mod.rs"
prop("E01", "Epochs and timestamps convert consistently, also across the period change",
 "For every epoch, the start timestamp maps back to that epoch, as does every second up to the start of the next epoch; starts are strictly increasing and consecutive starts differ by the block period in force. "
 "Timestamps before epoch zero and values out of range are rejected, never converted to a wrong value. "
 "Scheduling the period change at an epoch keeps all earlier starts and makes that epoch the first one with the new period; the mining moment of an epoch is its start plus half the period in force, rounded up.",
 ["inputs", "configurations"], "every zero timestamp, pair of periods, epoch of the change, epoch and timestamp within range",
 "Tests look at a few epochs with period 1, 20 or 90; the inverse relation across the change is quantified over all epochs and constants.",
 [CH], [("epoch_at", CH), ("epoch_timestamp", CH), ("block_mining_timestamp", CH), ("get_epoch_period", CH), ("set_values_for_wit2", CH)], None, ["EpochConstants"])

VA = "validations/src/validations.rs"; TF = "data_structures/src/transaction_factory.rs"; DRF = "data_structures/src/data_request.rs"
prop("F01", "No transaction creates value: the fee is exactly inputs minus outputs",
 "The fee of a value transfer, data request or stake transaction is exactly the sum of its inputs minus everything it pays out (outputs, data request reward and fees, staked amount and change), computed without wrap-around; when it would be negative or a sum does not fit, the transaction is rejected. "
 "An unknown input is rejected. An unstake transaction is rejected exactly when the withdrawn value plus its fee exceeds the staked amount, and otherwise its fee is the declared one.",
 ["inputs"], "every transaction, every set of unspent outputs and every 64-bit amount",
 "Tests use small amounts that never come near 2^64 and a few hand-made transactions.",
 [VA, TF, DRF], [("vt/dr/st/ut_transaction_fee", VA), ("transaction_inputs_sum / transaction_outputs_sum", TF), ("checked_total_value", CH)], None, ["vt_transaction_fee", "dr_transaction_fee", "st_transaction_fee", "ut_transaction_fee"])
prop("F02", "Block emission halves on schedule and its total is bounded",
 "The reward of a block is the initial reward halved (integer division) once per completed halving period, and zero after 64 halvings. "
 "It never increases with the epoch, and the reported total emission is exactly the sum of the rewards of all epochs from zero on.",
 ["inputs", "configurations"], "every initial reward, every positive halving period and every epoch (total: whenever the sum fits in 64 bits)",
 "Tests evaluate a dozen epochs of the main network configuration.",
 [VA], [("block_reward", VA), ("total_block_reward", VA)], None, ["block_reward", "total_block_reward"])

prop("F03", "A block mints exactly its reward and fees, and since wit/2 nothing",
 "Before wit/2 the mint transaction of a block is accepted exactly if it is of the block's epoch, its outputs are worth the block reward of that epoch plus the fees of the block's transactions, and it has at most two outputs, none of them worth zero. "
 "Since wit/2 it is accepted exactly if it is of the block's epoch and has no outputs. "
 "The mint a node builds for a block pays the external address its percentage of reward and fees, rounded down, and the own address all of the rest, in no more outputs than needed; it is always one that is accepted.",
 ["inputs", "configurations"], "every initial reward, halving period, epoch, fees, list of outputs and percentage up to 100",
 "Tests check a handful of mints with small values.",
 [VA, "data_structures/src/transaction.rs", "data_structures/src/transaction_factory.rs"], [("validate_mint_transaction", VA), ("MintTransaction::with_external_address", "data_structures/src/transaction.rs")], None,
 ["validate_mint_transaction", "MintTransaction::with_external_address", "MintTransaction::new", "transaction_outputs_sum", "block_reward", "Memoized::eq"])

prop("F04", "Transactions are accepted exactly when they follow the rules of their kind",
 "A value transfer, data request, stake or unstake taken on its own is accepted exactly if it keeps the rules of its kind; the fee reported is what its inputs leave over (an unstake names its own), and what is reported as spent and created are its own inputs and outputs. "
 "What spends outputs has at least one input and one signature per input, by the key owning the output it spends; each signature is queued to be verified over the hash of the transaction, the others in the queue are untouched. "
 "A value transfer or data request is within the weight limit and creates no output worth zero. A transfer of the genesis block has outputs, none worth zero, and neither inputs nor signatures. "
 "A data request has at most one output, back to the owner of its first input; asks for at least one witness, a reward, a consensus of 51 to 99 percent and a collateral that is zero or at least the minimum; keeps the ratio of collateral to reward where WIP-0022 is active; and its RADON request is valid. "
 "A stake needs version 1.8, is at least the minimum and, with what the validator and withdrawer already have staked, at most the maximum, and does not change the withdrawer of a validator. "
 "An unstake needs version 2.0, the nonce of the stake, is signed by and paid to the withdrawer, is locked for at least the delay, takes no more than is staked and leaves zero or at least the minimum; in version 2.1 an amount of zero takes everything.",
 ["inputs", "configurations"], "every transaction of these kinds, set of outputs, stake, limit, protocol version and time",
 "Tests check one broken rule at a time on small fixed transactions, and none of the combinations.",
 [VA, "data_structures/src/transaction_factory.rs", "data_structures/src/data_request.rs"], [("validate_vt_transaction", VA), ("validate_genesis_vt_transaction", VA), ("validate_dr_transaction", VA), ("validate_stake_transaction", VA), ("validate_unstake_transaction", VA), ("validate_transaction_signature", VA)], None,
 ["validate_vt_transaction", "validate_genesis_vt_transaction", "validate_dr_transaction", "validate_data_request_output", "validate_stake_transaction", "validate_unstake_transaction", "validate_unstake_timelock", "validate_unstake_signature", "validate_transaction_signature", "validate_pkh_signature", "add_secp_tx_signature_to_verify", "calculate_reward_collateral_ratio", "saturating_div_ceil"])

prop("F05", "Commits and reveals are accepted exactly when they follow their rules",
 "A commit is accepted exactly if its data request is known and expects commits, its only signature is by the key of its proof of eligibility, it has at most one output, worth something and back to that key, and, since wit/2, that key is an eligible witness with the minimum stake and the collateral staked. "
 "Its inputs exist, are not repeated, belong to that key, are unlocked and at least as old as required (an output created in the same block is as new as the block), and are worth the collateral more than the output; in wit/2 also exactly as much. Late before wit/2 the key must own 100 wits that are older than two superblock periods. "
 "Its signature and its proof, with the target of exactly this committer, request and round, are queued to be verified; the fee and the number of witnesses reported are those of the request. "
 "A reveal is accepted exactly if its data request is known and expects reveals, its only signature is by the key it is for, which has committed and not yet revealed, and that signature is the one committed to; it is queued to be verified over the hash of the reveal.",
 ["inputs", "configurations"], "every commit and reveal, data request, set of outputs, stakes, age, version and time",
 "Tests check one broken rule at a time; none uses an output of the same block as collateral.",
 [VA, "data_structures/src/transaction_factory.rs"], [("validate_commit_transaction", VA), ("validate_commit_collateral", VA), ("validate_reveal_transaction", VA), ("validate_commit_reveal_signature", VA)], None,
 ["validate_commit_transaction", "validate_commit_collateral", "validate_reveal_transaction", "validate_commit_reveal_signature", "add_dr_vrf_signature_to_verify", "add_secp_tx_signature_to_verify", "transaction_outputs_sum", "UtxoDiff::get", "UtxoDiff::included_in_block_number"])

UT = "data_structures/src/utxo_pool.rs"
prop("U01", "The set of unspent outputs is exactly outputs created minus outputs spent",
 "A pending change set over the unspent outputs answers every lookup as if its insertions and removals had already been applied to the underlying set, without touching that set; an output removed in it is not found, an output added in it is found with its value and the block number it was added at. "
 "Applying the change set makes the underlying set give the same answers. Lookups of all other outputs are unchanged.",
 ["inputs", "histories"], "every underlying set, every sequence of insertions and removals and every probe",
 "Tests insert and remove a few fixed outputs.",
 [UT], [("UtxoDiff", UT), ("Diff", UT), ("UnspentOutputsPool", UT)], None, ["UtxoDiff::get", "UtxoDiff::insert_utxo", "UtxoDiff::remove_utxo", "UnspentOutputsPool::get", "Diff::apply"])

SK = "data_structures/src/staking/stake.rs"; SKS = "data_structures/src/staking/stakes.rs"
prop("T01", "Staking and unstaking conserve coins and age every capability correctly",
 "Adding stake increases an entry's coins by exactly the added amount or, below the minimum, is rejected leaving the entry as it was; every capability's epoch becomes the sum of the old and the new one weighted by their whole coins, divided by the whole coins held afterwards, so it is never later than the later one and, for whole amounts, lies between the two. "
 "Removing stake decreases the coins by exactly the removed amount and leaves zero or at least the minimum, otherwise it is rejected and changes nothing; removing more than is staked is rejected. "
 "The nonce changes only when asked to, and power is whole coins times the epochs elapsed since the capability's epoch, never negative. "
 "The tracker gives the same entries by key, by validator, by withdrawer and in total, whatever was staked, unstaked or rejected before, and ranks them by decreasing power.",
 ["inputs", "histories"], "every stake entry, amount, epoch, minimum and nonce policy",
 "Tests use amounts of at most a few hundred wits and small epochs; rounding, saturation and rejected updates are not sampled.",
 [SK, "data_structures/src/capabilities.rs", "data_structures/src/wit.rs"], [("Stake::add_stake", SK), ("Stake::remove_stake", SK), ("Stake::power", SK), ("CapabilityMap", "data_structures/src/capabilities.rs"), ("Stakes", "data_structures/src/staking/stakes.rs")], None, ["Stake"])

EL, SS2 = "validations/src/eligibility/current.rs", "data_structures/src/staking/stakes.rs"
prop("T02", "Only the most powerful stakers propose and witness, with their exact chances",
 "The power of a validator is that of the most powerful of its stake entries, and a validator without entries is reported as not found. The ranking lists every entry exactly once with its power, more powerful first, equals by greater validator and then by greater withdrawer. "
 "A validator may propose a block exactly if one of its entries is among the first of the ranking, as many as the replication factor says but at most two thirds of the entries. "
 "It may witness a data request with w witnesses in round r exactly if it has power, and more than the entry at place 2^r * w of the ranking (any power suffices if there are not that many entries); so fewer than 2^r * w entries qualify. "
 "Its target then starts with the upper 32 bits of (2^64 - 1) / d * n, n being the number of rounds times the bits of its power and d the bits of the power at that place times r plus the bits of the greatest power times the rounds left (the greatest target if d is zero), limited to 64 bits: more power never lowers it. The decisions never fail.",
 ["inputs", "configurations"], "every set of stakes, validator, epoch, replication factor, number of witnesses and round",
 "Tests use one to four validators and few rounds; they compare no target with an independent computation and have no equal powers across validators and withdrawers.",
 [EL, SS2], [("witnessing_eligibility", EL), ("mining_eligibility", EL), ("by_rank", SS2), ("query_power", SS2)], None,
 ["Stakes::mining_eligibility", "Stakes::witnessing_eligibility", "Eligibility::mining_eligibility_bool", "Eligibility::witnessing_eligibility_bool", "Stakes::by_rank", "Stakes::query_power", "Stakes::stakes_count"])

SB = "data_structures/src/superblock.rs"
prop("B01", "Superblock votes: one vote per committee member, equivocation discards both",
 "Within a superblock period each committee member counts at most once, for the single superblock it voted for; a member that votes for two different superblocks has its vote withdrawn and is not counted again in that period. "
 "Votes of non-members or for another index never count. The number of votes reported for a superblock is the number of members counted for it. "
 "Consensus is only reported for a superblock counted for at least two thirds (rounded down) of the committee, and ruled out only when the members still missing cannot bring any superblock there. "
 "When a period is closed, the votes already received for the new index are settled by the same rules against the new committee.",
 ["inputs", "histories"], "every sequence of votes and period changes, and every committee",
 "Tests replay short scripted vote sequences.",
 [SB], [("SuperBlockVotesMempool", SB), ("SuperBlockState::add_vote", SB), ("SuperBlockState::has_consensus", SB), ("SuperBlockState::build_superblock", SB)], None, ["SuperBlockState::add_vote", "votes_counter_from_superblock", "has_consensus"])
prop("B02", "Superblock signing committees have exactly the required distinct members",
 "A signing committee has exactly the requested number of members when at least that many identities are eligible, all distinct and all drawn from the eligible identities (for the committee in charge of a superblock: those of the period before); when there are fewer eligible identities, all of them are members. "
 "Choosing the committee never crashes for a positive size.",
 ["inputs"], "every list of identities, committee size of at least one, starting position and random string",
 "Tests use lists of up to ten members and a few sizes.",
 [SB], [("magic_partition", SB), ("magic_partition_2", SB), ("calculate_superblock_signing_committee", SB)], None, ["calculate_superblock_signing_committee"])
prop("B03", "Block candidate comparison is a strict total order on distinct blocks",
 "Comparing two block candidates is antisymmetric and transitive, and reports equality only for candidates with the same power or section, reputation and activity class, VRF hash and block hash. "
 "From protocol 2.0 on the higher power wins; before, the lower VRF section, then having reputation, then being active; ties always go to the lower VRF hash, then the lower block hash.",
 ["inputs"], "every triple of candidates and every slot configuration, in each protocol version",
 "Tests compare a few hand-made pairs; order axioms quantify over triples.",
 [VA, "validations/src/eligibility/legacy.rs"], [("compare_block_candidates", VA), ("VrfSlots::slot", "validations/src/eligibility/legacy.rs")], None, ["compare_block_candidates"])

DRF = "data_structures/src/data_request.rs"
prop("D01", "A data request moves through its stages exactly as the protocol says",
 "A data request enters the pool in the commit stage and is listed as open for commits, under its epoch, exactly while it is in that stage. Commits are only accepted in the commit stage, reveals in the reveal stage, and a tally, which resolves the request and takes it out of the pool once, in the tally stage; a rejected transaction changes nothing. "
 "At an epoch end a request with commits goes from commit to reveal, one without stays (its round grows by one) while extra rounds remain and it does not ask for too many witnesses, and goes to tally otherwise; it leaves reveal for tally when there are as many reveals as witnesses or the extra rounds are used up. "
 "The reveals to send are exactly the node's own ones for requests in the reveal stage that have its commit and not yet its reveal, and the backup witnesses and the value locked by the requests follow from their rounds, commits and reveals.",
 ["inputs", "histories"], "every pool, request, number of commits and reveals and round, and every history of requests, commits, reveals, tallies and epoch ends",
 "Tests drive one or two requests through fixed paths.",
 [CH, DRF], [("DataRequestState::update_stage", CH), ("DataRequestPool::update_data_request_stages", DRF), ("DataRequestPool::resolve_data_request", DRF)], None,
 ["DataRequestInfo::default", "DataRequestState::new", "DataRequestState::add_commit", "DataRequestState::add_reveal", "DataRequestState::add_tally", "DataRequestState::update_stage", "DataRequestState::set_stage", "DataRequestPool::process_commit", "DataRequestPool::process_reveal", "DataRequestPool::process_data_request", "DataRequestPool::process_tally", "DataRequestPool::resolve_data_request", "DataRequestPool::update_data_request_stages", "DataRequestPool::get_tally_ready_drs", "DataRequestPool::finished_data_requests", "DataRequestPool::locked_wits_by_requests", "calculate_backup_witnesses", "data_request_has_too_many_witnesses"])

VAL = "validations/src/validations.rs"
prop("D02", "A tally pays out exactly what its data request holds",
 "The tally of a data request lists as out of consensus those committers who did not reveal or whose reveal the script rejects, and as in error those whose reveal is an error; without any honest reveal it lists every committer as out of consensus and every revealer as in error. "
 "Before wit/2 its outputs pay every honest revealer its reward and collateral (before WIP-0023 also an equal share of the liars' collateral), give every revealer excused for an error its collateral back, and, without any honest reveal, give every committer its collateral back; nobody is paid twice. What is left of the price goes back to the requester as the last output. "
 "Outputs, the fees of commits and reveals, the rest for the miner and the burned collateral (since WIP-0023, of liars, if somebody was honest) add up to exactly the price of the request and the collateral of its commits. Since wit/2 the only output is the change of the requester, if there is one. "
 "Its result and verdicts are those of the request's own tally script, run over all of its reveals in the order the protocol fixes, with the share the request requires, the number of its committers, and whether it asks for too many witnesses (since wit/2 more than a quarter of the validators, half off mainnet). "
 "A tally transaction is accepted only if it carries that result and lists and pays exactly this, without time locks; since wit/2 a verdict of too many witnesses counts only in the block that includes the request.",
 ["inputs"], "every request, set of commits and reveals, verdict of the tally script, protocol version and tally transaction, under the rules of the second hard fork",
 "Tests build a few tallies with up to five witnesses and one wrong output each.",
 [DRF, VAL], [("create_tally", DRF), ("calculate_tally_change", DRF), ("validate_tally_transaction", VAL)], None,
 ["create_tally", "calculate_tally_change", "calculate_witness_reward", "calculate_witness_reward_before_second_hard_fork", "validate_tally_transaction", "create_expected_tally_transaction", "calculate_liars_and_errors_count_from_tally", "calculate_errors_and_liars_count", "DataRequestPool::get_reveals", "data_request_has_too_many_witnesses", "TallyTransaction::new"])

RCO = "rad/src/conditions.rs"
prop("C01", "A tally concludes what the required share of reveals supports, and names liars",
 "The verdict on a data request follows from its reveals alone: with too many witnesses, no commits, no reveals, or no kind of value whose reveals reach the required share of the commits, the result is the matching error and every reveal is set aside (with the second hard fork all are both liars and in error); tied kinds give a tie error. "
 "If errors prevail, the result is the one most frequent error if it reaches the share, else lack of consensus or a tie, and nobody lied. Otherwise the filters and the reducer of the request run over the reveals of the prevailing kind, in order: those of another kind and those a filter drops are liars, those that are errors are in error, and the verdict lists have one entry per reveal, in order. "
 "With the second hard fork the reveals that are not liars must be more than the required share, or the result is lack of consensus. "
 "The mode is the most frequent value, a tie is an error, for any number of values. A reveal that is no value (bytes that do not decode, errors within arrays or maps) counts as the error MalformedReveal; no set of reveals makes the tally panic.",
 ["inputs"], "every list of reveals of any kinds, filters, reducer, required share, number of commits and set of active WIPs",
 "Tests evaluate a few lists of up to ten reveals, mostly with one filter.",
 [RCO, "rad/src/lib.rs", "rad/src/reducers/mode.rs", VAL], [("evaluate_tally_precondition_clause", RCO), ("evaluate_tally_postcondition_clause", RCO), ("mode", "rad/src/reducers/mode.rs"), ("run_tally", VAL)], None,
 ["evaluate_tally_precondition_clause", "evaluate_tally_postcondition_clause", "construct_report_from_clause_result", "run_tally", "run_tally_report", "run_tally_with_context_report", "execute_radon_script", "mode", "mode_filter", "standard_filter"])

RO = "rad/src/operators/"; RT_ = "rad/src/types/"
prop("O01", "RADON operators and scripts are total and exact",
 "Applying one operator to a value gives a value or an error, for every value, operator code and arguments that a script can carry; it never panics. Operators a kind does not have, or not with these arguments, or not before protocol version 2.1, give UnsupportedOperator, and wrong arguments give WrongArguments. "
 "Integer arithmetic gives the exact result or Overflow (also for a modulo of zero). Bytes and texts are cut at the range asked for, counted from the end when negative, and a text is never cut inside a character; integers become 16 bytes and back, in the order of bytes asked for. "
 "Numbers in texts are read after one trailing line break and the thousands separators are dropped and the decimal separator is replaced (since WIP-0024). Items of arrays and maps are got by position or key and turned into the kind asked for, or the error says what is missing. "
 "Mapping runs the script over each item, in order, up to the first error; filtering keeps the items for which it gives true; sorting is stable, ascending by the keys the script gives, which are all integers or all texts; transposing turns rows of one length into columns. "
 "A script applies its calls one after another to the result before, up to the first error, and its partial results are those of each call; packed calls are read as they are written. An array is marked homogeneous exactly when it has items, all of one kind.",
 ["inputs"], "every value of any kind and depth, operator code, arguments, script, protocol version and set of active WIPs",
 "Tests apply each operator to a few values with a few arguments; panics for odd arguments, for characters of several bytes and for keys of different kinds went unnoticed.",
 [RO + "mod.rs", RO + "array.rs", RO + "string.rs", "rad/src/script.rs"], [("operate_in_context", RO + "mod.rs"), ("sort", RO + "array.rs"), ("string_slice", RO + "string.rs"), ("execute_radon_script", "rad/src/script.rs")], None,
 ["operate_in_context", "RadonInteger", "RadonString", "RadonArray", "RadonMap", "sort", "map", "filter", "transpose", "get_number", "string_slice", "execute_radon_script", "unpack_radon_call"])

RER = "data_structures/src/radon_error.rs"
prop("V01", "Values and errors survive their encoding",
 "What a value is encoded to is decoded to that same value: booleans, integers in the range of CBOR (-2^64 to 2^64-1), floats, bytes, texts, and arrays and maps of those in any nesting, up to the limits of the decoder (where it is an error, never another value). An integer beyond that range is an error. "
 "An error is encoded as tag 39 over the array of its code, as the protocol numbers them, and its arguments, and is decoded to the same error with the same arguments; errors without a code are sent as UnhandledIntercept, so that every result can be sent. "
 "Bytes are decoded to a value, to an error that was sent, or fail: they never make the node panic, whatever they are. Tags other than 39 are ignored; arrays with an item that is no value fail, maps drop such entries and those whose key is no text. "
 "The reveals of a data request are decoded one by one and in order: each gives its value, or what its caller makes of a failure (also of a panic); EncodeReveal does not count before WIP-0026.",
 ["inputs"], "every value and error, and every sequence of bytes",
 "Tests encode a few values of each kind and decode a few bytes; integers under -2^63, which came back with the other sign, and bytes that made the node panic went unnoticed.",
 [RT_ + "mod.rs", "rad/src/error.rs", RER], [("RadonTypes", RT_ + "mod.rs"), ("try_from_cbor_array", "rad/src/error.rs"), ("encode_tagged_value", RER), ("serial_iter_decode", RT_ + "mod.rs")], None,
 ["RadonTypes", "RadError", "RadonError", "serial_iter_decode", "try_from_cbor_value_for_serde_cbor_value", "try_from_serde_cbor_value_for_cbor_value"])

WTF = "data_structures/src/transaction_factory.rs"; WUP = "data_structures/src/utxo_pool.rs"
PCH = "data_structures/src/chain/mod.rs"
prop("P01", "The transaction pool keeps its books, its limits and its conflicts straight",
 "The pool of waiting transactions holds exactly what was inserted and neither refused (fee below the minimum, collateral above the allowed multiple of the reward) nor taken out since: a transaction inserted again changes nothing; including a transaction in a block takes it out together with every value transfer, data request and stake that spends one of its inputs, and nothing else; taking out an invalid, unconfirmed or unwanted transaction takes out only that one. At most one commit and one reveal per request and author are held, the last one inserted. "
 "The weights and counts add up to those of the transactions held, every output is listed with exactly the transactions that spend it, and each kind is given out by falling fee per weight. When the weight of value transfers, data requests and stakes exceeds the limit, the cheapest of a kind are evicted and handed back, no more than needed, and afterwards the limit holds. "
 "The commits given to a block are exactly as many per request as it asks for, spend no output twice, and leave out no request that had enough of them; the fees reported are those of the commits and reveals given. No such operation panics.",
 ["inputs", "histories"], "every history of insertions of all kinds, inclusions, removals, evictions and expiries, whatever inputs they share",
 "Tests insert a few transactions of one kind; pools left with only stakes, repeated and conflicting transactions, and shared inputs across kinds and removals are combinations they do not reach.",
 [PCH], [("TransactionsPool", PCH), ("TransactionsPool::insert", PCH), ("TransactionsPool::remove_transactions_for_size_limit", PCH), ("TransactionsPool::remove_commits", PCH)], None,
 ["TransactionsPool::insert", "TransactionsPool::remove_transactions_for_size_limit", "TransactionsPool::remove_inputs", "TransactionsPool::vt_remove_inner", "TransactionsPool::remove_tx_from_output_pointer_map", "TransactionsPool::remove_unconfirmed_transactions"])

prop("W01", "Built transactions spend own free outputs, pay what was asked, return the rest",
 "A value transfer, data request, stake transaction or commit collateral built from the node's outputs spends a shortest sufficient beginning of its own outputs, in the order of the strategy (largest first, smallest first, or any), that are not locked, not in use by another pending transaction and, for collateral, old enough; no output twice, and none at all if the strategy is for another address. "
 "What it spends equals what it pays (the outputs, the reward and fees of the request, the stake) plus the fee plus the change, which goes to the node unlocked and is left out only if it is zero. An absolute fee is the one asked for; a relative one follows the weight of the transaction with these inputs and a change output, and such a transaction does not exceed the weight limit. "
 "A build fails exactly if nothing is to be paid or what can be spent does not suffice within the weight limit. The outputs spent are in use until the pending timeout; a dry run and a failed build leave everything as it was. The node says it can afford a collateral exactly if it can.",
 ["inputs", "histories"], "every set of own and foreign outputs with their values, locks, ages and uses, every payment, fee, strategy and weight limit",
 "Tests build a few transactions from small pools; the fee of stake transactions with several inputs or change, and builds that fail after choosing their inputs, were never tried.",
 [WTF, WUP, "data_structures/src/transaction.rs", "data_structures/src/fee.rs"], [("OutputsCollection", WTF), ("build_vtt", WTF), ("build_st", WTF), ("NodeUtxos", WUP)], None,
 ["OutputsCollection", "build_vtt", "build_drt", "build_st", "build_commit_collateral", "check_commit_collateral", "OwnUnspentOutputsPool::sort"])

WRW = "wallet/src/repository/wallet/mod.rs"; WRM = "wallet/src/model.rs"
prop("W02", "A wallet offers exactly its own free outputs and holds back those in use",
"What a wallet offers for a new transaction is exactly its own outputs, each once, that no unconfirmed transaction created, that belong to the address asked for if one is, and that were selected if any were; under largest first or smallest first they come in that order of value. "
"An output's value, address and lock are those the wallet holds, and it cannot be spent before the later of its time lock and the end of its use by another transaction. "
"What is taken for an amount is the shortest beginning, in that order, of the outputs that can be spent now that is worth the amount; if all of them together are not, nothing is taken and their worth is reported. "
"A transaction under way holds back exactly the outputs it spends, until the given time. Cleaning up forgets exactly the uses that are over and those of outputs that are gone, so that an output in use never becomes spendable early and a free one is never held back.",
["inputs", "histories"], "every set of own outputs, unconfirmed transactions, selection, uses and times, every strategy",
"Tests build single transactions in a fresh wallet; no test cleans up uses while some are still running.",
[WRW, WRM], [("WalletUtxos", WRW), ("sort_utxo_set", WRW), ("clean_used_outputs", WRM), ("OutPtr", WRM)], None,
["WalletUtxos::sort_by", "WalletUtxos::get_usage_timeout", "WalletUtxos::set_used_output_pointer", "sort_utxo_set", "clean_used_outputs", "take_enough_utxos"])

PP = "p2p/src/peers/mod.rs"; PS = "p2p/src/sessions/bounded_sessions.rs"
prop("N01", "Session limits are never exceeded and session bookkeeping is exact",
 "The number of consolidated sessions of each direction never exceeds the configured limit. A registration or consolidation at the limit or of an address already registered is rejected and changes nothing; consolidating moves exactly that session; unregistering frees exactly that slot, and is rejected for unknown addresses. "
 "Sessions marked as in consensus are always consolidated outbound ones. A network range counts as taken exactly as long as some registered inbound session is in it.",
 ["inputs", "histories"], "every limit, range limit and every sequence of registrations, consolidations, consensus marks and removals",
 "Tests register a couple of sessions.",
 [PS, "p2p/src/sessions/mod.rs"], [("BoundedSessions", PS), ("Sessions", "p2p/src/sessions/mod.rs"), ("NetworkRangesCollection", "p2p/src/sessions/mod.rs")], None, ["Sessions"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
