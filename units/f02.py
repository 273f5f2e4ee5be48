from unit import LIGHT_PRELUDE
from extract import Extract, HEADER
ID = "F02"
VA, CH = "validations/src/validations.rs", "data_structures/src/chain/mod.rs"
FILES = [VA]
CONST_FNS = ("block_reward", "total_block_reward")
RULE = "initial rewards of every bit length and at powers of two, halving periods from one up, epochs at and around every halving"
ASSUMPTIONS = ["the halving period is positive (a division by it)", "total: the sum fits in 64 bits (the code panics otherwise, by design)"]


def verus(u):
    va = u.src(VA)
    u.file("emission", LIGHT_PRELUDE)
    u.emit("""
    type Epoch = u32;
    // the reward after i halvings
    spec fn halved(x: nat, i: nat) -> nat decreases i { if i == 0 { x } else { halved(x, (i - 1) as nat) / 2 } }
    spec fn hsum(x: nat, n: nat) -> nat decreases n { if n == 0 { 0 } else { hsum(x, (n - 1) as nat) + halved(x, (n - 1) as nat) } }
    // the reward of an epoch, for a positive halving period
    spec fn reward(x: nat, p: nat, e: nat) -> nat { halved(x, e / p) }
    // what the first n epochs are rewarded
    spec fn emitted(x: nat, p: nat, n: nat) -> nat decreases n { if n == 0 { 0 } else { emitted(x, p, (n - 1) as nat) + reward(x, p, (n - 1) as nat) } }

    proof fn shifted(x: u64, h: u32) requires h < 64 ensures (x >> h) as nat == halved(x as nat, h as nat) decreases h
    {
        PROBE(shifted);
        if h == 0 { assert(x >> 0u32 == x) by (bit_vector); }
        else { shifted(x, (h - 1) as u32); let g = (h - 1) as u32; assert((x >> h) == (x >> g) / 2) by (bit_vector) requires 0 < h < 64, g == h - 1; }
    }
    proof fn at_64(x: nat, i: nat) requires x <= u64::MAX, i >= 64 ensures halved(x, i) == 0
    { PROBE(at_64); below(x, 64, i); assert(halved(x, 64) == 0) by { pow_bound(x, 64); assert(pow2n(64) == 0x1_0000_0000_0000_0000) by (compute); } }
    spec fn pow2n(i: nat) -> nat decreases i { if i == 0 { 1 } else { 2 * pow2n((i - 1) as nat) } }
    proof fn pow_bound(x: nat, i: nat) ensures halved(x, i) * pow2n(i) <= x, pow2n(i) > 0, x < pow2n(i) ==> halved(x, i) == 0 decreases i
    {
        PROBE(pow_bound);
        if i > 0 {
            pow_bound(x, (i - 1) as nat);
            let h = halved(x, (i - 1) as nat) as int; let q = pow2n((i - 1) as nat) as int;
            assert((h / 2) * (2 * q) <= h * q) by (nonlinear_arith) requires h >= 0, q > 0;
            if x < pow2n(i) && halved(x, i) > 0 { let y = halved(x, i) as int; let z = pow2n(i) as int; assert(y * z >= z) by (nonlinear_arith) requires y >= 1, z > 0; }
        } else { assert(halved(x, 0) * pow2n(0) == x) by { assert(pow2n(0) == 1); assert(halved(x, 0) == x); } }
    }
    // rewards never increase
    proof fn below(x: nat, i: nat, j: nat) requires i <= j ensures halved(x, j) <= halved(x, i) decreases j
    { PROBE(below); if i < j { below(x, i, (j - 1) as nat); } }
    proof fn never_increases(x: nat, p: nat, e: nat, f: nat) requires p > 0, e <= f ensures reward(x, p, f) <= reward(x, p, e)
    { PROBE(never_increases); lemma_div_is_ordered(e as int, f as int, p as int); below(x, e / p, f / p); }
    // whole periods
    proof fn period(x: nat, p: nat, k: nat, j: nat) requires p > 0, j <= p
        ensures emitted(x, p, k * p + j) == p * hsum(x, k) + j * halved(x, k) decreases k, j
    {
        PROBE(period);
        if j == 0 {
            if k == 0 { assert(k * p + j == 0) by (nonlinear_arith) requires k == 0, j == 0; assert(p * hsum(x, 0) == 0) by (nonlinear_arith) requires hsum(x, 0) == 0; assert(j * halved(x, k) == 0) by (nonlinear_arith) requires j == 0; }
            else {
                let k1 = (k - 1) as nat;
                period(x, p, k1, p);
                assert(k * p + j == k1 * p + p) by (nonlinear_arith) requires k == k1 + 1, j == 0;
                assert(p * hsum(x, k) == p * hsum(x, k1) + p * halved(x, k1)) by (nonlinear_arith) requires hsum(x, k) == hsum(x, k1) + halved(x, k1);
                assert(j * halved(x, k) == 0) by (nonlinear_arith) requires j == 0;
            }
        } else {
            let j1 = (j - 1) as nat;
            period(x, p, k, j1);
            let n = k * p + j;
            assert(((k * p + j1) as nat) == (n - 1) as nat);
            assert((n - 1) as nat / p == k) by { lemma_fundamental_div_mod_converse((n - 1) as int, p as int, k as int, j1 as int); }
            assert(n > 0);
            assert(emitted(x, p, n) == emitted(x, p, (n - 1) as nat) + halved(x, k));
            assert(j * halved(x, k) == j1 * halved(x, k) + halved(x, k)) by (nonlinear_arith) requires j == j1 + 1;
        }
    }
    // from 64 periods on nothing is added: what total_block_reward returns is the sum over all epochs
    proof fn all_epochs(x: nat, p: nat, n: nat) requires p > 0, x <= u64::MAX, n >= 64 * p ensures emitted(x, p, n) == p * hsum(x, 64) decreases n
    {
        PROBE(all_epochs);
        if n == 64 * p { period(x, p, 64, 0); assert(0 * halved(x, 64) == 0) by (nonlinear_arith); assert(64 * p + 0 == n); }
        else {
            all_epochs(x, p, (n - 1) as nat);
            assert((n - 1) as nat / p >= 64) by { lemma_div_is_ordered((64 * p) as int, (n - 1) as int, p as int); lemma_div_by_multiple(64, p as int); }
            at_64(x, (n - 1) as nat / p);
        }
    }
    proof fn rest(x: nat, i: nat, n: nat) requires i <= n, halved(x, i) == 0 ensures hsum(x, n) == hsum(x, i) decreases n
    { PROBE(rest); if i < n { rest(x, i, (n - 1) as nat); below(x, i, (n - 1) as nat); } }
    proof fn prefix(x: nat, i: nat, n: nat) requires i <= n ensures hsum(x, i) <= hsum(x, n) decreases n
    { PROBE(prefix); if i < n { prefix(x, i, (n - 1) as nat); } }
    """)
    u.emit_fn(va, "block_reward", spec="requires halving_period > 0 ensures r == reward(initial_block_reward as nat, halving_period as nat, epoch as nat)",
              start="proof { if epoch / halving_period < 64 { shifted(initial_block_reward, epoch / halving_period); } else { at_64(initial_block_reward as nat, (epoch / halving_period) as nat); } }")
    u.emit_fn(va, "total_block_reward", skel=["while"], spec="""requires halving_period * hsum(initial_block_reward as nat, 64) <= u64::MAX
        ensures r == halving_period * hsum(initial_block_reward as nat, 64),
            halving_period > 0 ==> forall|n: nat| n >= 64 * halving_period ==> r == #[trigger] emitted(initial_block_reward as nat, halving_period as nat, n)""",
        start="let ghost x = initial_block_reward as nat; let ghost p = halving_period as nat; let ghost mut i: nat = 0;",
        loops={0: dict(inv="x == initial_block_reward, p == halving_period, i <= 64, p * hsum(x, 64) <= u64::MAX, base_reward == halved(x, i), total_reward == p * hsum(x, i)", dec="base_reward",
            before="proof { assert(p * hsum(x, 0) == 0) by (nonlinear_arith) requires hsum(x, 0) == 0; }",
            start="""let ghost b0 = base_reward; proof { if i >= 64 { at_64(x, i); } prefix(x, i + 1, 64);
                assert(p * hsum(x, i + 1) == p * hsum(x, i) + p * halved(x, i)) by (nonlinear_arith) requires hsum(x, i + 1) == hsum(x, i) + halved(x, i);
                assert(p * hsum(x, i + 1) <= p * hsum(x, 64)) by (nonlinear_arith) requires hsum(x, i + 1) <= hsum(x, 64);
                assert(p * halved(x, i) == b0 * halving_period) by (nonlinear_arith) requires b0 == halved(x, i), p == halving_period; }""",
            end="proof { assert(b0 >> 1u32 == b0 / 2) by (bit_vector); assert(b0 >> 1i32 == b0 / 2) by (bit_vector); i = i + 1; }",
            after="proof { rest(x, i, 64); if p > 0 { assert forall|n: nat| n >= 64 * p implies p * hsum(x, 64) == #[trigger] emitted(x, p, n) by { all_epochs(x, p, n); } } }")})
    u.close()


def build(u):
    x = Extract([VA, CH])
    return HEADER + x.build(["block_reward", "total_block_reward"])


harness = dict(kind="extract", name="f02", build=build, main="f02.rs")
