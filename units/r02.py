from trslib import *
ID = "R02"
FILES = [TRS]
RULE = "random ledgers of up to 8 gains over 1..6 identities, then up to 6 penalty lists of 0..7 entries (repeats, absent identities, targets at packet borders, above and below); all observers compared with a list of packets"
ASSUMPTIONS = ["each penalty function terminates for every argument; its result is whatever it returns for the one call made",
               "the grand total of reputation fits the value type",
               "the iterator argument is passed as a Vec of pairs: it is consumed once, in order",
               "vstd's specifications of HashMap, VecDeque and their iterators"]


def verus(u):
    s = base(u)
    u.emit(PMATH)
    u.emit_impl(" TotalReputationSet", [f_get(u, s), f_spend_coin(u, s), f_expire_packets(u, s), f_penalize_many(u, s)])
    u.close()


harness = dict(kind="crate", name="r02", deps={"witnet_reputation": "reputation"}, main="r02.rs")
