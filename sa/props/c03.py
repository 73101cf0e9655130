from kern import balance_kernels
from txn import run_txn

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ("Transaction::balance is interpreted abstractly on every shape of up to three postings (real, virtual, bracketed; amount, none; no, total, per-unit cost; asserted balance or not; one or several accounts; checks on and off) with open quantities, commodities and running balances: balances are formal sums over commodities, so a verdict covers all quantities and all equalities between commodities. On every accepting path: at most one elided amount, one filled posting per commodity of the negated sum (one tracked commodity and any number of others) on the elided posting's account with its kind, tags and payee, all other postings kept exactly once.")
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)']


def run(ctx):
    balance_kernels(ctx)
    run_txn(ctx, ('elide', 'postings', 'fill', 'fields'), 'postings of a balanced transaction')
