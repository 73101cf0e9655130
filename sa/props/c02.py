from kern import balance_kernels, balance_predicates
from txn import run_txn
from ledger import balance_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('Transaction::balance is interpreted abstractly on every shape of up to three postings (real, virtual, bracketed; amount, none; no, total, per-unit cost; asserted balance or not; one or several accounts; checks on and off) with open quantities, commodities and running balances: balances are formal sums over commodities, so a verdict covers all quantities and all equalities between commodities. On every path that accepts the transaction the sum the specification prescribes (real postings at cost with the sign of the amount; bracketed ones separately) must have passed the residue test, and the residue test (Balance::can_be_zero), sums, differences and negations of balances are decided for the implementation on balances with any number of entries (summarised). to_ledger is interpreted on journals of two transactions with and without an automated one: every transaction is balanced once per pass, a failure rejects the journal, and the postings of the result are those balanced last.')
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)']


def run(ctx):
    balance_kernels(ctx)
    balance_predicates(ctx, ('zero', 'cbz'))
    run_txn(ctx, ('sum',), 'accepted transactions have an acceptable residue')
    balance_rules(ctx)
