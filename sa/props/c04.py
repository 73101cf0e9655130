from kern import balance_kernels, balance_predicates
from txn import run_txn
from ledger import balance_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ("Transaction::balance is interpreted abstractly on every shape of up to three postings (real, virtual, bracketed; amount, none; no, total, per-unit cost; asserted balance or not; one or several accounts; checks on and off) with open quantities, commodities and running balances: balances are formal sums over commodities, so a verdict covers all quantities and all equalities between commodities. On every accepting path with checks on, the equality test of asserted and running balance was made and held; balance-only postings receive the difference; the running balances after the call are the old ones plus the postings' amounts. Balance equality and single-amount extraction are decided on balances with any number of entries; to_ledger passes the switch unchanged and threads one map, which starts empty, through all transactions in order.")
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)']


def run(ctx):
    balance_kernels(ctx)
    balance_predicates(ctx, ('money', 'eq'))
    run_txn(ctx, ('assert', 'assign', 'running', 'sum'), 'balance assertions')
    balance_rules(ctx)
