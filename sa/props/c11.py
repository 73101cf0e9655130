from report import register_rules
from kern import balance_kernels

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('the register command is interpreted on small ledgers (several transactions, all kinds of postings, several commodities) with open quantities and open filter answers: on every path the printed rows are one per selected posting, in order, with its account, its amount and the exact running sum. The sums themselves are decided for the addition of balances in general.')
ASSUME = ['the std collections, iterators, formatting and num rationals behave as documented (they are replaced by models)']


def run(ctx):
    balance_kernels(ctx)
    register_rules(ctx)
