from ledger import order_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ("to_ledger is interpreted on journals of two and three (thorough: four) transactions with open dates, with and without automated transactions: on every path, for every ordering of the dates including ties, the sequence of balancing calls and the ledger's transactions are a stable ascending arrangement by date. The sort operations are modelled by their contract (stable or not).")
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)']


def run(ctx):
    order_rules(ctx)
