from ledger import price_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('to_ledger is interpreted on journals with price directives, costs (total and per unit, positive and negative, real and virtual), implied exchanges and automated transactions with open quantities: on every path the recorded prices are exactly the specified ones.')
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)']


def run(ctx):
    price_rules(ctx)
