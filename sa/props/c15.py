from ledger import automated_rules, balance_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('to_ledger is interpreted on journals with one or two transactions and one to three automated ones, open quantities and open match results: on every path the resulting postings are, as a multiset, the written ones plus exactly one copy of each automated posting per matching written posting, with account, kind, payee and amount as specified, and tags are attached to matched postings only.')
ASSUME = ['the std collections, iterators and num rationals behave as documented (they are replaced by models of their documented behaviour)', 'filter_expression and eval_value_expression are functions of their arguments (their meaning is C14)']


def run(ctx):
    automated_rules(ctx)
    balance_rules(ctx)
