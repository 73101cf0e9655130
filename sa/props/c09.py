from report import filter_kernel, filter_use

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('filter::filter is interpreted for every combination of restrictions and posting kinds with open dates and an open query result: its answer is the conjunction of the restrictions given. register and balance are interpreted on ledgers of several transactions: every posting is handed to the filter once, with its own transaction, the options of the command and the query made from its words.')
ASSUME = ['the std collections and iterators, and the ordering of chrono dates, behave as documented (they are replaced by models)']


def run(ctx):
    filter_kernel(ctx)
    filter_use(ctx)
