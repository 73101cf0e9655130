from report import balance_rules_, balance_anyorder
from kern import balance_kernels

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('the balance command is interpreted on small account trees (parents, siblings, chains, common name prefixes, several commodities) with open quantities and open filter answers, flat and as a tree, with and without depth limit, and the printed lines of every path are compared with the sums of the selected postings; in a second pass hash maps are visited in every order. The sums themselves are decided for the addition of balances in general.')
ASSUME = ['the std collections, iterators, string functions and num rationals behave as documented (they are replaced by models)',
          'account trees of other shapes behave like those of the cases (three postings, three levels)']


from par import par


def run(ctx):
    par(ctx, balance_kernels, balance_rules_, balance_anyorder)
