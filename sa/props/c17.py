from par import par
from convert import conversion_names, conversion_rules, conversion_any, convert_kernel, exchange_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive, fixpoint over canonical states) against a specification'
EXPLAIN = ('conversion is interpreted on sets of up to three (thorough: four) prices with open values and dates before, on and after the report date, in both directions and as chains, with hash maps visited in insertion order and, for the small sets, in every order: each factor is the product of the latest known prices along a chain, and commodities without a chain have none. convert_balance and the balance command with -X are interpreted with open factors and quantities: amounts with a factor are converted exactly, the others kept, in rows and total.')
ASSUME = ['the std collections, iterators, sorting, chrono dates and num rationals behave as documented (they are replaced by models)',
          'sets of more than four prices behave like those of the cases']


def run(ctx):
    par(ctx, conversion_rules, conversion_any, conversion_names, convert_kernel, exchange_rules)
