from booking import alias_rules, payee_rules, unknown_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR from the text of a journal to the ledger, with open digits'
EXPLAIN = ('Journals with directives before or after the transactions that use them are interpreted through the parser and to_ledger with the real lists; account, payee and commodity of every posting, cost, asserted balance and price are compared with the directives, for names in several cases, near misses, several aliases, several entities, patterns with anchors, alternatives and classes, and accounts that are or are not unknown.')
ASSUME = ['the regex crate matches as documented (translated to the same construct of Python for the patterns used)', 'letters of names are concrete here; C12 and C21 have them open']


def run(ctx):
    par(ctx, alias_rules, payee_rules, unknown_rules)
