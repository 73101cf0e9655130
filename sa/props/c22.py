from listing import listing_cmds, collect_rules
from lists import list_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR (disjunctive) against a specification'
EXPLAIN = ('the accounts, payees, commodities and prices commands are interpreted on exact ledgers: the printed lines are the names of the list, each once and sorted, and every price once, in order; errors of the stages before are returned and nothing is printed. to_ledger is interpreted with its real lists on small journals: every account, payee and commodity written in a posting (amount, cost or asserted balance), a price, a directive or a matching automated transaction is in the lists of the ledger exactly once, in any letter case.')
ASSUME = ['the std collections, iterators, formatting and num rationals behave as documented (they are replaced by models)', 'journals are sampled by shape (postings, prices, directives, automated transactions), not by content: names are constants']


def run(ctx):
    listing_cmds(ctx)
    collect_rules(ctx)
    list_rules(ctx)
