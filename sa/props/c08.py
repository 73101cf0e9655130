from determ import report_orders, exchange_orders, conversion_orders, ledger_orders, source_rules
from listing import listing_cmds, collect_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR with hash collections visited in every order, outcomes compared with each other; call-graph rule for sources of chance'
EXPLAIN = ('the balance and register reports (tree, flat, depth, converted), conversion, to_ledger with the real balancing (exchange, elided postings in several commodities) and the listings are interpreted with every hash collection of up to three entries visited in every order; two paths whose facts can hold together print the same lines, end alike and build the same ledger. No call site of the crate consults a clock (except for the date of a converted report), random numbers, thread or process identities, hash values or addresses.')
ASSUME = ['the date of the day is part of the input of a converted report', 'hash collections of more than three entries behave like those of up to three', 'the std collections, sorting and formatting behave as documented (they are replaced by models); the order of an ordered map is that of its keys']


def listing_any(ctx):
    listing_cmds(ctx, anyorder=True)


def collect_any(ctx):
    collect_rules(ctx, anyorder=True)


def run(ctx):
    par(ctx, report_orders, exchange_orders, conversion_orders, ledger_orders, source_rules, listing_any, collect_any)
