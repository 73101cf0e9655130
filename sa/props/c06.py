from failing import dispatch_rules, command_rules, ledger_fail, read_fail, malformed_rules, filter_fail
from listing import listing_cmds
from includes import include_errors
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR with failures injected at every call of a fallible stage (disjunctive, fixpoint over canonical states)'
EXPLAIN = ('every stage that reports errors (the parsers of all items and of their postings, tokenize, to_ledger and its conversion, Transaction::balance, filter and filter_expression, every command) fails or succeeds at each of its calls, one failure per path, and the function above has to end with an error or a panic: tokenize on journals with every kind of item, alone, twice and in pairs, to_ledger on journals with up to three transactions and two automated ones, the reports with and without a query, the listings, check (OK exactly when both stages succeed, with checks on), run_app (every command; message to standard error and Err) and main (status). '
           'Queries whose answer is no boolean are errors; a list of malformed items is rejected alone, before and after other items.')
ASSUME = ['errors that a function of the std library or of a dependency reports (regular expressions, globbing, reading) are turned into panics or errors where they occur (unwrap and expect are panics); only reading and globbing are injected, in C07',
          'a panic prints its message and ends the program with a non-zero status', 'look-ups in lists are questions: a miss is no error (the code adds the entity)']


def run(ctx):
    par(ctx, dispatch_rules, command_rules, ledger_fail, read_fail, malformed_rules, filter_fail, listing_cmds, include_errors)
