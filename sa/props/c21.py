from ledger import field_rules
from txn import elided_fields
from parsing import header_rules, posting_rules1, posting_rules2, posting_rules3, attach_rules, file_rules, number_rules, auto_text_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over texts with open characters (letters of one, two and three bytes, digits), pest grammar analysis, against a specification of the syntax'
EXPLAIN = ('the reader (Tokenizer::from, tokenize, to_ledger) is interpreted on texts in which names, numbers and comments consist of open characters, each standing for every letter or digit of its class: every form of first line (date separators and digits, effective date, status, code, description, payee, comment), of posting (kind, account forms, separators, amount, cost, asserted balance, expression, comment, line ends), of comment and tag position, of automated transaction, and every pair of neighbouring items in a file. The recorded date, description, code, payee, accounts, kinds, quantities (as polynomials in the open digits), commodities, costs, balances, comments and tags are compared with what is written. Every constant with which the code compared an open character is tried in its place. The step from raw to final posting is decided separately for open field values.')
ASSUME = ['names longer than those of the texts are read by the same loops, one character per round (a round does not depend on earlier characters except through the recorded state)',
          'the regex crate and pest behave as documented (the grammar file and the patterns are interpreted)', 'the std collections, iterators and string functions behave as documented (they are replaced by models)']


def run(ctx):
    par(ctx, field_rules, elided_fields, header_rules, posting_rules1, posting_rules2, posting_rules3, attach_rules, file_rules, number_rules, auto_text_rules)
