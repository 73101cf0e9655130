from parsing import directive_rules1, directive_rules2
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over texts with open characters, pest grammar and regular-expression analysis, against a specification of the syntax'
EXPLAIN = ('tokenize is interpreted on directives of the four kinds with every property, every ordered pair and the whole list in both orders, names and values made of open characters (every letter of one, two and three bytes, every digit), with comment lines, tabs, blanks, CRLF and missing final line ends, and on every pair of neighbouring directives; the recorded entities and all their fields are compared with what is written. Every constant with which the code compared an open character is tried in its place.')
ASSUME = ['longer names and values are read by the same loops, one character per round', 'the regex crate and pest behave as documented (patterns and grammar are interpreted)',
          'the std collections, iterators and string functions behave as documented (they are replaced by models)']


def run(ctx):
    par(ctx, directive_rules1, directive_rules2)
