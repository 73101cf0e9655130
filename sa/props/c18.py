from config import config_rules
from failing import dispatch_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over configuration texts with open characters, against a specification of the resulting options'
EXPLAIN = ('run_app is interpreted up to the point where the argument list is handed to the command line parser, for every option in the configuration file (as two words, with =, with several words, with trailing blanks) against command lines that give it in every form (long, with =, short, short with the value attached, at several places) or not at all, files with several lines, comments of all four kinds, blank lines and CRLF, malformed lines, and every combination of existing configuration files; the options the parser reads from the list are compared with the merge of both sources. The command asked for is run with the options given.')
ASSUME = ['structopt/clap reads an argument list as documented (options by name, short options with attached values, every other word is part of the query)', 'values consist of a few open characters without blanks; longer ones are copied by the same loops']


def run(ctx):
    par(ctx, config_rules, dispatch_rules)
