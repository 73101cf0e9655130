from options import option_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR from the argument list to the arguments of the command'
EXPLAIN = ('The declaration of the options (generated by structopt in this crate) is interpreted over recorded builder calls, which gives the names, forms and kinds of all options; argument lists are read by that declaration as clap documents it, and the generated conversion and run_app are interpreted up to the call of the command. What the command receives is compared with what the options say, for every command, every option in every form at several places, every pair of options and all of them together, with open names and dates.')
ASSUME = ['clap reads an argument list by its declaration as documented']


def run(ctx):
    par(ctx, option_rules)
