from dates import date_rules
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over date texts with open digits'
EXPLAIN = ('date_parser is interpreted for every month and day in every documented form with an open year, for leap days of particular years, impossible dates, dates with text before or after them and other expressions; the parser of natural-language periods is taken as either refusing its text or giving some period, whose first day must be the result.')
ASSUME = ['the regex crate matches as documented (translated to the same construct of Python for the patterns of this file)', 'two_timer::parse reads its text as a period or refuses it']


def run(ctx):
    par(ctx, date_rules)
