from position import position0, position1, position2, position3
from par import par

LEVEL = "other"
TECH = 'abstract interpretation of MIR over journals with one malformed line, against the place of that line'
EXPLAIN = ('Journals (one file, an included file, or the including file after its include) in which one line is malformed, eleven kinds of malformed lines after fourteen kinds of well-formed content (transactions, blank lines, comments of every kind, directives, prices, CRLF, expressions, costs, letters of several bytes), are interpreted through the reader; the text of the resulting error must name the file and the line.')
ASSUME = ['format! and the colored crate keep the text they are given']


def run(ctx):
    par(ctx, position0, position1, position2, position3)
