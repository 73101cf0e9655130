from progress import progress_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR and of the pest grammar: every truncated or malformed continuation of every parsing context, a state reached twice on one path (or a read position that stands still) is a loop'
EXPLAIN = ('tokenize is interpreted on every parsing context (top level, first line, each stage of a posting, expressions, quotes, comments, automated transactions, prices, every directive and property) continued by every character that the parser or its grammar mentions and one of each character class (thorough: every pair), followed by the end of the input, a line end, an indented line or more text. A path must end in a result, an error or a panic; coming back to a state already visited on the same path, or no change of the read position over a number of steps far beyond the length of the text, is reported with the loop where it happens.')
ASSUME = ['a parsing loop looks at the current character and at what has been recorded so far in ways that the contexts and the characters mentioned in the code tell apart',
          'std, regex and pest functions return (pest rejects grammars whose repetitions can match nothing)', 'included files are texts of the same kind; cycles of includes are C07']


def run(ctx):
    progress_rules(ctx)
