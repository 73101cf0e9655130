from lists import list_rules
from listing import collect_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR against a specification; congruence of lower-case keys'
EXPLAIN = ('get, insert, add_alias and append of the lists of accounts, commodities and payees are interpreted on lists with open names and aliases: a name or alias, in any letter case, resolves to its entity, an unknown one is an error, inserting or merging keeps every known entity and alias and makes the new ones known, and a name already known is neither replaced nor lost. The collection of names in to_ledger is interpreted with the real lists.')
ASSUME = ['str::to_lowercase maps equal strings to equal strings and two spellings denote the same name exactly if their lower-case forms agree', 'the std maps behave as documented']


def run(ctx):
    list_rules(ctx)
    collect_rules(ctx)
