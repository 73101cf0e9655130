from entity import entity_rules, order_rules_, order_agrees, money_eq

LEVEL = "other"
TECH = 'abstract interpretation of MIR against a specification; congruence of the hashed values under the facts that make two values equal'
EXPLAIN = ('the eq, hash, cmp and partial_cmp implementations of accounts, commodities, payees, price nodes and amounts are interpreted on open values: on every path on which eq answers true the sequences of hashed values are congruent and cmp answers Equal, cmp is antisymmetric, equal names are equal and different names differ, and amounts are equal exactly if both are zero or agree in quantity and commodity.')
ASSUME = ['equality, order and hashing of std strings, dates and num rationals are consistent']


def run(ctx):
    entity_rules(ctx)
    order_rules_(ctx)
    order_agrees(ctx)
    money_eq(ctx)
