from query import eval_rules, match_rules, build_rules, word_rules, header_rules

LEVEL = "other"
TECH = 'abstract interpretation of MIR against a specification; analysis of the pest grammar (syntax trees of sentence shapes propagated as constants through the tree builder)'
EXPLAIN = ('eval is interpreted on open operands for every operator, operand kind and ordering of the operands, every field and function, with its answer compared to the documented one; the matching of accounts and payees with empty, stale and filled caches; the grammar file is parsed and the syntax trees of expression shapes over all operators and pairs or triples of precedences are propagated through the tree builder and compared with the documented precedence and association; sequences of search-word kinds are propagated through preprocess_query and get_filter_query and compared with the documented expansion.')
ASSUME = ['the regex crate answers by its documentation and pest matches as its grammar notation says', 'expressions deeper than the enumerated shapes are built by the same recursive functions, one level per call']


def run(ctx):
    eval_rules(ctx)
    match_rules(ctx)
    build_rules(ctx)
    word_rules(ctx)
    header_rules(ctx)
