#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text can be edited in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Amounts are exact rationals from input to output",
 "Every quantity written in a journal is held as exactly the number written, and sums, differences, products, quotients and currency conversions of quantities introduce no rounding, truncation or overflow. The only place where digits may be dropped is the text of a printed amount.",
 ["inputs"], "all decimal literals of any length, all sequences of arithmetic on them",
 "The tests sample a handful of small two-decimal amounts, for which lossy code gives the same text.",
 ["src/models/money.rs", "src/models/balance.rs", "src/parser/utils.rs", "src/parser/value_expr.rs", "src/parser/tokenizers/transaction.rs", "src/models/price.rs"],
 [("BigRational quantities", "src/models/money.rs Money::Money.amount"), ("literal parser", "src/parser/utils.rs parse_rational")],
 [("Money.amount", "exact quantity", "src/models/money.rs")], ["balance report", "register report", "prices report"])

prop("C02", "Accepted transactions balance",
 "A journal is accepted only if, in every transaction, the real postings (counting the cost of a posting instead of its amount where a cost is written, with the sign of the amount) sum to a residue that is zero in every commodity or contains at least one positive and at least one negative commodity (an implicit exchange), and the bracketed virtual postings do so separately. Parenthesised virtual postings never take part in either sum. The same holds for the final postings once automated transactions have added theirs.",
 ["inputs"], "all journals: any number of postings, commodities, costs and posting kinds, in any order",
 "The tests run one unbalanced and a few balanced journals; the sums range over arbitrarily many postings and signs.",
 ["src/models/transaction.rs", "src/models/balance.rs", "src/models/mod.rs"],
 [("Transaction::balance", "src/models/transaction.rs"), ("Balance::can_be_zero", "src/models/balance.rs"), ("to_ledger balances every transaction in both passes", "src/models/mod.rs")],
 [("transaction_balance", "sum of the real postings at cost", "src/models/transaction.rs")], ["exit status", "check command"])

prop("C03", "At most one elided amount, filled with exactly the missing sum",
 "In a transaction at most one real posting may lack an amount (and a balance assignment); two or more are rejected. The one that lacks it receives exactly the negated sum of the other real postings, one posting per commodity, on its own account; every posting that had an amount keeps account, amount and kind, and no posting, real or virtual, is lost or duplicated.",
 ["inputs"], "all transactions, all positions of the elided posting, any number of commodities",
 "The tests only count output lines for a few journals with one elided posting.",
 ["src/models/transaction.rs"], [("fill of the empty posting", "src/models/transaction.rs Transaction::balance")],
 [("fill_account", "account of the elided posting", "src/models/transaction.rs")], ["balance report", "register report"])

prop("C04", "Balance assertions are enforced against the running account balance",
 "Unless balance checks are switched off, a posting with an amount and an asserted balance is accepted only if the account's running balance after the posting, in the asserted commodity, equals the asserted amount, and a posting with only an asserted balance is given exactly the difference to the running balance. Every real posting, with or without assertion, advances the running balance of its account by exactly its amount. Switching the checks off disables the assertions and nothing else: unbalanced transactions are still rejected.",
 ["inputs", "histories"], "all histories of postings to an account, all asserted commodities, checks on or off",
 "Tests use one or two postings per account; the property is about every prefix of an arbitrarily long history.",
 ["src/models/transaction.rs", "src/models/mod.rs", "src/models/balance.rs"],
 [("assertion test", "src/models/transaction.rs Transaction::balance"), ("Balance equality", "src/models/balance.rs")],
 [("balances", "running balance per account", "src/models/mod.rs to_ledger")], ["exit status"])

prop("C05", "Transactions are processed in date order, ties in file order",
 "Whatever the order of the transactions in the file and its includes, assertions, balances, prices and reports see them in ascending date order, and transactions of the same date keep the order in which they were written.",
 ["inputs", "histories"], "all permutations of transactions in the input",
 "The tests hold one unsorted journal and compare line counts.",
 ["src/models/mod.rs", "src/commands/register.rs"], [("stable sort by date before balancing", "src/models/mod.rs to_ledger")],
 [("transactions", "transactions in processing order", "src/models/mod.rs")], ["register report", "exit status"])

prop("C06", "Every detected error ends the run with a failure status",
 "When reading, parsing, looking up a name, balancing or evaluating a query reports an error, no command swallows it: the program prints it and ends with a non-zero status, and the check command says OK exactly for the journals the other commands accept with checks on.",
 ["inputs", "fault_sequences"], "all journals and command lines that make any stage fail",
 "The tests trigger three error kinds with one command each; every call site of a fallible stage in every command has to propagate.",
 ["src/main.rs", "src/app.rs", "src/commands/*.rs", "src/parser/mod.rs", "src/parser/include.rs", "src/models/mod.rs"],
 [("? propagation and exit code", "src/main.rs, src/app.rs run_app")], [], ["exit status", "stderr"])

prop("C07", "Includes merge whole files and cycles are rejected",
 "An include directive contributes every transaction, price, comment, tag, account, payee and commodity of every matching file, each exactly once, as if written in place, with relative paths taken from the including file's directory. A file that directly or indirectly includes itself is reported as an error instead of recursing.",
 ["inputs", "configurations"], "all include graphs, nesting depths and globs",
 "The tests include one or two files and a one-step cycle.",
 ["src/parser/include.rs", "src/parser/mod.rs", "src/list.rs"], [("ParsedLedger::append", "src/parser/mod.rs"), ("seen_files", "src/parser/include.rs")],
 [("seen_files", "files on the include path", "src/parser/mod.rs Tokenizer")], ["exit status", "all reports"])

prop("C08", "Output is a function of the input",
 "Two runs of the same command on the same files and the same day print the same text and end with the same status: no order of hash iteration, address, or random seed decides which rows, prices, accounts or totals are printed or in what order.",
 ["schedules", "inputs"], "all hash seeds, all journals (in particular several commodities or accounts per report row)",
 "A test run sees one hash seed per process and most journals have a single commodity.",
 ["src/commands/balance.rs", "src/commands/register.rs", "src/models/balance.rs", "src/models/price.rs", "src/models/mod.rs", "src/list.rs"],
 [("sorting before printing; ordered maps", "src/commands/*.rs, src/models/*.rs")], [], ["stdout", "exit status"])

prop("C09", "Report filters select exactly the requested postings",
 "Balance and register reports consider exactly the postings that satisfy every given restriction: dated on or after the begin date, strictly before the end date, real when only real postings are requested, and matching the query when one is given. With no restriction every posting is considered.",
 ["inputs", "configurations"], "all combinations of options, dates equal to, before or after the limits, all posting kinds",
 "Tests use a few option combinations and count lines; the boundary dates and combinations are not sampled.",
 ["src/filter.rs", "src/commands/balance.rs", "src/commands/register.rs"], [("filter", "src/filter.rs")], [], ["balance report", "register report"])

prop("C10", "The balance report conserves every selected amount",
 "Each selected posting's amount is counted exactly once in its account; a parent account in the tree shows the sum of its own postings and those of all accounts below it (and of no other account) and these follow it directly in the tree, a depth limit folds or hides rows without changing the amounts of those shown, and the total is the sum over all selected postings. Rows are hidden only when their balance is zero or deeper than the limit.",
 ["inputs", "configurations"], "all account trees, all postings, flat or tree, with any depth limit",
 "Tests count the lines of the report for a few account trees.",
 ["src/commands/balance.rs", "src/models/balance.rs"], [("execute", "src/commands/balance.rs")], [], ["balance report"])

prop("C11", "The register shows every selected posting with its running total",
 "The register prints one row for each selected posting, in processing order, with that posting's account (marked for virtual kinds) and amount, followed by the running total, which is the exact sum of the amounts of all rows up to and including this one.",
 ["inputs", "histories"], "all sequences of selected postings",
 "Tests count lines; running totals over arbitrary histories are not compared.",
 ["src/commands/register.rs", "src/models/balance.rs"], [("execute", "src/commands/register.rs")], [], ["register report"])

prop("C12", "Names resolve case-insensitively and aliases resolve to one entity",
 "An account, commodity or payee is found under its name and under each of its aliases, regardless of letter case, and all of these denote the same entity. Registering a name that is already known neither replaces nor loses the existing entity; the aliases of a repeated directive are kept, an alias declared for several entities denotes the one that declared it last, also across included files; and a lookup of an unknown name is reported as such.",
 ["inputs", "histories"], "all names, aliases, letter cases and registration orders",
 "Tests register two or three names.",
 ["src/list.rs", "src/models/mod.rs"], [("List", "src/list.rs")], [("list, aliases", "entities by lower-case key", "src/list.rs")], ["all reports"])

prop("C13", "Equality, hashing and ordering of entities agree",
 "Two accounts, commodities, payees or amounts that compare equal hash equally and are ordered as equal, and comparison is total and antisymmetric where it is defined, so that using them as keys of maps and in sorts never splits or merges distinct entities. Two amounts are equal only if they are both zero or agree in quantity and commodity.",
 ["inputs"], "all pairs of accounts, commodities, payees and amounts",
 "Tests compare a few pairs; hash/equality agreement is about all pairs.",
 ["src/models/account.rs", "src/models/currency.rs", "src/models/payee.rs", "src/models/money.rs", "src/models/balance.rs"],
 [("manual PartialEq/Hash/Ord impls", "src/models/*.rs")], [], ["all reports"])

prop("C14", "Queries and value expressions mean what they say",
 "Every operand written in a query or value expression takes part in its value: and, or, not, comparisons, regular-expression match, arithmetic, the fields amount, account, payee, date and note and the functions abs, any, has_tag, tag and to_date evaluate to their documented meaning. Operators of one precedence associate to the left, multiplication binds tighter than addition, both tighter than comparison, that tighter than and, and that tighter than or; not applies to the whole expression that follows it within its parentheses. The search words of a query (plain words and /…/ match the account, @word the payee, %word a tag, expr introduces an expression) expand to the documented expression joined by or unless and is written, and the header of an automated transaction is split into such words at blanks outside quotes and slashes.",
 ["inputs", "programs"], "all expressions of the grammar, all postings",
 "Tests evaluate a few expressions with at most two operands.",
 ["src/parser/value_expr.rs", "src/filter.rs", "src/grammar/grammar.pest"], [("build/eval", "src/parser/value_expr.rs"), ("preprocess_query", "src/filter.rs")], [], ["balance report", "register report"])

prop("C15", "Automated transactions add exactly their postings to each match",
 "For every posting written in the journal that matches the query of an automated transaction, each posting of the automated transaction is added exactly once to the same transaction, with the written account and kind, the written amount (or the matched amount times the written multiplier when no commodity is given, or the value of the amount expression). Postings generated by automated transactions are not themselves matched, nothing is added for postings that do not match, and the tags of the automated transaction are attached to matched postings only.",
 ["inputs"], "all journals, queries and numbers of automated transactions",
 "Tests run one or two automated transactions and count lines.",
 ["src/models/mod.rs"], [("automated pass", "src/models/mod.rs to_ledger")], [], ["balance report", "register report"])

prop("C16", "Prices are recorded once with the right direction and sign",
 "Every price directive and every posting cost contributes exactly one price, dated as its directive or transaction: a per-unit cost is the price of one unit, a total cost is divided by the absolute quantity, and an implicit exchange of two commodities contributes the ratio of their absolute residues. Prices are never negative for positive costs and never recorded twice.",
 ["inputs"], "all costs, signs and automated transactions",
 "Tests look at the number of price lines of one journal.",
 ["src/models/mod.rs", "src/parser/tokenizers/price.rs", "src/models/price.rs"], [("price recording", "src/models/mod.rs")], [("prices", "price history", "src/models/mod.rs")], ["prices report"])

prop("C17", "Conversion uses only known prices, in the right direction",
 "A report converted to a commodity multiplies each amount by the product of the prices along a chain of known prices leading to that commodity, dividing where a price is used in reverse; among prices of the same pair the most recent one not after the report date is used and later prices are ignored. Amounts with no such chain are shown unconverted and amounts already in the commodity are unchanged.",
 ["inputs", "histories"], "all price histories and pairs of commodities",
 "Tests convert one or two commodities over short chains.",
 ["src/models/price.rs", "src/commands/balance.rs"], [("conversion", "src/models/price.rs"), ("convert_balance", "src/commands/balance.rs")], [], ["balance report"])

prop("C18", "Command-line options win over the configuration file",
 "Options of the configuration file take effect exactly as if given on the command line, except that an option also given on the command line keeps the command line's value; comment and blank lines of the configuration file have no effect, and a malformed configuration line is an error. The configuration file is the one named with --init-file if it exists, else the one in the home directory, else the one in the current directory.",
 ["configurations"], "all configuration files and command lines",
 "Tests use one configuration file.",
 ["src/app.rs"], [("run_app", "src/app.rs")], [], ["all reports"])

prop("C19", "The program only reads",
 "No command creates, changes, renames or deletes a file, starts another program or opens a network connection; the only effects are reading the named journal, its includes and the configuration file, and writing to standard output and error.",
 ["inputs", "configurations"], "all inputs and command lines, every path of the program",
 "A test cannot show the absence of an effect on paths it does not run.",
 ["src/**/*.rs"], [("call graph", "src/")], [], ["file system"])

prop("C20", "Parsing always makes progress",
 "Reading a journal terminates for every input: every repetition in the parser consumes at least one character, leaves the loop or advances a bounded iterator.",
 ["inputs"], "all input texts, including truncated ones",
 "Tests feed well-formed journals; a loop that stops advancing is met only by particular malformed texts.",
 ["src/parser/mod.rs", "src/parser/chars.rs", "src/parser/tokenizers/*.rs"], [("position advances", "src/parser/")], [("position", "read position", "src/parser/mod.rs Tokenizer")], ["termination"])

prop("C21", "What is written in a posting is what is recorded",
 "The account, kind, amount and commodity (a value expression standing for its value), cost and its type, asserted balance, payee and tags written for a posting, and the date, effective date, description, code and comments of its transaction, reach the ledger unchanged and attached to that same posting, whatever letters the names are made of and whichever line ends the file uses, and a time of day written after a date changes nothing; a comment belongs to the posting above it, or to the transaction if there is none, and tags of a transaction's comments apply to each of its postings. Every transaction and price of the input appears exactly once, and a line that has anything left over after its posting has been read (a second amount, cost or balance, an amount after the balance, text after an expression) or whose number is not one is an error.",
 ["inputs"], "all combinations of optional parts in a transaction",
 "Tests parse a few shapes of posting and rarely compare the recorded values.",
 ["src/parser/tokenizers/transaction.rs", "src/models/mod.rs", "src/models/comment.rs"], [("raw posting to posting", "src/models/mod.rs _transaction_to_ledger"), ("parse_posting", "src/parser/tokenizers/transaction.rs")], [], ["all reports"])

prop("C22", "Listings show every known entity exactly once, sorted",
 "The accounts, payees and commodities commands print each entity known to the journal, from directives, transactions, prices or automated transactions, exactly once and sorted by name, and the prices command prints every recorded price.",
 ["inputs"], "all journals",
 "Tests count the lines for two journals.",
 ["src/commands/accounts.rs", "src/commands/payees.rs", "src/commands/commodities.rs", "src/commands/prices.rs", "src/models/mod.rs"], [("collection of names", "src/models/mod.rs to_ledger"), ("execute", "src/commands/*.rs")], [], ["listings"])

prop("C23", "Printed amounts show the sign and the rounded value",
 "A printed amount is the exact amount rounded half away from zero to the precision of its commodity, with exactly that many decimals, a minus sign exactly when the amount is negative, and followed by its commodity.",
 ["inputs"], "all rationals and precisions",
 "Tests print a handful of amounts.",
 ["src/models/money.rs"], [("Display for Money", "src/models/money.rs")], [], ["all reports"])

prop("C24", "What a directive declares is what is recorded",
 "An account, commodity, payee or tag directive declares exactly one entity with the name written (blanks around it and a trailing note of payees and commodities excluded), each of the aliases, checks, assertions and payee patterns written under it, and the note, ISIN, format and default mark written, in whatever order the lines are given; comment lines change nothing, a following directive starts a new entity, and a line that is none of these is an error.",
 ["inputs"], "all names, property lines and their orders",
 "Tests parse a few directives and look at one or two fields.",
 ["src/parser/tokenizers/account.rs", "src/parser/tokenizers/commodity.rs", "src/parser/tokenizers/payee.rs", "src/parser/tokenizers/tag.rs", "src/parser/mod.rs"], [("directive parsers", "src/parser/tokenizers/*.rs")], [], ["listings", "all reports"])

prop("C25", "A date on the command line is the day written",
 "A date given with --begin, --end or to_date as year, month and day (with or without leading zeros, separated by - or /) is exactly that calendar day and one given as year and month is the first of that month, for every year; a date that does not exist is refused with an error, no part of a longer text is left out to make it a date, and any other expression denotes the first day of the period it names.",
 ["inputs"], "all texts given as a date",
 "Tests try five dates.",
 ["src/app.rs"], [("date_parser", "src/app.rs")], [], ["all reports"])

prop("C26", "Each command-line option does what it says and nothing else",
 "Each command is run under its name and its documented abbreviation, and each of the options --file/-f, --depth/-d, --begin/-b, --end/-e, --real, --no-balance-check, -X, --flat, --no-total and the query words, in every documented form and position and together with any other option, sets exactly the corresponding restriction of the command that is run; an option not given has no effect, and the options accepted for compatibility change none of these.",
 ["inputs"], "all command lines",
 "Tests use a few options of a few commands.",
 ["src/app.rs"], [("CommonOpts, Command", "src/app.rs"), ("run_app", "src/app.rs")], [], ["all commands"])

prop("C27", "Directives decide where a posting is booked",
 "Wherever in the journal the directives stand: a posting to an alias of an account is booked on that account, an amount, cost, asserted balance or price in an alias of a commodity is one in that commodity, and a payee that matches an alias pattern of a payee directive is that payee. A posting to an account whose last part is Unknown is booked on an account with a payee pattern that matches its payee, if there is one; every other posting is booked where it is written.",
 ["inputs"], "all directives, patterns, names and their order in the file",
 "Tests resolve one alias of each kind.",
 ["src/models/mod.rs", "src/list.rs", "src/parser/tokenizers/account.rs", "src/parser/tokenizers/payee.rs", "src/parser/tokenizers/commodity.rs"], [("to_ledger", "src/models/mod.rs to_ledger, _transaction_to_ledger"), ("List", "src/list.rs")], [], ["all reports"])

prop("C28", "An error in a journal names the file and the line it is in",
 "A malformed line in a journal or in one of its included files (an unknown or misspelt word, a date that does not exist, a transaction or directive whose first line is incomplete, a malformed posting or amount, a cost or asserted balance without its amount, an unknown property of a directive, an incomplete price, an invalid pattern, an include that closes a cycle; what is malformed inside a value expression aside) is an error, which names the file that holds the line, as included, and the number of that line, whatever stands before and after it.",
 ["inputs"], "all journals with a malformed line",
 "Tests only look at whether reading fails.",
 ["src/parser/mod.rs", "src/parser/include.rs", "src/parser/chars.rs", "src/parser/tokenizers/*.rs"], [("line and column of the reader", "src/parser/chars.rs, src/parser/tokenizers/"), ("error", "src/parser/mod.rs Tokenizer::error")], [("line_index", "current line", "src/parser/mod.rs Tokenizer")], ["error messages"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
