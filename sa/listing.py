"""Listings and the collection of names (C22)."""
from lists import *

NAMES = ['Beta', 'alpha', 'Gamma']
KIND = {'accounts': ('Account', 'accounts'), 'commodities': ('Currency', 'commodities'), 'payees': ('Payee', 'payees')}


def named(p, kind, name, aliases=()):
    f = {'name': ('s', name)}
    f['alias' if kind == 'Payee' else 'aliases'] = ('H', 'set', tuple((('s', a), models.UNIT) for a in aliases), frozenset())
    if kind == 'Payee':
        f['alias_regex'] = V()
    return mk(p, KINDS[kind], _rest=lambda n: T('sym', '%s.%s' % (name, n)), **f)


def conc_list(p, kind, names, aliases=()):
    return mklist(p, [(('s', n.lower()), named(p, kind, n)) for n in names], [(('s', a), ('s', n)) for a, n in aliases])


def text(st):
    """printed text as strings and displayed values"""
    ls = lines(st)
    if ls is None:
        return None
    return [" ".join(w if isinstance(w, str) else "".join(x if isinstance(x, str) else '<%s>' % show_(x) for x in (w if not (w and isinstance(w[0], str)) else (w,))) for w in l) for l in ls]


def fails(tok, led, who='to_ledger'):
    """the stages before a report, each of which may fail"""
    def tk(e, st, fr, a):
        r = models.nd(st, 'tokenize', [0, 1])
        ev(e, st, 'tokenize', st.deep(a[0]), ('i', r))
        return err(sym('parse error')) if r else ok(T('items', st.deep(a[0])))

    def tl(e, st, fr, a):
        r = models.nd(st, 'to_ledger', [0, 1])
        ev(e, st, 'to_ledger', st.deep(a[0]), st.deep(a[1]), ('i', r))
        return err(sym('ledger error')) if r else ok(led)
    return [(r"Tokenizer.* as std::convert::From<&.*>>::from$", lambda e, st, fr, a: T('tokenizer', st.deep(a[0]))),
            (r"Tokenizer.*::tokenize$", tk), (r"to_ledger$", tl)]


def stage_check(st, kind, v, path, flag):
    """errors of the stages before a report end it; message, 'error' if it failed as it should, None if both succeeded"""
    a, b = events(st, 'tokenize'), events(st, 'to_ledger')
    if kind == 'panic':
        if len(a) == 1 and a[0][1] == ('i', 1) or len(b) == 1 and b[0][2] == ('i', 1):
            return 'error'
        return "ends with a panic: %s" % (v,)
    if kind != 'return' or v[0] != 'A' or v[1] != RES:
        return "ends with %s" % (show_(v) if kind == 'return' else kind)
    if len(a) != 1 or a[0] is None:
        return "the journal is parsed %d times" % len(a)
    if a[0][0] != T('tokenizer', path):
        return "another file is parsed: %s" % show_(a[0][0])
    if a[0][1] == ('i', 1):
        return 'error' if v[2] == 1 else "an error of the parser does not end the command with an error"
    if len(b) != 1 or b[0] is None:
        return "the ledger is built %d times" % len(b)
    if b[0][0] != T('items', T('tokenizer', path)):
        return "another journal is used: %s" % show_(b[0][0])
    if flag is not None and b[0][1] != flag:
        return "the switch for balance checks is passed as %s" % show_(b[0][1])
    if b[0][2] == ('i', 1):
        return 'error' if v[2] == 1 else "an error of the ledger does not end the command with an error"
    if v[2] != 0:
        return "an accepted journal ends with an error"
    return None


def listing_cmds(ctx, anyorder=False):
    """the listing commands on exact ledgers"""
    p = ctx.p
    path, flag = sym('path'), sym('nochecks')
    for cmd, (kind, field) in KIND.items():
        fn = fnd(p, 'commands::%s::execute' % cmd)
        odd = ['[Unspecified payee]', '[x]', '(x)', '*x', '!x', 'x', ';x', '#x', 'Unknown', '$', '"a b"', 'a b', 'é', 'x:y', 'x:y:z', '-', '0', '_x', 'X.', '@x', '%x', "it's", 'not', 'a/b', 'EUR', 'Equity:Opening Balances']
        for names in [NAMES, NAMES[:1], [], ['b', 'B2', 'a:b'], ['b', 'B2', 'a:b', 'a', 'Z', '10']] + [[x] for x in odd] + [['A %s' % x, x] for x in odd]:
            if anyorder and len(names) > 3:
                continue
            led = mk(p, LG, **{field: conc_list(p, kind, names, [('z-alias', names[0].lower())] if names else [])})

            def ck(k, v, st):
                m = stage_check(st, k, v, path, flag)
                ls = text(st)
                if m == 'error':
                    return None if not ls else "prints %s although an error is reported" % ls
                if m:
                    return m
                if ls is None:
                    return "the printed lines are not determined"
                if ls != sorted(names):
                    return "prints %s instead of %s" % (ls, sorted(names))
            c = Case(ctx, fn, 'the listing shows every entity once, sorted by name', fn_over=fails(None, led), anyorder=anyorder, intmax=5000)
            c.run('%s of %d' % (cmd, len(names)), [path, flag], {}, ck)
    fn = fnd(p, 'commands::prices::execute')
    for n in (0, 1, 2, 3):
        prs = [mk(p, PR, date=sym('date%d' % i), commodity=commodity(p, 'C%d' % i), price=money(sym('q%d' % i), commodity(p, 'D%d' % i))) for i in range(n)]

        def ck(k, v, st):
            m = stage_check(st, k, v, path, flag)
            ls = lines(st)
            if m == 'error':
                return None if not ls else "prints although an error is reported"
            if m:
                return m
            if ls is None:
                return "the printed lines are not determined"
            if len(ls) != n:
                return "prints %d lines for %d prices" % (len(ls), n)
            for i, l in enumerate(ls):
                flat = repr(l)
                for w in ('date%d' % i, "C%d'" % i, 'q%d' % i, "D%d'" % i):
                    if w not in flat:
                        return "the line of price %d lacks %s: %s" % (i, w.strip("'"), showline(l))
        c = Case(ctx, fn, 'every recorded price is listed once, in order', fn_over=fails(None, mk(p, LG, prices=V(*prs))), anyorder=anyorder, intmax=5000)
        c.run('%d prices' % n, [path, flag], {}, ck)


# ------------------------------------------------------------------ collection of names
def collect_rules(ctx, anyorder=False):
    """to_ledger with its real lists: every name written in the journal is known to the ledger exactly once"""
    p = ctx.p
    PP = 'models::models::ParsedPrice'

    def run(label, txs, prices, want, pre=None, over=()):
        pre = pre or {}
        lists_ = {f: conc_list(p, k, pre.get(f, [])) for k, f in (('Account', 'accounts'), ('Currency', 'commodities'), ('Payee', 'payees'))}
        j = mk(p, PL, transactions=V(*txs), prices=V(*prices), comments=V(), tags=V(), **lists_)

        def ck(kind, v, st):
            if kind != 'return' or v[0] != 'A' or v[1] != RES or v[2] != 0:
                return "ends with %s" % (show_(v) if kind == 'return' else kind)
            led = v[3][0]
            for f, ws in want.items():
                cont = content(p, get(p, led, LG, f), st)
                if cont is None:
                    return "the list of %s is not determined" % f
                names = sorted(acc_name(x) or show_(x) for _, x in cont[0])
                if names != sorted(ws):
                    return "the ledger knows the %s %s instead of %s" % (f, names, sorted(ws))
                for k, x in cont[0]:
                    if k != ('s', (acc_name(x) or '').lower()):
                        return "%s is filed under %s" % (acc_name(x), show_(k))
        c = Case(ctx, fnd(p, 'ParsedLedger>::to_ledger', '::to_ledger'), 'every name written in the journal is known once', anyorder=anyorder,
                 fn_over=[stub_balance(may_fail=False), (r"models::comment::Comment::get_tags$", lambda eng, st, fr, args: V(T('tag', st.deep(args[0]))))] + AUTO)
        c.run(label, [j, sym('nochecks')], {}, ck)

    def post(i, acc, cur=None, cost=None, asrt=None, payee='Shop', kind='R'):
        r = raw(p, i, S(kind, cur is not None, 'T' if cost else None, asrt is not None), ('s', acc), ('s', cur) if cur else None, payee=some(('s', payee)) if payee else NONE)
        d = fields_of(p, RP, r)
        if cost:
            d['cost_currency'] = some(('s', cost))
        if asrt:
            d['balance_currency'] = some(('s', asrt))
        return mk(p, RP, **d)

    def tx(n, posts, **kw):
        t = rawtx(p, n, posts, **kw)
        return mk(p, TX, **dict(fields_of(p, TX, t), description=('s', 'Shop'), payee=NONE))
    pr = lambda i, a, b: mk(p, PP, date=sym('pd%d' % i), commodity=('s', a), other_commodity=('s', b), other_quantity=sym('pq%d' % i))
    for kind in 'RVB':
        run('one posting, kind %s' % kind, [tx(0, [post('0', 'A', 'USD', kind=kind)])], [], dict(accounts=['A'], commodities=['USD'], payees=['Shop']))
    run('cost', [tx(0, [post('0', 'A', 'USD', 'EUR')])], [], dict(accounts=['A'], commodities=['USD', 'EUR'], payees=['Shop']))
    run('asserted balance', [tx(0, [post('0', 'A', 'USD', None, 'GBP')])], [], dict(accounts=['A'], commodities=['USD', 'GBP'], payees=['Shop']))
    run('asserted balance only', [tx(0, [post('0', 'A', None, None, 'GBP')])], [], dict(accounts=['A'], commodities=['GBP'], payees=['Shop']))
    run('no amount', [tx(0, [post('0', 'A')])], [], dict(accounts=['A'], commodities=[], payees=['Shop']))
    run('two postings', [tx(0, [post('0', 'A', 'USD'), post('1', 'B', 'EUR', payee='Other')])], [], dict(accounts=['A', 'B'], commodities=['USD', 'EUR'], payees=['Shop', 'Other']))
    run('two transactions, repeated names', [tx(0, [post('0', 'A', 'USD'), post('1', 'B', 'USD')]), tx(1, [post('2', 'A', 'EUR'), post('3', 'C', 'USD', payee='New')])], [],
        dict(accounts=['A', 'B', 'C'], commodities=['USD', 'EUR'], payees=['Shop', 'New']))
    run('other letter case', [tx(0, [post('0', 'Abc', 'USD'), post('1', 'aBC', 'usd')])], [], dict(accounts=['Abc'], commodities=['USD'], payees=['Shop']))
    # names that resemble one another are different names
    vars_ = ['[%s]', '[%s', '%s.', '%s,', '%ss', '%s1', '%s-', '%s!', '%s Inc', '%s (x)', 'The %s', 'x%s', '.%s', '%s%%', '%s\u00e9', '\u00e9%s', '%s Z', '%s_', "%s'", '%s:', '*%s', '%s#', '%s&Co', '%s*']
    for i, v in enumerate(vars_ if not anyorder else vars_[:2]):
        w = {k: v % k for k in ('Abc', 'USD', 'Shop')}
        two = dict(accounts=['Abc', w['Abc']], commodities=['USD', w['USD']], payees=['Shop', w['Shop']])
        for order in (0, 1):
            ps = [post('0', 'Abc', 'USD', payee='Shop'), post('1', w['Abc'], w['USD'], payee=w['Shop'])]
            run('names like %s, order %d' % (v % 'Shop', order), [tx(0, ps if not order else ps[::-1])], [], two)
        run('known names like %s' % (v % 'Shop'), [tx(0, [post('1', w['Abc'], w['USD'], payee=w['Shop'])])], [], dict(two),
            pre=dict(accounts=['Abc'], commodities=['USD'], payees=['Shop']))
        run('known names like %s, the other way' % (v % 'Shop'), [tx(0, [post('1', 'Abc', 'USD', payee='Shop')])], [], dict(two),
            pre=dict(accounts=[w['Abc']], commodities=[w['USD']], payees=[w['Shop']]))
        run('price of a commodity like %s' % (v % 'USD'), [tx(0, [post('0', 'Abc', 'USD', payee='Shop')])], [pr(0, 'USD', w['USD'])], dict(accounts=['Abc'], commodities=['USD', w['USD']], payees=['Shop']))
    run('prices', [tx(0, [post('0', 'A', 'USD')])], [pr(0, 'EUR', 'GBP'), pr(1, 'GBP', 'CHF')], dict(accounts=['A'], commodities=['USD', 'EUR', 'GBP', 'CHF'], payees=['Shop']))
    run('only prices', [], [pr(0, 'EUR', 'GBP')], dict(accounts=[], commodities=['EUR', 'GBP'], payees=[]))
    run('directives', [tx(0, [post('0', 'A', 'USD')])], [], dict(accounts=['A', 'Z'], commodities=['USD', 'XAU'], payees=['Shop', 'Known']),
        pre=dict(accounts=['Z'], commodities=['XAU'], payees=['Known']))
    run('directives repeated in transactions', [tx(0, [post('0', 'z', 'xau', payee='known')])], [], dict(accounts=['Z'], commodities=['XAU'], payees=['Known']),
        pre=dict(accounts=['Z'], commodities=['XAU'], payees=['Known']))
    # automated transactions contribute their names at least when they match
    for how in ('mul', 'amt', 'expr'):
        a = autopost(p, '90', how, payee=some(('s', 'Robot')))
        auto = rawtx(p, 9, [a], 'Automated', (), query=some(sym('query9')))

        def over(eng, st, fr, args):
            return ok(('b', True))
        global_auto = [(r"filter::filter_expression$", over)]
        want = dict(accounts=['A', 'Z90'], commodities=['USD'] + (['EUR'] if how == 'amt' else []), payees=['Shop', 'Robot'])
        lists_ = {f: conc_list(p, k, []) for k, f in (('Account', 'accounts'), ('Currency', 'commodities'), ('Payee', 'payees'))}
        j = mk(p, PL, transactions=V(tx(0, [post('0', 'A', 'USD')]), auto), prices=V(), comments=V(), tags=V(), **lists_)

        def ck(kind, v, st, want=want, how=how):
            if kind != 'return' or v[0] != 'A' or v[1] != RES or v[2] != 0:
                return "ends with %s" % (show_(v) if kind == 'return' else kind)
            for f, ws in want.items():
                cont = content(p, get(p, v[3][0], LG, f), st)
                if cont is None:
                    return "the list of %s is not determined" % f
                names = sorted(show_(x) if acc_name(x) is None else acc_name(x) for _, x in cont[0])
                if set(names) - {''} != set(ws) or len(set(names)) != len(names):
                    return "the ledger knows the %s %s instead of %s" % (f, names, sorted(ws))
        c = Case(ctx, fnd(p, 'ParsedLedger>::to_ledger', '::to_ledger'), 'every name written in the journal is known once', anyorder=anyorder,
                 fn_over=global_auto + [stub_balance(may_fail=False), (r"models::comment::Comment::get_tags$", lambda eng, st, fr, args: V(T('tag', st.deep(args[0]))))] + AUTO)
        c.run('automated transaction by %s' % how, [j, sym('nochecks')], {}, ck)
