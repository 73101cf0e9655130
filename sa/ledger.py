"""ParsedLedger::to_ledger on small exact journals with open contents."""
from txn import *

RP = 'parser::tokenizers::transaction::RawPosting'
PL = 'parser::ParsedLedger'


def strv(x):
    return ('s', x) if isinstance(x, str) else x


def ent(kind, name):
    return T('ent', kind, name)


def lst(kind):
    def name_(eng, st, x):
        return st.deep(x)

    def get(eng, st, fr, args):
        return ok(ent(kind, name_(eng, st, args[1])))

    def ins(eng, st, fr, args):
        ev(eng, st, 'insert', ('s', kind), st.deep(args[1]))
        return models.UNIT

    def vals(eng, st, fr, args):
        e = ent(kind, ('t', 'o', -1))
        return I('seq', ('V', (('M', frozenset([(X(e), frozenset())])),)))

    def it(eng, st, fr, args):
        e = ent(kind, ('t', 'o', -1))
        return I('seq', ('V', (('M', frozenset([(('T', (X(('t', 'o', -1)), X(e))), frozenset())])),)))
    t = {'account': 'account::Account', 'commodity': 'currency::Currency', 'payee': 'payee::Payee'}[kind]
    pre = r"list::List::<dinero::models::%s>::" % t
    return [(pre + 'get$', get), (pre + 'insert$', ins), (pre + 'values$', vals), (pre + 'iter$', it),
            (pre + 'clone$', lambda eng, st, fr, args: st.deep(args[0]))]


LISTS = lst('account') + lst('commodity') + lst('payee') + [
    (r"models::comment::Comment::get_tags$", lambda eng, st, fr, args: V(T('tag', st.deep(args[0]))))]


def enumv(p, suffix, name):
    return ('A', adt_info(p, suffix)['def'], vidx(p, suffix, name), ())


def kindv(p, k):
    return enumv(p, 'models::transaction::PostingType', {'R': 'Real', 'V': 'Virtual', 'B': 'VirtualMustBalance'}[k])


def raw(p, i, s, acc, cur=None, comments=(), payee=NONE, expr=NONE):
    ct = NONE
    if s.cost:
        ct = some(enumv(p, 'models::price::PriceType', {'T': 'Total', 'U': 'PerUnit'}[s.cost]))
    return mk(p, RP, account=acc,
              money_amount=some(sym('a%s' % i)) if s.amt else NONE,
              money_currency=some(cur or sym('c%s' % i)) if s.amt else NONE,
              cost_amount=some(sym('k%s' % i)) if s.cost else NONE,
              cost_currency=some(sym('d%s' % i)) if s.cost else NONE, cost_type=ct,
              balance_amount=some(sym('b%s' % i)) if s.asrt else NONE,
              balance_currency=some(sym('e%s' % i)) if s.asrt else NONE,
              comments=V(*comments), amount_expr=expr, kind=kindv(p, s.kind), payee=payee)


def rawtx(p, n, postings, type_='Real', comments=(), query=NONE, date=None):
    return mk(p, TX, postings=V(*postings), comments=V(*comments), transaction_type=enumv(p, 'models::transaction::TransactionType', type_),
              tags=V(), filter_query=query, date=some(date or sym('date%s' % n)), effective_date=sym('edate%s' % n), description=sym('desc%s' % n),
              code=sym('code%s' % n), payee=sym('tpayee%s' % n), status=sym('status%s' % n), cleared=sym('cleared%s' % n))


def parsed(p, txs, prices=()):
    return mk(p, PL, transactions=V(*txs), prices=V(*prices), comments=V(), tags=V())


LG = 'models::Ledger'
PR = 'models::price::Price'
BALFN = r"Transaction::<dinero::models::transaction::Posting>::balance$"


def eta(v):
    """a struct rebuilt field by field out of the same value is that value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'A' and v[3]:
        fs_ = tuple(eta(x) for x in v[3])
        x = fs_[0]
        if x[0] == 't' and x[1] in ('f', 'vf') and isinstance(x[2], tuple):
            b = x[2]
            if b[0] == 't' and (tuple(proj(b, i) for i in range(len(fs_))) == fs_ or tuple(proj(b, (v[2], i)) for i in range(len(fs_))) == fs_):
                return b
        return v[:3] + (fs_,)
    if v[0] == 'T':
        return ('T', tuple(eta(x) for x in v[1]))
    if v[0] == 'V':
        return ('V', tuple((s[0], eta(s[1])) if s[0] == '1' else s for s in v[1]))
    return v


def seq(v):
    """elements of an exact vector, else None"""
    if v[0] != 'V' or any(s[0] != '1' for s in v[1]):
        return None
    return [s[1] for s in v[1]]


def events(st, name):
    o = st.mem.get(OUT)
    if not o:
        return []
    r = []
    for s in o[1]:
        for e in ([s[1]] if s[0] == '1' else [t[0] for t in s[1]]):
            if e[0] == 'T' and e[1] and e[1][0] == ('s', name):
                r.append(e[1][1:] if s[0] == '1' else None)
    return r


def mapinfo(m):
    """running balances: marks of the earlier calls, and whether everything else is empty"""
    if m[0] != 'H':
        return ('s', 'not a map')
    marks = tuple(x[1] for x in m[2] if x[0][0] == 't' and x[0][1] == 'sym' and str(x[0][2]).startswith('mark'))
    rest = [x[1] for x in m[2] if not (x[0][0] == 't' and x[0][1] == 'sym' and str(x[0][2]).startswith('mark'))]
    rest += [t[0][1][1] if t[0] != 'base' and t[0][0] == 'T' else None for t in m[3]]
    return ('T', (('T', marks), ('b', all(x == bal([]) for x in rest))))


def stub_balance(results=None, may_fail=True):
    """Transaction::balance replaced by its interface: it may fail, and it advances the running balances"""
    def h(eng, st, fr, args):
        t = eta(st.deep(args[0]))
        m = st.deep(args[1])
        r = models.nd(st, 'balance', [0, 1] if may_fail else [0])
        n = len(events(st, 'balance'))
        ev(eng, st, 'balance', t, mapinfo(m), st.deep(args[2]), ('i', r))
        # what a call does to the running balances is visible to the next one
        if args[1][0] == 'R' and m[0] == 'H':
            st.write(args[1][1], args[1][2], ('H', 'map', m[2] + ((sym('mark%d' % n), ('i', n)),), m[3]))
        if r:
            return err(sym('E%d' % n))
        return ok(results[n] if results and n < len(results) else bal([]))
    return (BALFN, h)


def fexpr(eng, st, fr, args):
    node, post = st.deep(args[0]), st.deep(args[1])
    acc = proj(post, fidx(eng.p, PO, 'account'))
    t = T('pred', 'match', node, eta(acc), eta(proj(post, fidx(eng.p, PO, 'amount'))))
    r = st.truth(t)
    ev(eng, st, 'filter', node, eta(post))
    return ok(('b', r))


AUTO = [(r"filter::filter_expression$", fexpr),
        (r"value_expr::build_root_node_from_expression$", lambda eng, st, fr, args: T('node', st.deep(args[0]))),
        (r"value_expr::eval_value_expression$", lambda eng, st, fr, args: T('veval', st.deep(args[0]), eta(proj(st.deep(args[1]), fidx(eng.p, PO, 'account'))))),
        (r"Transaction::<dinero::models::transaction::Posting>::is_balanced$", lambda eng, st, fr, args: ('b', False)),
        (r"Display>::fmt$", lambda eng, st, fr, args: ok(models.UNIT))]


def txid(p, t):
    """which raw transaction a transaction was made of (by its description)"""
    d = get(p, t, TX, 'description')
    return int(d[2][4:]) if d[0] == 't' and d[1] == 'sym' and d[2].startswith('desc') else None


class LCase:
    def __init__(self, ctx, rule, over=(), **kw):
        self.ctx, self.p = ctx, ctx.p
        self.fn = fnd(ctx.p, 'ParsedLedger>::to_ledger', '::to_ledger')
        self.case = Case(ctx, self.fn, rule, fn_over=list(over) + LISTS + AUTO, anyorder=False, **kw)

    def run(self, label, txs, check, prices=(), fs=None, flag=sym('nochecks')):
        def ck(kind, v, st):
            if kind == 'panic':
                return 'ends with a panic: %s' % (v,)
            if kind != 'return' or v[0] != 'A' or v[1] != RES:
                return "ends with %s" % kind
            return check(v[2] == 0, eta(v[3][0]), st)
        return self.case.run(label, [parsed(self.p, txs, prices), flag], fs, ck)


S = Shape
USD, EUR, GBP = ('s', 'USD'), ('s', 'EUR'), ('s', 'GBP')


def simple(p, i, n=1, **kw):
    return rawtx(p, i, [raw(p, '%d%d' % (i, j), S('R', True), ('s', 'A%d' % j), USD) for j in range(n)], **kw)


def autotx(p, n, postings, comments=()):
    return rawtx(p, n, postings, 'Automated', comments, query=some(sym('query%s' % n)))


def order_rules(ctx):
    """transactions are balanced and kept in date order, ties in file order (C05)"""
    p = ctx.p
    for n, auto in ((2, False), (3, False), (2, True), (3, True)) + (((4, False),) if ctx.thorough else ()):
        c = LCase(ctx, 'transactions are processed in date order, ties in file order', [stub_balance(may_fail=False)])
        txs = [simple(p, i) for i in range(n)]
        if auto:
            txs.insert(1, autotx(p, 9, [raw(p, '90', S('R', True), ('s', 'Z'), USD)]))

        def ck(good, v, st):
            if not good:
                return "rejected although every transaction balances"
            evs = events(st, 'balance')
            passes = [evs[:n], evs[n:]] if auto else [evs]
            for q in passes:
                m = ordered(p, st, [txid(p, e[0]) for e in q], n)
                if m:
                    return "balancing order: " + m
            out = seq(get(p, v, LG, 'transactions'))
            if out is None:
                return "transactions of the ledger: %s" % show(get(p, v, LG, 'transactions'))
            m = ordered(p, st, [txid(p, t) for t in out], n)
            if m:
                return "ledger: " + m
        c.run("%d transactions%s" % (n, " and an automated one" if auto else ""), txs, ck)


def ordered(p, st, ids, n):
    if sorted(x for x in ids if x is not None) != list(range(n)) or None in ids:
        return "transactions %s instead of each of %d once" % (ids, n)
    for a, b in zip(ids, ids[1:]):
        o = st.order(sym('date%d' % a), sym('date%d' % b))
        if '>' in o:
            return "transaction %d comes before %d although its date may be later" % (a, b)
        if '=' in o and a > b:
            return "transactions %d and %d of the same date are swapped" % (b, a)
    return None


def balance_rules(ctx):
    """every transaction is balanced, in both passes, on running balances that start empty; failures reject (C02, C04, C06)"""
    p = ctx.p
    for auto in (False, True):
        c = LCase(ctx, 'every transaction is balanced and a failure rejects the journal', [stub_balance()])
        txs = [simple(p, 0, date=sym('date0')), simple(p, 1, date=sym('date1'))]
        if auto:
            txs.append(autotx(p, 9, [raw(p, '90', S('R', True), ('s', 'Z'), USD)]))
        n = 2

        def ck(good, v, st):
            evs = events(st, 'balance')
            if None in evs:
                return "transactions are balanced in an unbounded loop"
            failed = [e for e in evs if e[3] == ('i', 1)]
            if failed and good:
                return "a journal with a transaction that fails to balance is accepted"
            if not failed and not good:
                return "rejected although every transaction balances"
            if good:
                want = 2 * n if auto else n
                if len(evs) != want:
                    return "%d balancing calls instead of %d" % (len(evs), want)
                final = seq(get(p, v, LG, 'transactions'))
                last = {txid(p, e[0]): e[0] for e in evs[-n:]}
                for t in final or []:
                    if get(p, last.get(txid(p, t)), TX, 'postings') != get(p, t, TX, 'postings'):
                        return "the postings of transaction %s change after it was balanced" % txid(p, t)
            for k, e in enumerate(evs):
                if e[2] != sym('nochecks'):
                    return "the switch for balance checks is passed as %s" % show(e[2])
                m = e[1]
                if m[0] != 'T':
                    return "running balances: %s" % show(m)
                marks = list(m[1][0][1])
                want = [('i', j) for j in range(k)] if k < n else [('i', j) for j in range(n, k)]
                if marks != want:
                    return "the running balances of transaction %d do not carry exactly the earlier ones: %s instead of %s" % (k, marks, want)
                if m[1][1] != ('b', True):
                    return "a running balance does not start empty"
        c.run("2 transactions%s" % (" and an automated one" if auto else ""), txs, ck)


def autopost(p, i, how, kind='R', payee=NONE):
    acc = ('s', 'Z%s' % i)
    r = raw(p, i, S(kind, True), acc, {'mul': ('s', ''), 'amt': EUR, 'expr': EUR}[how], payee=payee)
    if how == 'expr':
        r = mk(p, RP, **dict(fields_of(p, RP, r), money_amount=NONE, money_currency=NONE, amount_expr=some(sym('expr%s' % i))))
    return r


def fields_of(p, suffix, v):
    t = adt_info(p, suffix)
    return {n: v[3][i] for i, (n, _) in enumerate(t['variants'][0]['fields'])}


def automated_rules(ctx, which=('postings', 'tags')):
    """C15"""
    p = ctx.p
    cases = []
    for how in ('mul', 'amt', 'expr'):
        for kind in 'RVB':
            cases.append(('one posting by %s, %s' % (how, kind), [2], [[(how, kind, NONE)]], 'RR'))
    cases.append(('two postings', [2], [[('mul', 'R', NONE), ('amt', 'V', NONE)]], 'RR'))
    cases.append(('payee', [1], [[('mul', 'R', some(('s', 'Somebody')))]], 'RR'))
    cases.append(('two automated transactions', [2], [[('mul', 'R', NONE)], [('amt', 'R', NONE)]], 'RR'))
    cases.append(('the same query twice', [1], [[('mul', 'R', NONE)], [('amt', 'R', NONE)]], 'RR', True))
    cases.append(('two transactions', [1, 2], [[('expr', 'R', NONE)]], 'RR'))
    for how in ('mul', 'amt', 'expr'):
        cases.append(('matched postings with cost and assertion, %s' % how, [2], [[(how, 'R', NONE)]], 'RR'))
    cases.append(('virtual postings', [2], [[('mul', 'B', NONE)]], 'VB'))
    cases.append(('real ones for virtual postings', [2], [[('mul', 'R', NONE), ('amt', 'R', NONE)]], 'VB'))
    if ctx.thorough:
        cases.append(('three automated transactions', [2], [[('mul', 'R', NONE)], [('amt', 'V', NONE)], [('expr', 'B', NONE)]], 'RR'))
        cases.append(('two and two', [2, 2], [[('mul', 'R', NONE), ('amt', 'R', NONE)]], 'RB'))
        cases.append(('three postings', [3], [[('mul', 'R', NONE)], [('amt', 'R', NONE)]], 'RVB'))
    for case in cases:
        label, sizes, autos, kinds = case[:4]
        sameq = len(case) > 4
        c = LCase(ctx, 'automated transactions add exactly their postings to each match', [stub_balance(may_fail=False)], max_states=120000)
        txs = []
        for i, k in enumerate(sizes):
            txs.append(rawtx(p, i, [raw(p, '%d%d' % (i, j), S((kinds * 2)[j], True, 'U' if 'cost' in label else None, 'cost' in label), ('s', 'A%d' % j), USD) for j in range(k)]))
        fs = {}
        if len(sizes) == 2:
            fs = cc(sym('date0'), sym('date1'), '<')
        for a, ps in enumerate(autos):
            q = 'query0' if sameq else 'query%d' % a
            txs.insert(a, rawtx(p, 90 + a, [autopost(p, '9%d%d' % (a, j), h, k, pay) for j, (h, k, pay) in enumerate(ps)],
                                'Automated', [sym('comment%d' % a)], query=some(sym(q))))
            for b in range(a):
                if not sameq:
                    fs.update(cc(sym('query%d' % a), sym('query%d' % b), '<>'))

        def ck(good, v, st):
            if not good:
                return "rejected: %s" % show(v)
            out = seq(get(p, v, LG, 'transactions'))
            if out is None or len(out) != len(sizes):
                return "transactions: %s" % show(get(p, v, LG, 'transactions'))
            for t in out:
                i = txid(p, t)
                ps = seq(get(p, t, TX, 'postings'))
                if ps is None:
                    return "postings of transaction %d: %s" % (i, show(get(p, t, TX, 'postings')))
                want = []
                tags = {}
                for j in range(sizes[i]):
                    amt = money(sym('a%d%d' % (i, j)), ent('commodity', USD))
                    want.append((ent('account', ('s', 'A%d' % j)), amt, kindv(p, (kinds * 2)[j]), ent('payee', sym('desc%d' % i))))
                    tags[j] = []
                    for a, aps in enumerate(autos):
                        nd_ = T('node', sym('query0' if sameq else 'query%d' % a))
                        m = st.facts.get(('v', T('pred', 'match', nd_, ent('account', ('s', 'A%d' % j)), some(amt))))
                        if m is None:
                            return "posting %d of transaction %d is not tested against automated transaction %d" % (j, i, a)
                        if not m:
                            continue
                        tags[j].append(T('tag', sym('comment%d' % a)))
                        for k, (h, kd, pay) in enumerate(aps):
                            q = '9%d%d' % (a, k)
                            am = {'mul': money(pmul(sym('a%d%d' % (i, j)), sym('a' + q)), ent('commodity', USD)),
                                  'amt': money(sym('a' + q), ent('commodity', EUR)),
                                  'expr': T('veval', sym('expr' + q), ent('account', ('s', 'A%d' % j)))}[h]
                            want.append((ent('account', ('s', 'Z' + q)), am, kindv(p, kd),
                                         ent('payee', pay[3][0]) if pay != NONE else ent('payee', sym('desc%d' % i))))
                got = []
                for q in ps:
                    pay = get(p, q, PO, 'payee')
                    am = get(p, q, PO, 'amount')
                    got.append((eta(get(p, q, PO, 'account')), eta(am[3][0]) if am[0] == 'A' and am[2] else am, get(p, q, PO, 'kind'), eta(pay[3][0]) if pay[0] == 'A' and pay[2] else pay))
                rest = list(got)
                for w in want:
                    if w in rest:
                        rest.remove(w)
                    else:
                        return "transaction %d lacks the posting %s\n  postings: %s" % (i, show(('T', w)), "; ".join(show(('T', g)) for g in got))
                if rest:
                    return "transaction %d has an extra posting %s" % (i, show(('T', rest[0])))
                for q in ps:
                    gen = eta(get(p, q, PO, 'account')) not in [ent('account', ('s', 'A%d' % j)) for j in range(sizes[i])]
                    for f in ('cost', 'balance'):
                        if get(p, q, PO, f) != NONE and (gen or 'cost' not in label):
                            return "the posting to %s has a %s although none is written" % (show(get(p, q, PO, 'account')), f)
                    if gen and 'tags' in which and seq(get(p, q, PO, 'tags')) != []:
                        return "the generated posting to %s has tags: %s" % (show(get(p, q, PO, 'account')), show(get(p, q, PO, 'tags')))
                if 'tags' in which:
                    for j in range(sizes[i]):
                        q = [x for x in ps if eta(get(p, x, PO, 'account')) == ent('account', ('s', 'A%d' % j))][0]
                        tg = seq(get(p, q, PO, 'tags'))
                        if tg is None or sorted(map(repr, tg)) != sorted(map(repr, tags[j])):
                            return "tags of posting %d: %s instead of %s" % (j, show(get(p, q, PO, 'tags')), [show(x) for x in tags[j]])
        c.run(label, txs, ck, fs=fs)


def price_rules(ctx):
    """C16"""
    p = ctx.p
    PP = 'models::models::ParsedPrice'
    rule = 'prices are recorded once, with date, direction and sign'

    def got(v):
        ps = seq(get(p, v, LG, 'prices'))
        if ps is None:
            return None
        r = []
        for q in ps:
            m = get(p, q, PR, 'price')
            r.append((eta(get(p, q, PR, 'date')), eta(get(p, q, PR, 'commodity')), m))
        return r

    def same(st, g, w):
        if g[0] != w[0] or g[1] != w[1] or g[2][0] != 'A' or g[2][2] != 1:
            return False
        return eta(g[2][3][1]) == w[2] and st.sign(padd(g[2][3][0], pneg(w[3]))) == frozenset('0')

    def compare(st, v, want):
        """want: list of alternatives lists; each expected price is a list of acceptable (date, commodity, currency, amount)"""
        g = got(v)
        if g is None:
            return "prices: %s" % show(get(p, v, LG, 'prices'))
        rest = list(g)
        for alts in want:
            hit = [x for x in rest if any(same(st, x, w) for w in alts)]
            if not hit:
                return "no price %s; recorded: %s" % (" or ".join(show(('T', w)) for w in alts), "; ".join(show(('T', x)) for x in g) or "none")
            rest.remove(hit[0])
        if rest:
            return "an extra price is recorded: %s" % show(('T', rest[0]))

    com = lambda c: ent('commodity', c)
    auto = lambda: autotx(p, 9, [raw(p, '90', S('R', True), ('s', 'Z'), USD)])

    # price directives
    pps = [mk(p, PP, date=sym('pd%d' % i), commodity=('s', 'C%d' % i), other_commodity=('s', 'X%d' % i), other_quantity=sym('pq%d' % i)) for i in range(2)]
    for n in (1, 2):
        for au in (False, True):
            c = LCase(ctx, rule, [stub_balance(may_fail=False)])
            want = [[(sym('pd%d' % i), com(('s', 'C%d' % i)), com(('s', 'X%d' % i)), sym('pq%d' % i))] for i in range(n)]
            c.run("%d price directives%s" % (n, ", automated" if au else ""), [simple(p, 0)] + ([auto()] if au else []), lambda good, v, st: compare(st, v, want) if good else "rejected", prices=pps[:n])
    # two directives of one day or one commodity are two prices
    for l, k in (('same day and commodity', ('date', 'commodity')), ('same day and other commodity', ('date', 'other')), ('same commodities', ('commodity', 'other')), ('same day', ('date',)), ('same quantity', ('quantity', 'commodity', 'other'))):
        i0 = lambda n, i: 0 if n in k else i
        two = [(sym('pd%d' % i0('date', i)), ('s', 'C%d' % i0('commodity', i)), ('s', 'X%d' % i0('other', i)), sym('pq%d' % i0('quantity', i))) for i in range(2)]
        fs = {}
        if 'date' not in k:
            fs = cc(sym('pd0'), sym('pd1'), '<')
        if 'quantity' not in k:
            fs = facts(fs, cc(sym('pq0'), sym('pq1'), '>'))
        c = LCase(ctx, rule, [stub_balance(may_fail=False)])
        c.run("two price directives, %s" % l, [simple(p, 0)], lambda good, v, st: compare(st, v, [[(d, com(a), com(b), q)] for d, a, b, q in two]) if good else "rejected",
              prices=[mk(p, PP, date=d, commodity=a, other_commodity=b, other_quantity=q) for d, a, b, q in two], fs=fs)
    # costs
    def cost(i, s):
        r = raw(p, i, s, ('s', 'A'), USD)
        return mk(p, RP, **dict(fields_of(p, RP, r), cost_currency=some(EUR)))

    def cw(i, s, sgn, d):
        a, k = sym('a' + i), sym('k' + i)
        if s == 'U':
            q = k
        else:
            q = pmul(k, pinv(a if sgn == '+' else pneg(a)))
        return [(sym('date%s' % d), com(USD), com(EUR), q)]
    for s1 in 'TU':
        for sgn in '+-':
            for au in (False, True):
                c = LCase(ctx, rule, [stub_balance(may_fail=False)])
                txs = [rawtx(p, 0, [cost('00', S('R', True, s1)), raw(p, '01', S('R', True), ('s', 'B'), EUR)])] + ([auto()] if au else [])
                c.run("cost %s of a %s amount%s" % (s1, sgn, ", automated" if au else ""), txs,
                      lambda good, v, st: compare(st, v, [cw('00', s1, sgn, 0)]) if good else "rejected", fs=sg(sym('a00'), sgn))
            c = LCase(ctx, rule, [stub_balance(may_fail=False)])
            c.run("cost %s of a %s virtual amount" % (s1, sgn), [rawtx(p, 0, [cost('00', S('V', True, s1))])],
                  lambda good, v, st: compare(st, v, [cw('00', s1, sgn, 0)]) if good else "rejected", fs=sg(sym('a00'), sgn))
    c = LCase(ctx, rule, [stub_balance(may_fail=False)])
    txs = [rawtx(p, 0, [cost('00', S('R', True, 'T')), cost('01', S('R', True, 'U'))]), rawtx(p, 1, [cost('10', S('R', True, 'T'))])]
    for s1 in 'TU':
        for k in 'RV':
            c = LCase(ctx, rule, [stub_balance(may_fail=False)])
            c.run("cost %s of an amount of zero, %s" % (s1, k), [rawtx(p, 0, [cost('00', S(k, True, s1)), raw(p, '01', S('R', True), ('s', 'B'), EUR)])],
                  lambda good, v, st: compare(st, v, [cw('00', 'U', '+', 0)] if s1 == 'U' else []) if good else "rejected", fs=sg(sym('a00'), '0'))
    c = LCase(ctx, rule, [stub_balance(may_fail=False)])
    c.run("three costs in two transactions", txs, lambda good, v, st: compare(st, v, [cw('00', 'T', '+', 0), cw('01', 'U', '+', 0), cw('10', 'T', '-', 1)]) if good else "rejected",
          fs=facts(sg(sym('a00'), '+'), sg(sym('a01'), '+'), sg(sym('a10'), '-')))
    # implied prices
    for sgn in '+-':
        x, y = (A, B)
        ax, ay = (A, pneg(B)) if sgn == '+' else (pneg(A), B)
        alts = [(sym('date0'), C, D, pmul(ay, pinv(ax))), (sym('date0'), D, C, pmul(ax, pinv(ay)))]
        fs = facts(sg(A, sgn), sg(B, '-' if sgn == '+' else '+'), cc(C, D, '<>'))
        for au in (False, True):
            c = LCase(ctx, rule, [stub_balance([bal([one(A, C), one(B, D)]), bal([one(A, C), one(B, D)])], may_fail=False)])
            c.run("implied exchange %s%s" % (sgn, ", automated" if au else ""), [simple(p, 0, 2)] + ([auto()] if au else []),
                  lambda good, v, st: compare(st, v, [alts]) if good else "rejected", fs=fs)
        alts2 = [(sym('date1'),) + w[1:] for w in alts]
        c = LCase(ctx, rule, [stub_balance([bal([]), bal([one(A, C), one(B, D)])], may_fail=False)])
        c.run("implied exchange in the second transaction %s" % sgn, [simple(p, 0, 2), simple(p, 1, 2)],
              lambda good, v, st: compare(st, v, [alts2]) if good else "rejected", fs=facts(fs, cc(sym('date0'), sym('date1'), '<')))
    c = LCase(ctx, rule, [stub_balance([bal([])], may_fail=False)])
    c.run("no residue", [simple(p, 0, 2)], lambda good, v, st: compare(st, v, []) if good else "rejected")
    c = LCase(ctx, rule, [stub_balance([bal([one(A, C), one(B, D), one(R_, sym('f'))])], may_fail=False)])
    c.run("residue of three commodities", [simple(p, 0, 3)], lambda good, v, st: compare(st, v, []) if good else "rejected",
          fs=facts(sg(A, '+'), sg(B, '-'), sg(R_, '-'), cc(C, D, '<>'), cc(C, sym('f'), '<>'), cc(D, sym('f'), '<>')))
    # a residue has no zero entries
    c = Case(ctx, fnd(p, 'Balance as std::ops::Add>::add'), 'a sum of balances has no entry of zero')
    def nz(kind, v, st):
        if kind != 'return' or v[0] != 'A' or v[3][0][0] != 'H':
            return "not a balance"
        for k, m in v[3][0][2]:
            if mzero(m, st) is not False:
                return "entry %s of %s may be zero" % (show(m), show(k))
    c.run('cancelling', [bal([one(A)]), bal([one(pneg(A))])], sg(A, '-+'), nz)
    c.run('not cancelling', [bal([one(A)]), bal([one(B)])], facts(sg(A, '+'), sg(B, '+')), nz)
    c.run('zero amount', [bal([]), bal([(NONE, ZERO)])], {}, nz)
    c.run('zero quantity', [bal([]), bal([one(A)])], sg(A, '0'), nz)


def field_rules(ctx):
    """what is written in a transaction reaches the ledger (C21)"""
    p = ctx.p
    com = lambda c: ent('commodity', c)
    Cd = adt_info(p, 'models::transaction::Cost')['def']
    shapes = [Shape(k, a, cst, b) for k in 'RVB' for a, cst in ((True, None), (True, 'T'), (True, 'U'), (False, None)) for b in (False, True)]
    for s in shapes:
        for pay in (NONE, some(('s', 'Somebody'))):
            if pay != NONE and (s.cost or s.asrt):
                continue
            r = raw(p, '00', s, ('s', 'Acc'), USD, comments=[sym('pc0'), sym('pc1')], payee=pay)
            d = fields_of(p, RP, r)
            if s.cost:
                d['cost_currency'] = some(EUR)
            if s.asrt:
                d['balance_currency'] = some(GBP)
            r = mk(p, RP, **d)
            other = raw(p, '01', S('R', True), ('s', 'Other'), USD)
            c = LCase(ctx, 'a written transaction reaches the ledger with all its parts', [stub_balance(may_fail=False)])

            def ck(good, v, st):
                if not good:
                    return "rejected: %s" % show(v)
                out = seq(get(p, v, LG, 'transactions'))
                if out is None or len(out) != 1:
                    return "transactions: %s" % show(get(p, v, LG, 'transactions'))
                t = out[0]
                for f_, w in (('description', sym('desc0')), ('code', sym('code0')), ('date', some(sym('date0'))), ('effective_date', sym('edate0')),
                              ('comments', V(sym('tc0'), sym('tc1'))), ('tags', V(T('tag', sym('tc0')), T('tag', sym('tc1'))))):
                    if eta(get(p, t, TX, f_)) != w:
                        return "%s of the transaction: %s instead of %s" % (f_, show(get(p, t, TX, f_)), show(w))
                ps = seq(get(p, t, TX, 'postings'))
                if ps is None or len(ps) != 2:
                    return "postings: %s" % show(get(p, t, TX, 'postings'))
                q = ps[0]
                W = dict(account=ent('account', ('s', 'Acc')), kind=kindv(p, s.kind),
                         amount=some(money(sym('a00'), com(USD))) if s.amt else NONE,
                         balance=some(money(sym('b00'), com(GBP))) if s.asrt else NONE,
                         cost=some(('A', Cd, vidx(p, 'models::transaction::Cost', {'T': 'Total', 'U': 'PerUnit'}[s.cost]), (money(sym('k00'), com(EUR)),))) if s.cost else NONE,
                         payee=some(ent('payee', pay[3][0] if pay != NONE else sym('desc0'))),
                         tags=V(*[T('tag', sym(x)) for x in ('tc0', 'tc1', 'pc0', 'pc1')]))
                for f_, w in W.items():
                    g = eta(get(p, q, PO, f_))
                    if g != w:
                        return "%s of the posting: %s instead of %s" % (f_, show(g), show(w))
                if eta(get(p, ps[1], PO, 'account')) != ent('account', ('s', 'Other')):
                    return "the second posting has account %s" % show(get(p, ps[1], PO, 'account'))
            c.run("%r%s" % (s, " with payee" if pay != NONE else ""), [rawtx(p, 0, [r, other], comments=[sym('tc0'), sym('tc1')])], ck)
