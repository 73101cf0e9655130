"""Conversion of amounts (C17)."""
from report import *

PR = 'models::price::Price'


def price(p, date, com, q, other):
    return mk(p, PR, date=('i', date), commodity=commodity(p, com), price=money(q, commodity(p, other)))


def usable(prices, today):
    """latest price of each pair not after today"""
    best = {}
    for i, (d, a, b) in enumerate(prices):
        if d > today:
            continue
        k = frozenset((a, b))
        if k not in best or prices[best[k]][0] < d:
            best[k] = i
    return sorted(best.values())


def chains(prices, use, frm, to, zero=()):
    """factors of the simple chains of prices from one commodity to another; nothing can be valued in a commodity whose price is zero"""
    out = []

    def go(c, seen, f):
        if c == to:
            out.append(f)
            return
        for i in use:
            d, a, b = prices[i]
            q = sym('p%d' % i)
            if a == c and b not in seen:
                go(b, seen | {b}, pmul(f, poly(q)))
            elif b == c and a not in seen and i not in zero:
                go(a, seen | {a}, pmul(f, pinv(poly(q))))
    go(frm, {frm}, PONE)
    return out


CASES = [
    ('direct', 'E', [(1, 'U', 'E')]),
    ('reverse', 'E', [(1, 'E', 'U')]),
    ('no chain', 'E', [(1, 'U', 'G')]),
    ('later price', 'E', [(9, 'U', 'E')]),
    ('price of the day', 'E', [(5, 'U', 'E')]),
    ('older first', 'E', [(1, 'U', 'E'), (3, 'U', 'E')]),
    ('newer first', 'E', [(3, 'U', 'E'), (1, 'U', 'E')]),
    ('newest is later', 'E', [(1, 'U', 'E'), (9, 'U', 'E')]),
    ('newer in the other direction', 'E', [(1, 'U', 'E'), (3, 'E', 'U')]),
    ('older in the other direction', 'E', [(3, 'U', 'E'), (1, 'E', 'U')]),
    ('chain forward', 'E', [(1, 'X', 'U'), (2, 'U', 'E')]),
    ('chain mixed', 'E', [(2, 'U', 'X'), (1, 'U', 'E')]),
    ('chain mixed 2', 'E', [(1, 'X', 'U'), (2, 'E', 'U')]),
    ('chain reverse', 'E', [(1, 'U', 'X'), (2, 'E', 'U')]),
    ('chain with update', 'E', [(1, 'X', 'U'), (2, 'U', 'E'), (3, 'X', 'U')]),
    ('chain with the far price newer', 'E', [(4, 'X', 'U'), (2, 'U', 'E')]),
    ('two pairs', 'E', [(1, 'U', 'E'), (2, 'G', 'E')]),
    ('unrelated pair', 'E', [(1, 'U', 'E'), (2, 'G', 'H')]),
    ('no prices', 'E', []),
]
# prices of zero
ZEROS = [
    ('direct, zero', 'E', [(1, 'U', 'E')], (0,)),
    ('reverse, zero', 'E', [(1, 'E', 'U')], (0,)),
    ('price of the day, zero', 'E', [(5, 'U', 'E')], (0,)),
    ('becomes zero', 'E', [(1, 'U', 'E'), (3, 'U', 'E')], (1,)),
    ('was zero', 'E', [(1, 'U', 'E'), (3, 'U', 'E')], (0,)),
    ('was zero, reverse', 'E', [(1, 'E', 'U'), (3, 'E', 'U')], (0,)),
    ('chain, first zero', 'E', [(1, 'X', 'U'), (2, 'U', 'E')], (0,)),
    ('chain, second zero', 'E', [(1, 'X', 'U'), (2, 'U', 'E')], (1,)),
    ('chain, reverse zero', 'E', [(1, 'U', 'X'), (2, 'U', 'E')], (0,)),
    ('chain, second reverse zero', 'E', [(1, 'X', 'U'), (2, 'E', 'U')], (1,)),
    ('two pairs, one zero', 'E', [(1, 'E', 'U'), (2, 'G', 'E')], (0,)),
]
DEEP = [
    ('triangle', 'E', [(1, 'U', 'E'), (2, 'X', 'U'), (3, 'X', 'E')]),
    ('long chain', 'E', [(3, 'Y', 'X'), (2, 'X', 'U'), (1, 'E', 'U')]),
    ('four prices', 'E', [(1, 'X', 'U'), (2, 'U', 'E'), (3, 'X', 'U'), (4, 'U', 'E')]),
    ('long chain, rising', 'E', [(1, 'Y', 'X'), (2, 'X', 'U'), (3, 'U', 'E')]),
]


def date_sub(eng, st, fr, call):
    a, b = st.deep(call.args[0]), st.deep(call.args[1])
    if a[0] == 'i' and b[0] == 'i':
        return ('i', a[1] - b[1])
    return NotImplemented


def dur_add(eng, st, fr, call):
    a, b = st.deep(call.args[0]), st.deep(call.args[1])
    if a[0] == 'i' and b[0] == 'i':
        return ('i', a[1] + b[1])
    return NotImplemented


def conversion_rules(ctx, anyorder=False, names_=None):
    p = ctx.p
    nm = names_ or {}
    fn = fnd(p, 'models::price::conversion')
    today = 5
    for label, target, prices, *zero in CASES + (ZEROS if not nm else []) + (DEEP if ctx.thorough else DEEP[:1]):
        zero = zero[0] if zero else ()
        if anyorder and (len(prices) > 2):
            continue
        if nm:
            label += ' (%s)' % nm['U']
            target, prices = nm[target], [(d, nm[a], nm[b]) for d, a, b in prices]
        ps = V(*[price(p, d, a, sym('p%d' % i), b) for i, (d, a, b) in enumerate(prices)])
        fs = {}
        for i in range(len(prices)):
            fs.update(sg(sym('p%d' % i), '0' if i in zero else '+'))
        use = usable(prices, today)
        names = sorted({x for _, a, b in prices for x in (a, b)} | {target})

        def ck(kind, v, st):
            if kind != 'return' or v[0] != 'H' or v[3]:
                return "ends with %s" % (show_(v) if kind == 'return' else kind)
            got = {}
            for k, m in v[2]:
                n = acc_name(k)
                if n in got:
                    return "two factors for %s" % n
                got[n] = m
            for n in names:
                cs = chains(prices, use, n, target, zero)
                if n == target:
                    if n in got and st.sign(padd(poly(got[n]), pneg(PONE))) != frozenset('0'):
                        return "%s is converted to itself with the factor %s" % (n, show_(got[n]))
                    continue
                if not cs:
                    if n in got:
                        return "%s has the factor %s although no chain of known prices leads to %s" % (n, show_(got[n]), target)
                    continue
                if n not in got:
                    return "%s is not converted although a chain of known prices leads to %s" % (n, target)
                if not any(st.sign(padd(poly(got[n]), pneg(c))) == frozenset('0') for c in cs):
                    return "%s has the factor %s, expected %s" % (n, show_(got[n]), " or ".join(map(show_, cs)))
            for n in got:
                if n not in names:
                    return "a factor for %s" % n
        c = Case(ctx, fn, 'conversion factors are products of the latest known prices', anyorder=anyorder, intmax=5000, overrides=DATES, max_states=120000)
        c.run(label, [commodity(p, target), ('i', today), X(ps)], fs, ck)


DATES = [
    (lambda call: call.key.endswith('ops::Sub::sub'), date_sub),
    (lambda call: call.key.endswith('ops::Add::add'), dur_add),
]


def mults(p, d):
    return ('H', 'map', tuple((commodity(p, k), v) for k, v in sorted(d.items())), frozenset())


def converted(own, m, target):
    """balance with every amount whose commodity has a factor converted"""
    out = {}
    for k, q in own.items():
        if k in m:
            addto(out, target, pmul(poly(q), poly(m[k])))
        else:
            addto(out, k, q)
    return out


def convert_kernel(ctx):
    p = ctx.p
    fn = fnd(p, 'commands::balance::convert_balance')
    if fn is None:
        # inlined or renamed: the report below decides the same
        return
    BALT = adt_info(p, 'models::balance::Balance')['def']
    for coms in ([], ['U'], ['E'], ['U', 'E'], ['U', 'G'], ['U', 'G', 'E']):
        for have in ([], ['U'], ['U', 'E'], ['U', 'G']):
            m = {k: (PONE if k == 'E' else sym('m' + k)) for k in have}
            own = {k: sym('q' + k) for k in coms}
            fs = {}
            for k in have:
                if k != 'E':
                    fs.update(sg(m[k], '+'))
            for k in coms:
                fs.update(sg(own[k], '-+'))
            b = ('A', BALT, 0, (('H', 'map', tuple((some(commodity(p, k)), money(own[k], commodity(p, k))) for k in sorted(coms)), frozenset()),))

            def ck(kind, v, st):
                if kind != 'return' or v[0] != 'A' or v[3][0][0] != 'H' or v[3][0][3]:
                    return "ends with %s" % (show_(v) if kind == 'return' else kind)
                return match_amounts(st, [x for _, x in v[3][0][2]], converted(own, m, 'E'))
            c = Case(ctx, fn, 'amounts with a factor are converted, others are kept', anyorder=False)
            c.run('%s with factors for %s' % (coms, have), [X(b), X(mults(p, m)), X(commodity(p, 'E'))], fs, ck)


def exchange_rules(ctx):
    """balance -X"""
    p = ctx.p
    fn = fnd(p, 'commands::balance::execute')
    today = sym('today')
    cases = [('one account', [('A', 'U')]), ('two commodities', [('A:B', 'U'), ('A:C', 'E')]), ('same account', [('A', 'U'), ('A', 'E')]),
             ('unconverted', [('A', 'U'), ('B', 'G')]), ('accounts', [('A', 'U'), ('B', 'U')])]
    for label, posts in cases:
        for have in (['U'], []):
            for known in (True, False):
                for flat in (True, False):
                    m = {k: sym('m' + k) for k in have}
                    fs = {}
                    for k in have:
                        fs.update(sg(m[k], '+'))
                    txs = [tx_(p, 0, [posting_(p, str(i), 'R', acc, com) for i, (acc, com) in enumerate(posts)])]
                    prices = (T('sym', 'price0'), T('sym', 'price1'))
                    led = ledger_(p, txs, prices)
                    o = opts(p, exchange=some(('s', 'e')))

                    def conv(eng, st, fr, a, m=m):
                        ev(eng, st, 'conversion', st.deep(a[0]), st.deep(a[1]), st.deep(a[2]))
                        return mults(p, m)

                    def get(eng, st, fr, a, known=known):
                        n = st.deep(a[1])
                        ev(eng, st, 'get', n)
                        if n == ('s', 'e') and known:
                            return ok(X(commodity(p, 'E')))
                        return err(T('sym', 'unknown'))

                    def ck(kind, v, st):
                        if kind == 'panic':
                            return 'ends with a panic: %s' % (v,)
                        if kind != 'return' or v[0] != 'A' or v[2] != 0:
                            return "ends with %s" % (show_(v) if kind == 'return' else kind)
                        ls = lines(st)
                        if ls is None:
                            return "the printed lines are not determined"
                        got, total = rows(ls)
                        if got is None:
                            return "the rows cannot be read: %s" % " | ".join(map(showline, ls))
                        own = expected_balance(st, p, posts, False)
                        f = (lambda d: converted(d, m, 'E')) if known else (lambda d: d)
                        want = tree_totals(own) if not flat else own
                        # accounts whose balance is zero before the conversion have no row either way
                        want = {a: f(d) for a, d in want.items()}
                        r = check_rows(st, got, want, flat, None)
                        if r:
                            return r + "\n  printed: " + " | ".join(map(showline, ls))[:600]
                        if total is not None:
                            t = {}
                            for d in own.values():
                                for k, q in d.items():
                                    addto(t, k, q)
                            r = match_amounts(st, total, f(t))
                            if r:
                                return "total: %s" % r
                        for x in events(st, 'conversion'):
                            if acc_name(x[0]) != 'E':
                                return "converts to another commodity: %s" % show_(x[0])
                            if x[2] != V(*prices):
                                return "converts with other prices than those of the ledger: %s" % show_(x[2])
                    over = [(r"models::price::conversion$", conv), (r"list::List::<dinero::models::currency::Currency>::get$", get)] + cmd_over(led, sel=False)
                    c = Case(ctx, fn, 'a converted report converts each amount with its factor', overrides=OV, anyorder=False, intmax=5000, fn_over=over)
                    c.run('%s, factors for %s, %s, %s' % (label, have, 'known' if known else 'unknown commodity', 'flat' if flat else 'tree'), [X(o), ('b', flat), ('b', True)], fs, ck)


def conversion_names(ctx):
    """the same for commodities with other names"""
    conversion_rules(ctx, names_=dict(U='$', E='eur', X='A b', G='€', H='X', Y='y'))
    conversion_rules(ctx, names_=dict(U='u', E='$', X='%', G='zz', H='AA', Y='0'))


def conversion_any(ctx):
    conversion_rules(ctx, True)
