"""Output is a function of the input (C08): hash collections are visited in every order, and all orders must print the same."""
import itertools
from report import *
from convert import CASES, DEEP, price, DATES
import convert, rules, txn, ledger
from listing import listing_cmds, text as printed
from includes import canon_

NOISE = ('once', 'pick', 'ent')


def clean(fs):
    return {k: v for k, v in fs.items() if not (isinstance(k, tuple) and k and k[0] in NOISE)}


def compatible(a, b):
    """a state in which the facts of both outcomes hold, or None"""
    fa, fb = clean(a.facts), clean(b.facts)
    m = dict(fa)
    for k, v in fb.items():
        if k in m and m[k] != v:
            if isinstance(v, frozenset) and isinstance(m[k], frozenset):
                v = v & m[k]
                if not v:
                    return None
            else:
                return None
        m[k] = v
    s = a.copy()
    s.facts.clear()
    s.facts.update(m)
    return s if s.feasible() else None


def obs_print(p):
    """what the user sees: the printed lines and how the command ends"""
    def o(kind, v, st):
        ls = lines(st)
        end = ('panic',) if kind == 'panic' else ('error',) if kind == 'return' and v[0] == 'A' and v[1] == RES and v[2] == 1 else (kind,)
        return None if ls is None else (end, tuple(tuple(l) for l in ls) if end[0] == 'return' else ())
    return o


def obs_value(p, pick=lambda v: v):
    def o(kind, v, st):
        if kind != 'return':
            return (kind,)
        if v[0] == 'A' and v[1] == RES:
            return ('error',) if v[2] == 1 else ('ok', canon_(p, eta(pick(v[3][0]))))
        return ('value', canon_(p, eta(pick(v))))
    return o


def showobs(o):
    def s(x):
        return showline(list(x)) if isinstance(x, tuple) and all(isinstance(w, (str, tuple)) for w in x) else show_(x)
    if len(o) == 2 and isinstance(o[1], tuple) and o[0] in (('return',), ('panic',), ('error',)):
        return "%s: %s" % (o[0][0], " | ".join(s(l) for l in o[1]))
    return "%s %s" % (o[0], show_(o[1]) if len(o) > 1 else '')


def same(ctx, rule, label, fn, args, fs, obs, seeds=0, **kw):
    """every order (of up to three entries), and some orders of all entries"""
    key = "%s: %s" % (rule, label)
    if fn is None:
        ctx.undecided(key, "function not found")
        return
    try:
        seen, n = [], 0
        for run in (['any'] if seeds >= 0 else []) + list(range(abs(seeds))):
            r = Run(ctx.p, anyorder=run == 'any', hseed=None if run == 'any' else run, intmax=5000, **kw)
            out = r.go(fn, args, dict(fs))
            n += len(out)
            ctx.count("paths", len(out))
            ctx.count("abstract states", r.eng.nstates)
            tr = r.trouble()
            if tr or not out:
                ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
                return
            for kind, info, st in out:
                v = st.deep(info) if kind == 'return' else info
                o = obs(kind, v, st)
                if o is None:
                    ctx.undecided(key, "the printed lines are not determined")
                    return
                dup = False
                for o2, st2 in seen:
                    if o2 == o and clean(st2.facts) == clean(st.facts):
                        dup = True
                        break
                    if o2 != o and compatible(st, st2):
                        ctx.bad(key, where(fn), "the result depends on the order in which a hash collection is visited\n  one order:     %s\n  another order: %s\n  facts: %s" % (
                            showobs(o2)[:700], showobs(o)[:700], "; ".join(showfacts(st))[:500]))
                        return
                if not dup:
                    seen.append((o, st))
    except Exception as e:
        if ctx.pid == 'X':
            raise
        ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
        return
    ctx.ok(rule, "%s [%s]" % (where(fn), label))
    ctx.count("outcomes compared", n)


C3 = {'U': 'USD', 'E': 'EUR', 'G': 'GBP'}


def report_orders(ctx):
    p = ctx.p
    rule = 'reports do not depend on the order of hash collections'
    bal_ = fnd(p, 'commands::balance::execute')
    cases = [('one account, three commodities', ['A U', 'A E', 'A G']), ('siblings', ['A:B U', 'A:C U']), ('siblings, two commodities', ['A:B U', 'A:C E']), ('parent and child', ['A U', 'A:B E']),
             ('separate accounts', ['A U', 'B E', 'C G']), ('separate accounts, reverse', ['C U', 'B E', 'A G']), ('two trees', ['A:B U', 'D:E E']), ('deep', ['A:B:C U', 'A:B:D E']),
             ('case', ['a U', 'A E', 'B G']), ('one account twice', ['A U', 'A E', 'A U'])]
    for label, posts in cases:
        ps = [x.split() for x in posts]
        led = ledger_(p, [tx_(p, 0, [posting_(p, str(i), 'R', a, C3[c]) for i, (a, c) in enumerate(ps)])])
        fs = facts(*[sg(sym('a%d' % i), '+') for i in range(len(ps))])
        for flat in (True, False):
            for depth in (None, 1):
                o = opts(p, depth=NONE if depth is None else some(('i', depth)))
                same(ctx, rule, 'balance of %s, %s, depth %s' % (label, 'flat' if flat else 'tree', depth), bal_, [X(o), ('b', flat), TRUE], fs, obs_print(p), overrides=OV, fn_over=cmd_over(led, sel=None))
    big = [('many accounts', ['A U', 'B E', 'C G', 'D U', 'E E', 'F G']), ('a tree', ['A:B:C U', 'A:B:D E', 'A:E G', 'F:G U', 'F:H:I E', 'A U']), ('cousins', ['A:X U', 'B:X U', 'C:X:Y E', 'D:X:Y G', 'D:Z U'])]
    for label, posts in big:
        ps = [x.split() for x in posts]
        led = ledger_(p, [tx_(p, 0, [posting_(p, str(i), 'R', a, C3[c]) for i, (a, c) in enumerate(ps)])])
        fs = facts(*[sg(sym('a%d' % i), '+') for i in range(len(ps))])
        for flat in (True, False):
            for depth in (None, 1, 2):
                o = opts(p, depth=NONE if depth is None else some(('i', depth)))
                same(ctx, rule, 'balance of %s, %s, depth %s' % (label, 'flat' if flat else 'tree', depth), bal_, [X(o), ('b', flat), TRUE], fs, obs_print(p), seeds=-20 if ctx.thorough else -4,
                     overrides=OV, fn_over=cmd_over(led, sel=None))
    reg = fnd(p, 'commands::register::execute')
    for label, posts in cases:
        ps = [x.split() for x in posts]
        led = ledger_(p, [tx_(p, 0, [posting_(p, str(i), 'R', a, C3[c]) for i, (a, c) in enumerate(ps)])])
        fs = facts(*[sg(sym('a%d' % i), '+') for i in range(len(ps))])
        same(ctx, rule, 'register of %s' % label, reg, [X(opts(p))], fs, obs_print(p), overrides=OV, fn_over=cmd_over(led, sel=None))


def exchange_orders(ctx):
    p = ctx.p
    rule = 'converted reports do not depend on the order of hash collections'
    fn = fnd(p, 'commands::balance::execute')
    for label, posts in (('three commodities', ['A U', 'A E', 'A G']), ('accounts', ['A U', 'B G']), ('tree', ['A:B U', 'A:C E']), ('one', ['A G', 'A:B U'])):
        ps = [x.split() for x in posts]
        led = ledger_(p, [tx_(p, 0, [posting_(p, str(i), 'R', a, C3[c]) for i, (a, c) in enumerate(ps)])], (sym('price0'),))
        for have in (['USD'], ['USD', 'GBP'], []):
            m = {k: sym('m' + k) for k in have}
            fs = facts(*([sg(sym('a%d' % i), '+') for i in range(len(ps))] + [sg(x, '+') for x in m.values()]))
            for flat in (True, False):
                over = [(r"price::conversion$", lambda e, st, fr, a: convert.mults(p, m)),
                        (r"List::<.*Currency>::get$", lambda e, st, fr, a: ok(X(commodity(p, 'EUR'))))] + cmd_over(led, sel=None)
                em = {'chrono::Utc::now': lambda e, s, f, c: sym('now'), 'chrono::DateTime::naive_utc': lambda e, s, f, c: sym('now'), 'chrono::NaiveDateTime::date': lambda e, s, f, c: sym('today')}
                same(ctx, rule, '%s, factors for %s, %s' % (label, have, 'flat' if flat else 'tree'), fn, [X(opts(p, exchange=some(('s', 'EUR')))), ('b', flat), TRUE], fs, obs_print(p), overrides=OV,
                     fn_over=over, extra_models=em)


def conversion_orders(ctx):
    p = ctx.p
    rule = 'conversion factors do not depend on the order of hash collections'
    fn = fnd(p, 'models::price::conversion')
    more = [('two chains of one length', 'E', [(1, 'X', 'U'), (1, 'U', 'E'), (1, 'X', 'G'), (1, 'G', 'E')]), ('two chains, two days', 'E', [(1, 'X', 'U'), (2, 'U', 'E'), (2, 'X', 'G'), (1, 'G', 'E')]),
            ('both directions on one day', 'E', [(1, 'U', 'E'), (1, 'E', 'U')])]
    for label, target, prices in CASES + DEEP[:1] + more:
        ps = V(*[price(p, d, a, sym('p%d' % i), b) for i, (d, a, b) in enumerate(prices)])
        fs = facts(*[sg(sym('p%d' % i), '+') for i in range(len(prices))])
        same(ctx, rule, label, fn, [commodity(p, target), ('i', 5), X(ps)], fs, obs_value(p), seeds=(8 if len(prices) < 3 else -8) * (5 if ctx.thorough else 1), overrides=DATES, max_states=120000)


def ledger_orders(ctx):
    """to_ledger with the real balancing"""
    p = ctx.p
    rule = 'the ledger does not depend on the order of hash collections'
    fn = fnd(p, 'ParsedLedger>::to_ledger', '::to_ledger')
    S = Shape
    over = ledger.LISTS + AUTO
    for label, shape in (('exchange', [('R', True, 'U', '+'), ('R', True, 'E', '-')]), ('exchange, other way', [('R', True, 'E', '-'), ('R', True, 'U', '+')]),
                         ('elided, two commodities', [('R', True, 'U', '+'), ('R', True, 'E', '+'), ('R', False, None, None)]), ('elided first', [('R', False, None, None), ('R', True, 'U', '+'), ('R', True, 'E', '-')]),
                         ('elided, three commodities', [('R', True, 'U', '+'), ('R', True, 'E', '-'), ('R', True, 'G', '+'), ('R', False, None, None)]),
                         ('virtual', [('R', True, 'U', '+'), ('R', False, None, None), ('V', True, 'E', '+')])):
        ps, fs = [], {}
        for i, (k, amt, com, s) in enumerate(shape):
            ps.append(raw(p, str(i), S(k, amt), ('s', 'Acc%d' % i), ('s', C3[com]) if com else None))
            if s:
                fs.update(sg(sym('a%d' % i), s))
        # entities are made of their names, so that they can be ordered
        lists_ = [(r"list::List::<dinero::models::currency::Currency>::get$", lambda e, st, fr, a: ok(X(commodity(p, st.deep(a[1])[1])))),
                  (r"list::List::<dinero::models::account::Account>::get$", lambda e, st, fr, a: ok(X(account(p, st.deep(a[1])[1])))),
                  (r"list::List::<dinero::models::account::Account>::values$", lambda e, st, fr, a: I('seq', V(*[X(account(p, 'Acc%d' % i)) for i in range(len(shape))])))]
        same(ctx, rule, label, fn, [parsed(p, [rawtx(p, 0, ps)]), FALSE], fs, obs_value(p, lambda v: ('T', (get(p, v, LG, 'transactions'), get(p, v, LG, 'prices')))), fn_over=lists_ + over, max_states=60000)


SOURCES = re.compile(r"(^|[:<&])(rand::|rand_core::|fastrand::|getrandom::|std::time::(SystemTime|Instant)::now|std::thread::spawn|std::process::id|std::thread::current|chrono::(Utc|Local)::(now|today)"
                     r"|chrono::offset::(Utc|Local)::(now|today)|std::hash::RandomState::|std::collections::hash_map::RandomState::(new|build)|std::hash::(BuildHasher|Hasher)::(hash_one|finish)|std::ptr::addr|std::rc::Rc::(as_ptr|ptr)|std::fmt::Pointer)")


def source_rules(ctx):
    """nothing but the files, the options and the current date decides the output"""
    p = ctx.p
    rule = 'no source of chance is consulted'
    n = 0
    for f in p.fns.values():
        if not f.local or not f.blocks or '::tests' in f.name or '/.cargo/' in f.span or f.name.endswith('::tests'):
            continue
        for b, t, ns in rules.calls(f):
            n += 1
            for x in ns:
                if SOURCES.search(x) and not DATE.search(x):
                    ctx.bad("%s: %s calls %s" % (rule, f.name, x), where(f, t['span']), "%s decides what is printed or in which order" % x)
        for b, blk in enumerate(f.blocks):
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                    ctx.bad("%s: %s uses an address as a number" % (rule, f.name), where(f), "an address is turned into a number")
    ctx.ok(rule, "%d call sites" % n)
    ctx.count("call sites", n)


# the date of the report is part of the input
DATE = re.compile(r"(Utc|Local)::(now|today)$")
