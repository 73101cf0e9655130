"""Equality, hashing and ordering (C13)."""
from report import *

TYPES = ['models::account::Account', 'models::currency::Currency', 'models::payee::Payee', 'models::price::Node']


def trait_fn(p, ty, trait, meth):
    for f in p.fns.values():
        if f.local and f.blocks and f.name.split('::<usize>')[0].endswith('%s as std::%s>::%s' % (ty, trait, meth)):
            return f
    return None


def value(p, ty, i):
    if ty.endswith('Node'):
        return mk(p, ty, currency=value(p, 'models::currency::Currency', i), date=sym('date%s' % i))
    return mk(p, ty, name=sym('n%s' % i), _rest=lambda n: T('sym', '%s%s' % (n, i)))


def lower(x):
    return T('app', 'str::to_lowercase', x)


def hashed(ctx, ty, v, facts_):
    """the sequence of values a hash depends on, or None"""
    p = ctx.p
    fn = trait_fn(p, ty, 'hash::Hash', 'hash')
    if fn is None:
        return None

    def h(eng, st, fr, call):
        ev(eng, st, 'hash', st.deep(call.args[0]))
        return models.UNIT
    r = Run(p, overrides=[(lambda c: c.key.startswith('std::hash::') or c.key.startswith('core::hash::'), h)], anyorder=False)
    out = r.go(fn, [X(v), X(T('sym', 'state'))], dict(facts_))
    if r.trouble() or len(out) != 1 or out[0][0] != 'return':
        return None
    res = []
    for x in events(out[0][2], 'hash'):
        if x is None:
            return None
        y = x[0]
        t = next((t for t in TYPES if y[0] == 'A' and adt_info(p, t) and y[1] == adt_info(p, t)['def']), None)
        if t:
            s = hashed(ctx, t, y, facts_)
            if s is None:
                return None
            res += s
        else:
            res.append(y)
    return res


def cong(st, a, b):
    """equal in every concrete state the facts allow"""
    if a == b:
        return True
    try:
        if st.order(a, b) == frozenset('='):
            return True
    except Exception:
        pass
    if a[0] == b[0] == 't' and a[1] == b[1] and a[1] not in ('sym',) and len(a) == len(b):
        return all(x == y or isinstance(x, tuple) and isinstance(y, tuple) and cong(st, x, y) for x, y in zip(a[2:], b[2:]))
    return False


def name_facts(ty, rel):
    f = {}
    a, b = sym('na'), sym('nb')
    if rel == 'same':
        f.update(cc(a, b, '='))
    elif rel == 'case':
        f.update(cc(a, b, '<>'))
    else:
        f.update(cc(a, b, '<>'))
        f.update(cc(lower(a), lower(b), '<>'))
    return f


def entity_rules(ctx):
    p = ctx.p
    for ty in TYPES:
        short = ty.split('::')[-1]
        eq = trait_fn(p, ty, 'cmp::PartialEq', 'eq')
        if eq is None:
            ctx.undecided('equality of ' + short, 'no implementation found')
            continue
        va, vb = value(p, ty, 'a'), value(p, ty, 'b')
        node = ty.endswith('Node')
        c = Case(ctx, eq, 'distinct entities differ, an entity equals itself', anyorder=False)
        for rel in ('same', 'other'):
            fs = name_facts(ty, rel)
            if node:
                fs.update(cc(sym('datea'), sym('dateb'), '='))
            c.run('%s, %s name' % (short, rel), [X(va), X(vb)], fs, tr(rel == 'same'))
        c.run('%s and its copy' % short, [X(va), X(va)], {}, tr(True))

        # equal values hash equally
        r = Run(p, anyorder=False)
        out = r.go(eq, [X(va), X(vb)], {})
        if r.trouble():
            ctx.undecided('equal values hash equally: ' + short, "; ".join(r.trouble()))
            continue
        eqpaths = []
        for kind, v, st in out:
            if kind != 'return':
                continue
            todo = [dict(st.facts)]
            while todo:
                f_ = todo.pop()
                s2 = st.copy() if hasattr(st, 'copy') else st
                s2.facts = dict(f_)
                try:
                    if s2.truth(st.deep(v)):
                        eqpaths.append((f_, s2))
                except Fork as fk:
                    for a_ in fk.args[0]:
                        g = dict(f_)
                        g.update(a_)
                        todo.append(g)
        good = bool(eqpaths)
        if not trait_fn(p, ty, 'hash::Hash', 'hash'):
            continue
        for f_, s2 in eqpaths:
            ha, hb = hashed(ctx, ty, va, f_), hashed(ctx, ty, vb, f_)
            if ha is None or hb is None:
                ctx.undecided('equal values hash equally: ' + short, 'hash not analysed')
                good = False
                break
            if len(ha) != len(hb) or not all(cong(s2, x, y) for x, y in zip(ha, hb)):
                ctx.bad('equal values hash equally: ' + short, where(trait_fn(p, ty, 'hash::Hash', 'hash')),
                        "two equal values hash %s and %s\n  equal because: %s" % (list(map(show_, ha)), list(map(show_, hb)), "; ".join(showfacts(s2))))
                good = False
                break
        if good:
            ctx.ok('equal values hash equally', '%s: %d ways of being equal' % (short, len(eqpaths)))


def ordv(v):
    """Ordering value -> -1/0/1"""
    return v[2] - 1 if v[0] == 'A' else None


def decide(st, v):
    """-1 / 0 / 1 of an Ordering, None when open"""
    if v[0] == 'A' and not v[3]:
        return v[2] - 1
    if v[0] == 't' and v[1] == 'cmp':
        s = st.order(v[2], v[3])
        if len(s) == 1:
            return {'<': -1, '=': 0, '>': 1}[next(iter(s))]
    return None


def run1(p, fn, args, fs, partial):
    """set of possible results: -1 0 1 'none' 'panic' or '?'"""
    r = Run(p, anyorder=False)
    out = r.go(fn, args, dict(fs))
    if r.trouble():
        return None
    res = set()
    for kind, v, st in out:
        if kind != 'return':
            res.add('panic')
            continue
        v = st.deep(v)
        if partial:
            if v[0] == 'A' and v[1] == OPT and v[2] == 0:
                res.add('none')
                continue
            if v[0] == 'A' and v[1] == OPT:
                v = v[3][0]
            elif v[0] == 't' and v[1] == 'cmp':
                pass
            else:
                res.add('?')
                continue
        d = decide(st, v)
        res.add('?' if d is None else d)
    return res


def order_cases(p, ty):
    """(label, a, b, facts, expected set for (a,b)) ; expected None: only consistency is asked for"""
    if ty.endswith('Money'):
        a, b = sym('qa'), sym('qb')
        ca, cb = value(p, 'models::currency::Currency', 'a'), value(p, 'models::currency::Currency', 'b')
        same = cc(sym('na'), sym('nb'), '=')
        other = dict(cc(sym('na'), sym('nb'), '<>'))
        d = padd(a, pneg(b))
        for r in '<=>':
            fs = dict(same)
            fs.update(cc(a, b, r))
            fs.update(sg(d, {'<': '-', '=': '0', '>': '+'}[r]))
            yield 'same commodity, %s' % r, money(a, ca), money(b, cb), fs, {'<': -1, '=': 0, '>': 1}[r]
        for s in '-0+':
            yield 'zero and %s' % s, ZERO, money(a, ca), sg(a, s), {'-': 1, '0': 0, '+': -1}[s]
        yield 'zero and zero', ZERO, ZERO, {}, 0
        return
    for r in '<=>':
        va, vb = value(p, ty, 'a'), value(p, ty, 'b')
        fs = dict(cc(sym('na'), sym('nb'), r))
        fs.update(cc(lower(sym('na')), lower(sym('nb')), r))
        if ty.endswith('Node'):
            fs.update(cc(sym('datea'), sym('dateb'), '='))
        yield 'names %s' % r, va, vb, fs, 0 if r == '=' else None
    if ty.endswith('Node'):
        for r in '<>':
            fs = dict(cc(sym('na'), sym('nb'), '='))
            fs.update(cc(sym('datea'), sym('dateb'), r))
            yield 'dates %s' % r, value(p, ty, 'a'), value(p, ty, 'b'), fs, None


def order_rules_(ctx):
    p = ctx.p
    for ty in ('models::currency::Currency', 'models::price::Node', 'models::money::Money', 'models::account::Account', 'models::payee::Payee'):
        short = ty.split('::')[-1]
        fc, fp = trait_fn(p, ty, 'cmp::Ord', 'cmp'), trait_fn(p, ty, 'cmp::PartialOrd', 'partial_cmp')
        for fn, partial in ((fc, False), (fp, True)):
            if fn is None:
                continue
            rule = 'ordering agrees with equality and is antisymmetric'
            for label, a, b, fs, exp in order_cases(p, ty):
                r1, r2 = run1(p, fn, [X(a), X(b)], fs, partial), run1(p, fn, [X(b), X(a)], fs, partial)
                key = '%s: %s %s, %s' % (rule, short, 'partial_cmp' if partial else 'cmp', label)
                if r1 is None or r2 is None or '?' in r1 or '?' in r2:
                    ctx.undecided(key, 'not decided')
                    continue
                msg = None
                if len(r1) != 1 or len(r2) != 1:
                    msg = "the answer is not determined: %s" % r1
                else:
                    x, y = next(iter(r1)), next(iter(r2))
                    if x in ('none', 'panic') or y in ('none', 'panic'):
                        msg = "comparable values are not ordered: %s, %s" % (x, y)
                    elif x != -y:
                        msg = "compares %s one way and %s the other way" % (x, y)
                    elif exp is not None and x != exp:
                        msg = "compares %s, expected %s" % (x, exp)
                    elif exp is None and x == 0:
                        msg = "different values are ordered as equal"
                if msg:
                    ctx.bad(key, where(fn), msg)
                else:
                    ctx.ok(rule, key)


def order_agrees(ctx):
    """eq, cmp and partial_cmp give one answer, also for names that differ only in letter case or whose lower-case forms sort the other way"""
    p = ctx.p
    for ty in ('models::currency::Currency', 'models::price::Node', 'models::account::Account', 'models::payee::Payee'):
        short = ty.split('::')[-1]
        fc, fp, fe = trait_fn(p, ty, 'cmp::Ord', 'cmp'), trait_fn(p, ty, 'cmp::PartialOrd', 'partial_cmp'), trait_fn(p, ty, 'cmp::PartialEq', 'eq')
        if not (fc or fp) or fe is None:
            continue
        na, nb = sym('na'), sym('nb')
        rule = 'equality and the orders give one answer'
        for r in '<>':
            for l in '<=>':
                fs = dict(cc(na, nb, r))
                fs.update(cc(lower(na), lower(nb), l))
                if ty.endswith('Node'):
                    fs.update(cc(sym('datea'), sym('dateb'), '='))
                a, b = X(value(p, ty, 'a')), X(value(p, ty, 'b'))
                key = '%s: %s, names %s, lower-case names %s' % (rule, short, r, l)
                res = {}
                for nm, fn, partial in (('cmp', fc, False), ('partial_cmp', fp, True)):
                    if fn is not None:
                        res[nm] = run1(p, fn, [a, b], fs, partial)
                q = Run(p, anyorder=False)
                out = q.go(fe, [a, b], dict(fs))
                e = set()
                for kind, v, st in out:
                    try:
                        e.add(st.truth(st.deep(v)) if kind == 'return' else '?')
                    except Fork:
                        e.add('?')
                if q.trouble() or any(x is None or len(x) != 1 or not x <= {-1, 0, 1} for x in res.values()) or len(e) != 1 or '?' in e:
                    ctx.undecided(key, 'not decided')
                    continue
                one = {next(iter(x)) for x in res.values()}
                if len(one) != 1:
                    ctx.bad(key, where(fp), "cmp and partial_cmp answer differently: %s" % res)
                elif (next(iter(one)) == 0) != next(iter(e)):
                    ctx.bad(key, where(fc or fp), "the order answers %s, equality answers %s" % (res, e))
                else:
                    ctx.ok(rule, key)


def money_eq(ctx):
    p = ctx.p
    eq = trait_fn(p, 'models::money::Money', 'cmp::PartialEq', 'eq')
    c = Case(ctx, eq, 'amounts are equal exactly if both are zero or agree in quantity and commodity', anyorder=False)
    a, b = sym('qa'), sym('qb')
    ca, cb = value(p, 'models::currency::Currency', 'a'), value(p, 'models::currency::Currency', 'b')
    other = dict(cc(sym('na'), sym('nb'), '<>'))
    other.update(cc(lower(sym('na')), lower(sym('nb')), '<>'))
    same = cc(sym('na'), sym('nb'), '=')
    for r in ('<', '=', '>'):
        fs = dict(same)
        fs.update(cc(a, b, r))
        fs.update(sg(padd(a, pneg(b)), {'<': '-', '=': '0', '>': '+'}[r]))
        c.run('same commodity, quantities %s' % r, [X(money(a, ca)), X(money(b, cb))], fs, tr(r == '='))
        for s in ('-', '+'):
            f2 = dict(other)
            f2.update(cc(a, b, r))
            f2.update(sg(padd(a, pneg(b)), {'<': '-', '=': '0', '>': '+'}[r]))
            f2.update(sg(a, s))
            c.run('different commodities, quantities %s %s' % (s, r), [X(money(a, ca)), X(money(b, cb))], f2, tr(False))
    for s in '-0+':
        c.run('zero and %s' % s, [X(ZERO), X(money(a, ca))], sg(a, s), tr(s == '0'))
        c.run('%s and zero' % s, [X(money(a, ca)), X(ZERO)], sg(a, s), tr(s == '0'))
    c.run('zero and zero', [X(ZERO), X(ZERO)], {}, tr(True))
