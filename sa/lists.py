"""The lists of accounts, commodities and payees (C12)."""
from entity import *

LI = 'list::List'
KINDS = {'Account': 'models::account::Account', 'Currency': 'models::currency::Currency', 'Payee': 'models::payee::Payee'}


def low(st, x):
    return lower(x)


def elem(p, kind, i, aliases=()):
    ty = KINDS[kind]
    f = {'name': sym('n%s' % i)}
    f['alias' if kind == 'Payee' else 'aliases'] = ('H', 'set', tuple((a, models.UNIT) for a in aliases), frozenset())
    return mk(p, ty, _rest=lambda n: T('sym', '%s%s' % (n, i)), **f)


def mkmap(d):
    return ('H', 'map', tuple(d), frozenset())


def mklist(p, names, aliases):
    """names [(key, element)], aliases [(key, name key)]"""
    return mk(p, LI, list=mkmap(names), aliases=mkmap(aliases), matches=mkmap(()))


def meth(p, kind, m):
    for f in p.fns.values():
        if f.local and f.blocks and re.search(r"list::List::<dinero::models::\w+::%s>::%s$" % (kind, m), f.name):
            return f
    return None


def pre(p, kind):
    """a list with two elements and one alias each"""
    e1, e2 = elem(p, kind, '1', (sym('x1'),)), elem(p, kind, '2', (sym('x2'),))
    k1, k2, a1, a2 = (lower(sym(n)) for n in ('n1', 'n2', 'x1', 'x2'))
    fs = {}
    ks = [k1, k2, a1, a2]
    for i in range(4):
        for j in range(i):
            fs.update(cc(ks[i], ks[j], '<>'))
    return e1, e2, ks, mklist(p, [(k1, e1), (k2, e2)], [(a1, k1), (a2, k2)]), fs


def apart(fs, k, ks):
    for x in ks:
        fs.update(cc(k, x, '<>'))


def content(p, v, st):
    """-> ({key: element}, {alias: key}) of an exact list value, else None"""
    l, a = proj(v, fidx(p, LI, 'list')), proj(v, fidx(p, LI, 'aliases'))
    if l[0] != 'H' or a[0] != 'H' or l[3] or a[3]:
        return None
    return [(st.deep(k), st.deep(x)) for k, x in l[2]], [(st.deep(k), st.deep(x)) for k, x in a[2]]


def resolve(st, cont, key):
    """what a lookup of a lower-case name finds, per the specification: names first, then aliases"""
    for k, x in cont[0]:
        if cong(st, k, key):
            return x
    for k, n in cont[1]:
        if cong(st, k, key):
            for k2, x in cont[0]:
                if cong(st, k2, n):
                    return x
    return None


def list_rules(ctx):
    p = ctx.p
    for kind in KINDS:
        e1, e2, ks, L0, base = pre(p, kind)
        k1, k2, a1, a2 = ks
        s = sym('s')
        # lookups
        g = meth(p, kind, 'get')
        c = Case(ctx, g, 'a name or alias resolves to its entity in any case, an unknown one is reported', anyorder=False)
        for label, key, exp in (('first name', k1, e1), ('second name', k2, e2), ('first alias', a1, e1), ('second alias', a2, e2), ('unknown', None, None)):
            fs = dict(base)
            if key is None:
                apart(fs, lower(s), ks)
            else:
                fs.update(cc(lower(s), key, '='))
                apart(fs, lower(s), [k for k in ks if k != key])

            def ck(kind_, v, st):
                if kind_ != 'return' or v[0] != 'A' or v[1] != RES:
                    return "ends with %s" % (show_(v) if kind_ == 'return' else kind_)
                if exp is None:
                    return None if v[2] == 1 else "an unknown name is found: %s" % show_(v)
                if v[2] != 0:
                    return "not found"
                if st.deep(v[3][0]) != exp:
                    return "finds %s" % show_(v)
            c.run('%s, %s' % (kind, label), [X(L0), s], fs, ck)
        # insertion
        ins = meth(p, kind, 'insert')
        for label, rel, aka in (('new name', None, None), ('known name', k1, None), ('known name and alias', k1, a1), ('new name and known alias', None, a2)):
            e3 = elem(p, kind, '3', (sym('y'),))
            k3, y = lower(sym('n3')), lower(sym('y'))
            fs = dict(base)
            if aka is not None:
                fs.update(cc(y, aka, '='))
            apart(fs, y, [k for k in ks + [k3] if k != aka])
            if rel is None:
                apart(fs, k3, ks)
            else:
                fs.update(cc(k3, rel, '='))
                apart(fs, k3, [k for k in ks if k != rel])
            cell = ('g', 'list')

            def setup(st):
                st.mem[cell] = L0
                return [('R', cell, ()), e3]

            def ck(kind_, v, st):
                if kind_ != 'return':
                    return "ends with %s" % kind_
                cont = content(p, st.deep(st.mem[cell]), st)
                if cont is None:
                    return "the list is not determined"
                for nm, k, e in (('name', k1, e1), ('name', k2, e2), ('alias', a1, e1), ('alias', a2, e2 if aka != a2 else e3)):
                    x = resolve(st, cont, k)
                    if x != e:
                        return "a known %s no longer resolves to its entity but to %s" % (nm, show_(x) if x else 'nothing')
                if rel is None:
                    for nm, k in (('name', k3), ('alias', y)):
                        if resolve(st, cont, k) != e3:
                            return "the new entity is not found under its %s in lower case" % nm
                elif resolve(st, cont, y) != e1:
                    return "the alias of a repeated entity does not resolve to it"
                if len(cont[0]) != (3 if rel is None else 2):
                    return "the list has %d elements" % len(cont[0])
            c = Case(ctx, ins, 'registering keeps what is known and makes the new entity known', anyorder=False)
            c.run('%s, %s' % (kind, label), None, fs, ck, setup=setup)
        # aliases
        al = meth(p, kind, 'add_alias')
        if al is not None:
            fs = dict(base)
            apart(fs, lower(s), ks)
            cell = ('g', 'list')

            def setup2(st):
                st.mem[cell] = L0
                return [('R', cell, ()), s, X(e2)]

            def ck2(kind_, v, st):
                if kind_ != 'return':
                    return "ends with %s" % kind_
                cont = content(p, st.deep(st.mem[cell]), st)
                if cont is None:
                    return "the list is not determined"
                for k, e in ((k1, e1), (k2, e2), (a1, e1), (a2, e2), (lower(s), e2)):
                    if resolve(st, cont, k) != e:
                        return "%s does not resolve to its entity" % show_(k)
            c = Case(ctx, al, 'an added alias resolves to its entity', anyorder=False)
            c.run(kind, None, fs, ck2, setup=setup2)
        # appending another list
        ap = meth(p, kind, 'append')
        if ap is not None:
            for label, rel, aka in (('disjoint lists', None, None), ('a common name', k1, None), ('a common alias', None, a2)):
                e3 = elem(p, kind, '3', (sym('y'),))
                k3, y = lower(sym('n3')), lower(sym('y'))
                fs = dict(base)
                if aka is not None:
                    fs.update(cc(y, aka, '='))
                apart(fs, y, [k for k in ks + [k3] if k != aka])
                if rel is None:
                    apart(fs, k3, ks)
                else:
                    fs.update(cc(k3, rel, '='))
                    apart(fs, k3, [k for k in ks if k != rel])
                L1 = mklist(p, [(k3, e3)], [(y, k3)])
                cell = ('g', 'list')

                def setup3(st):
                    st.mem[cell] = L0
                    return [('R', cell, ()), X(L1)]

                def ck3(kind_, v, st):
                    if kind_ != 'return':
                        return "ends with %s" % kind_
                    cont = content(p, st.deep(st.mem[cell]), st)
                    if cont is None:
                        return "the list is not determined"
                    for k, e in ((k1, e1), (k2, e2), (a1, e1), (a2, e2 if aka is None else e3)):
                        if resolve(st, cont, k) != e:
                            return "%s no longer resolves to its entity" % show_(k)
                    x = resolve(st, cont, y)
                    if x != (e3 if rel is None else e1):
                        return "the alias of the other list resolves to %s" % (show_(x) if x else 'nothing')
                    if rel is None and resolve(st, cont, k3) != e3:
                        return "the entity of the other list is lost"
                c = Case(ctx, ap, 'merging lists keeps every entity and alias', anyorder=False)
                c.run('%s, %s' % (kind, label), None, fs, ck3, setup=setup3)
