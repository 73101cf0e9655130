"""Under which account, payee and commodity a posting is booked (C27)."""
import itertools
from parsing import *

AC, PY, CU = 'models::account::Account', 'models::payee::Payee', 'models::currency::Currency'


def nm(p, v, t):
    """the name of an entity, or the value itself"""
    try:
        x = get(p, v, t, 'name')
        return x[1] if x[0] == 's' else show_(x)
    except Exception:
        return show_(v)[:80]


def com(p, st, v):
    v = st.deep(v)
    if v[0] == 'A' and v[1] == OPT:
        if v[2] == 0:
            return None
        v = st.deep(v[3][0])
    inf = adt_info(p, 'models::transaction::Cost')
    if v[0] == 'A' and v[1] == inf['def']:
        v = st.deep(v[3][0])
    if v[0] == 'A' and len(v[3]) == 2:
        return nm(p, st.deep(v[3][1]), CU)
    return show_(v)[:80]


class Booker(Reader):
    def __init__(self, ctx):
        Reader.__init__(self, ctx)
        self.over = [stub_balance(may_fail=False)] + [x for x in AUTO if 'Display' in x[0] or 'eval_value' in x[0] or 'build_root' in x[0]]

    def case(self, rule, label, text, want, prices=None):
        """want: per transaction, per posting (account, payee, commodity, cost commodity, balance commodity), each a name or a set of names; None: not looked at"""
        p = self.p

        def ck(v, st, m):
            ts = seq(get(p, v, LG, 'transactions'))
            if ts is None or len(ts) != len(want):
                return "%s transactions" % (ts and len(ts))
            for i, (t, w) in enumerate(zip(ts, want)):
                ps = seq(get(p, t, TX, 'postings'))
                if ps is None or len(ps) != len(w):
                    return "%s postings in transaction %d" % (ps and len(ps), i + 1)
                for j, (q, e) in enumerate(zip(ps, w)):
                    pv = st.deep(get(p, q, PO, 'payee'))
                    if pv[0] == 'A' and pv[1] == OPT:
                        pv = st.deep(pv[3][0]) if pv[2] else ('s', 'none')
                    got = (nm(p, st.deep(get(p, q, PO, 'account')), AC), nm(p, pv, PY), com(p, st, get(p, q, PO, 'amount')), com(p, st, get(p, q, PO, 'cost')), com(p, st, get(p, q, PO, 'balance')))
                    for what, g, x in zip(('account', 'payee', 'commodity', 'commodity of the cost', 'commodity of the asserted balance'), got, e + (0,) * 5):
                        if x == 0:
                            continue
                        if g not in (x if isinstance(x, (set, frozenset)) else (x,)):
                            return "the %s of posting %d of transaction %d is %s instead of %s" % (what, j + 1, i + 1, visible(str(g)), visible(str(x)))
            if prices is not None:
                pr = seq(get(p, v, LG, 'prices'))
                if pr is None or len(pr) != len(prices):
                    return "%s prices" % (pr and len(pr))
                for x, w in zip(pr, prices):
                    got = (nm(p, st.deep(get(p, x, PP, 'commodity')), CU), com(p, st, get(p, x, PP, 'price')))
                    if got != w:
                        return "a price is that of %s in %s instead of %s in %s" % tuple(visible(str(y)) for y in got + w)
        self.run(rule, label, text, ck, closure=False)


def both(decl, tx_):
    """a declaration counts wherever it stands"""
    yield 'before', decl + '\n' + tx_
    yield 'after', tx_ + '\n' + decl


D1, D2 = DIG[4] + DIG[5], DIG[6] + DIG[7]
Y_ = DIG[:4]


def T1(payee='Shop', a='Assets:Cash', b='Expenses:Food', amt='1%s EUR' % D1, more=''):
    return '%s-05-07 %s\n    %s  %s%s\n    %s\n' % (Y_, payee, a, amt, more, b)


def alias_rules(ctx):
    B = Booker(ctx)
    R1 = "a posting to an alias is booked on the account it belongs to"
    for al, use in (('cash', 'cash'), ('Cash', 'cash'), ('cash', 'CASH'), ('My Cash', 'my cash'), ('c' + D1, 'C' + D1), ('a:b', 'A:b'), ('cash', 'cash2'), ('cash', 'cas'), ('cash', 'Cash:Sub'), ('Assets', 'assets')):
        hit = al.lower() == use.lower()
        for n, t in both('account Assets:Bank\n    alias %s\n' % al, T1(a=use)):
            B.case(R1, "alias %s used as %s, declared %s" % (visible(al), visible(use), n), t, [[('Assets:Bank' if hit else use, 'Shop', 'EUR'), ('Expenses:Food', 'Shop')]])
    for use, want in (('assets:bank', 'Assets:Bank'), ('ASSETS:BANK', 'Assets:Bank'), ('Assets:Bank', 'Assets:Bank'), ('Assets:Bank:X', 'Assets:Bank:X'), ('b2', 'Assets:Bank'), ('b3', 'Expenses:Food'), ('B1', 'Assets:Bank')):
        for n, t in both('account Assets:Bank\n    alias b1\n    note x\n    alias b2\n\naccount Expenses:Food\n    alias b3\n', T1(a=use)):
            B.case(R1, "two aliases, used as %s, declared %s" % (use, n), t, [[(want, 'Shop', 'EUR'), ('Expenses:Food', 'Shop')]])
    for n, t in both('account Assets:Bank\n    alias b1\n', T1(a='b1', b='Assets:bank') + '\n' + T1(a='B1', b='x', payee='Other')):
        B.case(R1, "in several transactions, declared %s" % n, t, [[('Assets:Bank', 'Shop', 'EUR'), ('Assets:Bank', 'Shop')], [('Assets:Bank', 'Other', 'EUR'), ('x', 'Other')]])
    R2 = "an amount in an alias is one in the commodity it belongs to"
    for use, want in (('E', 'EUR'), ('EUR', 'EUR'), ('eur', 'EUR'), ('e', 'EUR'), ('Euro', 'EUR'), ('USD', 'USD'), ('EU', 'EU')):
        for n, t in both('commodity EUR\n    alias E\n    alias Euro\n', T1(amt='1%s %s' % (D1, use))):
            B.case(R2, "amount in %s, declared %s" % (use, n), t, [[('Assets:Cash', 'Shop', want), ('Expenses:Food', 'Shop')]])
        for n, t in both('commodity EUR\n    alias E\n    alias Euro\n', T1(amt='1%s GBP' % D1, more=' @ 2%s %s' % (D2, use))):
            B.case(R2, "cost in %s, declared %s" % (use, n), t, [[('Assets:Cash', 'Shop', 'GBP', want), ('Expenses:Food', 'Shop')]])
        for n, t in both('commodity EUR\n    alias E\n    alias Euro\n', T1(amt='1%s %s' % (D1, use), more=' = 2%s %s' % (D2, use))):
            B.case(R2, "asserted balance in %s, declared %s" % (use, n), t, [[('Assets:Cash', 'Shop', want, None, want), ('Expenses:Food', 'Shop')]])
        for n, t in both('commodity EUR\n    alias E\n    alias Euro\n', 'P %s-05-07 %s 1%s USD\nP %s-05-08 GBP 1%s %s\n' % (Y_, use, D1, Y_, D2, use)):
            if want != 'USD':
                B.case(R2, "prices in %s, declared %s" % (use, n), t, [], [(want, 'USD'), ('GBP', want)])
    for n, t in both('commodity EUR\n    alias E\n\ncommodity USD\n    alias D\n', T1(amt='1%s D' % D1) + '\n' + T1(amt='1%s E' % D1, more=' @@ 2%s d' % D2)):
        B.case(R2, "two commodities, declared %s" % n, t, [[('Assets:Cash', 'Shop', 'USD'), ('Expenses:Food', 'Shop')], [('Assets:Cash', 'Shop', 'EUR', 'USD'), ('Expenses:Food', 'Shop')]])
    for al, use, want in (('"C D"', '"C D"', 'A B'), ('C D', '"C D"', 'A B'), ('"CD"', 'CD', 'A B'), ('CD', '"CD"', 'A B'), ('"C D"', '"A B"', 'A B'), ('"C D"', '"a b"', 'A B'), ('"C D"', '"C E"', 'C E')):
        for n, t in both('commodity "A B"\n    note x\n    alias %s\n' % al, T1(amt='1%s %s' % (D1, use))):
            B.case(R2, "quoted alias %s used as %s, declared %s" % (al, use, n), t, [[('Assets:Cash', 'Shop', want), ('Expenses:Food', 'Shop')]])
    R3 = "the aliases of a repeated directive are known"
    for use in ('ba', 'bb', 'BB'):
        for n, t in both('account Assets:Bank\n    alias ba\n\naccount assets:bank\n    alias bb\n', T1(a=use)):
            B.case(R3, "account, used as %s, declared %s" % (use, n), t, [[('Assets:Bank', 'Shop', 'EUR'), ('Expenses:Food', 'Shop')]])
        for n, t in both('commodity EUR\n    alias ba\n\ncommodity EUR\n    alias bb\n', T1(amt='1%s %s' % (D1, use))):
            B.case(R3, "commodity, used as %s, declared %s" % (use, n), t, [[('Assets:Cash', 'Shop', 'EUR'), ('Expenses:Food', 'Shop')]])


PATS = (('Amazon', 'Amazon', True), ('Amazon', 'Amazon %s' % D1, True), ('^Amazon', 'Amazon %s' % D1, True), ('^Amazon', 'My Amazon', False), ('Amazon$', 'My Amazon', True), ('Amazon$', 'Amazon 1', False),
        ('Ama.*n', 'x Amaz%sn' % D1, True), ('Amazon|Shop', 'Shop', True), ('Amazon|Shop', 'Sho', False), ('A[mn]a', 'Ana', True), ('%s' % D1, 'Bar %s' % D1, True), ('Bar [0-9]+', 'Bar %s' % D1, True), ('Bar [0-9]+', 'Bar', False),
        ('Amazon Inc', 'Amazon', False))


def payee_rules(ctx):
    B = Booker(ctx)
    R1 = "a payee matched by a payee's alias is that payee"
    for pat, name, hit in PATS:
        for n, t in both('payee Store\n    alias %s\n' % pat, T1(payee=name)):
            w = 'Store' if hit else name
            B.case(R1, "alias %s for %s, declared %s" % (visible(pat), visible(name), n), t, [[('Assets:Cash', w, 'EUR'), ('Expenses:Food', w)]])
        for n, t in both('payee Store\n    alias zzz\n    alias %s\n\npayee Else\n    alias yyy\n' % pat, T1(payee='d | ' + name)):
            w = 'Store' if hit else name
            B.case(R1, "second alias %s for %s after |, declared %s" % (visible(pat), visible(name), n), t, [[('Assets:Cash', w, 'EUR'), ('Expenses:Food', w)]])
    for use, want in (('store', 'Store'), ('STORE', 'Store'), ('Store', 'Store'), ('Other', 'Other'), ('b2 x', 'Else'), ('Store b2', 'Else'), ('b1b2', {'Store', 'Else'})):
        for n, t in both('payee Store\n    alias b1\n\npayee Else\n    alias b2\n', T1(payee=use)):
            B.case(R1, "two payees, used as %s, declared %s" % (use, n), t, [[('Assets:Cash', want, 'EUR'), ('Expenses:Food', want)]])
    for n, t in both('payee Store\n    alias b1\n', T1(payee='b1 x') + '\n' + T1(payee='y') + '\n' + T1(payee='a b1') + '\n' + T1(payee='b1 x')):
        B.case(R1, "several transactions, declared %s" % n, t, [[('Assets:Cash', w, 'EUR'), ('Expenses:Food', w)] for w in ('Store', 'y', 'Store', 'Store')])


def unknown_rules(ctx):
    B = Booker(ctx)
    R1 = "a posting to an unknown account is booked where its payee belongs"
    decl = 'account Expenses:Books\n    payee %s\n'
    for acc in ('Expenses:Unknown', 'unknown', 'Assets:UNKNOWN'):
        for pat, name, hit in PATS:
            for n, t in both(decl % pat, T1(payee=name, a=acc)):
                B.case(R1, "%s, pattern %s for %s, declared %s" % (acc, visible(pat), visible(name), n), t, [[('Expenses:Books' if hit else acc, name, 'EUR'), ('Expenses:Food', name)]])
    for acc in ('Assets:Cash', 'Unknown:Cash', 'Unknown things', 'Expenses:Books', 'Unknow', 'x', 'Expenses:Unknown:Not'):
        for n, t in both(decl % 'Amazon', T1(payee='Amazon', a=acc)):
            B.case(R1, "%s is booked where written, declared %s" % (acc, n), t, [[(acc, 'Amazon', 'EUR'), ('Expenses:Food', 'Amazon')]])
    two = 'account Expenses:Books\n    payee zzz\n    payee Amazon\n\naccount Expenses:Wine\n    alias w\n    payee Winery\n\naccount Expenses:Other\n'
    for name, want in (('Amazon', 'Expenses:Books'), ('Winery %s' % D1, 'Expenses:Wine'), ('zzz', 'Expenses:Books'), ('Nobody', 'Expenses:Unknown'), ('w', 'Expenses:Unknown'), ('Amazon Winery', {'Expenses:Books', 'Expenses:Wine'})):
        for n, t in both(two, T1(payee=name, a='Expenses:Unknown')):
            B.case(R1, "several accounts with patterns, payee %s, declared %s" % (visible(name), n), t, [[(want, name, 'EUR'), ('Expenses:Food', name)]])
        for n, t in both(two, T1(payee='d | ' + name, a='Assets:Cash', b='Expenses:Unknown')):
            B.case(R1, "without an amount, payee %s, declared %s" % (visible(name), n), t, [[('Assets:Cash', name, 'EUR'), (want, name)]])
    for n, t in both(two, T1(payee='Amazon', a='Expenses:Unknown') + '\n' + T1(payee='Nobody', a='Expenses:Unknown') + '\n' + T1(payee='Winery', a='Assets:Cash', b='Expenses:Unknown')):
        B.case(R1, "several transactions, declared %s" % n, t, [[('Expenses:Books', 'Amazon', 'EUR'), ('Expenses:Food', 'Amazon')], [('Expenses:Unknown', 'Nobody', 'EUR'), ('Expenses:Food', 'Nobody')], [('Assets:Cash', 'Winery', 'EUR'), ('Expenses:Wine', 'Winery')]])
    for n, t in both('payee Store\n    alias Amazon\n\naccount Expenses:Books\n    payee Store\n', T1(payee='Amazon', a='Expenses:Unknown')):
        B.case(R1, "the payee is found first, declared %s" % n, t, [[('Expenses:Books', 'Store', 'EUR'), ('Expenses:Food', 'Store')]])
