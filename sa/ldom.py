"""Balances as formal sums.

('L', frozenset{(u, coefficient)}) where u is a commodity term or an opaque balance ('t','bal',x): the balance
sum of coefficient*u.  The operations of Balance are replaced by their specification (decided separately for the
implementation by kern.balance_kernels / balance_predicates), so that users of balances can be analysed for any
commodities, equal or different."""
from kern import *
from models import I
from eng import REST


def L(d):
    return ('L', frozenset((u, c) for u, c in d.items() if not pis0(poly(c))))


# the tracked commodity of an iteration over a balance
G = sym('gcom')


def tm(l):
    return T('tomoney', l)


def ld(v):
    return {u: c for u, c in v[1]}


def ladd(a, b):
    d = ld(a)
    for u, c in b[1]:
        d[u] = padd(d[u], c) if u in d and u != REST else c
    return L(d)


def lneg(a):
    return L({u: (c if u == REST else pneg(c)) for u, c in a[1]})


def lmoney(st, m):
    """formal sum of an abstract amount"""
    if m[0] == 'A' and m[1] == MONEY:
        if m[2] == 0:
            return L({})
        a, c = st.deep(m[3][0]), st.deep(m[3][1])
        if c[0] == 't' and c[1] == 'tmC':     # the amount made out of a balance: the balance itself
            q = T('tmA', c[2])
            if a == q:
                return c[2]
            if a == pneg(q):
                return lneg(c[2])
        return L({c: a})
    if m[0] == 't':
        if st.variant(m, 2) == 0:
            return L({})
        return L({proj(m, (1, 1)): proj(m, (1, 0))})
    raise Unsupported("balance of %s" % show(m))


def lval(st, v):
    v = st.load(v)
    if v is None:
        raise Unsupported("uninitialised balance")
    if v[0] == 'L':
        return v
    if v[0] == 'A' and v[1] == BAL and v[3][0][0] == 'H' and not v[3][0][2] and not v[3][0][3]:
        return L({})
    if v[0] == 't':
        return L({v: PONE})
    raise Unsupported("balance %s" % v[0])


def lzero(st, l):
    """True / False / None"""
    if not l[1]:
        return True
    if all(u != REST and st.sign(c) == frozenset('0') for u, c in l[1]):
        return True
    if len(l[1]) == 1:
        (u, c), = l[1]
        if u != REST and not (u[0] == 't' and u[1] == 'bal') and '0' not in st.sign(c):
            return False
    return None


def ev(eng, st, name, *xs):
    eng.log(st, ('T', (('s', name),) + xs))


def h_new(eng, st, fr, args):
    return L({})


def h_from(eng, st, fr, args):
    return lmoney(st, st.load(args[0]))


def h_add(eng, st, fr, args):
    return ladd(lval(st, args[0]), lval(st, args[1]))


def h_sub(eng, st, fr, args):
    return ladd(lval(st, args[0]), lneg(lval(st, args[1])))


def h_neg(eng, st, fr, args):
    return lneg(lval(st, args[0]))


def pred(name):
    def h(eng, st, fr, args):
        l = lval(st, args[0])
        z = lzero(st, l)
        if z is True:
            r = True
        elif z is False and len(l[1]) == 1:
            r = False
        else:
            # both answers are possible
            r = st.truth(T('pred', name, l))
        ev(eng, st, name, l, ('b', r))
        return ('b', r)
    return h


def h_eq(eng, st, fr, args):
    a, b = lval(st, args[0]), lval(st, args[1])
    if a == b and REST not in ld(a):
        r = True
    else:
        r = st.truth(T('pred', 'Leq', a, b))
    ev(eng, st, 'Leq', a, b, ('b', r))
    return ('b', r)


def h_tomoney(eng, st, fr, args):
    l = lval(st, args[0])
    if not l[1]:
        return ok(ZERO)
    if len(l[1]) == 1:
        (u, c), = l[1]
        if u != REST and not (u[0] == 't' and u[1] == 'bal'):
            return ok(money(c, u))
    r = st.truth(T('pred', 'Lsingle', l))
    ev(eng, st, 'Lsingle', l, ('b', r))
    if not r:
        return err(T('notsingle', l))
    return ok(money(T('tmA', l), T('tmC', l))) if st.truth(T('pred', 'tmany', l)) else ok(ZERO)


def h_len(eng, st, fr, args):
    l = lval(st, args[0])
    if not l[1]:
        return ('i', 0)
    return T('blen', l)


def h_iter(eng, st, fr, args):
    l = lval(st, args[0])
    if not l[1]:
        return I('seq', ('V', ()))
    if not st.truth(T('pred', 'Lany', l)):
        return I('seq', ('V', ()))
    # G is any commodity with a non-zero coefficient
    st.facts.update(sg(T('coef', l, G), '-+'))
    o = ('t', 'o', -1)
    m = money(T('coef', l, o), o)
    many = ('M', frozenset([(('T', (X(some(o)), X(m))), frozenset(cc(o, G, '<>').items()))]))
    g = ('1', ('T', (X(some(G)), X(money(T('coef', l, G), G)))))
    return I('seq', ('V', (many, g, many)))


LOVER = [
    (r"balance::Balance::new$", h_new),
    (r"balance::Balance as std::convert::From<.*Money>>::from$", h_from),
    (r"balance::Balance as std::ops::Add>::add$", h_add),
    (r"balance::Balance as std::ops::Sub>::sub$", h_sub),
    (r"balance::Balance as std::ops::Neg>::neg$", h_neg),
    (r"balance::Balance::is_zero$", pred('Lzero')),
    (r"balance::Balance::can_be_zero$", pred('Lcbz')),
    (r"balance::Balance::to_money$", h_tomoney),
    (r"balance::Balance::len$", h_len),
    (r"balance::Balance::iter$", h_iter),
    (r"balance::Balance as std::cmp::PartialEq>::eq$", h_eq),
    (r"balance::Balance as std::clone::Clone>::clone$", lambda eng, st, fr, args: lval(st, args[0])),
    (r"balance::Balance as std::default::Default>::default$", h_new),
    (r"money::Money as std::ops::Add>::add$", lambda eng, st, fr, args: ladd(lmoney(st, st.load(args[0])), lmoney(st, st.load(args[1])))),
    (r"money::Money as std::ops::Sub>::sub$", lambda eng, st, fr, args: ladd(lmoney(st, st.load(args[0])), lneg(lmoney(st, st.load(args[1]))))),
]
