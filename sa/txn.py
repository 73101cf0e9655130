"""Transaction::balance against its specification (C02, C03, C04)."""
import itertools
from ldom import *

TX = 'models::transaction::Transaction'
PO = 'models::transaction::Posting'


def balsym(acc):
    return ('t', 'bal', acc)


class Shape:
    """one posting: kind R(eal) / V(irtual) / B(racketed virtual); amt; cost None/'T'/'U'; asserted balance"""
    def __init__(self, kind, amt, cost=None, asrt=False):
        self.kind, self.amt, self.cost, self.asrt = kind, amt, cost, asrt

    def __repr__(self):
        return self.kind + ("-" if not self.amt else "a") + (self.cost or "") + ("=" if self.asrt else "")


def all_shapes():
    for k in 'RVB':
        for cost in (None, 'T', 'U'):
            for asrt in (False, True):
                yield Shape(k, True, cost, asrt)
        yield Shape(k, False)
        yield Shape(k, False, None, True)


def posting(p, i, s, acc):
    kind = {'R': 'Real', 'V': 'Virtual', 'B': 'VirtualMustBalance'}[s.kind]
    K = adt_info(p, 'models::transaction::PostingType')['def']
    C_ = adt_info(p, 'models::transaction::Cost')['def']
    cost = NONE
    if s.cost:
        cost = some(('A', C_, vidx(p, 'models::transaction::Cost', {'T': 'Total', 'U': 'PerUnit'}[s.cost]), (money(sym('k%d' % i), sym('d%d' % i)),)))
    O = adt_info(p, 'models::transaction::PostingOrigin')['def']
    return mk(p, PO, account=acc,
              amount=some(money(sym('a%d' % i), sym('c%d' % i))) if s.amt else NONE,
              balance=some(money(sym('b%d' % i), sym('e%d' % i))) if s.asrt else NONE,
              cost=cost, kind=('A', K, vidx(p, 'models::transaction::PostingType', kind), ()),
              comments=V(), tags=V(sym('tag%da' % i), sym('tag%db' % i)), payee=sym('payee%d' % i), transaction=sym('tx%d' % i),
              origin=('A', O, vidx(p, 'models::transaction::PostingOrigin', 'FromTransaction'), ()))


def weight(i, s, st):
    """(formal contribution of posting i to the balance of its transaction, or None if the sign is open)"""
    a, c, k, d = sym('a%d' % i), sym('c%d' % i), sym('k%d' % i), sym('d%d' % i)
    if s.cost is None:
        return L({c: a})
    if s.cost == 'U':
        return L({d: pmul(k, a)})
    sg_ = st.sign(a)
    if sg_ == frozenset('+'):
        return L({d: k})
    if sg_ == frozenset('-'):
        return L({d: pneg(k)})
    return None


class Spec:
    """expected behaviour of one transaction in one abstract path"""
    def __init__(self, shapes, accs, skip, st):
        self.problems = []
        self.must_true = []    # predicates that have to hold for acceptance
        bal_ = {a: L({balsym(a): PONE}) for a in accs}
        virt = L({})
        total = L({})
        self.open = False
        for i, s in enumerate(shapes):
            if s.amt and s.kind in 'B':
                w = weight(i, s, st)
                if w is None:
                    self.open = True
                    continue
                virt = ladd(virt, w)
        self.must_true.append(('Lcbz', virt))
        self.filled = []
        self.amounts = {}
        elided = []
        for i, s in enumerate(shapes):
            if s.kind != 'R':
                continue
            x = accs[i]
            if s.amt:
                bal_[x] = ladd(bal_[x], L({sym('c%d' % i): sym('a%d' % i)}))
                if s.asrt and not skip:
                    self.must_true.append(('Leq', L({sym('e%d' % i): sym('b%d' % i)}), bal_[x]))
                w = weight(i, s, st)
                if w is None:
                    self.open = True
                else:
                    total = ladd(total, w)
            elif s.asrt and not skip:
                diff = ladd(L({sym('e%d' % i): sym('b%d' % i)}), lneg(bal_[x]))
                self.must_true.append(('Lsingle', diff))
                if st.facts.get(('v', T('pred', 'tmany', diff))) is False:
                    diff = L({})      # the path on which the difference is zero
                self.amounts[i] = diff
                bal_[x] = L({sym('e%d' % i): sym('b%d' % i)})
                total = ladd(total, diff)
            else:
                elided.append(i)
        self.elided = elided
        self.total = total
        if not elided:
            self.must_true.append(('Lcbz', total))
        self.bal = bal_


def pval(st, pr):
    """truth of a predicate in the state (True/False/None)"""
    l = pr[1]
    if pr[0] == 'Leq':
        if pr[1] == pr[2]:
            return True
        return st.facts.get(('v', T('pred', 'Leq', pr[1], pr[2])))
    if pr[0] == 'Lsingle':
        if len(l[1]) == 0 or len(l[1]) == 1 and not any(u[0] == 't' and u[1] == 'bal' for u, _ in l[1]):
            return True
        return st.facts.get(('v', T('pred', 'Lsingle', l)))
    z = lzero(st, l)
    if z is not None:
        return z
    return st.facts.get(('v', T('pred', pr[0], l)))


def same_l(st, a, b):
    return not ladd(a, lneg(b))[1]


def check_txn(ctx, p, fn, shapes, same, skip, parts, rule):
    n = len(shapes)
    accs = [sym('acc0' if same else 'acc%d' % i) for i in range(n)]
    fs = {}
    for i in range(n):
        for j in range(i):
            if accs[i] != accs[j]:
                fs.update(cc(accs[i], accs[j], '<>'))
        if shapes[i].cost == 'T':
            fs.update(sg(sym('a%d' % i), '-+'))
    ps = [posting(p, i, s, accs[i]) for i, s in enumerate(shapes)]
    key = "%s: [%s]%s%s" % (rule, " ".join(map(repr, shapes)), " one account" if same and n > 1 else "", " checks off" if skip else "")
    cells = {}

    def setup(st):
        t = mk(p, TX, postings=V(*ps), comments=V())
        m = ('H', 'map', tuple((a, L({balsym(a): PONE})) for a in dict.fromkeys(accs)), frozenset())
        cells['t'] = ('g', 't')
        st.mem[cells['t']] = t
        cells['m'] = ('g', 'm')
        st.mem[cells['m']] = m
        return [('R', cells['t'], ()), ('R', cells['m'], ()), ('b', skip)]
    pi = fidx(p, TX, 'postings')

    def ck(kind, v, st):
        if kind == 'panic':
            return 'ends with a panic: %s' % (v,)
        sp = Spec(shapes, accs, skip, st)
        if kind != 'return':
            return "ends with %s" % kind
        accepted = v[0] == 'A' and v[2] == 0
        if not (v[0] == 'A' and v[1] == RES):
            return "result %s" % show(v)
        if sp.open:
            return "the sign of an amount with a total cost is not taken into account" if accepted and 'sum' in parts else 'skip'
        if not accepted:
            if len(sp.elided) > 1:
                return None
            vals = [pval(st, m) for m in sp.must_true]
            if any(x is False for x in vals):
                return None
            # rejected although nothing the specification asks for failed
            if 'reject' in parts and all(x is not None for x in vals):
                return "rejected although it satisfies every condition"
            return "rejected without a failed condition (%s)" % ", ".join("%s(%s)=%s" % (m[0], show(m[1]), x) for m, x in zip(sp.must_true, vals)) if 'reject' in parts else None
        if len(sp.elided) > 1 and 'elide' in parts:
            return "accepted with %d amounts missing" % len(sp.elided)
        if len(sp.elided) > 1:
            return None
        for m in sp.must_true:
            x = pval(st, m)
            if m[0] == 'Lcbz' and 'sum' in parts and x is not True:
                return "accepted without a residue check of %s (%s)" % (show(m[1]), x)
            if m[0] == 'Leq' and 'assert' in parts and x is not True:
                return "accepted although the asserted balance %s is not known to equal the running balance %s" % (show(m[1]), show(m[2]))
        t = st.deep(st.mem[cells['t']])
        out = proj(t, pi)
        if out[0] != 'V':
            return "postings: %s" % show(out)
        singles = [x[1] for x in out[1] if x[0] == '1']
        many = [t_ for x in out[1] if x[0] == 'M' for t_ in x[1]]
        g = lambda q, f_: proj(q, fidx(p, PO, f_))
        if 'postings' in parts or 'fill' in parts or 'assign' in parts:
            used = []
            for i, s in enumerate(shapes):
                if i in sp.elided:
                    continue
                def same_p(q):
                    if g(q, 'account') != accs[i] or g(q, 'kind') != g(ps[i], 'kind'):
                        return False
                    am = g(q, 'amount')
                    if i in sp.amounts:
                        if am[0] != 'A' or am[2] != 1:
                            return False
                        try:
                            return same_l(st, lmoney(st, am[3][0]), sp.amounts[i])
                        except (Unsupported, Fork):
                            return False
                    return am == g(ps[i], 'amount')
                k_ = [j for j, q in enumerate(singles) if j not in used and same_p(q)]
                if not k_:
                    if i in sp.amounts:
                        if 'assign' in parts:
                            return "posting %d is not given the difference between the asserted and the running balance %s" % (i, show(sp.amounts[i]))
                        continue
                    if 'postings' in parts:
                        return "posting %d (%r) does not survive with its account, amount and kind" % (i, s)
                    continue
                j = k_[0]
                used.append(j)
                if 'fields' in parts:
                    for f_ in ('cost', 'balance', 'tags', 'payee'):
                        if g(singles[j], f_) != g(ps[i], f_):
                            return "posting %d: %s changes from %s to %s" % (i, f_, show(g(ps[i], f_)), show(g(singles[j], f_)))
            rest = [q for j, q in enumerate(singles) if j not in used]
            if 'postings' in parts and not any(i in sp.amounts for i in range(n)):
                ext = [q for q in rest + [m_[0] for m_ in many] if not (sp.elided and g(q, 'amount')[0] == 'A' and g(q, 'amount')[2] == 1
                       and (has_com(g(q, 'amount')[3][0], G) or has_com(g(q, 'amount')[3][0], ('t', 'o', -1))))]
                if ext:
                    return "an extra posting appears: %s" % show(ext[0])
            if 'fill' in parts and sp.elided:
                e = sp.elided[0]
                want = lneg(sp.total)
                if not want[1] or any(st.facts.get(('v', T('pred', 'Lany', w_))) is False for w_ in (want, sp.total)):
                    pass
                else:
                    qs = [q for q in rest if g(q, 'amount')[0] == 'A' and g(q, 'amount')[2] == 1 and has_com(g(q, 'amount')[3][0], G)]
                    if len(qs) != 1 and st.sign(T('coef', want, G)) != frozenset('0') and st.sign(T('coef', sp.total, G)) != frozenset('0'):
                        return "a commodity of the missing amount is filled %d times: %s" % (len(qs), show(out))
                    for q, o in [(q, G) for q in qs] + [(q[0], ('t', 'o', -1)) for q in many]:
                        am = g(q, 'amount')
                        if g(q, 'account') != accs[e]:
                            return "the missing amount goes to %s instead of %s" % (show(g(q, 'account')), show(accs[e]))
                        if g(q, 'kind') != g(ps[e], 'kind'):
                            return "the filled posting changes kind"
                        if am[0] != 'A' or am[2] != 1 or not coef_is(st, am[3][0], want, o):
                            return "the elided posting gets %s instead of the coefficients of %s" % (show(am), show(want))
                        if 'fields' in parts:
                            for f_ in ('tags', 'payee'):
                                if g(q, f_) != g(ps[e], f_):
                                    return "filled posting %d: %s changes from %s to %s" % (e, f_, show(g(ps[e], f_)), show(g(q, f_)))
        if 'running' in parts and not sp.elided:
            h = st.deep(st.mem[cells['m']])
            for a in dict.fromkeys(accs):
                x = [v_ for k_, v_ in h[2] if k_ == a]
                if len(x) != 1 or x[0][0] != 'L' or not same_l(st, x[0], sp.bal[a]):
                    return "running balance of %s is %s instead of %s" % (show(a), [show(y) for y in x], show(sp.bal[a]))
        if 'running' in parts and sp.elided:
            h = st.deep(st.mem[cells['m']])
            e = sp.elided[0]
            for a in dict.fromkeys(accs):
                x = [v_ for k_, v_ in h[2] if k_ == a]
                want = sp.bal[a]
                if len(x) != 1 or x[0][0] != 'L':
                    return "running balance of %s: %s" % (show(a), [show(y) for y in x])
                if a != accs[e]:
                    if not same_l(st, x[0], want):
                        return "running balance of %s is %s instead of %s" % (show(a), show(x[0]), show(want))
                else:
                    # any number of filled commodities may have been added
                    d = ladd(x[0], lneg(want))
                    bad = [u for u, c_ in d[1] if u != REST and u != G and not (u[0] == 't' and u[1] == 'o')]
                    w_ = lneg(sp.total)
                    nz = '0' not in st.sign(T('coef', w_, G)) or '0' not in st.sign(T('coef', sp.total, G))
                    if w_[1] and nz and not coef_is(st, money(ld(d).get(G, PZERO), G), w_, G):
                        bad = [G]
                    if bad:
                        return "running balance of %s is %s instead of %s plus the filled amounts" % (show(a), show(x[0]), show(want))
        return None
    c = Case(ctx, fn, key, fn_over=LOVER, anyorder=False)
    return c.run('', None, fs, ck, setup=setup)


def has_com(m, c):
    return m[0] == 'A' and m[1] == MONEY and m[2] == 1 and m[3][1] == c


def coef_is(st, m, want, o):
    """amount m is the coefficient of commodity o in want"""
    if m[0] == 'A' and m[1] == MONEY and m[2] == 1:
        a, c = m[3]
        if c == o and a == T('coef', want, o):
            return True
        # negated after iterating over the sum itself
        if c == o and a == pneg(T('coef', lneg(want), o)):
            return True
    return False


def txn_cases(thorough):
    S = list(all_shapes())
    for s in S:
        yield [s], False
    small = [s for s in S if s.kind == 'R'] + [Shape('B', True), Shape('V', True), Shape('B', False), Shape('V', False)]
    for a, b in itertools.product(S, small):
        yield [a, b], False
    for a, b in itertools.product(small, small):
        if a.kind == 'R' and b.kind == 'R':
            yield [a, b], True
    third = [Shape('R', True), Shape('R', False), Shape('R', False, None, True), Shape('B', True), Shape('V', True), Shape('R', True, 'T'), Shape('R', True, None, True)]
    if thorough:
        trip = itertools.product(small, third, third)
    else:
        trip = itertools.product(third[:4], third[:5], third[:4])
    for a, b, c in trip:
        yield [a, b, c], False
        if thorough and a.kind == b.kind == c.kind == 'R':
            yield [a, b, c], True


def elided_fields(ctx):
    """C21: a posting whose amount is filled keeps what was written in it"""
    run_txn(ctx, ('postings', 'fill', 'fields'), 'balancing keeps what is written', [([Shape(*a), Shape(*b)], False) for a in (('R', True), ('R', True, 'T'), ('R', True, 'U'), ('R', True, None, True), ('B', True), ('V', True)) for b in (('R', False), ('R', True))])


def run_txn(ctx, parts, rule, cases=None):
    p = ctx.p
    fn = fnd(p, 'Transaction::<dinero::models::transaction::Posting>::balance')
    if fn is None:
        ctx.undecided(rule, "Transaction::balance not found")
        return
    for shapes, same in cases or txn_cases(ctx.thorough):
        for skip in (False, True):
            if skip and not any(s.asrt for s in shapes):
                continue
            check_txn(ctx, p, fn, shapes, same, skip, parts, rule)
