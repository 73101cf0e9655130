"""Specifications of the amount and balance operations, decided by abstract interpretation of their MIR."""
from scen import *
from rules import where

MONEY = 'dinero::models::money::Money'
BAL = 'dinero::models::balance::Balance'
ZERO = ('A', MONEY, 0, ())


def money(a, c):
    return ('A', MONEY, 1, (a, c))


def sg(t, s):
    return {('sg', t): frozenset(s)}


def cc(a, b, s):
    k, flip = okey(a, b)
    if flip:
        s = [{'<': '>', '>': '<', '=': '='}[x] for x in s]
    return {k: frozenset(s)}


def facts(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


class Case:
    def __init__(self, ctx, fn, rule, **kw):
        self.ctx, self.fn, self.rule, self.kw = ctx, fn, rule, kw

    def run(self, label, args, fs=None, check=None, setup=None):
        """check(kind, value, st) -> None if fine, else message"""
        ctx = self.ctx
        if self.fn is None:
            ctx.undecided(self.rule, "function not found")
            return False
        try:
            return self.run_(label, args, fs, check, setup)
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided("%s: %s" % (self.rule, label), "internal error: %s %s" % (type(e).__name__, e))
            return False

    def run_(self, label, args, fs, check, setup):
        ctx = self.ctx
        kw = dict(self.kw)
        kw.setdefault('anyorder', True)
        r = Run(ctx.p, **kw)
        out = r.go(self.fn, args, dict(fs or {}), setup=setup)
        ctx.count("paths", len(out))
        ctx.count("abstract states", r.eng.nstates)
        tr = r.trouble()
        key = "%s: %s" % (self.rule, label)
        if tr:
            ctx.undecided(key, "; ".join(tr[:3]))
            return False
        if not out:
            ctx.undecided(key, "no outcome")
            return False
        good = True
        for kind, info, st in out:
            v = st.deep(info) if kind == 'return' else info
            m = split(check, kind, v, st)
            if m:
                good = False
                ctx.bad(key, where(self.fn), "%s\n  outcome: %s %s\n  path: %s" % (
                    m, kind, show(v) if kind == 'return' else info, "; ".join(showfacts(st))[:1500]))
                break
        if good:
            ctx.ok(self.rule, "%s [%s]" % (where(self.fn), label))
        return good


def split(check, kind, v, st, n=0):
    """verdict of a check on an outcome; what the check asks about and the path left open is distinguished by cases"""
    try:
        m = check(kind, v, st)
    except Fork as f:
        if n > 8:
            raise
        for alt in f.alts:
            s2 = st.copy()
            s2.facts = dict(s2.facts, **{}) if isinstance(s2.facts, dict) else s2.facts
            s2.facts.update(alt)
            if not s2.feasible():
                continue
            m = split(check, kind, s2.deep(v) if kind == 'return' else v, s2, n + 1)
            if m:
                return m
        return None
    return None if m == 'skip' or m and not st.feasible() else m


def is_(exp):
    def ck(kind, v, st):
        if kind != 'return':
            return "expected %s, but the function ends with %s" % (show(exp), kind)
        if v != exp:
            return "expected %s, got %s" % (show(exp), show(v))
    return ck


def tr(b):
    """boolean result decided by the facts"""
    def ck(kind, v, st):
        if kind != 'return':
            return "expected %s, but the function ends with %s" % (b, kind)
        try:
            x = st.truth(v)
        except Fork:
            return "result %s is not determined by the case (expected %s)" % (show(v), b)
        if x != b:
            return "expected %s, got %s" % (b, x)
    return ck


A, B, C, D, R_ = sym('a'), sym('b'), sym('c'), sym('d'), sym('r')


def mzero(v, st):
    """is an abstract Money zero? True/False/None"""
    if v == ZERO:
        return True
    if v[0] == 'A' and v[1] == MONEY:
        s = st.sign(v[3][0])
        return True if s == frozenset('0') else False if '0' not in s else None
    return None


def money_is(exp_amt, cur):
    """result is the amount exp_amt of commodity cur (Zero counts as amount 0)"""
    def ck(kind, v, st):
        if kind != 'return':
            return "expected an amount, but the function ends with %s" % kind
        if v == ZERO:
            if st.sign(exp_amt) == frozenset('0'):
                return None
            return "expected %s %s, got zero" % (show(exp_amt), show(cur))
        if v[0] == 'A' and v[1] == MONEY and v[2] == 1:
            if v[3][1] == cur and st.order(v[3][0], exp_amt) == frozenset('='):
                return None
        return "expected %s %s, got %s" % (show(exp_amt), show(cur), show(v))
    return ck


def money_kernels(ctx):
    p = ctx.p
    M_ = lambda s: fnd(p, s)
    sgs = '-0+'
    def case(fn, rule):
        return Case(ctx, fn, rule)
    c = case(M_('money::Money::is_zero'), 'an amount is zero exactly if its quantity is')
    for s in sgs:
        c.run(s, [X(money(A, C))], sg(A, s), tr(s == '0'))
    c.run('Zero', [X(ZERO)], {}, tr(True))
    c = case(M_('money::Money::is_negative'), 'an amount is negative exactly if its quantity is')
    for s in sgs:
        c.run(s, [X(money(A, C))], sg(A, s), tr(s == '-'))
    c = case(M_('money::Money::is_positive'), 'an amount is positive exactly if its quantity is')
    for s in sgs:
        c.run(s, [X(money(A, C))], sg(A, s), tr(s == '+'))
    c = case(M_('money::Money::get_amount'), 'the quantity of an amount')
    c.run('amount', [X(money(A, C))], {}, is_(A))
    def z(kind, v, st):
        return None if kind == 'return' and st.sign(v) == frozenset('0') else "expected 0, got %s" % (show(v) if kind == 'return' else kind)
    c.run('zero', [X(ZERO)], {}, z)
    c = case(M_('money::Money::get_commodity'), 'the commodity of an amount')
    c.run('amount', [X(money(A, C))], {}, is_(some(C)))
    c.run('zero', [X(ZERO)], {}, is_(NONE))
    c = case(M_('Money as std::ops::Neg>::neg'), 'negation')
    c.run('amount', [money(A, C)], {}, money_is(pneg(A), C))
    c.run('zero', [ZERO], {}, is_(ZERO))
    c = case(M_('money::Money::abs'), 'absolute value')
    for s in sgs:
        c.run(s, [X(money(A, C))], sg(A, s), money_is(pneg(A) if s == '-' else A, C))
    c = case(_find_op(p, 'Mul', 'mul'), 'product')
    c.run('amount', [money(A, C), R_], {}, money_is(pmul(A, R_), C))
    c.run('zero', [ZERO, R_], {}, is_(ZERO))
    c = case(_find_op(p, 'Div', 'div'), 'quotient')
    c.run('amount', [money(A, C), R_], sg(R_, '-+'), money_is(pmul(A, pinv(R_)), C))
    c = case(_find_from(p), 'construction')
    c.run('pair', [('T', (C, A))], {}, money_is(A, C))


def _find_op(p, tr_, meth):
    for x in p.local_fns():
        if 'Money as std::ops::%s<' % tr_ in x.name and x.name.endswith('>::' + meth):
            return x
    return None


def _find_from(p):
    for x in p.local_fns():
        if 'Money as std::convert::From<(std::rc::Rc' in x.name and x.name.endswith('>::from'):
            return x
    return None


# ------------------------------------------------------------------ balances
O_ = ('t', 'o', -1)


def others(c=C, amount=TOP):
    """any number of entries of commodities other than c, and possibly the commodity-less zero"""
    return frozenset([(('T', (some(O_), money(amount, O_))), frozenset(cc(O_, c, '<>').items())),
                      (('T', (NONE, ZERO)), frozenset())])


def bal(entries, tmpl=frozenset()):
    return ('A', BAL, 0, (('H', 'map', tuple(entries), tmpl),))


def one(a, c=C):
    return (some(c), money(a, c))


def at(v, c, st):
    """quantity of commodity c in an abstract balance: (amount, problem)"""
    if v[0] != 'A' or v[1] != BAL or v[3][0][0] != 'H':
        return None, "not a balance: %s" % show(v)
    h = v[3][0]
    found = None
    for k, m in h[2]:
        if k == some(c):
            if found is not None:
                return None, "two entries for %s" % show(c)
            if m == ZERO:
                found = PZERO
            elif m[0] == 'A' and m[2] == 1:
                if m[3][1] != c:
                    return None, "entry of %s holds an amount of %s" % (show(c), show(m[3][1]))
                found = m[3][0]
            else:
                return None, "entry %s" % show(m)
    for t in h[3]:
        if t[0] == 'base' or t[0] == TOP:
            return None, "imprecise balance %s" % show(v)
        # an "other" entry must not be able to hold c
        k = t[0][1][0]
        if k == some(c):
            return None, "duplicate entry"
    return (PZERO if found is None else found), None


def bal_is(exp, c=C):
    def ck(kind, v, st):
        if kind != 'return':
            return "expected a balance, but the function ends with %s" % kind
        a, pr = at(v, c, st)
        if pr:
            return pr
        if st.order(a, exp) != frozenset('=') and st.sign(padd(exp, pneg(a))) != frozenset('0'):
            return "expected %s of commodity %s, got %s" % (show(exp), show(c), show(a))
    return ck


def bal_shapes(tag, tmpl=True):
    """balances: tracked commodity absent / present, others any"""
    ts = others() if tmpl else frozenset()
    a = sym(tag)
    yield 'absent', bal([], ts), PZERO
    yield 'present', bal([one(a)], ts), a


def balance_kernels(ctx):
    p = ctx.p
    M_ = lambda s: fnd(p, s)
    add = M_('Balance as std::ops::Add>::add')
    c = Case(ctx, add, 'sum of balances per commodity')
    for la, va, a in bal_shapes('a'):
        for lb, vb, b in bal_shapes('b'):
            c.run(la + '+' + lb, [va, vb], {}, bal_is(padd(a, b)))
    c.run('zero', [bal([(NONE, ZERO)]), bal([one(B)], others())], {}, bal_is(B))
    c = Case(ctx, M_('Balance as std::ops::Sub>::sub'), 'difference of balances per commodity')
    for la, va, a in bal_shapes('a'):
        for lb, vb, b in bal_shapes('b'):
            c.run(la + '-' + lb, [va, vb], {}, bal_is(padd(a, pneg(b))))
    c = Case(ctx, M_('Balance as std::ops::Neg>::neg'), 'negated balance per commodity')
    for la, va, a in bal_shapes('a'):
        c.run(la, [va], {}, bal_is(pneg(a)))
    c = Case(ctx, M_('balance::Balance::new'), 'the new balance is empty')
    c.run('new', [], {}, lambda k, v, st: None if k == 'return' and v == bal([]) else "not empty: %s" % show(v))
    c = Case(ctx, M_('Balance as std::convert::From<dinero::models::money::Money>>::from'), 'balance of one amount')
    c.run('amount', [money(A, C)], {}, lambda k, v, st: bal_is(A)(k, v, st) or (None if not v[3][0][3] and len(v[3][0][2]) <= 1 else "more than one commodity: %s" % show(v)))
    def zerolike(k, v, st):
        if k != 'return' or v[0] != 'A' or v[3][0][0] != 'H':
            return "not a balance"
        if v[3][0][3] or any(mzero(m, st) is not True for _, m in v[3][0][2]):
            return "not zero: %s" % show(v)
    c.run('zero', [ZERO], {}, zerolike)
    c = Case(ctx, _find_money_bin(p, 'Add', 'add'), 'sum of two amounts')
    c.run('same commodity', [money(A, C), money(B, C)], {}, bal_is(padd(A, B)))
    c.run('other commodity', [money(A, C), money(B, D)], cc(C, D, '<>'), lambda k, v, st: bal_is(A, C)(k, v, st) or bal_is(B, D)(k, v, st))
    c = Case(ctx, _find_money_bin(p, 'Sub', 'sub'), 'difference of two amounts')
    c.run('same commodity', [money(A, C), money(B, C)], {}, bal_is(padd(A, pneg(B))))
    c.run('other commodity', [money(A, C), money(B, D)], cc(C, D, '<>'), lambda k, v, st: bal_is(A, C)(k, v, st) or bal_is(pneg(B), D)(k, v, st))


def _find_money_bin(p, tr_, meth):
    for x in p.local_fns():
        if x.name.endswith('Money as std::ops::%s>::%s' % (tr_, meth)):
            return x
    return None


def AM(o=O_):
    return ('t', 'amt', o)


def others_sg(signs, excl=(C,)):
    """any number of entries of other commodities whose quantities have one of the signs"""
    fs = {}
    for x in excl:
        fs.update(cc(O_, x, '<>'))
    fs[('sg', AM())] = frozenset(signs)
    return frozenset([(('T', (some(O_), money(AM(), O_))), frozenset(fs.items()))])


def balance_predicates(ctx, which=('zero', 'cbz', 'money', 'eq')):
    p = ctx.p
    M_ = lambda s: fnd(p, s)
    if 'zero' in which:
        c = Case(ctx, M_('balance::Balance::is_zero'), 'a balance is zero exactly if every commodity is')
        c.run('empty', [X(bal([]))], {}, tr(True))
        c.run('zero amount', [X(bal([(NONE, ZERO)]))], {}, tr(True))
        c.run('all others zero', [X(bal([], others_sg('0')))], {}, tr(True))
        for s in '-0+':
            c.run('%s, others zero' % s, [X(bal([one(A)], others_sg('0')))], sg(A, s), tr(s == '0'))
        for s in '-+':
            c.run('%s, others any' % s, [X(bal([one(A)], others_sg('-0+')))], sg(A, s), tr(False))
    if 'cbz' in which:
        c = Case(ctx, M_('balance::Balance::can_be_zero'), 'a residue is acceptable exactly if it is zero or has both signs')
        c.run('empty', [X(bal([]))], {}, tr(True))
        c.run('all zero', [X(bal([], others_sg('0')))], {}, tr(True))
        c.run('zero amount', [X(bal([(NONE, ZERO)]))], {}, tr(True))
        for s in '-+':
            c.run('%s, no other' % s, [X(bal([one(A)]))], sg(A, s), tr(False))
            c.run('%s, others zero' % s, [X(bal([one(A)], others_sg('0')))], sg(A, s), tr(False))
            c.run('%s, others %s or zero' % (s, s), [X(bal([one(A)], others_sg('0' + s)))], sg(A, s), tr(False))
        for x, y in ('-+', '+-'):
            c.run('%s and %s, others any' % (x, y), [X(bal([one(A, C), one(B, D)], others_sg('-0+', (C, D))))],
                  facts(sg(A, x), sg(B, y), cc(C, D, '<>')), tr(True))
    if 'money' in which:
        c = Case(ctx, M_('balance::Balance::to_money'), 'a balance is one amount exactly if at most one commodity is not zero')
        def okm(a):
            def ck(k, v, st):
                if k != 'return' or v[0] != 'A' or v[2] != 0:
                    return "expected one amount, got %s" % (show(v) if k == 'return' else k)
                return money_is(a, C)(k, v[3][0], st)
            return ck
        def er(k, v, st):
            return None if k == 'return' and v[0] == 'A' and v[2] == 1 else "expected an error, got %s" % (show(v) if k == 'return' else k)
        c.run('empty', [X(bal([]))], {}, okm(PZERO))
        for s in '-+':
            c.run('%s, others zero' % s, [X(bal([one(A)], others_sg('0')))], sg(A, s), okm(A))
            for s2 in '-+':
                c.run('%s and %s, others any' % (s, s2), [X(bal([one(A), one(B, D)], others_sg('-0+', (C, D))))], facts(sg(A, s), sg(B, s2), cc(C, D, '<>')), er)
    if 'eq' in which:
        c = Case(ctx, M_('Balance as std::cmp::PartialEq>::eq'), 'an asserted amount equals a balance exactly if the balance has that quantity of its commodity')
        for o in '<=>':
            c.run('present %s' % o, [X(bal([one(A)])), X(bal([one(B)], others()))], cc(A, B, o), tr(o == '='))
        for s in '-0+':
            c.run('absent %s' % s, [X(bal([one(A)])), X(bal([], others()))], sg(A, s), tr(s == '0'))


# ------------------------------------------------------------------ construction of values by field name
def adt_info(p, suffix, crate='lib'):
    for t in p.types[crate]:
        if t.get('k') == 'adt' and t.get('local') and (t['def'] == suffix or t['def'].endswith('::' + suffix)):
            return t
    raise KeyError(suffix)


def mk(p, suffix, _variant=0, _rest=None, **fields):
    t = adt_info(p, suffix)
    names = [n for n, _ in t['variants'][_variant]['fields']]
    for k in fields:
        if k not in names:
            raise KeyError("%s.%s" % (suffix, k))
    return ('A', t['def'], _variant, tuple(fields[n] if n in fields else (_rest(n) if _rest else sym(suffix + '.' + n)) for n in names))


def fidx(p, suffix, name, variant=0):
    t = adt_info(p, suffix)
    return [n for n, _ in t['variants'][variant]['fields']].index(name)


def vidx(p, suffix, variant):
    t = adt_info(p, suffix)
    return [v['name'] for v in t['variants']].index(variant)


def get(p, v, suffix, name):
    """field by name of an abstract struct value"""
    return proj(v, fidx(p, suffix, name))


def V(*xs):
    return ('V', tuple(('1', x) for x in xs))


# ------------------------------------------------------------------ decimal literals
def digit(n):
    return sym('digit%s' % n)


def digit_facts(ds, extra=".-+\n\t \"';=@(){}[]/"):
    fs = {}
    for d in ds:
        fs[('nv', d)] = frozenset(extra)
    return fs


def strval(parts):
    """value of a decimal digit string: polynomial or None"""
    neg = False
    v = None
    first = True
    for x in parts:
        if x[0] in ('s', 'c'):
            for ch in x[1]:
                if ch in '-+' and first:
                    neg = ch == '-'
                elif ch.isdigit():
                    v = padd(pmul(v or PZERO, pconst(10)), pconst(int(ch)))
                else:
                    return None
                first = False
        else:
            v = padd(pmul(v or PZERO, pconst(10)), T('dv', x))
            first = False
    if v is None:
        return None
    return pneg(v) if neg else v


def m_bigint_from_str(eng, st, fr, call):
    s = st.deep(call.args[0])
    parts = s[2:] if s[0] == 't' and s[1] == 'cat' else (s,)
    if not all(x[0] == 's' or (x[0] == 't' and x[1] == 'sym' and str(x[2]).startswith('digit')) for x in parts):
        raise Unsupported("number from %s" % show(s))
    v = strval(parts)
    return err(T('parseerr')) if v is None else ok(v)


def tokenizer(p, chars, pos=0):
    return mk(p, 'parser::Tokenizer', file=NONE, content=V(*chars), line_index=('i', 0), line_position=('i', 3),
              position=('i', pos), line_string=('s', ''), line_characters=V(), seen_files=('H', 'set', (), frozenset()))


def literal_shapes(n):
    """(label, characters, value) of decimal literals with up to n integer and fraction digits"""
    # longer ones as well: a cap on the digits, or a machine number on the way, shows only there
    for neg in (False, True):
        for i in list(range(0, n + 1)) + [24, 70]:
            for f_ in list(range(0, n + 1)) + [24, 70]:
                if i + f_ == 0 or (i > n or f_ > n) and not (i in (1, n) or f_ in (0, n) or i == f_ == 24):
                    continue
                ds = [digit(k) for k in range(i + f_)]
                v = PZERO
                for d in ds:
                    v = padd(pmul(v, pconst(10)), T('dv', d))
                v = pmul(v, pconst(Fraction(1, 10 ** f_)))
                ch = ([('c', '-')] if neg else []) + ds[:i] + ([('c', '.')] + ds[i:] if f_ else [])
                yield "%s%d.%d digits" % ('-' if neg else '', i, f_), ch, (pneg(v) if neg else v), ds


def literals(ctx):
    p = ctx.p
    n = 5 if ctx.thorough else 3
    em = {'std::str::FromStr::from_str': m_bigint_from_str}
    c = Case(ctx, fnd(p, 'tokenizers::transaction::parse_amount'), 'a literal is read as exactly the number written', intmax=400, extra_models=em)
    for label, ch, v, ds in literal_shapes(n):
        def ck(kind, r, st, v=v):
            if kind != 'return' or r[0] != 'A' or r[2] != 0:
                return "a valid literal is rejected: %s" % (show(r) if kind == 'return' else kind)
            if st.order(r[3][0], v) != frozenset('='):
                return "expected %s, got %s" % (show(v), show(r[3][0]))
        for end in ((), (('c', ' '), ('c', 'E')), (('c', '\n'),)):
            t = tokenizer(p, ch + list(end))
            c.run(label + (' then %r' % end[0][1] if end else ''), None, digit_facts(ds), ck,
                  setup=lambda st, t=t: [('R', st.alloc(t), ())])
    fn = fnd(p, 'parser::utils::parse_rational')
    written = [(x, [('c', y) for y in x], pconst(Fraction(x)), []) for x in
               ('0', '1', '10', '100', '1000', '1000000', '0.10', '0.100', '1.00', '1.0', '100.00', '00.50', '007', '0.05', '0.005', '-100', '-1.00', '-0.10', '-0', '12.3400', '20.20', '0.0', '0.00')]
    for label, ch, v, ds in written + list(literal_shapes(n)):
        if ch[0] == ('c', '.') or ch[:2] == [('c', '-'), ('c', '.')]:
            continue    # the grammar requires an integer part
        from models import cat
        text = cat(*ch)
        em2 = dict(em)
        em2['dinero::pest::iterators::Pair::as_str'] = lambda eng, st, fr, call, text=text: text
        em2['core::str::chars'] = lambda eng, st, fr, call, ch=ch, text=text: ('I', 'seq', (V(*ch),)) if st.deep(call.args[0]) == text else M['core::str::chars'](eng, st, fr, call)
        c = Case(ctx, fn, 'a number of an expression or price is read as exactly the number written', intmax=400, extra_models=em2)
        def ck(kind, r, st, v=v):
            if kind != 'return':
                return "a valid literal ends with %s" % kind
            if st.order(r, v) != frozenset('='):
                return "expected %s, got %s" % (show(v), show(r))
        c.run('written %s' % label if not ds else label, [sym('pair')], digit_facts(ds), ck)
        if ctx.viol:
            return
