"""Queries and value expressions (C14)."""
import itertools, os
import peg, export
from lists import *

VE = 'parser::value_expr::'
ND, ER, UN, BI = VE + 'Node', VE + 'EvalResult', VE + 'Unary', VE + 'Binary'
TG = 'models::models::Tag'


def var(p, suffix, name, *fields, **kw):
    t = adt_info(p, suffix)
    i = vidx(p, suffix, name)
    if kw:
        names = [n for n, _ in t['variants'][i]['fields']]
        fields = tuple(kw[n] for n in names)
    return ('A', t['def'], i, tuple(fields))


def leaf(n):
    return T('leaf', n)


def evalover(vals):
    """eval of a leaf is the value it stands for; of a leaf 'any' a predicate of the posting"""
    def h(eng, st, fr, args):
        n = st.deep(args[0])
        if n[0] == 't' and n[1] == 'leaf':
            if n[2] == 'any':
                b = st.truth(T('pred', 'child', proj(st.deep(args[1]), fidx(eng.p, PO, 'account'))))
                return var(eng.p, ER, 'Boolean', ('b', b))
            return vals[n[2]]
        return NotImplemented
    return (r"value_expr::eval$", h)


def re_match(re_, s):
    return T('app', 'regex::Regex::is_match', re_, s)


def eval_rules(ctx):
    p = ctx.p
    fn = fnd(p, 'value_expr::eval')
    if fn is None:
        ctx.undecided('eval', 'function not found')
        return
    num = lambda x: var(p, ER, 'Number', x)
    mon = lambda a, c=C: var(p, ER, 'Money', money(a, c))
    boo = lambda b: var(p, ER, 'Boolean', ('b', b))
    stg = lambda s: var(p, ER, 'String', some(s))
    dat = lambda d: var(p, ER, 'Date', d)
    rex = lambda r: var(p, ER, 'Regex', r)
    name, pname, re_ = sym('accname'), sym('payname'), sym('re')
    acc_ = mk(p, AC, name=name, matches=mkmap(()))
    pay_ = mk(p, 'models::payee::Payee', name=pname, matches=mkmap(()))
    tags = [mk(p, TG, name=sym('tag%d' % i), value=sym('tagval%d' % i)) for i in range(2)]
    post = mk(p, PO, account=acc_, amount=some(money(sym('amt'), sym('com'))), payee=some(pay_), tags=V(*tags))
    CM = 'models::comment::Comment'
    NC = 7
    coms = [mk(p, CM, comment=sym('note%d' % i)) for i in range(NC)]
    tx = mk(p, TX, date=some(sym('txdate')), comments=V(*coms), postings=V(post))
    lists_ = T('sym', 'commodities')

    def args(node, tx_=None, po=None, com=None):
        return [X(node), X(po or post), X(tx_ or tx), X(com or lists_), X(mkmap(()))]

    def isv(check):
        def ck(kind, v, st):
            if kind != 'return':
                return "ends with %s" % kind
            return check(v, st)
        return ck

    def result(want):
        """want: an EvalResult value, a truth value, or a boolean term"""
        def ck(v, st):
            if v[0] != 'A' or v[1] != adt_info(p, ER)['def']:
                return "gives %s" % show_(v)
            vn = adt_info(p, ER)['variants'][v[2]]['name']
            if isinstance(want, bool) or want[0] == 't':
                if vn != 'Boolean':
                    return "gives %s" % show_(v)
                w = want if isinstance(want, bool) else st.truth(want)
                g = st.truth(v[3][0])
                return None if g == w else "answers %s instead of %s" % (g, w)
            wn = adt_info(p, ER)['variants'][want[2]]['name']
            if vn != wn:
                return "gives %s instead of %s" % (show_(v), show_(want))
            if vn == 'Number':
                return None if st.sign(padd(v[3][0], pneg(want[3][0]))) == frozenset('0') else "gives %s instead of %s" % (show_(v), show_(want))
            if vn == 'Money':
                m = money_is(want[3][0][3][0], want[3][0][3][1])('return', v[3][0], st)
                return m
            if eta(v) != eta(want):
                return "gives %s instead of %s" % (show_(v), show_(want))
        return isv(ck)
    rule = 'an operator evaluates to its documented meaning'
    c = lambda vals=None: Case(ctx, fn, rule, fn_over=[evalover(vals or {})] + LISTS, anyorder=False)

    def bi(op, l, r, want, fs=None, label=''):
        node = var(p, ND, 'BinaryExpr', op=var(p, BI, op), lhs=leaf('l'), rhs=leaf('r'))
        c({'l': l, 'r': r}).run('%s %s' % (op, label), args(node), fs or {}, result(want))

    def un(op, x, want, fs=None, label=''):
        node = var(p, ND, 'UnaryExpr', op=var(p, UN, op), child=leaf('l'))
        c({'l': x}).run('%s %s' % (op, label), args(node), fs or {}, result(want))
    for a in (False, True):
        un('Not', boo(a), not a, label=str(a))
        for b in (False, True):
            bi('Or', boo(a), boo(b), a or b, label='%s %s' % (a, b))
            bi('And', boo(a), boo(b), a and b, label='%s %s' % (a, b))
    rel = {'Eq': '=', 'Ne': '<>', 'Lt': '<', 'Gt': '>', 'Le': '<=', 'Ge': '>='}
    for op, good in rel.items():
        for o in '<=>':
            w = o in good
            f = cc(A, B, o)
            fq = {('sg', padd(A, pneg(B))): frozenset({'<': '-', '=': '0', '>': '+'}[o])}
            f = dict(fq, **{})
            f.update(cc(A, B, o))
            bi(op, num(A), num(B), w, f, 'numbers %s' % o)
            bi(op, mon(A), mon(B), w, f, 'amounts %s' % o)
            bi(op, mon(A), num(B), w, f, 'amount and number %s' % o)
            bi(op, num(A), mon(B), w, f, 'number and amount %s' % o)
            bi(op, dat(sym('d1')), dat(sym('d2')), w, cc(sym('d1'), sym('d2'), o), 'dates %s' % o)
            bi(op, stg(sym('s1')), stg(sym('s2')), w, cc(sym('s1'), sym('s2'), o), 'strings %s' % o)
    for a in (False, True):
        for b in (False, True):
            bi('Eq', boo(a), boo(b), a == b, label='booleans %s %s' % (a, b))
            bi('Ne', boo(a), boo(b), a != b, label='booleans %s %s' % (a, b))
    # regular expressions
    bi('Eq', var(p, ER, 'Account', acc_), rex(re_), re_match(re_, name), label='account matches')
    bi('Eq', var(p, ER, 'Payee', pay_), rex(re_), re_match(re_, pname), label='payee matches')
    bi('Eq', stg(sym('s1')), rex(re_), re_match(re_, sym('s1')), label='string matches')
    bi('Eq', var(p, ER, 'String', NONE), rex(re_), False, label='missing tag matches')

    node = var(p, ND, 'BinaryExpr', op=var(p, BI, 'Eq'), lhs=leaf('l'), rhs=leaf('r'))

    def note(v, st):
        if v[0] != 'A' or adt_info(p, ER)['variants'][v[2]]['name'] != 'Boolean':
            return "gives %s" % show_(v)
        ms = [st.facts.get(('v', re_match(re_, sym('note%d' % i)))) for i in range(NC)]
        w = True if True in ms else None if None in ms else False
        g = st.truth(v[3][0])
        if w is None:
            try:
                w = any([st.truth(re_match(re_, sym('note%d' % i))) for i in range(NC)])
            except Fork:
                return "the answer %s does not depend on every comment" % g
        return None if g == w else "answers %s instead of %s" % (g, w)
    c({'l': var(p, ER, 'Note'), 'r': rex(re_)}).run('note matches', args(node), {}, isv(note))
    # arithmetic
    bi('Add', num(A), num(B), num(padd(A, B)), label='numbers')
    bi('Subtract', num(A), num(B), num(padd(A, pneg(B))), label='numbers')
    bi('Mult', num(A), num(B), num(pmul(A, B)), label='numbers')
    bi('Div', num(A), num(B), num(pmul(A, pinv(B))), sg(B, '-+'), label='numbers')
    for o in ('-', '0', '+'):
        bi('Add', mon(A), mon(B), mon(padd(A, B)), {('sg', padd(A, B)): frozenset(o)}, label='amounts %s' % o)
        bi('Subtract', mon(A), mon(B), mon(padd(A, pneg(B))), {('sg', padd(A, pneg(B))): frozenset(o)}, label='amounts %s' % o)
    bi('Mult', mon(A), num(B), mon(pmul(A, B)), label='amount by number')
    bi('Mult', num(A), mon(B), mon(pmul(A, B)), label='number by amount')
    bi('Div', mon(A), num(B), mon(pmul(A, pinv(B))), sg(B, '-+'), label='amount by number')
    un('Neg', num(A), num(pneg(A)), label='number')
    un('Neg', mon(A), mon(pneg(A)), label='amount')
    for o in '-0+':
        w = pneg(A) if o == '-' else A
        un('Abs', num(A), num(w), sg(A, o), 'number %s' % o)
        un('Abs', mon(A), mon(w), sg(A, o), 'amount %s' % o)

    Case(ctx, fn, rule, fn_over=[evalover({'l': stg(sym('s1'))}), (r"app::date_parser$", lambda eng, st, fr, a: ok(T('dateof', st.deep(a[0]))))] + LISTS, anyorder=False).run(
        'ToDate', args(var(p, ND, 'UnaryExpr', op=var(p, UN, 'ToDate'), child=leaf('l'))), {}, result(dat(T('dateof', sym('s1')))))

    # tags
    def anytag(v, st):
        ms = [st.facts.get(('v', re_match(re_, sym('tag%d' % i)))) for i in range(2)]
        if v[0] != 'A' or v[2] != vidx(p, ER, 'Boolean'):
            return "gives %s" % show_(v)
        g = st.truth(v[3][0])
        w = True if True in ms else False if ms == [False, False] else None
        return None if g == w else "answers %s where the tags match: %s" % (g, ms)

    def firsttag(match):
        def f(v, st):
            w = NONE
            for i in range(2):
                m = match(st, i)
                if m is None:
                    return "tag %d is not tested" % i
                if m:
                    w = sym('tagval%d' % i)
                    break
            g = v[3][0] if v[0] == 'A' and v[2] == vidx(p, ER, 'String') else None
            return None if g == w else "gives %s instead of %s" % (show_(v), show_(w))
        return f
    ut = lambda op: var(p, ND, 'UnaryExpr', op=var(p, UN, op), child=leaf('l'))
    c({'l': rex(re_)}).run('HasTag', args(ut('HasTag')), {}, isv(anytag))
    c({'l': rex(re_)}).run('Tag by expression', args(ut('Tag')), {}, isv(firsttag(lambda st, i: st.facts.get(('v', re_match(re_, sym('tag%d' % i)))))))

    def same(st, i):
        o = st.order(sym('s1'), sym('tag%d' % i))
        return True if o == frozenset('=') else False if '=' not in o else None
    c({'l': stg(sym('s1'))}).run('Tag by name', args(ut('Tag')), {}, isv(firsttag(same)))
    # any
    accs = [mk(p, AC, name=sym('accname%d' % i), matches=mkmap(())) for i in range(3)]
    for n in (1, 2, 3):
        ps = [mk(p, PO, account=a, amount=some(money(sym('amt%d' % i), sym('com')))) for i, a in enumerate(accs[:n])]
        bare = [mk(p, PO, account=a, amount=NONE) for a in accs[:n]]
        txn = mk(p, TX, date=some(sym('txdate')), comments=V(), postings=V(*ps))

        def anyp(v, st, n=n):
            ms = [st.facts.get(('v', T('pred', 'child', a))) for a in accs[:n]]
            w = True if True in ms else False if None not in ms else None
            g = st.truth(v[3][0]) if v[0] == 'A' and v[2] == vidx(p, ER, 'Boolean') else None
            return None if g == w else "answers %s where the postings answer %s" % (g, ms)
        node = var(p, ND, 'UnaryExpr', op=var(p, UN, 'Any'), child=leaf('any'))
        c().run('Any of %d postings' % n, args(node, txn, ps[0]), {}, isv(anyp))
        for i in range(n):
            mixed = ps[:i] + [bare[i]] + ps[i + 1:]
            for j in range(n):
                tm = mk(p, TX, date=some(sym('txdate')), comments=V(), postings=V(*mixed))
                c().run('Any of %d postings, number %d without amount, asked of number %d' % (n, i + 1, j + 1), args(node, tm, mixed[j]), {}, isv(anyp))
    # fields and constants
    rule2 = 'a field or constant has its own value'
    c2 = Case(ctx, fn, rule2, fn_over=LISTS, anyorder=False)
    n2 = lambda label, node, want: c2.run(label, args(node), {}, result(want))
    n2('amount', var(p, ND, 'Amount'), var(p, ER, 'Money', money(sym('amt'), sym('com'))))
    n2('account', var(p, ND, 'Account'), var(p, ER, 'Account', acc_))
    n2('payee', var(p, ND, 'Payee'), var(p, ER, 'Payee', pay_))
    n2('date', var(p, ND, 'Date'), dat(sym('txdate')))
    n2('note', var(p, ND, 'Note'), var(p, ER, 'Note'))
    n2('number', var(p, ND, 'Number', A), num(A))
    n2('string', var(p, ND, 'String', sym('s1')), stg(sym('s1')))
    n2('regex', var(p, ND, 'Regex', re_), rex(re_))
    n2('money', var(p, ND, 'Money', currency=sym('cur'), amount=A), var(p, ER, 'Money', money(A, ent('commodity', sym('cur')))))
    # the answer of a query
    fe = fnd(p, 'filter::filter_expression')
    for b in (False, True):
        def ans(kind, v, st, b=b):
            if kind != 'return' or v[0] != 'A' or v[1] != RES or v[2] != 0 or v[3][0] != ('b', b):
                return "answers %s instead of %s" % (show_(v) if kind == 'return' else kind, b)
        Case(ctx, fe, 'a query answers what its expression evaluates to', fn_over=[evalover({'l': boo(b)})], anyorder=False).run(str(b), args(leaf('l')), {}, ans)

    def noans(kind, v, st):
        if kind == 'return' and v[0] == 'A' and v[1] == RES and v[2] == 0:
            return "an expression that is not true or false selects postings: %s" % show_(v)
    for nm, x in (('number', num(A)), ('amount', mon(A)), ('string', stg(sym('s1')))):
        Case(ctx, fe, 'an expression without truth value is an error', fn_over=[evalover({'l': x})], anyorder=False).run(nm, args(leaf('l')), {}, noans)


def match_rules(ctx):
    """matching an account or payee answers for the given expression and its own name, cached or not"""
    p = ctx.p
    for ty in (AC, 'models::payee::Payee'):
        fn = next((f for f in p.fns.values() if f.local and f.blocks and f.name.endswith(ty + '::is_match')), None)
        re_ = sym('re')
        key = T('app', 'regex::Regex::as_str', re_)
        other = T('app', 'regex::Regex::as_str', sym('re2'))
        c = Case(ctx, fn, 'matching a name answers for its own name and the given expression', anyorder=False)
        cell = ('g', 'ent')
        for label, cache in (('no cache', ()), ('cached', ((key, T('app', 'regex::Regex::is_match', re_, sym('name'))),)), ('other cached', ((other, T('app', 'regex::Regex::is_match', sym('re2'), sym('name'))),))):
            e = mk(p, ty, name=sym('name'), matches=mkmap(cache))

            def setup(st):
                st.mem[cell] = e
                return [('R', cell, ()), re_]

            def ck(kind, v, st):
                if kind != 'return':
                    return "ends with %s" % kind
                w = st.truth(T('app', 'regex::Regex::is_match', re_, sym('name')))
                if st.truth(v) != w:
                    return "answers %s" % show_(v)
                m = proj(st.deep(st.mem[cell]), fidx(p, ty, 'matches'))
                for k, x in (m[2] if m[0] == 'H' else ()):
                    r = sym('re2') if st.deep(k) == other else re_
                    if st.deep(k) == key and st.truth(x) != w:
                        return "remembers another answer"
            fs = {}
            for s in ('<>',):
                fs.update(cc(key, other, s))
            c.run('%s, %s' % (ty.split('::')[-1], label), None, fs, ck, setup=setup)


# ------------------------------------------------------------------ syntax trees
PAIRS = []


def pair(p, t):
    PAIRS.append(t)
    return T('pair', ('i', len(PAIRS) - 1))


def pest_models(p, g, start=None):
    R = adt_info(p, 'parser::Rule')['def']
    K = 'dinero::pest::iterators::'

    def arg(st, call):
        v = st.deep(call.args[0])
        return PAIRS[v[2][1]] if v[0] == 't' and v[1] == 'pair' else None

    def as_rule(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else ('A', R, vidx(p, 'parser::Rule', v[0]), ())

    def as_str(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else ('s', v[1])

    def inner(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else I('seq', V(*[pair(p, k) for k in v[2]]))

    def parse(eng, st, fr, call):
        rule, text = st.deep(call.args[0]), st.deep(call.args[1])
        if text[0] != 's' or rule[0] != 'A':
            raise models.Unsupported("parse of an open text")
        t = g.parse(adt_info(p, 'parser::Rule')['variants'][rule[2]]['name'], text[1])
        return err(sym('syntax error')) if t is None else ok(I('seq', V(pair(p, t))))

    def peek(eng, st, fr, call):
        v = st.deep(call.args[0])
        if v[0] != 'I' or v[1] != 'seq' or not isinstance(v[2][0], tuple) or v[2][0][0] != 'V':
            return NotImplemented
        return some(v[2][0][1][0][1]) if v[2][0][1] else NONE
    return {K + 'Pair::as_rule': as_rule, K + 'Pair::as_str': as_str, K + 'Pair::into_inner': inner, K + 'Pairs::peek': peek,
            'dinero::pest::Parser::parse': parse, 'pest::Parser::parse': parse}


PREC = [('or', '|'), ('and', '&'), ('==', '=~', '!=', '<', '>', '<=', '>='), ('+', '-'), ('*', '/')]
OPN = {'or': 'Or', '|': 'Or', 'and': 'And', '&': 'And', '==': 'Eq', '=~': 'Eq', '!=': 'Ne', '<': 'Lt', '>': 'Gt', '<=': 'Le', '>=': 'Ge',
       '+': 'Add', '-': 'Subtract', '*': 'Mult', '/': 'Div'}


class Spec:
    """the documented syntax: tokens -> tree"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def expr(self, lvl=0):
        if lvl == len(PREC):
            return self.prim()
        l = self.expr(lvl + 1)
        while self.peek() in PREC[lvl]:
            o = self.t[self.i]
            self.i += 1
            r = self.expr(lvl + 1)
            l = ('bin', OPN[o], l, r)
        return l

    def prim(self):
        t = self.t[self.i]
        self.i += 1
        if t == '(':
            e = self.expr()
            assert self.t[self.i] == ')'
            self.i += 1
            return e
        if t == '-u':
            return ('un', 'Neg', self.prim())
        if t in ('not', '!'):
            return ('un', 'Not', self.expr())
        if t in ('abs', 'any', 'has_tag', 'tag', 'to_date'):
            assert self.t[self.i] == '('
            return ('un', {'abs': 'Abs', 'any': 'Any', 'has_tag': 'HasTag', 'tag': 'Tag', 'to_date': 'ToDate'}[t], self.prim())
        return ('leaf', t)


def tree_node(p, t):
    """expected Node value of a spec tree"""
    if t[0] == 'bin':
        return var(p, ND, 'BinaryExpr', op=var(p, BI, t[1]), lhs=tree_node(p, t[2]), rhs=tree_node(p, t[3]))
    if t[0] == 'un':
        return var(p, ND, 'UnaryExpr', op=var(p, UN, t[1]), child=tree_node(p, t[2]))
    s = t[1]
    if s in ('account', 'amount', 'payee', 'note', 'date'):
        return var(p, ND, s.capitalize())
    if s[0] == '/':
        return var(p, ND, 'Regex', T('regex', ('s', s[1:-1])))
    if s[0] in '"\'' and s.find(s[0], 1) == len(s) - 1:
        return var(p, ND, 'String', ('s', s[1:-1]))
    m = re.match(r'^(-?\d+(?:\.\d+)?)$', s)
    if m:
        return var(p, ND, 'Number', T('num', ('s', s)))
    unq = lambda x: x[1:-1] if x[0] in '"\'' else x
    m = re.match(r'^(-?\d+(?:\.\d+)?) *([^\d\s"\']+|"[^"]*"|\'[^\']*\')$', s)
    if m:
        return var(p, ND, 'Money', currency=('s', unq(m.group(2))), amount=T('num', ('s', m.group(1))))
    m = re.match(r'^([^\d\s"\']+|"[^"]*"|\'[^\']*\') *(-?\d+(?:\.\d+)?)$', s)
    return var(p, ND, 'Money', currency=('s', unq(m.group(1))), amount=T('num', ('s', m.group(2))))


def canon(p, n):
    """a negated constant is the negative constant"""
    if n[0] != 'A':
        return n
    n = n[:3] + (tuple(canon(p, x) for x in n[3]),)
    nd = adt_info(p, ND)
    if n[1] != nd['def'] or nd['variants'][n[2]]['name'] != 'UnaryExpr':
        return n
    fl = dict(zip([f for f, _ in nd['variants'][n[2]]['fields']], n[3]))
    c = fl['child']
    if fl['op'] != var(p, UN, 'Neg') or c[0] != 'A' or nd['variants'][c[2]]['name'] not in ('Number', 'Money'):
        return n
    neg = lambda x: T('num', ('s', x[2][1][1:] if x[2][1].startswith('-') else '-' + x[2][1])) if x[:2] == ('t', 'num') else x
    return c[:3] + (tuple(neg(x) for x in c[3]),)


def sentences(thorough):
    """token sequences: operands joined by operators of every precedence, prefixes and parentheses"""
    ops1 = ['or', 'and', '|', '&', '==', '=~', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/']
    x, y, z, w = 'account', 'amount', '1', 'payee'
    yield [x]
    for a, b in (('/a/', '/b/'), ('/a/', '/a/'), ('/a/', '/A/'), ('/a b/', '/a/'), ('/a/', '/ab/'), ('/ab/', '/ac/')):
        for o in ('and', 'or'):
            yield ['account', '=~', a, o, 'payee', '=~', b]
            yield ['account', '=~', b, o, 'payee', '=~', a]
            yield ['has_tag', '(', a, ')', o, 'note', '=~', b]
    for t in ('amount', 'account', 'payee', 'note', 'date', '5', '-5', '5.25', '/re/', '"str"', "'str'", '5 USD', '5USD', '$ 5', '-5 USD', '5 €', '/a b|c/', '"a b"', '5 "US D"', '5"A1"', "-5.5 'a b'", '"U 2" 5', '"a" -5'):
        yield [t]
        yield [y, '==', t]
        yield ['(', t, ')']
    for f in ('abs', 'any', 'has_tag', 'tag', 'to_date'):
        yield [f, '(', y, ')']
        yield [f, '(', y, '+', '1', ')']
        yield [f, '(', y, ')', '*', '2']
        yield ['2', '*', f, '(', y, ')']
        yield ['not', f, '(', y, ')']
    for a in ops1:
        yield [x, a, y]
        yield [x, a, '5', 'and', y]
        yield [x, a, '5 USD', 'or', y]
        yield ['(', x, a, y, ')']
        yield ['-u', x, a, y]
        yield [x, a, '-u', y]
        yield ['not', x, a, y]
        yield ['!', x, a, y]
        yield [x, 'and', 'not', y, a, w]
        yield ['not', '(', x, a, y, ')']
    rep = ['or', 'and', '==', '<', '+', '-', '*', '/'] if not thorough else ops1
    for a in rep:
        for b in rep:
            yield [x, a, y, b, w]
            yield ['(', x, a, y, ')', b, w]
            yield [x, a, '(', y, b, w, ')']
            yield ['-u', '(', x, a, y, ')', b, w]
    r2 = ['or', 'and', '==', '-', '/'] if not thorough else rep
    for a in r2:
        for b in r2:
            for c in r2:
                yield [x, a, y, b, w, c, 'date']


def build_rules(ctx):
    p = ctx.p
    fn = fnd(p, 'value_expr::build_root_node_from_expression')
    try:
        g = peg.load(export.REPO)
    except peg.Bad as e:
        ctx.undecided('grammar', str(e))
        return
    ctx.count('grammar rules', len(g.rules))
    over = [(r"utils::parse_rational$", lambda eng, st, fr, a: T('num', ('s', PAIRS[st.deep(a[0])[2][1]][1])))]
    em = pest_models(p, g)
    em['regex::Regex::new'] = lambda eng, st, fr, call: ok(T('regex', st.deep(call.args[0])))
    n = 0
    seen = set()
    for toks in sentences(ctx.thorough):
        if tuple(toks) in seen:
            continue
        seen.add(tuple(toks))
        want = tree_node(p, Spec(toks).expr())
        text = ' '.join('-' if t == '-u' else t for t in toks)
        texts = [text]
        if '-u' in toks:
            texts = [text.replace('- ', '-')] if 'amount' in toks or 'account' in toks else texts
        for tx in texts:
            for form in ('(%s)',):
                def ck(kind, v, st):
                    if kind != 'return':
                        return "the expression %s is not accepted: %s" % (tx, kind)
                    if canon(p, st.deep(v)) != canon(p, want):
                        return "the expression %s is read as %s instead of %s" % (tx, show_(v), show_(want))
                c = Case(ctx, fn, 'every operand takes part, with the documented precedence and association', fn_over=over, extra_models=em, anyorder=False, recursion=60)
                c.run(tx, [('s', form % tx), X(mkmap(()))], {}, ck)
                n += 1
                if len(ctx.viol) > 12:
                    return
    ctx.count('expressions', n)
    # how a text becomes a value
    ev_ = fnd(p, 'value_expr::eval_value_expression')
    amt = money(sym('amt'), sym('com'))
    post = mk(p, PO, amount=some(amt))
    for label, res, want in (('number', var(p, ER, 'Number', A), (pmul(sym('amt'), A), sym('com'))), ('amount', var(p, ER, 'Money', money(A, C)), (A, C))):
        c = Case(ctx, ev_, 'an amount expression is the amount it evaluates to, or a multiple of the matched amount', anyorder=False,
                 fn_over=[(r"value_expr::eval_expression$", lambda eng, st, fr, a, res=res: res)])
        c.run(label, [sym('text'), X(post), X(sym('tx')), X(sym('coms')), X(mkmap(()))], {}, money_is(*want))


# ------------------------------------------------------------------ search words
def spec_query(words):
    """the documented expansion of search words"""
    out = []
    join, expr = 'or', False
    for w in words:
        w = w.strip()
        if not w:
            continue
        if w in ('and', 'or'):
            join = w
            continue
        if w == 'expr':
            expr = True
            continue
        if expr:
            e = w
        elif w[0] == '@':
            e = 'payee =~ /(?i)%s/' % w[1:]
        elif w[0] == '%':
            e = 'has_tag(/(?i)%s/)' % w[1:]
        elif w[0] == '/':
            e = 'account =~ %s' % w
        else:
            e = 'account =~ /(?i)%s/' % w
        out.append(('' if not out else ' %s ' % join) + '(%s)' % e)
        join, expr = 'or', False
    return '(%s)' % ''.join(out)


def word_rules(ctx):
    p = ctx.p
    fn = fnd(p, 'filter::preprocess_query')
    al = ['food', '@shop', '%tag', '/x y/', 'and', 'or', 'expr']
    seqs = [[]] + [[' food '], ['']] + [list(s) for n in (1, 2, 3) for s in itertools.product(al, repeat=n)]
    if ctx.thorough:
        seqs += [list(s) for s in itertools.product(al, repeat=4)]
    else:
        seqs += [list(s) for s in itertools.product(['food', '@shop', 'and', 'or', 'expr'], repeat=4)]
    odd = ['AND', 'Or', 'OR', 'Expr', 'not', 'andy', 'order', 'expression', 'a', '/a/', '/(?i)a/', 'x@y', 'x%y', 'A:B', 'é', '@é', '%é', 'foo bar', '@a b', '%a b', 'Food', '@Shop', '^a$', 'a|b', 'a.b', '(a)']
    for o in odd:
        seqs += [[o], [o, 'food'], ['food', o], ['expr', o], ['food', 'and', o], [o, 'or', o], ['expr', o, o]]
    n = bad = 0
    for s in seqs:
        w = spec_query(s)

        def ck(kind, v, st):
            if kind != 'return':
                return "ends with %s" % kind
            if v != ('s', w):
                return "the words %s expand to %s instead of %s" % (s, show_(v), w)
        r = Run(p, anyorder=False, intmax=5000)
        out = r.go(fn, [X(V(*[('s', x) for x in s]))], {})
        n += 1
        if r.trouble() or not out:
            ctx.undecided('search words %s' % s, "; ".join(r.trouble()[:2]) or 'no outcome')
            if len(ctx.und) > 20:
                return
            continue
        for kind, info, st in out:
            m = ck(kind, st.deep(info) if kind == 'return' else info, st)
            if m:
                ctx.bad('search words expand to the documented expression: %s' % " ".join(s), where(fn), m)
                bad += 1
        if bad > 5:
            return
    ctx.count('word sequences', n)
    if not bad:
        ctx.ok('search words expand to the documented expression', "%s [%d sequences]" % (where(fn), n))


def split_words(s):
    """words separated by blanks; "…" and /…/ keep blanks, and the quotes go away"""
    out, cur, q, r = [], '', False, False
    for ch in s:
        if ch == ' ' and not q and not r:
            out.append(cur)
            cur = ''
            continue
        if ch == '"':
            q = not q
            continue
        if ch == '/':
            r = not r
        cur += ch
    out.append(cur)
    return [w.strip() for w in out if w.strip()]


def header_rules(ctx):
    """the words of an automated transaction's header"""
    p = ctx.p
    fn = fnd(p, 'Transaction::<PostingType>::get_filter_query', 'get_filter_query')
    rule = 'the header of an automated transaction is the query of its words'
    if fn is None:
        ctx.undecided(rule, 'function not found')
        return
    parts = ['food', '/x y/', '"a b"', '"amount == 5 USD"', 'and', '@shop', '%tag']
    seqs = [[]] + [list(x) for n in (1, 2, 3) for x in itertools.product(parts, repeat=n)]
    if not ctx.thorough:
        seqs = [s for s in seqs if len(s) < 3 or s[1] in ('and', '"a b"')]
    got = lambda eng, st, fr, a: T('query', st.deep(a[0]))
    n = 0
    bad = False
    for s in seqs:
        for text in {' '.join(s), '  '.join(s)}:
            t = mk(p, TX, description=('s', text), filter_query=NONE)
            cell = ('g', 'tx')
            w = split_words(text)
            r = Run(p, anyorder=False, intmax=5000, fn_over=[(r"filter::preprocess_query$", got)])

            def setup(st):
                st.mem[cell] = t
                return [('R', cell, ())]
            out = r.go(fn, None, {}, setup=setup)
            n += 1
            if r.trouble() or not out:
                ctx.undecided("%s: %s" % (rule, text), "; ".join(r.trouble()[:2]) or 'no outcome')
                continue
            for kind, info, st in out:
                v = st.deep(info) if kind == 'return' else None
                if v is None:
                    m = "ends with %s" % kind
                elif v[:2] != ('t', 'query') or v[2][0] != 'V' or any(x[1][0] != 's' for x in v[2][1]):
                    ctx.undecided("%s: %s" % (rule, text), show_(v))
                    continue
                else:
                    g = [x[1][1].strip() for x in v[2][1] if x[1][1].strip()]
                    m = None if g == w else "the header %s is read as the words %s instead of %s" % (text, g, w)
                    c = proj(st.deep(st.mem[cell]), fidx(p, TX, 'filter_query'))
                    if not m and c != NONE and c != some(v):
                        m = "remembers another query: %s" % show_(c)
                if m and not bad:
                    bad = True
                    ctx.bad("%s: %s" % (rule, text), where(fn), m)
    ctx.count('headers', n)
    if not bad:
        ctx.ok(rule, "%s [%d headers]" % (where(fn), n))
