"""The reader of journals on texts with open characters: what is written is what is recorded (C21)."""
import itertools, os
from ledger import *
import text, peg, absint, export
from text import text_models, rational
from report import show_

SYNTAX = set(';|"\'()[]=@-.,*!+/\\<>:?%&#{}~ \t\r\n0123456789')
PP = 'models::price::Price'


class W:
    """a piece of expected content: kept as written, evaluated after open characters are replaced"""

    def __init__(self, kind, *xs):
        self.kind, self.xs = kind, xs


def tr_(x, m):
    if isinstance(x, str):
        return x.translate(m)
    if isinstance(x, (list, tuple)):
        return type(x)(tr_(y, m) for y in x)
    if isinstance(x, dict):
        return {k: tr_(v, m) for k, v in x.items()}
    if isinstance(x, W):
        return W(x.kind, *[tr_(y, m) for y in x.xs])
    return x


# words: every place a letter can have in a name, and letters of one, two and three bytes
def words():
    a, b, c = LET1, LET2, LET3
    k = 0
    while True:
        yield a[k % 8] + a[(k + 1) % 8]
        yield b[k % 8] + a[k % 8]
        yield a[k % 8] + c[k % 4] + b[(k + 3) % 8]
        yield c[(k + 1) % 4] + c[k % 4]
        k += 1


class Gen:
    def __init__(self, k=0):
        self.w = words()
        for _ in range(k):
            next(self.w)
        self.d = itertools.cycle(DIG)

    def word(self):
        return next(self.w)

    def num(self, i, f=0):
        s = ''.join(next(self.d) for _ in range(i))
        return s + ('.' + ''.join(next(self.d) for _ in range(f)) if f else '')


def date_v(y, m, d):
    yv = ('i', int(y)) if not isopen(y) else T('sym', 'int:' + y)
    return T('date', yv, ('i', int(m)), ('i', int(d)))


def value(x):
    """expected abstract value"""
    if x is None:
        return NONE
    if isinstance(x, W):
        if x.kind == 'date':
            return date_v(*x.xs)
        if x.kind == 'money':
            return money(rational(x.xs[0]), ent('commodity', ('s', x.xs[1])))
        if x.kind == 'some':
            return some(value(x.xs[0]))
        if x.kind == 'ent':
            return ent(x.xs[0], ('s', x.xs[1]))
        if x.kind == 'num':
            return rational(x.xs[0])
        if x.kind == 'opt':
            return NONE if x.xs[0] is None else some(value(x.xs[0]))
        if x.kind == 'expr':
            return T('veval', ('s', x.xs[0]), ent('account', ('s', x.xs[1])))
    if isinstance(x, str):
        return ('s', x)
    raise ValueError(x)


# ------------------------------------------------------------------ the syntax as documented, with its meaning
def amount(g, form, com, frac=2):
    """-> (text, number as written, commodity)"""
    n = g.num(2, frac)
    return {'n c': ('%s %s' % (n, com), n), 'nc': ('%s%s' % (n, com), n), 'c n': ('%s %s' % (com, n), n), 'cn': ('%s%s' % (com, n), n),
            '-n c': ('-%s %s' % (n, com), '-' + n), 'c -n': ('%s -%s' % (com, n), '-' + n), 'c-n': ('%s-%s' % (com, n), '-' + n),
            'n q': ('%s "%s"' % (n, com), n), 'q n': ('"%s" %s' % (com, n), n), '-n q': ('-%s "%s"' % (n, com), '-' + n),
            '.n c': ('.%s %s' % (n.split('.')[0], com), '.' + n.split('.')[0]), 'n. c': ('%s. %s' % (n.split('.')[0], com), n.split('.')[0])}[form]


def posting(g, kind='R', acc='w', sep='  ', amt='n c', cost=None, bal_=None, note=None, frac=2, quoted=None, payee=None, expr=None, tags=()):
    """-> (line, expected)"""
    if acc == 'w':
        a = g.word()
    elif acc == 'w:w':
        a = g.word() + ':' + g.word()
    elif acc == 'w w':
        a = g.word() + ' ' + g.word()
    elif acc == 'w:w w':
        a = g.word() + ':' + g.word() + ' ' + g.word()
    elif acc == 'w (w)':
        a = g.word() + ' (' + g.word() + ')'
    elif acc == 'w[w]':
        a = g.word() + '[' + g.word() + ']'
    elif acc == 'signs':
        a = g.word() + '.' + g.word() + '/' + g.word() + ' & ' + g.word() + ', ' + g.word() + '@' + g.word() + '=' + g.word() + '*' + g.word() + '"'
    elif acc == 'wd':
        a = g.word() + g.num(1) + '-' + g.word() + "'" + g.word()
    else:
        a = g.word()[0]
    e = dict(account=W('ent', 'account', a), kind=kind, amount=None, balance=None, cost=None, tags=list(tags), payee=payee)
    line = {'R': a, 'V': '(%s)' % a, 'B': '[%s]' % a}[kind]
    parts = []
    if amt:
        com = (g.word() + ' ' + g.word()) if 'q' in amt else g.word()
        t, n = amount(g, amt, com, frac)
        parts.append(t)
        e['amount'] = W('money', n, com)
        if cost:
            com2 = g.word()
            t2, n2 = amount(g, cost[1], com2, frac)
            parts.append(cost[0] + ' ' + t2)
            e['cost'] = (cost[0], W('money', n2, com2))
    if expr:
        parts.append(expr)
        e['amount'] = W('expr', expr, a)
    if bal_:
        com3 = g.word()
        t3, n3 = amount(g, bal_, com3, frac)
        parts.append('= ' + t3)
        e['balance'] = W('money', n3, com3)
    if parts:
        line += sep + ' '.join(parts)
    if note is not None:
        line += ('  ' if not parts else ' ') + ';' + note
    return line, e


def header(g, date=('-', '05', '07'), year=None, edate=None, time=None, status='', code=None, desc='w', payee=None, note=None):
    sp, m, d = date
    y = year or g.num(4)
    h = y + sp + m + sp + d
    e = dict(date=W('date', y, m, d), effective_date=None, code=None, description='', comments=[], tags=[])
    if time:
        h += ' ' + time
    if edate:
        sp2, m2, d2 = edate
        y2 = g.num(4)
        h += '=' + y2 + sp2 + m2 + sp2 + d2
        e['effective_date'] = W('date', y2, m2, d2)
    h += ' '
    if status:
        h += status + ' '
    if code is not None:
        c = g.word()
        h += '("%s") ' % c
        e['code'] = c
    ds = {'w': g.word(), 'w w': g.word() + ' ' + g.word(), 'wd': g.word() + ' ' + g.num(2) + ', ' + g.word() + "-x." + g.word() + ': ' + g.word() + '/(' + g.word() + ')',
          '': ''}[desc]
    h += ds
    e['description'] = ds
    pn = ds or '[Unspecified payee]'
    if payee:
        pw = g.word() + ' ' + g.word()
        h += (' ' if ds else '') + '| ' + pw
        pn = pw
    e['payee'] = pn
    if note is not None:
        h += ' ;' + note
        e['comments'].append(note.strip(' '))
    return h, e


def tx(g, hd=None, posts=({}, dict(amt=None)), extra=None):
    """-> (lines, expected); extra: list of (after which posting, comment text)"""
    h, e = header(g, **(hd or {}))
    lines, ps = [h], []
    for i, kw in enumerate(posts):
        kw = dict(kw)
        l, pe = posting(g, **kw)
        pe['payee'] = e['payee']
        for k, c in (extra or []):
            if k == i - 1:
                lines.append(c)
        lines.append('    ' + l)
        ps.append(pe)
    for k, c in (extra or []):
        if k == len(posts) - 1:
            lines.append(c)
    e['postings'] = ps
    return lines, e


# ------------------------------------------------------------------ analysis of one text
class Reader:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.g = peg.load(export.REPO)
        self.models = text_models(ctx.p, self.g)
        fs = [f for f in ctx.p.fns.values() if f.local and f.crate == 'lib' and f.name.endswith('::from') and 'Tokenizer' in f.name and 'String' in f.name]
        self.frm = fs[0] if fs else None
        self.tok = fnd(ctx.p, "Tokenizer::<'_>::tokenize")
        self.led = fnd(ctx.p, 'ParsedLedger>::to_ledger', '::to_ledger')
        lists = [x for x in LISTS if 'get_tags' not in x[0]]
        self.over = [stub_balance(may_fail=False)] + lists + [x for x in AUTO if 'Display' in x[0] or 'eval_value' in x[0] or 'build_root' in x[0]]

    def stage(self, fn, args, over=(), setup=None, **kw):
        r = Run(self.p, extra_models=self.models, intmax=5000, recursion=40, fn_over=list(over), anyorder=False, **kw)
        old = absint.SAME[0]
        absint.SAME[0] = 500
        try:
            out = r.go(fn, args, {}, setup=setup)
        finally:
            absint.SAME[0] = old
        self.ctx.count("paths", len(out))
        self.ctx.count("abstract states", r.eng.nstates)
        self.ctx.count("steps", r.eng.nsteps)
        return out, r.trouble()

    def parsed(self, txt):
        """-> list of outcomes of reading a text, troubles"""
        out, tr = self.stage(self.frm, [('s', txt)])
        if tr or len(out) != 1 or out[0][0] != 'return':
            return [], tr or ["no tokenizer"]
        v = out[0][2].deep(out[0][1])

        def setup(st):
            st.mem[('g', 'tokenizer')] = v
            return [('R', ('g', 'tokenizer'), ())]
        # how an error is worded is not looked at
        return self.stage(self.tok, None, [(r"Tokenizer.*::error$", lambda e, st, fr, a: T('error', st.deep(a[1])))], setup=setup)

    def run(self, rule, label, txt, check, ledger=True, fails=False, closure=True):
        """check(value, st, m) on the ledger (or on the parsed journal); m translates replaced characters"""
        todo, done = [{}], set()
        while todo:
            m = todo.pop(0)
            key = tuple(sorted(m.items()))
            if key in done:
                continue
            done.add(key)
            TESTED.clear()
            if not self.one(rule, label + (' with %s' % ','.join(sorted(m.values())) if m else ''), txt.translate(m), lambda v, st: check(v, st, m), ledger, fails):
                return
            if not m and closure:
                for c, k in sorted(TESTED):
                    if c in LETS and k not in SYNTAX and not k.isnumeric() and not k.isspace() and ord(k) >= 32 and len(k.encode()) == len(c.encode()) or \
                            c in DIGS and k in '0123456789':
                        todo.append({ord(c): k})

    def one(self, rule, label, txt, check, ledger, fails):
        ctx = self.ctx
        key = "%s: %s" % (rule, label)
        if None in (self.frm, self.tok, self.led):
            ctx.undecided(key, "function not found")
            return False
        try:
            out, tr = self.parsed(txt)
            fn = self.tok
            if not tr and not fails and ledger and len(out) == 1 and out[0][0] == 'return':
                v = out[0][2].deep(out[0][1])
                if v[0] == 'A' and v[1] == RES and v[2] == 0:
                    out, tr = self.stage(self.led, [v[3][0], FALSE], self.over)
                    fn = self.led
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return False
        if tr or not out:
            ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
            return False
        for kind, info, st in out:
            m = None
            if kind == 'return':
                v = st.deep(info)
                good = v[0] == 'A' and v[1] == RES and v[2] == 0
                if fails:
                    m = "accepted" if good else None
                else:
                    m = check(eta(v[3][0]), st) if good else "rejected"
            elif not fails:
                m = "ends with %s %s" % (kind, info)
            if m:
                ctx.bad(key, where(fn), "%s\n  text: %s" % (m, visible(txt)))
                return False
        ctx.ok(rule, "%s [%s]" % (where(self.tok), label))
        return True


def visible(s):
    """open characters shown as what they stand for"""
    r = []
    for c in s:
        if c in LETS:
            i = (LET1 + LET2 + LET3).index(c)
            r.append('<%s%d>' % ('letter' if c in LET1 else 'letter of 2 bytes ' if c in LET2 else 'letter of 3 bytes ', i))
        elif c in DIGS:
            r.append('<digit%d>' % DIG.index(c))
        else:
            r.append(c)
    return ''.join(r).replace('\n', '\\n\n        ').replace('\t', '\\t').replace('\r', '\\r')


def tags_of(p, v):
    """(name, value) of each tag"""
    ts = seq(v)
    if ts is None:
        return None
    TG = 'models::comment::Tag'
    inf = adt_info(p, 'Tag')
    out = []
    for t in ts:
        n, x = get(p, t, inf['def'].split('dinero::')[-1], 'name'), get(p, t, inf['def'].split('dinero::')[-1], 'value')
        out.append((n, x))
    return out


def check_ledger(p, exp, prices=()):
    Cd = adt_info(p, 'models::transaction::Cost')['def']

    def ck(v, st, m):
        e_ = tr_(exp, m)
        out = seq(get(p, v, LG, 'transactions'))
        if out is None or len(out) != len(e_):
            return "%s transactions instead of %d" % ('?' if out is None else len(out), len(e_))
        for k, (t, e) in enumerate(zip(out, e_)):
            n = "transaction %d: " % (k + 1)
            for f_, w in (('description', value(e['description'])), ('code', value(W('opt', e['code']))), ('date', some(value(e['date']))),
                          ('effective_date', value(W('opt', e['effective_date'])))):
                x = eta(get(p, t, TX, f_))
                if x != w:
                    return n + "%s is %s instead of %s" % (f_, visible(show_(x)), visible(show_(w)))
            cs = seq(get(p, t, TX, 'comments'))
            cs = None if cs is None else [get(p, c, 'models::comment::Comment', 'comment') for c in cs]
            if cs != [('s', c) for c in e['comments']]:
                return n + "comments %s instead of %s" % (visible(str(cs)), visible(str(e['comments'])))
            ps = seq(get(p, t, TX, 'postings'))
            if ps is None or len(ps) != len(e['postings']):
                return n + "%s postings instead of %d" % ('?' if ps is None else len(ps), len(e['postings']))
            for j, (q, w) in enumerate(zip(ps, e['postings'])):
                W_ = dict(account=value(w['account']), kind=kindv(p, w['kind']), amount=value(W('opt', w['amount'])), balance=value(W('opt', w['balance'])),
                          cost=NONE if w['cost'] is None else some(('A', Cd, vidx(p, 'models::transaction::Cost', {'@@': 'Total', '@': 'PerUnit'}[w['cost'][0]]), (value(w['cost'][1]),))),
                          payee=some(ent('payee', ('s', w['payee']))))
                for f_, x in W_.items():
                    g = eta(get(p, q, PO, f_))
                    if g != x:
                        return n + "%s of posting %d is %s instead of %s" % (f_, j + 1, visible(show_(g)), visible(show_(x)))
                tg = tags_of(p, get(p, q, PO, 'tags'))
                wt = [(('s', a), NONE if b is None else some(('s', b))) for a, b in e['tags'] + w['tags']]
                if tg is None or sorted(map(repr, tg)) != sorted(map(repr, wt)):
                    return n + "tags of posting %d are %s instead of %s" % (j + 1, visible(str(tg)), visible(str(wt)))
        if prices is None:
            return
        pr = seq(get(p, v, LG, 'prices'))
        if pr is None or len(pr) != len(prices):
            return "%s prices instead of %d" % ('?' if pr is None else len(pr), len(prices))
        for k, (x, w) in enumerate(zip(pr, tr_(list(prices), m))):
            for f_, y in (('date', value(w['date'])), ('commodity', ent('commodity', ('s', w['commodity']))), ('price', value(w['price']))):
                z = eta(get(p, x, PP, f_))
                if z != y:
                    return "%s of price %d is %s instead of %s" % (f_, k + 1, visible(show_(z)), visible(show_(y)))
    return ck


MD = [(str(m), str(d)) for m in (1, 9, 10, 12) for d in (1, 9, 10, 19, 20, 29, 30, 31) if not (d == 31 and m in (9,))]


def header_rules(ctx):
    """dates, codes, descriptions, payees and comments of a transaction's first line"""
    p, R = ctx.p, Reader(ctx)
    rule = "the first line of a transaction is recorded as written"

    def go(label, hd, k=0):
        g = Gen(k)
        ls, e = tx(g, hd)
        R.run(rule, label, '\n'.join(ls) + '\n', check_ledger(p, [e]))
    for m, d in MD:
        for z in (0, 1):
            if z and len(m) == 2 and len(d) == 2:
                continue
            go("date -%s-%s%s" % (m, d, " with zeros" if z else ""), dict(date=('-', m.zfill(2) if z else m, d.zfill(2) if z else d)))
    for m in range(1, 13):
        go("month %d" % m, dict(date=('/', '%02d' % m, '28')))
    for d in range(1, 32):
        go("day %d" % d, dict(date=('.', '1', '%d' % d)))
    for h in range(24):
        go("time %02d:59:00" % h, dict(time='%02d:59:00' % h))
        if h % 6 == 5:
            go("time %02d:00:09, effective date" % h, dict(time='%02d:00:09' % h, edate=('/', '6', '08'), status='*'))
            go("time %02d:30:59.25" % h, dict(time='%02d:30:59.25' % h, desc='w w', payee='p'))
    opts = [[None, ('/', '6', '08')], ['', '*', '!'], [None, 'c'], ['w', 'w w', 'wd', ''], [None, 'p'], [None, ' n\x01 o', 'n\x02']]
    allc = list(itertools.product(*opts))
    for k, (ed, s, c, de, py, nt) in enumerate(allc):
        if not ctx.thorough and k % 3 and sum(x not in (None, '', 'w') for x in (ed, s, c, de, py, nt)) > 2:
            continue
        go("%s%s%s%s%s%s" % ('effective date, ' if ed else '', 'status %s, ' % s if s else '', 'code, ' if c else '', 'description %r' % de, ', payee' if py else '', ', comment %r' % visible(nt) if nt else ''),
           dict(edate=ed, status=s, code=c, desc=de, payee=py, note=nt), k)


def posting_rules(ctx, part=None):
    """accounts, kinds, amounts, costs, asserted balances and comments of a posting; part: every third case"""
    p, R = ctx.p, Reader(ctx)
    number = itertools.count()
    rule = "a posting is recorded as written"

    def go(label, kw, k=0, nl='\n', end=True):
        g = Gen(k)
        if part is not None and next(number) % 3 != part:
            return
        for first in (True, False):
            if not first and not ctx.thorough and k % 4:
                continue
            ls, e = tx(g, {}, (kw, dict(amt='n c')) if first else (dict(amt='n c'), kw))
            R.run(rule, label + (", first" if first else ", last"), nl.join(ls) + (nl if end else ''), check_ledger(p, [e], None))
    k = 0
    for kind in 'RVB':
        for acc in ('1', 'w', 'w:w', 'w w', 'w:w w', 'wd'):
            for sep in ('  ', '\t', '     ', ' \t', '\t\t'):
                for amt in (('n c', None) if sep != '  ' else ('n c', 'c n', None)):
                    k += 1
                    go("%s account %s, separator %r, amount %s" % (kind, acc, sep, amt), dict(kind=kind, acc=acc, sep=sep, amt=amt), k)
        for acc in ('w (w)', 'w[w]', 'signs'):
            for amt in ('n c', None):
                k += 1
                go("%s account %s, amount %s" % (kind, acc, amt), dict(kind=kind, acc=acc, amt=amt), k)
    forms = ['n c', 'nc', 'c n', 'cn', '-n c', 'c -n', 'c-n', 'n q', 'q n', '-n q', '.n c', 'n. c']
    for amt in forms:
        for frac in (0, 1, 3):
            if not frac and amt in ('.n c', 'n. c'):
                continue
            k += 1
            go("amount %s with %d decimals" % (amt, frac), dict(amt=amt, frac=frac), k)
    for amt in forms[:8]:
        for cost in (None, ('@', 'n c'), ('@@', 'n c'), ('@', 'c n'), ('@@', 'cn'), ('@', '-n c')):
            for b in (None, 'n c', 'c -n', '-n c'):
                if cost is None and b is None:
                    continue
                k += 1
                if not ctx.thorough and k % 2:
                    continue
                go("amount %s, cost %s, asserted balance %s" % (amt, cost, b), dict(amt=amt, cost=cost, bal_=b), k)
    for kind in 'RVB':
        for b in ('n c', 'c n', '-n c'):
            k += 1
            go("%s asserted balance %s without amount" % (kind, b), dict(kind=kind, amt=None, bal_=b), k)
    for amt in ('n c', 'c n', None):
        for b in (None, 'n c'):
            for note in ('x\x01', ' \x01 \x02', ''):
                k += 1
                go("amount %s, asserted balance %s, comment %r" % (amt, b, visible(note)), dict(amt=amt, bal_=b, note=note), k)
    for ex in ('(\x0e \x01\x02 * \x0f)', '((\x0e + \x10) * \x0f \x01)', '( \x0e \x01 )'):
        for note in (None, ' \x01'):
            for b in (None, 'n c'):
                k += 1
                go("expression %s%s%s" % (visible(ex), ', comment' if note else '', ', asserted balance' if b else ''), dict(amt=None, expr=ex, note=note, bal_=b), k)
    for end in (True, False):
        for nl in ('\n', '\r\n'):
            for kw in (dict(), dict(amt=None), dict(amt=None, acc='w w'), dict(bal_='n c'), dict(cost=('@', 'n c')), dict(kind='V', amt=None), dict(note=' a\x01')):
                k += 1
                go("line ends %r%s, %s" % (nl, '' if end else ', none at the end', kw), kw, k, nl, end)


def posting_rules1(ctx):
    posting_rules(ctx, 0)


def posting_rules2(ctx):
    posting_rules(ctx, 1)


def posting_rules3(ctx):
    posting_rules(ctx, 2)


def attach_rules(ctx):
    """comments and tags belong to the transaction or to the posting before them; every transaction appears once"""
    p, R = ctx.p, Reader(ctx)
    rule = "comments and tags are attached where they are written"
    forms = [(';:\x01\x02:', [('\x01\x02', None)]), ('; :\x01:\x80\x02:', [('\x01', None), ('\x80\x02', None)]), ('; \x01\x02: \x03 \x04', [('\x01\x02', '\x03 \x04')]),
             ('; \x01 \x02', []), (';\x01: \x0e\x0f', [('\x01', '\x0e\x0f')]), ('; \x01:\x02:\x03', [])]
    k = 0
    for c1, t1 in forms:
        for where_ in ('head', 0, 1, 'note0', 'note1'):
            for ind in ('  ', '\t'):
                for nl in ('\n', '\r\n'):
                    if nl == '\r\n' and ind == '\t':
                        continue
                    k += 1
                    g = Gen(k)
                    if where_ in ('note0', 'note1'):
                        i = int(where_[-1])
                        ls, e = tx(g, {}, [dict(note=c1[1:]) if j == i else dict() for j in (0, 1)])
                        e['postings'][i]['tags'] += t1
                    else:
                        i = -1 if where_ == 'head' else where_
                        ls, e = tx(g, {}, (dict(), dict()), [(i, ind + c1)])
                        if i < 0:
                            e['comments'].append(c1[1:].lstrip(' '))
                            e['tags'] += t1
                        else:
                            e['postings'][i]['tags'] += t1
                    R.run(rule, "%s %s%s%s" % (visible(c1), where_, ' after a tab' if ind == '\t' else '', ' CRLF' if nl != '\n' else ''), nl.join(ls) + nl, check_ledger(p, [e]))
        # on the first line itself
        k += 1
        g = Gen(k)
        ls, e = tx(g, dict(note=c1[1:]))
        e['tags'] += t1
        R.run(rule, "%s on the first line" % visible(c1), '\n'.join(ls) + '\n', check_ledger(p, [e]))
    # names of several words, several flags, text before the flags
    more = [('; \x01 \x02: \x03', [('\x01 \x02', '\x03')]), ('; \x01 \x02 \x03: \x04 \x05 \x06', [('\x01 \x02 \x03', '\x04 \x05 \x06')]), ('; \x01:\x02', [('\x01', '\x02')]),
            ('; :\x01:\x02:\x03:', [('\x01', None), ('\x02', None), ('\x03', None)]), ('; \x05 :\x01:\x02:', [('\x01', None), ('\x02', None)]), ('; \x05 \x06 :\x01:', [('\x01', None)]),
            ('; \x01-\x02: \x03', [('\x01-\x02', '\x03')]), ('; \x01_\x02: \x03.\x04', [('\x01_\x02', '\x03.\x04')]), ('; \x01: 20\x80', [('\x01', '20\x80')]), ('; \x01: \x02/\x03 (\x04)', [('\x01', '\x02/\x03 (\x04)')]),
            ('; \x01: -5 EUR', [('\x01', '-5 EUR')]), ('; :\x01-\x02:', [('\x01-\x02', None)]), ('; \x01, \x02. \x03', []), ('; \x01: "\x02 \x03"', [('\x01', '"\x02 \x03"')]), ('; \xe9\x01: \xe8', [('\xe9\x01', '\xe8')]),
            ('; :\x01 \x02:', [('\x01 \x02', None)]), ('; \x01: \x02; \x03', [('\x01', '\x02; \x03')]), ('; \x01: \x02, \x03', [('\x01', '\x02, \x03')])]
    for c1, t1 in more:
        for i in (-1, 0, 1):
            k += 1
            g = Gen(k)
            ls, e = tx(g, {}, (dict(), dict()), [(i, '  ' + c1)])
            if i < 0:
                e['comments'].append(c1[1:].lstrip(' '))
                e['tags'] += t1
            else:
                e['postings'][i]['tags'] += t1
            R.run(rule, "%s after posting %d" % (visible(c1), i), '\n'.join(ls) + '\n', check_ledger(p, [e]))
    # comments without text
    for nl in ('\n', '\r\n'):
        for c1 in (';', '; ', ';;', '; ;'):
            for i in (-1, 0, 1):
                k += 1
                g = Gen(k)
                ls, e = tx(g, {}, (dict(), dict()), [(i, '  ' + c1)])
                if i < 0:
                    e['comments'].append(c1[1:].strip(' '))
                R.run(rule, "%r after posting %d%s" % (c1, i, ' CRLF' if nl != '\n' else ''), nl.join(ls) + nl, check_ledger(p, [e]))
    # a long transaction with comments everywhere
    for n in (5, 9):
        k += 1
        g = Gen(k)
        ls, e = tx(g, {}, tuple(dict(kind='RVB'[i % 3], amt='n c' if i < n - 1 else None, note=' :\x01%s:' % LET1[i % 6] if i % 2 else None) for i in range(n)),
                   [(i, '  ; \x02%s: \x02' % LET1[i % 6]) for i in range(-1, n)])
        e['comments'].append('\x02%s: \x02' % LET1[-1 % 6])
        e['tags'] += [('\x02' + LET1[-1 % 6], '\x02')]
        for i in range(n):
            e['postings'][i]['tags'] += ([('\x01' + LET1[i % 6], None)] if i % 2 else []) + [('\x02' + LET1[i % 6], '\x02')]
        R.run(rule, "%d postings with comments" % n, '\n'.join(ls) + '\n', check_ledger(p, [e]))
    # several comments
    g = Gen(3)
    ls, e = tx(g, {}, (dict(), dict(), dict()), [(-1, '  ; :\x01:'), (-1, '  ; \x02: \x03'), (0, '  ; \x04: \x05'), (2, '\t;:\x06:'), (2, '  ; x')])
    e['comments'] += [':\x01:', '\x02: \x03']
    e['tags'] += [('\x01', None), ('\x02', '\x03')]
    e['postings'][0]['tags'] += [('\x04', '\x05')]
    e['postings'][2]['tags'] += [('\x06', None)]
    R.run(rule, "several comments", '\n'.join(ls) + '\n', check_ledger(p, [e]))


MALFORMED = ('  ' + LET1[:2] + '\n', '2021-13-01 x\n', '2021-01-32 x\n', '2021-02-30 x\n', '2021-01/05 x\n', '2021-01-05 x\n    A  1.2.3 X\n', '2021-01-05 x\n    A  1-2 X\n',
              '2021-01-05 x\n    A  @ 3 X\n', '2021-01-05 x\n    (A  3 X\n', '2021-01-05 x\n    [A)  3 X\n', '2021-01-05 x\n    5A  3 X\n', '2021-01-05 x\n    A  X\n',
              '2021-01-05 x\n    A  3 X @ \n', '2021-01-05 x\n    A  3 X = \n', '2021-01-05 x\n    A  - X\n', '2021-01-05 x\n    A  . X\n',
              'P 2021-01-05 X Y\n', 'P 2021-01-05 X 3\n', 'account ' + LET1[:2] + '\n  ' + LET1[2:5] + ' x\n', 'x\n', '~ monthly\n', 'commodity x\n  bad y\n', 'tag x\n  bad y\n', 'payee x\n  bad y\n',
              '2021-01-05 x\n    A  3 X 4 Y\n', '2021-01-05 x\n    A  3 X @ 4 Y @@ 4 Y\n', '2021-01-05 x\n    A  3 X @ 4 Y 5 Z\n', '2021-01-05 x\n    A  3 X = 4 Y = 4 Y\n',
              '2021-01-05 x\n    A  3 X = 4 Y 5 Z\n', '2021-01-05 x\n    A  (3 X * 4) 5 Z\n', '2021-01-05 x\n    A  (3 X * 4) * 2\n', '2021-01-05 x\n    A  (3 X) (4 X)\n',
              '2021-01-05 x\n    A  (3 X) @ 4 Y\n', '2021-01-05 x\n    A  (3 X) ' + LET1[:3] + '\n',
              '2021-01-05 x\n    A  3 X (4 X)\n    B\n', '2021-01-05 x\n    A  = 4 X (4 X)\n    B\n', '2021-01-05 x\n    A  = 4 X 3 X\n    B\n', '2021-01-05 x\n    A  = 4 X X 3\n    B\n',
          '2021-01-05 x\n    A  3 X @ 2 Y (4 X)\n    B\n', '2021-01-05 x\n    A  (3 X) = 4 X (4 X)\n    B\n', '2021-01-05 x\n    A  = 4 X @ 3 X\n    B\n', '2021-01-05 x\n    A  3 X x\n    B\n', '2021-01-05 x\n    A  3 X = 4 X x\n    B\n',
          'account x\n    default y\n', 'commodity x\n    default y\n', 'account x\n    defaults\n', 'account x\n    notes y\n', 'payee x\n    note y\n', 'tag x\n    note y\n', 'commodity x\n    payee y\n', 'account x\n    format y\n',
          'include\n', 'ix\n', 'c\n', 'p\n', 't\n', 'a\n', '$\n')


NUMBERS = ('1,5', '1,000.50', '1.2.3', '1..2', '1-2', '1-', '--1', '-', '.', '-.', '1 2', '1. 2', '1e5', "1'000", '1_000', '0x1', '1.5.', '1:2', '1/2', '1*2', '1.-2')
MALFORMED_N = ['2021-01-05 x\n    A  %s\n    B\n' % f.replace('N', n) for n in NUMBERS for f in ('N X', 'X N', '3 X @ N Y', '3 X @@ N Y', '3 X = N Y', '= N X', 'X 3 @ Y N')] + ['P 2021-01-05 X %s Y\n' % n for n in NUMBERS]


def number_rules(ctx):
    """a number that is not one is an error wherever it is written"""
    R = Reader(ctx)
    for t in MALFORMED_N:
        R.run('a malformed number is an error', repr(visible(t)), t, None, fails=True)


def file_rules(ctx):
    """every transaction, price and directive of a file is read once, whatever stands between them"""
    p, R = ctx.p, Reader(ctx)
    rule = "every transaction and price of a file is read exactly once, in order"
    g = Gen(1)

    def price(k, note=None, time=None):
        y, c1, c2, n = g.num(4), g.word(), g.word(), g.num(1, 2)
        l = 'P %s/%02d/%d%s %s %s %s' % (y, k % 12 + 1, k + 1, ' ' + time if time else '', c1, n, c2)
        if note:
            l += ' ;' + note
        return [l], dict(date=W('date', y, '%02d' % (k % 12 + 1), str(k + 1)), commodity=c1, price=W('money', n, c2))
    kinds = ['tx', 'price', ';', '*', '#', '%', '!', 'account', 'payee', 'commodity', 'tag', 'blank', 'spaces']

    def item(kind, k):
        if kind == 'tx':
            # dates increase, so that the ledger keeps the order of the file
            return tx(g, dict(date=('-', '%02d' % (k % 12 + 1), '03'), year='2021'))
        if kind == 'price':
            return price(k)
        if kind == 'blank':
            return [''], None
        if kind == 'spaces':
            return ['   '], None
        if kind in ';*#%!':
            return [kind + ' ' + g.word() + ' 2021-01-01 ' + g.word()], None
        if kind == 'account':
            return ['account ' + g.word() + ':' + g.word(), '    note ' + g.word(), '    default'], None
        if kind == 'payee':
            return ['payee ' + g.word()], None
        if kind == 'commodity':
            return ['commodity ' + g.word(), '\tnote ' + g.word()], None
        if kind == 'tag':
            return ['tag ' + g.word(), '  check ' + g.word()], None
    seqs = [('tx',) * n for n in (1, 2, 3)] + [(a, b) for a in kinds for b in ('tx', 'price')] + [(b, a) for a in kinds for b in ('tx', 'price')] + \
        [('tx', a, 'tx') for a in kinds] + [('price', a, 'price', 'tx') for a in kinds if a != 'tx']
    if ctx.thorough:
        seqs += [s for s in itertools.product(kinds, repeat=3)]
    done = set()
    for s in seqs:
        if s in done:
            continue
        done.add(s)
        for nl, end in (('\n', True), ('\n', False), ('\r\n', True)):
            if (nl, end) != ('\n', True) and len(s) > 2 and not ctx.thorough:
                continue
            g = Gen(len(done))
            lines, txs, prs = [], [], []
            for k, kind in enumerate(s):
                l, e = item(kind, k)
                lines += l
                if kind == 'tx':
                    txs.append(e)
                elif kind == 'price':
                    prs.append(e)
            R.run(rule, "%s%s%s" % (' '.join(s), '' if end else ' without final line end', ' CRLF' if nl != '\n' else ''), nl.join(lines) + (nl if end else ''), check_ledger(p, txs, prs))
    rule2 = "a price directive is recorded as written"
    for kw in [dict(), dict(note=' x')] + [dict(time='%02d:20:30' % h) for h in range(24)]:
        g = Gen(2)
        l, e = price(3, **kw)
        R.run(rule2, str(kw), '\n'.join(l) + '\n', check_ledger(p, [], [e]))
    for form in ('"%s %s"', ):
        g = Gen(5)
        a, b, n, y = g.word(), g.word(), g.num(2, 1), g.num(4)
        R.run(rule2, "quoted commodity", 'P %s-1-2 "%s %s" %s "%s"\n' % (y, a, b, n, b), check_ledger(p, [], [dict(date=W('date', y, '1', '2'), commodity=a + ' ' + b, price=W('money', n, b))]))
    rule3 = "text that is not a journal is an error"
    for t in MALFORMED:
        R.run(rule3, repr(visible(t)), t, None, fails=True)


def auto_text_rules(ctx):
    """automated transactions as written: query, postings with an amount, a multiplier or an expression, comments"""
    p, R = ctx.p, Reader(ctx)
    rule = "an automated transaction is recorded as written"
    PLD = 'parser::ParsedLedger'

    def check(desc, posts, comments):
        def ck(v, st, m):
            ts = seq(get(p, v, PLD, 'transactions'))
            if ts is None or len(ts) != 1:
                return "%s transactions instead of 1" % ('?' if ts is None else len(ts))
            t = ts[0]
            if get(p, t, TX, 'description') != ('s', tr_(desc, m)):
                return "the query is %s instead of %s" % (visible(show_(get(p, t, TX, 'description'))), visible(tr_(desc, m)))
            if get(p, t, TX, 'transaction_type')[2] != vidx(p, 'models::transaction::TransactionType', 'Automated'):
                return "not an automated transaction"
            cs = seq(get(p, t, TX, 'comments'))
            if cs is None or [get(p, c, 'models::comment::Comment', 'comment') for c in cs] != [('s', tr_(c, m)) for c in comments]:
                return "comments %s instead of %s" % (visible(str(cs)), visible(str(comments)))
            ps = seq(get(p, t, TX, 'postings'))
            if ps is None or len(ps) != len(posts):
                return "%s postings instead of %d" % ('?' if ps is None else len(ps), len(posts))
            for j, (q, w) in enumerate(zip(ps, tr_(posts, m))):
                for f_ in ('account', 'money_amount', 'money_currency', 'amount_expr', 'balance_amount', 'cost_amount', 'kind'):
                    x = eta(get(p, q, RP, f_))
                    y = w.get(f_)
                    y = kindv(p, y) if f_ == 'kind' else ('s', y) if f_ == 'account' else NONE if y is None else some(rational(y) if f_ == 'money_amount' else ('s', y))
                    if f_ == 'amount_expr' and x[0] == 'A' and x[2] == 1 and y[2] == 1 and x[3][0][0] == 's':
                        x = some(('s', x[3][0][1].strip()))
                    if x != y:
                        return "%s of posting %d is %s instead of %s" % (f_, j + 1, visible(show_(x)), visible(show_(y)))
                cs = seq(get(p, q, RP, 'comments'))
                if cs is None or [get(p, c, 'models::comment::Comment', 'comment') for c in cs] != [('s', c) for c in w.get('comments', [])]:
                    return "comments of posting %d are %s instead of %s" % (j + 1, visible(str(cs)), visible(str(w.get('comments', []))))
        return ck
    k = 0
    for desc in (' /\x01\x02/', ' \x01\x02 and \x80', ' expr amount > \x0e \x01', '\x01', ' @\x01 %\x02'):
        for kinds in ('RB', 'VR', 'B'):
            for forms in (('n', 'n c'), ('expr', 'n'), ('c -n', 'expr'), ('-n', 'expr c')):
                for cm in ('', 'head', 'post', 'line', 'both'):
                    k += 1
                    if not ctx.thorough and k % 5 and desc != ' /\x01\x02/':
                        continue
                    g = Gen(k)
                    lines, posts, comments = ['=' + desc], [], []
                    if cm in ('head', 'both'):
                        lines.append('  ; :\x03:')
                        comments.append(':\x03:')
                    for kd, fm in zip(kinds, forms):
                        a = g.word() + ':' + g.word()
                        w = dict(account=a, kind=kd, comments=[])
                        l = '    ' + {'R': a, 'V': '(%s)' % a, 'B': '[%s]' % a}[kd] + '  '
                        n, c = g.num(1, 2), g.word()
                        if fm in ('n', '-n'):
                            l += fm.replace('n', n)
                            w.update(money_amount=fm.replace('n', n), money_currency='')
                        elif fm in ('n c', 'c -n'):
                            l += '%s %s' % (n, c) if fm == 'n c' else '%s -%s' % (c, n)
                            w.update(money_amount=n if fm == 'n c' else '-' + n, money_currency=c)
                        else:
                            e = '(amount * %s)' % n if fm == 'expr' else '(%s %s)' % (n, c)
                            l += e
                            w.update(amount_expr=e)
                        if cm == 'line':
                            l += ' ; \x04\x05'
                            w['comments'].append('\x04\x05')
                        lines.append(l)
                        if cm in ('post', 'both'):
                            lines.append('\t;\x05: \x06')
                            w['comments'].append('\x05: \x06')
                        posts.append(w)
                    for nl, end in (('\n', True), ('\r\n', True), ('\n', False)):
                        if (nl, end) != ('\n', True) and k % 4:
                            continue
                        R.run(rule, "%s, %s %s, comments: %s%s%s" % (visible(desc), kinds, forms, cm or 'none', ' CRLF' if nl != '\n' else '', '' if end else ', no final line end'),
                              nl.join(lines) + (nl if end else ''), check(desc, posts, comments), ledger=False)


DIR = {
    'account': ('accounts', 'models::account::Account', ('note', 'isin', 'alias', 'check', 'assert', 'default', 'payee')),
    'commodity': ('commodities', 'models::currency::Currency', ('note', 'alias', 'format', 'default')),
    'payee': ('payees', 'models::payee::Payee', ('alias',)),
    'tag': ('tags', 'models::comment::Tag', ('check', 'assert')),
}


def set_of(v):
    if v[0] == 'H' and not v[3]:
        return sorted(repr(e[0]) for e in v[2])
    return None


def directive_rules(ctx, kinds=()):
    """what a directive declares is what is recorded (C24)"""
    p, R = ctx.p, Reader(ctx)
    rule = "a directive is recorded as written"
    fields = {'note': 'note', 'isin': 'isin', 'format': 'format'}

    def entity(v, kind):
        lst, ty, _ = DIR[kind]
        x = get(p, v, 'parser::ParsedLedger', lst)
        if kind == 'tag':
            xs = seq(x)
            return None if xs is None else [(None, e) for e in xs]
        m = get(p, x, 'list::List', 'list')
        if m[0] != 'H' or m[3]:
            return None
        return [(e[0], e[1]) for e in m[2]]

    def check(exps):
        def ck(v, st, m):
            for kind in DIR:
                want = [e for e in tr_(exps, m) if e['kind'] == kind]
                got = entity(v, kind)
                if got is None or len(got) != len(want):
                    return "%s %s recorded instead of %d" % ('?' if got is None else len(got), DIR[kind][0], len(want))
                ty = DIR[kind][1]
                if kind == 'tag':
                    ty = adt_info(p, 'Tag')['def'].split('dinero::')[-1]
                have = {repr(get(p, e, ty, 'name')): e for _, e in got}
                for w in want:
                    e = have.get(repr(('s', w['name'])))
                    if e is None:
                        return "%s %s is recorded as %s" % (kind, visible(w['name']), visible(', '.join(have)))
                    for f_ in ('note', 'isin', 'format'):
                        if f_ in DIR[kind][2]:
                            x = eta(get(p, e, ty, f_))
                            y = NONE if w.get(f_) is None else some(('s', w[f_]))
                            if x != y:
                                return "%s of %s %s is %s instead of %s" % (f_, kind, visible(w['name']), visible(show_(x)), visible(show_(y)))
                    if w.get('tnote'):
                        x = get(p, e, ty, 'note')
                        if not (x[0] == 'A' and x[2] == 1 and x[3][0][0] == 's' and x[3][0][1].strip().endswith(w['tnote'])):
                            return "the note of %s %s is %s instead of %s" % (kind, visible(w['name']), visible(show_(x)), visible(w['tnote']))
                    for f_ in ('check', 'assert'):
                        if f_ in DIR[kind][2]:
                            x = seq(get(p, e, ty, f_))
                            if x != [('s', y) for y in w.get(f_, [])]:
                                return "%s of %s %s is %s instead of %s" % (f_, kind, visible(w['name']), visible(str(x)), visible(str(w.get(f_, []))))
                    if 'alias' in DIR[kind][2]:
                        x = set_of(get(p, e, ty, 'alias' if kind == 'payee' else 'aliases'))
                        y = sorted(repr(('s', a)) for a in w.get('alias', []))
                        if x != y:
                            return "the aliases of %s %s are %s instead of %s" % (kind, visible(w['name']), visible(str(x)), visible(str(y)))
                    if 'default' in DIR[kind][2]:
                        x = get(p, e, ty, 'default')
                        if x != ('b', bool(w.get('default'))):
                            return "default of %s %s is %s" % (kind, visible(w['name']), show_(x))
                    if kind in ('account', 'payee'):
                        x = seq(get(p, e, ty, 'payee' if kind == 'account' else 'alias_regex'))
                        y = w.get('payee' if kind == 'account' else 'alias', [])
                        if x is None or sorted(map(repr, x)) != sorted(repr(T('regex', ('s', a))) for a in y):
                            return "the patterns of %s %s are %s instead of %s" % (kind, visible(w['name']), x and visible(str([show_(a) for a in x])), visible(str(y)))
        return ck

    def build(g, kind, props, ind='  ', sp=' ', cm=None, trail='', name=None):
        n = name or g.word() + (' ' + g.word() + ':' + g.word() if kind in ('account', 'payee') else '')
        e = dict(kind=kind, name=n)
        lines = [kind + sp + n + trail]
        for i, pr in enumerate(props):
            if cm == i:
                lines.append(ind + '; ' + g.word())
            if pr == 'default':
                lines.append(ind + pr + trail)
                e['default'] = True
                continue
            v = g.word() + ' ' + g.word() + g.num(1)
            lines.append(ind + pr + sp + v + trail)
            if pr in fields:
                e[pr] = v
            else:
                e.setdefault(pr, []).append(v)
        if cm == len(props):
            lines.append(ind + ';' + g.word())
        return lines, e
    k = 0
    for kind, (_, _, props) in DIR.items():
        if kinds and kind not in kinds:
            continue
        sets = [()] + [(a,) for a in props] + [(a, b) for a in props for b in props if a != b or a in ('alias', 'check', 'assert', 'payee')] + [props, tuple(reversed(props))]
        for s in sets:
            for ind, sp, trail, cm, nl, end in (('  ', ' ', '', None, '\n', True), ('\t', '  ', ' ', 0, '\r\n', True), ('    ', ' ', '', len(s), '\n', False)):
                k += 1
                g = Gen(k)
                ls, e = build(g, kind, s, ind, sp, cm, trail)
                R.run(rule, "%s %s, indented by %r%s%s" % (kind, ' '.join(s), ind, ' CRLF' if nl != '\n' else '', '' if end else ', no final line end'),
                      nl.join(ls) + (nl if end else ''), check([e]), ledger=False, closure=end and nl == '\n' and len(s) < 2)
    for a in DIR:
        if kinds and a not in kinds:
            continue
        for b in DIR:
            for blank in ([], ['']):
                k += 1
                g = Gen(k)
                l1, e1 = build(g, a, DIR[a][2][:1], name='Alpha')
                l2, e2 = build(g, b, DIR[b][2][-1:], name='Beta')
                R.run(rule, "%s then %s%s" % (a, b, ' after a blank line' if blank else ''), '\n'.join(l1 + blank + l2) + '\n', check([e1, e2]), ledger=False)
    for kind, t in (('payee', '  ; \x01\x02'), ('payee', '  ;\x01'), ('payee', '  ;   \x01  '), ('commodity', ' ; \x01\x02'), ('commodity', '  ;\x01')):
        if kinds and kind not in kinds:
            continue
        R.run(rule, "%s with a note %s" % (kind, visible(t)), '%s N\x03%s\n' % (kind, t), check([dict(kind=kind, name='N\x03', tnote=t.strip('; ') if kind == 'payee' else None)]), ledger=False)
    rule3 = "an unknown property of a directive is an error"
    for a in DIR:
        if kinds and a not in kinds:
            continue
        for t in ('  ' + LET1[:3] + ' x\n', '  bad\n', '  note\x01 x\n' if a != 'tag' else '  note x\n', '  :\n'):
            R.run(rule3, "%s %s" % (a, visible(t)), a + ' N\n' + t, None, fails=True)


def directive_rules1(ctx):
    directive_rules(ctx, ('account',))


def directive_rules2(ctx):
    directive_rules(ctx, ('commodity', 'payee', 'tag'))
