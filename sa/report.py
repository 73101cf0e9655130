"""Reports: the commands are interpreted on small exact ledgers and their printed lines compared with the specification."""
from ledger import *

AC = 'models::account::Account'
CUR = 'models::currency::Currency'


def show_(v):
    try:
        return show(v)
    except Exception:
        return repr(v)[:200]


def account(p, name):
    return mk(p, AC, name=('s', name), _rest=lambda n: T('sym', 'acc.%s.%s' % (name, n)))


def commodity(p, name):
    return mk(p, CUR, name=('s', name), _rest=lambda n: T('sym', 'cur.%s.%s' % (name, n)))


def posting_(p, i, kind, acc, com, amount=None):
    return mk(p, PO, account=account(p, acc), amount=some(money(sym('a%s' % i) if amount is None else amount, commodity(p, com))), kind=kindv(p, kind),
              payee=some(sym('pay%s' % i)), tags=V(), comments=V(), balance=NONE, cost=NONE)


def tx_(p, i, ps):
    return mk(p, TX, postings=V(*ps), date=some(sym('date%s' % i)), description=('s', 'Payee%s' % i))


def ledger_(p, txs, prices=()):
    return mk(p, LG, transactions=V(*txs), prices=V(*prices))


def opts(p, **kw):
    d = dict(depth=NONE, exchange=NONE, query=V())
    d.update(kw)
    return mk(p, 'CommonOpts', **d)


def acc_name(v):
    """text of an abstract account / payee / commodity"""
    if v[0] == 'A' and v[3]:
        for x in v[3]:
            if x[0] == 's':
                return x[1]
    return None


# ------------------------------------------------------------------ printed text
def flatten(v, out):
    if v[0] == 's':
        out.append(v[1])
    elif v[0] == 'c':
        out.append(v[1])
    elif v[0] == 't' and v[1] == 'cat':
        for x in v[2:]:
            flatten(x, out)
    elif v[0] == 't' and v[1] == 'pad':
        # padding adds blanks on one or both sides of a field
        out.append(' ')
        flatten(v[3], out)
        out.append(' ')
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3 and (v[2][0] in 'sc' or v[2][0] == 't' and v[2][1] in ('cat', 'disp', 'pad')):
        flatten(v[2], out)
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3 and v[2][0] == 'A' and acc_name(v[2]) is not None and v[2][1] != MONEY:
        out.append(acc_name(v[2]))
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3:
        out.append(v[2])
    else:
        out.append(v)


def lines(st):
    """printed lines, each a list of words: strings, or abstract values displayed; None if the number of lines is open"""
    o = st.mem.get(OUT)
    items = []
    for s in (o[1] if o else ()):
        if s[0] != '1':
            if any(t[0][0] == 'T' and t[0][1] and t[0][1][0] == ('s', 'print') for t in s[1]):
                return None
            continue
        e = s[1]
        if e[0] == 'T' and e[1] and e[1][0] == ('s', 'print'):
            flatten(e[1][1], items)
    res, cur, word = [], [], []

    def endw():
        if word:
            cur.append(tuple(word))
            word.clear()
    for x in items:
        if isinstance(x, str):
            for ch in x:
                if ch == '\n':
                    endw()
                    res.append(list(cur))
                    cur.clear()
                elif ch.isspace():
                    endw()
                else:
                    if word and isinstance(word[-1], str):
                        word[-1] += ch
                    else:
                        word.append(ch)
        else:
            word.append(x)
    endw()
    if cur:
        res.append(list(cur))
    # words of one piece are that piece
    return [[w[0] if len(w) == 1 else w for w in l] for l in res]


def showline(l):
    return " ".join(w if isinstance(w, str) else "".join(x if isinstance(x, str) else "<%s>" % show_(x) for x in (w if w and isinstance(w[0], (str, tuple)) and w[0] not in ('A', 't', 'P') else (w,))) for l_ in [l] for w in l_)


def is_money(w):
    return isinstance(w, tuple) and len(w) == 4 and w[0] == 'A' and w[1] == MONEY


def as_zero(w):
    return w == '0' or w == ZERO


def amount_word(st, w, q, com):
    """word w displays the quantity q of commodity com"""
    if as_zero(w):
        return st.sign(q) == frozenset('0')
    if not is_money(w) or w[2] != 1:
        return False
    return acc_name(w[3][1]) == com and st.sign(padd(w[3][0], pneg(q))) == frozenset('0')


def match_amounts(st, words, want):
    """the displayed amounts are exactly the entries of want {commodity: quantity} that are not zero (or one zero); message or None"""
    words = list(words)
    left = dict(want)
    for w in words:
        if as_zero(w):
            continue
        k = acc_name(w[3][1]) if is_money(w) and w[2] == 1 else None
        if k is None or k not in left:
            return "shows %s, expected %s" % (show_(w) if not isinstance(w, str) else w, showwant(want))
        if not amount_word(st, w, left.pop(k), k):
            return "shows %s, expected %s" % (show_(w), showwant(want))
    for k, q in left.items():
        if st.sign(q) != frozenset('0'):
            return "lacks %s %s" % (show_(q), k)
    return None


def showwant(want):
    return ", ".join("%s %s" % (show_(q), k) for k, q in want.items())


def addto(d, com, q):
    d[com] = padd(d[com], q) if com in d else q


def prune(st, d):
    return {k: q for k, q in d.items() if st.sign(q) != frozenset('0')}


def cmd_over(led, query='()', sel=True):
    def flt(eng, st, fr, args):
        post = st.deep(args[3])
        t = st.deep(args[2])
        q = proj(post, fidx(eng.p, PO, 'amount'))
        r = False if sel == 'none' else st.truth(T('pred', 'sel', q)) if sel else True
        ev(eng, st, 'filter', st.deep(args[0]), st.deep(args[1]), proj(t, fidx(eng.p, TX, 'description')), q, ('b', r))
        return ok(('b', r))
    return [(r"Tokenizer.* as std::convert::From<&.*>>::from$", lambda e, st, fr, a: T('tokenizer', st.deep(a[0]))),
            (r"Tokenizer.*::tokenize$", lambda e, st, fr, a: ok(T('items', st.deep(a[0])))),
            (r"to_ledger$", lambda e, st, fr, a: (ev(e, st, 'to_ledger', st.deep(a[0]), st.deep(a[1])), ok(led))[1]),
            (r"filter::filter$", flt),
            (r"filter::preprocess_query$", lambda e, st, fr, a: (ev(e, st, 'query', st.deep(a[0])), ('s', query))[1]),
            (r"value_expr::build_root_node_from_expression$", lambda eng, st, fr, args: T('node', st.deep(args[0]))),
            (r"get_payee$|get_payee_inmutable$", lambda e, st, fr, a: proj(st.deep(a[0]), fidx(e.p, TX, 'description')))] + LISTS


def term_none(call):
    return call.key.endswith('terminal_size::terminal_size') or call.key == 'terminal_size::terminal_size'


OV = [(term_none, lambda eng, st, fr, call: NONE)]


# ------------------------------------------------------------------ register
COMS = {'U': 'USD', 'E': 'EUR', 'G': 'GBP', 'A': 'AUD', 'B': 'BTC', 'C': 'CHF', 'D': 'DKK'}


def register_rules(ctx):
    p = ctx.p
    fn = fnd(p, 'commands::register::execute')
    cases = [
        ('one posting', [['R0U']]),
        ('two postings, one commodity', [['R0U', 'R1U']]),
        ('two postings, two commodities', [['R0U', 'R1E']]),
        ('virtual postings', [['V0U', 'B1U']]),
        ('three postings', [['R0U', 'V1U', 'R2E']]),
        ('two transactions', [['R0U'], ['R1U']]),
        ('two transactions of two', [['R0U', 'R1E'], ['B2U']]),
        ('three commodities', [['R0U', 'R1E', 'R2G']]),
    ]
    if ctx.thorough:
        cases += [('four postings', [['R0U', 'R1U'], ['R2E', 'V3U']]), ('three transactions', [['R0U'], ['R1E'], ['R2U']])]
    cases += [('six commodities', [['R0A', 'R1B', 'R2C', 'R3D', 'R4E', 'R5G']]), ('six commodities, then each again', [['R0A', 'R1B', 'R2C', 'R3D', 'R4E', 'R5G'], ['R6G', 'R7A', 'R8C', 'V9D']]), ('six commodities, then some cancelled', [['R0A', 'R1B', 'R2C', 'R3D', 'R4E', 'R5G'], ['R6D', 'R7A', 'R8B']])]
    cases += [('six postings in two commodities', [['R0A', 'R1B', 'R2A', 'V3B', 'R4A', 'B5B']]), ('eight postings in three commodities', [['R0A', 'R1B', 'R2C', 'R3A', 'R4B', 'R5C', 'R6A', 'R9B']]),
              ('six transactions', [['R0A'], ['R1B'], ['R2A'], ['R3C'], ['R4A'], ['R5B']])]
    back = {'6': 3, '7': 0, '8': 1}
    def qty(x, label):
        return pneg(sym('a%d' % back[x[1]])) if 'cancelled' in label and x[1] in back else sym('a%s' % x[1])

    for label, shape in cases:
        flat = [(t, x) for t, xs in enumerate(shape) for x in xs]
        txs = [tx_(p, t, [posting_(p, x[1], x[0], 'Acc:%s' % x[1], COMS[x[2]], qty(x, label)) for x in xs]) for t, xs in enumerate(shape)]
        led = ledger_(p, txs)
        many = len(flat) > 5

        def ck(kind, v, st):
            if kind == 'panic':
                return 'ends with a panic: %s' % (v,)
            if kind != 'return' or v[0] != 'A' or v[2] != 0:
                return "ends with %s" % (show_(v) if kind == 'return' else kind)
            ls = lines(st)
            if ls is None:
                return "the printed lines are not determined"
            run = {}
            k = 0
            prev = None
            nrow = {}
            for t, x in flat:
                com = COMS[x[2]]
                q = qty(x, label)
                am = some(money(q, commodity(p, com)))
                s = True if many else st.facts.get(('v', T('pred', 'sel', am)))
                if s is None:
                    return "posting %s is not tested by the filter" % x
                if not s:
                    continue
                addto(run, com, q)
                name = {'R': 'Acc:%s', 'V': '(Acc:%s)', 'B': '[Acc:%s]'}[x[0]] % x[1]
                if k >= len(ls):
                    return "no row for posting %s" % x
                l = ls[k]
                k += 1
                nrow[t] = nrow.get(t, 0) + 1
                if nrow[t] == 1 and (sym('date%d' % t) not in l or not any(isinstance(w, str) and w.startswith('Payee%d' % t) for w in l)):
                    return "the first row of transaction %d lacks its date or payee: %s" % (t, showline(l))
                if name not in l:
                    return "the row of posting %s lacks the account %s: %s" % (x, name, showline(l))
                j = l.index(name)
                rest = l[j + 1:]
                if len(rest) < 1 or not amount_word(st, rest[0], q, com):
                    return "the row of posting %s lacks its amount: %s" % (x, showline(l))
                tot = rest[1:]
                # further lines of the running total
                while k < len(ls) and len(ls[k]) == 1 and (is_money(ls[k][0]) or as_zero(ls[k][0])):
                    tot = tot + ls[k]
                    k += 1
                if not tot:
                    return "the row of posting %s has no running total: %s" % (x, showline(l))
                m = match_amounts(st, tot, run)
                if m:
                    return "running total of posting %s: %s" % (x, m)
                run = prune(st, run)
            if k != len(ls):
                return "an extra line is printed: %s" % showline(ls[k])
        c = Case(ctx, fn, 'the register shows each selected posting with its amount and the exact running total', fn_over=cmd_over(led, sel=not many), overrides=OV, anyorder=False, intmax=5000)
        for pat in ('+', '-', '+-', '-+', '++-', '--+') if many else ('',):
            c.run(label + (' signs %s' % pat if many else ''), [X(opts(p))], facts(*[sg(sym('a%s' % x[1]), pat[i % len(pat)]) for i, (t, x) in enumerate(flat)]) if many else {}, ck)


# ------------------------------------------------------------------ filters
def filter_kernel(ctx):
    """filter::filter on every combination of restrictions"""
    p = ctx.p
    fn = fnd(p, 'filter::filter')
    date, b, e = sym('date'), sym('begin'), sym('end')

    def ev_(eng, st, fr, args):
        k = st.deep(args[0])
        r = st.truth(T('pred', 'match', k))
        ev(eng, st, 'eval', k, st.deep(args[1]), st.deep(args[2]), ('b', r))
        ER = adt_info(eng.p, 'value_expr::EvalResult')
        return ('A', ER['def'], vidx(eng.p, 'value_expr::EvalResult', 'Boolean'), (('b', r),))
    c = Case(ctx, fn, 'a posting is selected exactly when it satisfies every restriction', fn_over=[(r"value_expr::eval$", ev_)] + LISTS, anyorder=False)
    for real in (False, True):
        for begin in (False, True):
            for end in (False, True):
                for node in (False, True):
                    for kind in 'RVB':
                        o = opts(p, real=('b', real), begin=some(b) if begin else NONE, end=some(e) if end else NONE)
                        po = posting_(p, 0, kind, 'A', 'USD')
                        tx = mk(p, TX, date=some(date), postings=V(po))
                        nd = some(T('node', ('s', 'q'))) if node else NONE

                        def ck(k, v, st):
                            if k != 'return' or v[0] != 'A' or v[2] != 0:
                                return "ends with %s" % (show_(v) if k == 'return' else k)
                            r = st.truth(v[3][0])
                            want = True
                            if real and kind != 'R':
                                want = False
                            for use, lim, good in ((begin, b, '>='), (end, e, '<')):
                                if use:
                                    s = st.order(date, lim)
                                    if s <= frozenset('>=' if good == '>=' else '<'):
                                        continue
                                    if s & frozenset('>=' if good == '>=' else '<'):
                                        want = None if want else False
                                    else:
                                        want = False
                            m = st.facts.get(('v', T('pred', 'match', T('node', ('s', 'q'))))) if node else True
                            if want is not False and m is False:
                                want = False
                            elif want is True and m is None:
                                want = None
                            if want is None:
                                return "the answer %s does not depend on every restriction given" % r
                            if want != r:
                                return "answers %s where the restrictions say %s" % (r, want)
                            for x in events(st, 'eval'):
                                if x[1] != st.deep(X(po)) and x[1] != po:
                                    return "the query is evaluated on another posting"
                        c.run('real=%s begin=%s end=%s query=%s kind=%s' % (real, begin, end, node, kind),
                              [X(o), X(nd), X(tx), X(po), X(T('sym', 'commodities'))], {}, ck)


def filter_use(ctx):
    """register and balance hand every posting, with its own transaction, the options and the query, to the filter"""
    p = ctx.p
    for cmd, extra in (('register', []), ('balance', [('b', True), ('b', True)]), ('balance', [('b', False), ('b', True)])):
        fn = fnd(p, 'commands::%s::execute' % cmd)
        for query in ('()', '(x)'):
            txs = [tx_(p, t, [posting_(p, '%d%d' % (t, i), 'RVB'[i], 'Acc%d' % i, 'USD') for i in range(n)]) for t, n in enumerate((2, 3))]
            o = opts(p, query=V(('s', 'w0'), ('s', 'w1')))
            c = Case(ctx, fn, 'reports consider every posting and decide by the filter', overrides=OV, anyorder=False, intmax=5000,
                     fn_over=cmd_over(ledger_(p, txs), query, sel='none'))

            def ck(kind, v, st):
                if kind == 'panic':
                    return 'ends with a panic: %s' % (v,)
                if kind != 'return' or v[0] != 'A' or v[2] != 0:
                    return "ends with %s" % (show_(v) if kind == 'return' else kind)
                seen = {}
                for x in events(st, 'filter'):
                    if x[0] != o:
                        return "the filter gets other options than the command"
                    want = NONE if query == '()' else some(T('node', ('s', query)))
                    if x[1] != want:
                        return "the filter gets the query %s instead of %s" % (show_(x[1]), show_(want))
                    seen[(x[2], x[3])] = seen.get((x[2], x[3]), 0) + 1
                for t, tx in enumerate(txs):
                    for q in proj(tx, fidx(p, TX, 'postings'))[1]:
                        n = seen.get((('s', 'Payee%d' % t), proj(q[1], fidx(p, PO, 'amount'))), 0)
                        if n != 1:
                            return "a posting of transaction %d is tested %d times with its own transaction" % (t, n)
                for x in events(st, 'query'):
                    if x[0] != proj(o, fidx(p, 'CommonOpts', 'query')):
                        return "the query is not made from the words of the command line: %s" % show_(x[0])
            c.run('%s %s %s' % (cmd, extra[:1], query), [X(o)] + extra, {}, ck)


# ------------------------------------------------------------------ balance report
def rows(ls):
    """printed lines -> ([(amount words, account text)], total words or None) ; the separator line is dashes"""
    out, cur, total = [], [], None
    for l in ls:
        if total is not None:
            total += l
            continue
        if l and isinstance(l[0], str) and set(l[0]) == {'-'}:
            if cur:
                return None, None
            total = l[1:]
            continue
        am = [w for w in l if is_money(w) or as_zero(w)]
        tx = [w for w in l if not (is_money(w) or as_zero(w))]
        if len(tx) > 1:
            return None, None
        cur += am
        if tx:
            if not isinstance(tx[0], str):
                return None, None
            out.append((cur, tx[0]))
            cur = []
    if cur:
        return None, None
    return out, total


def zero_bal(st, d):
    """True / False / None: the balance is zero"""
    z = True
    for q in d.values():
        s = st.sign(q)
        if '0' not in s:
            return False
        if s != frozenset('0'):
            z = None
    return z


def same_bal(st, a, b):
    d = dict(a)
    for k, q in b.items():
        d[k] = padd(d[k], pneg(q)) if k in d else pneg(q)
    return zero_bal(st, d) is True


def expected_balance(st, p, posts, sel=True):
    own = {}
    for i, (acc, com) in enumerate(posts):
        q = sym('a%d' % i)
        if sel:
            s = st.facts.get(('v', T('pred', 'sel', some(money(q, commodity(p, com))))))
            if s is None:
                return None
            if not s:
                continue
        addto(own.setdefault(acc, {}), com, q)
    return own


def tree_totals(own):
    tot = {}
    for a, d in own.items():
        parts = a.split(':')
        for n in range(1, len(parts) + 1):
            t = tot.setdefault(":".join(parts[:n]), {})
            for k, q in d.items():
                addto(t, k, q)
    return tot


def fold_depth(own, depth):
    tot = {}
    for a, d in own.items():
        t = tot.setdefault(":".join(a.split(':')[:depth]), {})
        for k, q in d.items():
            addto(t, k, q)
    return tot


def deeper(a, depth):
    """account a has more parts than the depth limit; what a limit of 0 folds everything into has no name and is no row either"""
    return a.count(':') >= depth


def check_rows(st, got, want, flat, depth, skey_=None):
    """rows against the accounts that have to be shown; want {account: balance}"""
    names = sorted(want) if flat else sorted(want, key=lambda a: a.split(':'))
    shown = []
    i = 0

    def nonzero(a):
        return zero_bal(st, want[a]) is not True
    for ams, text in got:
        while i < len(names) and (not nonzero(names[i]) or depth is not None and deeper(names[i], depth)):
            i += 1
        if i >= len(names):
            return "an extra row is shown: %s" % text
        a = names[i]
        if flat:
            if text != a:
                return "expected the row of %s, got %s" % (a, text)
            i += 1
        else:
            segs = text.split(':')
            if segs[0] != a.split(':')[-1]:
                return "expected the row of %s, got %s" % (a, text)
            i += 1
            cur = a
            for s in segs[1:]:
                child = cur + ':' + s
                if child not in want or not same_bal(st, want[child], want[a]):
                    return "row %s folds %s, whose balance is not that of %s" % (text, child, a)
                while i < len(names) and names[i] != child and not nonzero(names[i]):
                    i += 1
                if i >= len(names) or names[i] != child:
                    return "row %s folds %s over another account" % (text, child)
                i += 1
                cur = child
        m = match_amounts(st, ams, want[a])
        if m:
            return "row %s: %s" % (a, m)
        shown.append(a)
    while i < len(names):
        if nonzero(names[i]) and zero_bal(st, want[names[i]]) is not None and not (depth is not None and deeper(names[i], depth)):
            return "no row for %s" % names[i]
        if zero_bal(st, want[names[i]]) is None and not (depth is not None and deeper(names[i], depth)):
            return "%s is hidden although its balance may not be zero" % names[i]
        i += 1
    return None


def balance_report(ctx, cases, flats, depths, rule, anyorder=False, sel=True, max_states=40000, hseed=None):
    p = ctx.p
    fn = fnd(p, 'commands::balance::execute')
    for label, posts in cases:
        txs = [tx_(p, 0, [posting_(p, str(i), 'R', acc, com) for i, (acc, com) in enumerate(posts)])]
        led = ledger_(p, txs)
        for flat in flats:
            for depth in depths:
                o = opts(p, depth=NONE if depth is None else some(('i', depth)))

                def ck(kind, v, st):
                    if kind == 'panic':
                        return 'ends with a panic: %s' % (v,)
                    if kind != 'return' or v[0] != 'A' or v[2] != 0:
                        return "ends with %s" % (show_(v) if kind == 'return' else kind)
                    ls = lines(st)
                    if ls is None:
                        return "the printed lines are not determined"
                    got, total = rows(ls)
                    if got is None:
                        return "the rows cannot be read: %s" % " | ".join(map(showline, ls))
                    own = expected_balance(st, p, posts, sel)
                    if own is None:
                        return "a posting is not tested by the filter"
                    want = tree_totals(own) if not flat else own if depth is None else fold_depth(own, depth)
                    m = check_rows(st, got, want, flat, depth)
                    if m:
                        return m + "\n  printed: " + " | ".join(map(showline, ls))[:600]
                    if total is not None:
                        t = {}
                        for d in own.values():
                            for k, q in d.items():
                                addto(t, k, q)
                        m = match_amounts(st, total, t)
                        if m:
                            return "total: %s" % m
                    elif len(got) > 1:
                        return "no total is shown"
                c = Case(ctx, fn, rule, overrides=OV, anyorder=anyorder, intmax=5000, fn_over=cmd_over(led, sel=sel), max_states=max_states, hseed=hseed)
                c.run('%s, %s, depth %s%s' % (label, 'flat' if flat else 'tree', depth, '' if hseed is None else ', order %d' % hseed), [X(o), ('b', flat), ('b', True)], {}, ck)


U, E_ = 'USD', 'EUR'
TREES = [
    ('one account', [('A', U)]),
    ('account and parent', [('A', U), ('A:B', U)]),
    ('siblings', [('A:B', U), ('A:C', U)]),
    ('deep chain', [('A:B:C', U)]),
    ('common prefix', [('A', U), ('AB', U)]),
    ('common prefix below', [('A:B:C', U), ('A:BC', U)]),
    ('two postings of one account', [('A:B', U), ('A:B', U)]),
    ('two commodities', [('A:B', U), ('A:C', E_)]),
    ('two commodities of one account', [('A:B', U), ('A:B', E_)]),
    ('separate trees', [('A:B', U), ('C:D', U)]),
    ('punctuation', [('A:B', U), ('A-X:C', U)]),
    ('cousins', [('A:B:C', U), ('A:D:C', U)]),
    ('a name that extends the parent', [('A', U), ('A-', U), ('A:B', U)]),
    ('a name that extends the parent, below', [('A:B:C', U), ('A:B-:D', U)]),
]
TREES3 = [
    ('parent, child and sibling', [('A', U), ('A:B', U), ('A:C', U)]),
    ('chain with leaves', [('A:B:C', U), ('A:B:D', U), ('A:E', U)]),
    ('three levels', [('A', U), ('A:B', U), ('A:B:C', U)]),
    ('two trees', [('A:B', U), ('A:C', U), ('D:E', E_)]),
    ('sibling with two commodities', [('A:B', U), ('A:C', U), ('A:C', E_)]),
    ('parent with two commodities', [('A', U), ('A', E_), ('A:B', U)]),
    ('child of two commodities', [('A:B:C', U), ('A:B:C', E_), ('A:D', U)]),
]


def balance_rules_(ctx):
    r = 'the balance report conserves every selected amount'
    balance_report(ctx, TREES, (False, True), (None, 0, 1, 2), r)
    balance_report(ctx, TREES3, (False, True), (None, 1, 2) if ctx.thorough else (None, 1), r, sel=False)


def balance_anyorder(ctx):
    """the same with the entries of hash maps visited in every order"""
    r = 'the balance report does not depend on the order of hash maps'
    cases = [('siblings', [('A:B', U), ('A:C', U)]), ('account and parent', [('A', U), ('A:B', U)]), ('two commodities', [('A:B', U), ('A:C', E_)]), ('separate trees', [('A', U), ('B', E_)])]
    balance_report(ctx, cases, (False, True), (None, 1), r, anyorder=True, sel=False)
    big = [('chain', [('A:B:C:D', U)]), ('three levels', [('A', U), ('A:B', U), ('A:B:C', U)]), ('cousins', [('A:X:Y', U), ('B:X', U), ('A:X:Z', U)])]
    for s in range(20 if ctx.thorough else 4):
        balance_report(ctx, big, (False, True), (None, 1, 2), r, sel=False, hseed=s)
