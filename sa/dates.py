"""Dates given on the command line (C25)."""
from kern import *
from scen import *
import text, peg, absint, export, models
from parsing import visible, date_v
from report import show_
from text import leap

DAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def date_run(p, txt, em):
    fn = fnd(p, 'app::date_parser')
    if fn is None:
        return None, [], ['date_parser not found']

    def other(eng, st, fr, call):
        """the parser of natural language dates: a period, or a refusal"""
        v = st.deep(call.args[0])
        k = models.nd(st, 'period', (True, False))
        if not k:
            return err(sym('no period'))
        return ok(('T', (T('begin', v), T('finish', v), sym('whole'))))
    em = dict(em)
    for k in ('two_timer::parse',):
        em[k] = other
    em['chrono::NaiveDateTime::date'] = lambda eng, st, fr, call: T('dayof', st.deep(call.args[0]))
    r = Run(p, extra_models=em, intmax=5000, recursion=20)
    out = r.go(fn, [('s', txt)], {})
    return fn, out, r.trouble()


def date_rules(ctx):
    p = ctx.p
    em = text.text_models(p, peg.load(export.REPO))
    fin = lambda st, v: st.deep(v)

    def go(rule, label, txt, want):
        key = "%s: %s" % (rule, label)
        try:
            fn, out, tr = date_run(p, txt, em)
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return
        ctx.count("paths", len(out))
        if tr or not out:
            ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
            return
        for kind, info, st in out:
            v = st.deep(info) if kind == 'return' else None
            if v is not None and v[0] != 'A':
                ctx.undecided(key, "result %s" % show_(v)[:200])
                return
            m = want(kind, info, v, st)
            if m:
                ctx.bad(key, where(fn), "%s\n  text: %s" % (m, visible(txt)))
                return
        ctx.ok(rule, "%s [%s]" % (where(fn), label))

    def good(d):
        def f(kind, info, v, st):
            if kind != 'return':
                return "ends with %s %s" % (kind, info)
            if v[2] != 0:
                return "the date is refused"
            x = st.deep(v[3][0])
            if x[0] == 't' and x[1] == 'date' and tuple(st.deep(y) for y in x[2:]) != tuple(d[2:]):
                return "the day is %s instead of %s" % (show_(x), show_(d))
            if not (x[0] == 't' and x[1] == 'date'):
                return "the day is %s instead of %s" % (show_(x), show_(d))
        return f

    def refused(kind, info, v, st):
        if kind != 'return':
            return "ends with %s %s instead of an error" % (kind, info)
        if v[2] == 0:
            x = st.deep(v[3][0])
            if x[0] == 't' and x[1] == 'date':
                return "an impossible date is read as %s" % show_(x)

    def elsewhere(txt, also=()):
        """nothing of the text is left out, and of a period it is the first day"""
        def f(kind, info, v, st):
            if kind != 'return':
                return "ends with %s %s" % (kind, info)
            if v[2] == 0:
                x = st.deep(v[3][0])
                if x in also:
                    return
                if x[0] == 't' and x[1] == 'date':
                    return "part of the text is left out: the day is %s" % show_(x)
                if x == T('dayof', T('finish', ('s', txt))):
                    return "the day is the end of the period instead of its begin"
                if x[0] == 't' and x[1] == 'dayof' and x[2][0] == 't' and x[2][1] in ('begin', 'finish') and x[2][2][0] == 's' and x[2][2][1].strip() != txt.strip():
                    return "the text read is %s" % visible(x[2][2][1])
        return f
    Y = DIG[0] + DIG[1] + DIG[2] + DIG[3]
    R1 = "year, month and day are that day"
    R2 = "year and month are the first of the month"
    R3 = "an impossible date is an error"
    R4 = "no part of a date is left out"
    R5 = "another expression is the first day of its period"
    forms = lambda n: ['%02d' % n] + (['%d' % n] if n < 10 else [])
    for m in range(1, 13):
        for ms in forms(m):
            for s in '-/':
                go(R2, visible(Y + s + ms), Y + s + ms, good(date_v(Y, m, 1)))
            for d in range(1, DAYS[m - 1] + 1):
                if (m, d) == (2, 29):
                    continue
                for ds in forms(d):
                    for s in ('--', '//') if ctx.tier == 'thorough' or d in (1, 2, 9, 10, 12, 13, 20, 28, 30, 31) else ('--',):
                        t = Y + s[0] + ms + s[1] + ds
                        go(R1, visible(t), t, good(date_v(Y, m, d)))
    for y in ('2020', '2000', '1900', '2021', '2100', '1600', '0400', '9999', '9996', '0001'):
        for s in '-/':
            t = y + s + '02' + s + '29'
            go(R1 if leap(int(y)) else R3, t, t, good(date_v(y, 2, 29)) if leap(int(y)) else refused)
            t = y + s + '2' + s + '28'
            go(R1, t, t, good(date_v(y, 2, 28)))
    for m, d in [(0, 1), (13, 1), (99, 99), (20, 5), (1, 0), (1, 32), (12, 32), (2, 30), (2, 31), (4, 31), (6, 31), (9, 31), (11, 31), (5, 99), (0, 0)]:
        for s in '-/':
            t = Y + s + '%02d' % m + s + '%02d' % d
            go(R3, visible(t), t, refused)
    for m in (0, 13, 20, 99):
        for s in '-/':
            t = Y + s + '%02d' % m
            go(R3, visible(t), t, refused)
    w = LET1
    for core in (Y + '-05-07', Y + '/5/7', Y + '-05', Y + '/12', Y + '-1-31'):
        for pre, post in ((w[0], ''), (DIG[5], ''), (w[0] + ' ', ''), (DIG[4] + '-', ''), (DIG[4] + '/', ''), ('-', ''), ('', w[0]), ('', ' ' + w[0]), ('', '-'), ('', '-' + DIG[4] + '-' + DIG[5] + '-' + DIG[4]),
                          ('', ' ' + DIG[5]), ('', '/' + w[1]), (w[2] + '/', '/' + w[1]), ('', DIG[5] + DIG[4] + DIG[6]), (Y + '-01-01 ', ''), ('', ' - ' + Y + '-01-01'), ('', ' ' + DIG[4] + DIG[5] + ':' + DIG[4] + DIG[5])):
            t = pre + core + post
            go(R4, visible(t), t, elsewhere(t))
    for t in (Y[:3] + '-05-07', Y[:2] + '/05/07', Y[:1] + '-5-7', '05-07-' + Y, '5/7/' + Y, Y + '05' + '07', Y + '.05.07', Y + '-005-07', Y + '-05-007', Y + '-' + w[0] + '-07', Y + '--05', Y + '-/05', '-' + Y, Y[:2] + '-' + Y[2:]):
        go(R4, visible(t), t, elsewhere(t))
    for t in ('yesterday', 'today', 'last month', 'this year', w[0] + w[1], w[0] + ' ' + w[1] + w[2], w[0] + ' ' + DIG[4] + ', ' + Y, ''):
        go(R5, visible(t), t, elsewhere(t))
    go(R5, visible(Y), Y, elsewhere(Y, (date_v(Y, 1, 1),)))
