"""An error in a journal names the file and the line it is in (C28)."""
import re
from includes import *


def plain(v):
    """the text a message shows; what is not known is a replacement character"""
    if not isinstance(v, tuple) or not v:
        return '\ufffd'
    if v[0] == 's':
        return v[1]
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 'V':
        return ''.join(plain(s[1]) if s[0] == '1' else '\ufffd' for s in v[1])
    if v[0] == 't':
        if v[1] == 'cat':
            return ''.join(plain(x) for x in v[2:])
        if v[1] == 'disp':
            x = v[3] if len(v) > 3 else v[2]
            return '"%s"' % x[1] if x[0] == 's' and v[2] == 'debug' else plain(x) if x[0] in ('s', 'i', 't') else '\ufffd'
        if v[1] == 'pad':
            return ' '.join(plain(x) for x in v[2:] if isinstance(x, tuple) and x and x[0] in ('s', 't'))
        if v[1] == 'app' or v[1] == 'poly':
            return '\ufffd'
        return ''.join(plain(x) for x in v[2:] if isinstance(x, tuple) and x and x[0] in ('s', 't', 'V'))
    if v[0] in ('A', 'T'):
        return ''.join(plain(x) for x in (v[3] if v[0] == 'A' else v[1]))
    return '\ufffd'


TXN = '2020-01-02 a\n    A  1 X\n    B\n'
OKS = {'nothing': '', 'a transaction': TXN, 'blank lines': '\n\n\n', 'comments': '; a\n# b\n* c\n% d\n', 'a transaction with comments': '2020-01-02 a ; n\n    ; t\n    A  1 X ; o\n    ; p\n    B\n',
       'directives': 'account A\n    alias x\n    note y\n\ncommodity X\n    alias z\n\npayee p\n', 'prices': 'P 2020-01-02 X 3 Y\nP 2020-01-03 X 4 Y\n', 'CRLF': TXN.replace('\n', '\r\n') + '\r\n',
       'an expression of several lines': '2020-01-02 a\n    A  (1 X +\n    2 X +\n    3 X)\n    B\n', 'multipliers': '= expr true\n    A  0.5\n    B  -0.5\n\n',
       'multipliers of the amount': '= expr true\n    A  amount\n    B  -amount\n\n',
       'a tag': 'tag t\n', 'an automated transaction': '= expr true\n    A  1 X\n    B  -1 X\n', 'an expression': '2020-01-02 a\n    A  (1 X + 2 X)\n    B\n', 'two transactions': TXN + '\n' + TXN + '; c\n' + TXN,
       'blank lines in between': TXN + '\n   \n\t\n' + TXN + '\n', 'costs and balances': '2020-01-02 a\n    A  1 X @ 2 Y = 1 X\n    B  2 X @@ 3 Y\n    C  = 3 X\n', 'names of other letters': '2020-01-02 \u00e9\u4e16\n    \u00e9\u00e9  1 \u20ac\n    B\n'}
BAD = {'an unknown word': ('foo\n', 0), 'a date that does not exist': ('2020-13-01 x\n    A  1 X\n    B\n', 0), 'a bad amount': ('2020-01-02 x\n    A  1.2.3 X\n    B\n', 1), 'a bad amount further down': ('2020-01-02 x\n    A  1 X\n    B  2 X\n    C  1.2.3 X\n    D\n', 3),
       'a bad amount after comments': ('2020-01-02 x ; a\n    ; b\n    A  1 X\n    ; c\n    B  1.2.3 X\n', 4), 'a second amount': ('2020-01-02 x\n    A  1 X 2 X\n    B\n', 1), 'a bad property': ('account a\n    alias b\n    bad x\n    note y\n', 2),
       'a bad property of a commodity': ('commodity a\n    bad x\n', 1), 'a price without amount': ('P 2021-01-05 X\n', 0), 'an indented line': ('  y\n', 0), 'a word that is almost include': ('incl x\n', 0), 'a word that is almost account': ('acc x\n', 0), 'a word that ends like account': ('aaccount x\n', 0), 'a word that is almost commodity': ('com x\n', 0), 'a word that is almost payee': ('payees x\n', 0),
       'a word that is almost tag': ('tagx y\n', 0), 'an account without name': ('account\n', 0), 'a day that does not exist': ('2021-02-29 x\n    A  1 X\n    B\n', 0), 'an effective date that does not exist': ('2021-02-28=2021-04-31 x\n    A  1 X\n    B\n', 0),
       'a price of a day that does not exist': ('P 2021-02-30 X 3 Y\n', 0), 'a cost without amount': ('2020-01-02 x\n    A  1 X @\n    B\n', 1), 'a first line without description': ('2020-01-02\n    A  1 X\n    B\n', 0),
       'a bad pattern of a payee': ('payee a\n    alias b\n    alias (c\n', 2), 'a bad pattern of an account': ('account a:b\n    payee c\n    payee d)\n    note e\n', 2), 'a number with a comma': ('2020-01-02 x\n    A  1,000 X\n    B\n', 1),
       'an amount after the balance': ('2020-01-02 x\n    A  = 1 X 2 X\n    B\n', 1), 'a bad property of a payee': ('payee a\n    alias b\n\n    bad x\n', 3)}


def position_rules(ctx, part=None):
    p = ctx.p
    R = Reader(ctx)
    fs_ = [f for f in p.fns.values() if f.local and f.crate == 'lib' and f.name.endswith('::from') and 'Tokenizer' in f.name and 'PathBuf' in f.name]
    frm = fs_[0] if fs_ else None
    base = R.models
    number = itertools.count()
    rule = "an error names the file and the line it is in"

    def read(files, start):
        R.models = dict(base, **path_models(Files(files)))
        out, tr = R.stage(frm, None, setup=lambda st: (st.mem.__setitem__(('g', 'path'), ('s', start)), [('R', ('g', 'path'), ())])[1])
        if tr or len(out) != 1 or out[0][0] != 'return':
            return [], tr or ["no tokenizer"]
        v = out[0][2].deep(out[0][1])

        def setup(st):
            st.mem[('g', 'path')] = ('s', start)
            st.mem[('g', 'tokenizer')] = v
            return [('R', ('g', 'tokenizer'), ())]
        return R.stage(R.tok, None, setup=setup)

    def go(label, files, start, at, line):
        if part is not None and next(number) % 4 != part:
            return
        key = "%s: %s" % (rule, label)
        shown = '\n'.join('  file %s:\n%s' % (n, '\n'.join('    ' + l for l in t.split('\n'))) for n, t in files.items())
        try:
            if None in (frm, R.tok):
                raise Unsupported("function not found")
            out, tr = read(files, start)
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return
        if tr or not out:
            ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
            return
        for kind, info, st in out:
            v = st.deep(info) if kind == 'return' else info
            if kind == 'panic':
                ctx.bad(key, where(R.tok), "the reader panics without naming file and line\n%s" % shown)
                return
            if kind == 'return' and v[0] == 'A' and v[1] == RES and v[2] == 0:
                ctx.bad(key, where(R.tok), "the journal is accepted\n%s" % shown)
                return
            if kind != 'return' or not (v[0] == 'A' and v[1] == RES and v[2] == 1):
                ctx.undecided(key, "ends with %s" % kind)
                return
            msg = plain(v[3][0])
            named = [(posixpath.normpath(f), int(n)) for f, n in re.findall(r'"?([\w./-]+\.j)"?\W{0,3}(?:line )?(\d+)', msg)]
            m = None
            if not named:
                if '\ufffd' in msg.replace('\ufffd', '', 1):
                    ctx.undecided(key, "message %s" % msg[:200])
                    return
                m = "the error names no file and line"
            elif (at, line) not in named:
                m = "the error names %s, line %d instead of %s, line %d" % (named[0] + (at, line))
            if m:
                ctx.bad(key, where(R.tok), "%s\n  message: %s\n%s" % (m, msg, shown))
                return
        ctx.ok(rule, "%s [%s]" % (where(R.tok), label))
    lines = lambda t: t.count('\n')
    for pn, pre in OKS.items():
        for bn, (bad, off) in BAD.items():
            for crlf in (False, True):
                if crlf and pn not in ('a transaction', 'directives', 'blank lines', 'comments', 'CRLF'):
                    continue
                tx_ = pre + ('\n' if pre and bn == 'an indented line' and pn != 'CRLF' else '') + bad
                n = lines(tx_) - lines(bad) + off + 1
                if crlf:
                    tx_ = tx_.replace('\r\n', '\n').replace('\n', '\r\n')
                if bn == 'an indented line' and pre and not pre.startswith(';'):
                    continue
                go("%s after %s%s" % (bn, pn, ', CRLF' if crlf else ''), {'m.j': tx_}, 'm.j', 'm.j', n)
                go("%s after %s%s, included" % (bn, pn, ', CRLF' if crlf else ''), {'m.j': TXN + '\ninclude d/b.j\n' + TXN, 'd/b.j': tx_}, 'm.j', 'd/b.j', n)
                if not crlf and pn in ('a transaction', 'directives', 'blank lines', 'comments'):
                    go("%s after %s, no line end" % (bn, pn), {'m.j': tx_.rstrip('\n')}, 'm.j', 'm.j', n)
                if not crlf:
                    go("%s after an included file with %s" % (bn, pn), {'m.j': '; x\ninclude d/b.j\n\n' + bad, 'd/b.j': pre}, 'm.j', 'm.j', off + 4)
                    go("%s after %s, something follows" % (bn, pn), {'x/m.j': tx_ + '\n' + TXN}, 'x/m.j', 'x/m.j', n)
    for label, files, at, n in (('itself', {'m.j': '; x\ninclude m.j\n'}, 'm.j', 2), ('another that includes it', {'m.j': TXN + 'include b.j\n', 'b.j': '\n\n' + TXN + '\ninclude m.j\n' + TXN}, 'b.j', 7)):
        go('a file that includes ' + label, files, 'm.j', at, n)


def position0(ctx):
    position_rules(ctx, 0)


def position1(ctx):
    position_rules(ctx, 1)


def position2(ctx):
    position_rules(ctx, 2)


def position3(ctx):
    position_rules(ctx, 3)
