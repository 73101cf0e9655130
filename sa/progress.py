"""Reading terminates: the reader followed on truncated and malformed texts (C20)."""
from parsing import *
from parsing import Reader
from par import par
import eng as eng_mod

H = '2021-01-05 x'
Q = H + '\n    '
CONTEXTS = [
    '', '\n', ' ', '; c', '* c', '2', '2021', '2021-', '2021-01-05', '2021-01-05 ', '2021-01-05=', '2021-01-05=2021-01-06', '2021-01-05 *', '2021-01-05 * (', '2021-01-05 * ("c") d',
    H, H + ' ', H + ' |', H + ' | p', H + ' ;', H + ' ; c', H + '\n', Q, Q + ';', Q + '; c', Q + 'A', Q + 'A b', Q + 'A ', Q + 'A  ', Q + 'A\t', Q + '(', Q + '(A', Q + '(A)', Q + '[', Q + '[A', Q + '[A]  ',
    Q + 'A  1', Q + 'A  1 ', Q + 'A  -', Q + 'A  1.', Q + 'A  .', Q + 'A  1 X', Q + 'A  1 X ', Q + 'A  1 "', Q + 'A  1 "X', Q + 'A  1 "X"', Q + 'A  "', Q + 'A  "X', Q + 'A  "X" ', Q + 'A  X', Q + 'A  X ', Q + 'A  X -',
    Q + 'A  1 X @', Q + 'A  1 X @@', Q + 'A  1 X @ ', Q + 'A  1 X @ 2', Q + 'A  1 X @ 2 Y', Q + 'A  1 X @ 2 Y ', Q + 'A  1 X =', Q + 'A  1 X = ', Q + 'A  1 X = 3', Q + 'A  1 X = 3 X', Q + 'A  =', Q + 'A  = 3 X ',
    Q + 'A  (', Q + 'A  (1', Q + 'A  ((1 X)', Q + 'A  (1 X)', Q + 'A  (1 X) ', Q + 'A  ;', Q + 'A  1 X ;', Q + 'A  1 X ; c', Q + 'A  1 X\n', Q + 'A  1 X\n    ', Q + 'A  1 X\n    ;', Q + 'A  1 X\n    B', Q + 'A  1 X\n    B\n',
    '=', '= ', '= /x/', '= /x/\n', '= /x/\n    ', '= /x/\n    ;', '= /x/\n    A', '= /x/\n    A  ', '= /x/\n    A  1', '= /x/\n    A  1 X ', '= /x/\n    A  (', '= /x/\n    A  (amount', '= /x/\n    A  amount', '= /x/\n    A  amount ', '= /x/\n    A  1\n',
    'P', 'P ', 'P 2021-01-05', 'P 2021-01-05 X', 'P 2021-01-05 X 3', 'P 2021-01-05 X 3 Y', 'P 2021-01-05 X 3 Y\n', 'i', 'include', 'include ', 'include f',
]
for w_, props in (('account', ('note', 'isin', 'alias', 'check', 'assert', 'default')), ('commodity', ('note', 'alias', 'format', 'default')), ('payee', ('note', )), ('tag', ('check', 'assert'))):
    CONTEXTS += [w_[:1], w_, w_ + ' ', w_ + ' N', w_ + ' N\n', w_ + ' N\n  ', w_ + ' N\n  ;', w_ + ' N\n  ; c\n']
    for x_ in props:
        CONTEXTS += [w_ + ' N\n  ' + x_, w_ + ' N\n  ' + x_ + ' v', w_ + ' N\n\t' + x_ + ' v\n']
TAILS = ['', '\n', ' 2 ', '\n    x', ' ', '\r\n', ')']


def alphabet(p, g):
    """every character that the parser's code or its grammar mentions, and one of every class its predicates tell apart"""
    out = set()

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'char' and isinstance(x[1], str) and len(x[1]) == 1:
                out.add(x[1])
            if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str) and len(x[1]) <= 2:
                out.update(c for c in x[1] if not c.isalnum())
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for f in p.local_fns():
        if '::parser::' not in f.name or f.crate != 'lib' or not f.blocks:
            continue
        for b in f.blocks:
            walk(b["s"])
            walk(b["t"])
            t = b["t"]
            if t["t"] == 'switch' and t["on"][0] in ('c', 'm'):
                l = t["on"][1][0]
                if p.types[f.crate][f.locals[l]].get("s", "").endswith("char"):
                    out.update(chr(int(v)) for v, _ in t["br"] if 9 <= int(v) < 0xd800)
    lits = []

    def gram(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ('str', 'lit', 'istr') and isinstance(x[1], str) and len(x[1]) == 1:
                lits.append(x[1])
            for y in x:
                gram(y)
        elif isinstance(x, dict):
            for y in x.values():
                gram(y)
    gram(getattr(g, 'rules', {}))
    out.update(c for c in lits if not c.isalnum())
    out.update('\n \t\r')
    out.update(['a', 'Z', '7', '\u00e9', '\u4e16', '\u20ac', '\u0663', '\u00b2', '\u00a0', '\u2003', '\x0b', '\x0c', '_', '~', '\x7f', '\u2028', '\x85'])
    return sorted(c for c in out if ord(c) < 0xd800 and c not in OPENC and c != '\0')


class Follow(Reader):
    def follow(self, txt):
        """None if reading ends; otherwise a description; raises Und when it cannot be told"""
        over = dict(self.models)
        over['glob::glob'] = lambda eng, st, fr, call: err(UNIT)
        r = Run(self.p, extra_models=over, intmax=100000, recursion=60)
        v = ('A', self.tokty, 0, self.fields(txt))

        def setup(st):
            st.mem[('g', 'tokenizer')] = v
            return [('R', ('g', 'tokenizer'), ())]
        ix = fidx(self.p, 'parser::Tokenizer', 'position')
        r.eng.max_steps = 4000 + 1500 * len(txt)

        def pos(st):
            v = st.mem[('g', 'tokenizer')]
            return v[3][ix]
        r.eng.probe = pos
        old = absint.SAME[0]
        absint.SAME[0] = 100000
        try:
            out = r.go(self.tok, None, {}, setup=setup)
        finally:
            absint.SAME[0] = old
        self.ctx.count("steps", r.eng.nsteps)
        self.ctx.count("texts")
        if r.eng.stuck:
            if not r.eng.nforks and r.eng.half == r.eng.stuck[1]:
                return "no character is read any more at %s (position %s after %d steps)" % (r.eng.stuck[0], show_(r.eng.half), r.eng.nsteps)
            return False
        if out:
            return None
        tr = r.trouble()
        if tr or r.eng.nforks:
            self.why = tr
            return False
        return "the reader comes back to the same state at %s" % r.eng.cut

    def prepare(self):
        out, tr = self.stage(self.frm, [('s', 'ab')])
        if tr or len(out) != 1:
            return False
        v = out[0][2].deep(out[0][1])
        self.tokty = v[1]
        c = seqv([('c', 'a'), ('c', 'b')])
        if c not in v[3]:
            return False
        self.fields = lambda t: tuple(seqv([('c', x) for x in t]) if f_ == c else f_ for f_ in v[3])
        return True


def part(ctx, k, n):
    p = ctx.p
    R = Follow(ctx)
    rule = "reading ends"
    if None in (R.frm, R.tok) or not R.prepare():
        ctx.undecided(rule, "reader not found")
        return
    al = alphabet(p, R.g)
    if k == 0:
        ctx.note("alphabet: %s" % ' '.join(repr(c) for c in al))
    for i, c in enumerate(CONTEXTS):
        if i % n != k:
            continue
        bad, und, tot, whys = [], 0, 0, set()
        mid = [''] + al
        if ctx.thorough:
            mid += [a + b for a in al for b in al]
        for m in mid:
            for t in (TAILS if ctx.thorough and len(m) < 2 else TAILS[:4]):
                r = R.follow(c + m + t)
                tot += 1
                if r is False:
                    und += 1
                    whys.update(getattr(R, 'why', ()))
                elif r:
                    bad.append((c + m + t, r))
                    break
            if len(bad) > 2:
                break
        if bad:
            ctx.bad("%s after %r" % (rule, c), where(R.tok), "\n  ".join("%r: %s" % x for x in bad))
        elif und * 4 > tot:
            ctx.undecided("%s after %r" % (rule, c), "%d of %d texts: %s" % (und, tot, "; ".join(sorted(whys)[:3])))
        else:
            ctx.ok(rule, "%s [%d texts after %r%s]" % (where(R.tok), tot, c, ", %d undecided" % und if und else ""))


def progress_rules(ctx, n=8):
    par(ctx, *[lambda ctx, k=k: part(ctx, k, n) for k in range(n)])


def seqv(xs):
    return ('V', tuple(('1', x) for x in xs))
