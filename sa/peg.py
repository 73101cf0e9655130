"""Reader and matcher of the pest grammar of the repository (src/grammar/grammar.pest).

The matcher gives the tree of pairs that the generated parser gives for a text, as defined by the pest manual:
ordered choice, greedy repetition, look-ahead without tokens, silent rules."""
import os, re, unicodedata
from absint import tested, repc, OPENC, DIGS


class Bad(Exception):
    pass


class Grammar:
    def __init__(self, text):
        text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
        self.toks = self.lex(text)
        self.i = 0
        self.rules = {}
        while self.i < len(self.toks):
            n = self.take()
            if self.take() != '=':
                raise Bad("expected = after %s" % n)
            mod = ''
            if self.peek() in ('_', '@', '$', '!'):
                mod = self.take()
            if self.take() != '{':
                raise Bad("expected { in rule %s" % n)
            self.rules[n] = (mod, self.alt())
            if self.take() != '}':
                raise Bad("expected } in rule %s" % n)
        if any(n in self.rules for n in ('WHITESPACE', 'COMMENT')):
            raise Bad("implicit whitespace is not supported")
        for n, (m, _) in self.rules.items():
            if m not in ('', '_', '@', '$'):
                raise Bad("modifier %s" % m)

    def lex(self, s):
        out, i = [], 0
        while i < len(s):
            c = s[i]
            if c.isspace():
                i += 1
            elif s.startswith('//', i):
                j = s.find('\n', i)
                i = len(s) if j < 0 else j
            elif c == '"':
                j = i + 1
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                out.append(('str', self.unesc(s[i + 1:j])))
                i = j + 1
            elif c == "'":
                j = i + 1
                while s[j] != "'" or j == i + 1:
                    j += 2 if s[j] == '\\' else 1
                out.append(('chr', self.unesc(s[i + 1:j])))
                i = j + 1
            elif c == '_' and not (s[i + 1:i + 2].isalnum() or s[i + 1:i + 2] == '_'):
                out.append('_')
                i += 1
            elif c.isalpha() or c == '_':
                m = re.match(r'\w+', s[i:])
                out.append(m.group())
                i += m.end()
            elif s.startswith('..', i):
                out.append('..')
                i += 2
            elif c.isdigit():
                m = re.match(r'\d+', s[i:])
                out.append(('num', int(m.group())))
                i += m.end()
            else:
                out.append(c)
                i += 1
        return out

    def unesc(self, s):
        def r(m):
            k = m.group(1)
            if k[0] == 'u':
                return chr(int(k[2:-1], 16))
            if k[0] == 'x':
                return chr(int(k[1:], 16))
            return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(k, k)
        return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', r, s)

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def alt(self):
        if self.peek() == '|':
            self.take()
        xs = [self.seq()]
        while self.peek() == '|':
            self.take()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq(self):
        xs = [self.pre()]
        while self.peek() == '~':
            self.take()
            xs.append(self.pre())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def pre(self):
        if self.peek() in ('!', '&'):
            t = self.take()
            return ('not' if t == '!' else 'look', self.pre())
        return self.post()

    def post(self):
        x = self.atom()
        while self.peek() in ('*', '+', '?', '{'):
            t = self.take()
            if t == '{':
                lo = hi = None
                if isinstance(self.peek(), tuple) and self.peek()[0] == 'num':
                    lo = self.take()[1]
                    hi = lo
                if self.peek() == ',':
                    self.take()
                    hi = None
                    if isinstance(self.peek(), tuple) and self.peek()[0] == 'num':
                        hi = self.take()[1]
                if self.take() != '}':
                    raise Bad("repetition")
                x = ('rep', x, lo or 0, hi)
            else:
                x = ('rep', x, 1 if t == '+' else 0, 1 if t == '?' else None)
        return x

    def atom(self):
        t = self.take()
        if t == '(':
            x = self.alt()
            if self.take() != ')':
                raise Bad("expected )")
            return x
        if t == '^':
            return ('istr', self.take()[1])
        if isinstance(t, tuple) and t[0] == 'str':
            return ('str', t[1])
        if isinstance(t, tuple) and t[0] == 'chr':
            if self.take() != '..':
                raise Bad("range")
            return ('range', t[1], self.take()[1])
        if isinstance(t, str) and (t[0].isalpha() or t[0] == '_'):
            return ('rule', t)
        raise Bad("unexpected %r" % (t,))

    # -------------------------------------------------- matching
    def parse(self, rule, text):
        """-> pair (rule, text, children) or None"""
        self.memo = {}
        r = self.m(('rule', rule), text, 0)
        if r is None:
            return None
        return r[1][0] if r[1] else None

    BUILT = {'ANY': lambda c: True, 'ASCII_DIGIT': lambda c: c in '0123456789', 'ASCII_NONZERO_DIGIT': lambda c: c in '123456789',
             'ASCII_ALPHA': lambda c: c.isascii() and c.isalpha(), 'ASCII_ALPHANUMERIC': lambda c: c.isascii() and c.isalnum(),
             'ASCII_ALPHA_LOWER': lambda c: c.isascii() and c.islower(), 'ASCII_ALPHA_UPPER': lambda c: c.isascii() and c.isupper(),
             'ASCII': lambda c: c.isascii(), 'SEPARATOR': lambda c: unicodedata.category(c) in ('Zs', 'Zl', 'Zp'),
             'SPACE_SEPARATOR': lambda c: unicodedata.category(c) == 'Zs', 'LETTER': lambda c: unicodedata.category(c)[0] == 'L',
             'NUMBER': lambda c: unicodedata.category(c)[0] == 'N', 'ALPHABETIC': lambda c: c.isalpha(), 'WHITE_SPACE': lambda c: c.isspace(),
             'PUNCTUATION': lambda c: unicodedata.category(c)[0] == 'P'}

    def m(self, x, s, i):
        """-> (end, pairs) or None"""
        k = x[0]
        if k == 'str':
            for a, k in zip(s[i:i + len(x[1])], x[1]):
                tested(a, k)
                if a != k:
                    break
            return (i + len(x[1]), []) if s.startswith(x[1], i) else None
        if k == 'istr':
            return (i + len(x[1]), []) if s[i:i + len(x[1])].lower() == x[1].lower() else None
        if k == 'range':
            if i < len(s) and s[i] in OPENC and not (s[i] in DIGS and (x[1], x[2]) == ('0', '9')):
                raise Bad("range on an open character")
            return (i + 1, []) if i < len(s) and x[1] <= repc(s[i]) <= x[2] else None
        if k == 'seq':
            ps = []
            for y in x[1]:
                r = self.m(y, s, i)
                if r is None:
                    return None
                i = r[0]
                ps += r[1]
            return i, ps
        if k == 'alt':
            for y in x[1]:
                r = self.m(y, s, i)
                if r is not None:
                    return r
            return None
        if k == 'not':
            return None if self.m(x[1], s, i) is not None else (i, [])
        if k == 'look':
            return (i, []) if self.m(x[1], s, i) is not None else None
        if k == 'rep':
            n, ps = 0, []
            while x[3] is None or n < x[3]:
                r = self.m(x[1], s, i)
                if r is None:
                    break
                if r[0] == i and x[3] is None:
                    break
                i = r[0]
                ps += r[1]
                n += 1
            return (i, ps) if n >= x[2] else None
        n = x[1]
        if n in self.rules:
            key = (n, i)
            if key in self.memo:
                return self.memo[key]
            mod, e = self.rules[n]
            self.memo[key] = None       # left recursion fails
            r = self.m(e, s, i)
            if r is not None and mod != '_':
                r = (r[0], [(n, s[i:r[0]], r[1] if mod != '@' else [])])
            self.memo[key] = r
            return r
        if n == 'EOI':
            return (i, [('EOI', '', [])]) if i == len(s) else None
        if n == 'SOI':
            return (i, []) if i == 0 else None
        if n == 'NEWLINE':
            for w in ('\r\n', '\n', '\r'):
                if s.startswith(w, i):
                    return i + len(w), []
            return None
        if n in self.BUILT:
            if i < len(s) and s[i] in OPENC:
                if s[i] in DIGS and n == 'ASCII_NONZERO_DIGIT' or s[i] not in DIGS and n in ('ASCII_ALPHA_LOWER', 'ASCII_ALPHA_UPPER'):
                    raise Bad("%s on an open character" % n)
            return (i + 1, []) if i < len(s) and self.BUILT[n](repc(s[i])) else None
        raise Bad("unknown rule %s" % n)


def load(repo):
    """the grammar named by the #[grammar] attribute, found under src"""
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                m = re.search(r'#\[\s*grammar\s*=\s*"([^"]+)"\s*\]', open(os.path.join(d, f), encoding='utf8').read())
                if m:
                    return Grammar(open(os.path.join(repo, 'src', m.group(1)), encoding='utf8').read())
    raise Bad("no grammar")
