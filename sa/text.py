"""Texts with open characters: numbers, dates, regular expressions and syntax trees over them."""
import re
from fractions import Fraction
from scen import *
import models, models2
from models import I
from models2 import seqv
from absint import *
import peg
from kern import adt_info, vidx

CAPS = []
PAIRS = []
D_ = re.escape(DIG)
L_ = re.escape(LET1 + LET2 + LET3)


# ------------------------------------------------------------------ numbers
def bigint(s):
    """the number a decimal text denotes, or None"""
    m = re.fullmatch(r'([+-]?)([0-9%s]+)' % D_, s)
    if not m:
        return None
    v = PZERO
    for c in m.group(2):
        d = poly(sym('digit%02x' % ord(c))) if c in DIGS else pconst(int(c))
        v = padd(pmul(v, pconst(10)), d)
    return pneg(v) if m.group(1) == '-' else v


def rational(s):
    """the exact value of a written decimal number"""
    m = re.fullmatch(r'(-?)([0-9%s]*)(?:\.([0-9%s]*))?' % (D_, D_), s)
    n = bigint(m.group(2) + (m.group(3) or ''))
    n = pmul(n, pconst(Fraction(1, 10 ** len(m.group(3) or ''))))
    return pneg(n) if m.group(1) else n


INTR = {'i32': (-2**31, 2**31), 'u32': (0, 2**32), 'i64': (-2**63, 2**63), 'u64': (0, 2**64), 'usize': (0, 2**64), 'u8': (0, 256), 'i8': (-128, 128),
        'u16': (0, 65536), 'i16': (-32768, 32768), 'isize': (-2**63, 2**63), 'i128': (-2**127, 2**127), 'u128': (0, 2**128)}


def parse_num(eng, st, fr, call):
    v = st.deep(call.args[0])
    t = models.tstr(eng, call, 0)
    if v[0] != 's':
        return NotImplemented
    bad = err(sym('bad number'))
    if t in INTR:
        m = re.fullmatch(r'([+-]?)([0-9%s]+)' % D_, v[1])
        if not m or m.group(1) == '-' and t[0] == 'u':
            return bad
        if any(c in DIGS for c in v[1]):
            return ok(T('sym', 'int:' + v[1].lstrip('+')))
        n = int(v[1])
        return ok(('i', n)) if INTR[t][0] <= n < INTR[t][1] else bad
    if t.endswith(('BigInt', 'BigUint')):
        n = bigint(v[1])
        return bad if n is None else ok(n)
    return NotImplemented


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def ymd(eng, st, fr, call):
    y, m, d = [st.deep(x) for x in call.args]
    opt = call.key.endswith('_opt')
    if m[0] == 'i' and d[0] == 'i':
        if not 1 <= m[1] <= 12 or not 1 <= d[1] <= [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m[1] - 1] or \
                m[1] == 2 and d[1] == 29 and y[0] == 'i' and not leap(y[1]):
            if opt:
                return NONE
            raise Stop('panic', ('invalid date', call.span))
        if m[1] == 2 and d[1] == 29 and y[0] != 'i':
            raise Unsupported("leap day of an open year")
    v = T('date', y, m, d)
    return some(v) if opt else v


# ------------------------------------------------------------------ regular expressions
RXC = {}


class BadRegex(Unsupported):
    pass


def rx(pat):
    """a regular expression of the regex crate as one of Python, for the constructs on which the two agree"""
    if pat in RXC:
        return RXC[pat]
    out, i, cls = [], 0, False
    while i < len(pat):
        c = pat[i]
        if c == '\\':
            e = pat[i + 1]
            i += 2
            add = {'d': '0-9' + D_, 'w': '\\w' + L_ + D_}
            if e in add:
                out.append(add[e] if cls else '[' + add[e] + ']')
            elif e in 'DWbBAzpP':
                raise Unsupported("regular expression %s" % pat)
            else:
                out.append('\\' + e)
            continue
        if c == '[' and not cls:
            cls = True
        elif c == ']' and cls:
            cls = False
        elif c == '[' and cls:
            raise Unsupported("regular expression %s" % pat)
        elif c == '-' and cls and pat[i - 1] != '[' and pat[i + 1] != ']':
            a, b = pat[i - 1], pat[i + 1]
            out.append('-' + b)
            if a == '0' and b == '9':
                out.append(D_)
            elif a.isalpha():
                raise Unsupported("letters in regular expression %s" % pat)
            i += 2
            continue
        elif c == '$' and not cls:
            out.append('\\Z')
            i += 1
            continue
        out.append(c)
        i += 1
    r = ''.join(out)
    if r.startswith('(?'):
        raise Unsupported("flags in regular expression %s" % pat)
    try:
        RXC[pat] = re.compile(r)
    except re.error:
        raise BadRegex("regular expression %s" % pat)
    return RXC[pat]


def rxok(pat):
    """well-formed?"""
    try:
        rx(pat)
        return True
    except Unsupported:
        return None


def match_v(m, g):
    return T('rxm', ('s', m.group(g)), ('i', len(m.string[:m.start(g)].encode())), ('i', len(m.string[:m.end(g)].encode())))


def rex(st, call):
    r, s = st.deep(call.args[0]), st.deep(call.args[1])
    if r[0] == 't' and r[1] == 'regex' and r[2][0] == 's' and s[0] == 's':
        p = rx(r[2][1])
        for c in s[1]:
            if c in OPENC:
                for k in re.sub(r'\\.', '', r[2][1]):
                    if k.isalpha():
                        tested(c, k)
        return p, s[1]
    return None


def re_models():
    K = 'regex::'

    def new(eng, st, fr, call):
        s = st.deep(call.args[0])
        if s[0] != 's':
            return NotImplemented
        try:
            rx(s[1])
        except BadRegex:
            return err(sym('regex error'))
        except Unsupported:
            pass
        return ok(T('regex', s))

    def is_match(eng, st, fr, call):
        x = rex(st, call)
        return NotImplemented if x is None else ('b', bool(x[0].search(x[1])))

    def captures(eng, st, fr, call):
        x = rex(st, call)
        if x is None:
            return NotImplemented
        m = x[0].search(x[1])
        if m is None:
            return NONE
        CAPS.append(m)
        return some(T('caps', ('i', len(CAPS) - 1)))

    def find(eng, st, fr, call):
        x = rex(st, call)
        if x is None:
            return NotImplemented
        m = x[0].search(x[1])
        return NONE if m is None else some(match_v(m, 0))

    def cap(st, v):
        v = st.deep(v)
        return CAPS[v[2][1]] if v[0] == 't' and v[1] == 'caps' else None

    def group(m, g):
        return NONE if m.group(g) is None else some(match_v(m, g))

    def get(eng, st, fr, call):
        m, i = cap(st, call.args[0]), st.deep(call.args[1])
        if m is None or i[0] not in ('i', 's'):
            return NotImplemented
        if i[0] == 'i' and i[1] > (m.re.groups or 0):
            return NONE
        return group(m, i[1])

    def it(eng, st, fr, call):
        m = cap(st, call.args[0])
        if m is None:
            return NotImplemented
        return I('seq', seqv([group(m, g) for g in range(m.re.groups + 1)]))

    def ln(eng, st, fr, call):
        m = cap(st, call.args[0])
        return NotImplemented if m is None else ('i', m.re.groups + 1)

    def as_str(eng, st, fr, call):
        v = st.deep(call.args[0])
        return v[2] if v[0] == 't' and v[1] == 'rxm' else NotImplemented

    def pos(k):
        def f(eng, st, fr, call):
            v = st.deep(call.args[0])
            return v[k] if v[0] == 't' and v[1] == 'rxm' else NotImplemented
        return f

    old = models.M.get('std::ops::Index::index')

    def index(eng, st, fr, call):
        m = cap(st, call.args[0]) if 'Captures' in models.tstr(eng, call) else None
        if m is not None:
            i = st.deep(call.args[1])
            if m.group(i[1]) is None:
                raise Stop('panic', ('no such group', call.span))
            return ('s', m.group(i[1]))
        return old(eng, st, fr, call) if old else NotImplemented
    return {K + 'Regex::new': new, K + 'Regex::is_match': is_match, K + 'Regex::captures': captures, K + 'Regex::find': find,
            K + 'Captures::get': get, K + 'Captures::name': get, K + 'Captures::iter': it, K + 'Captures::len': ln, K + 'Match::as_str': as_str,
            K + 'Match::start': pos(3), K + 'Match::end': pos(4), 'std::ops::Index::index': index}


def lazy(eng, st, fr, call):
    """lazy_static: the value is that of the initialiser"""
    if isinstance(call.dst, tuple):
        d = call.dst
    else:
        c, p, _ = eng.place(st, fr, call.dst)
        d = (c, p)
    return eng.call_value(st, call.args[1], [], d, call.to, call.span, fr)


# ------------------------------------------------------------------ syntax trees
def pair(t):
    PAIRS.append(t)
    return T('pair', ('i', len(PAIRS) - 1))


def pest_models(p, g):
    R = adt_info(p, 'parser::Rule')['def']
    K = 'dinero::pest::iterators::'

    def arg(st, call):
        v = st.deep(call.args[0])
        return PAIRS[v[2][1]] if v[0] == 't' and v[1] == 'pair' else None

    def as_rule(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else ('A', R, vidx(p, 'parser::Rule', v[0]), ())

    def as_str(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else ('s', v[1])

    def inner(eng, st, fr, call):
        v = arg(st, call)
        return NotImplemented if v is None else I('seq', seqv([pair(k) for k in v[2]]))

    def parse(eng, st, fr, call):
        rule, text = st.deep(call.args[0]), st.deep(call.args[1])
        if text[0] != 's' or rule[0] != 'A':
            raise Unsupported("parse of an open text")
        try:
            t = g.parse(adt_info(p, 'parser::Rule')['variants'][rule[2]]['name'], text[1])
        except peg.Bad as e:
            raise Unsupported(str(e))
        return err(sym('syntax error')) if t is None else ok(I('seq', seqv([pair(t)])))

    def peek(eng, st, fr, call):
        v = st.deep(call.args[0])
        if v[0] != 'I' or v[1] != 'seq' or not isinstance(v[2][0], tuple) or v[2][0][0] != 'V':
            return NotImplemented
        return some(v[2][0][1][0][1]) if v[2][0][1] else NONE
    return {K + 'Pair::as_rule': as_rule, K + 'Pair::as_str': as_str, K + 'Pair::into_inner': inner, K + 'Pairs::peek': peek,
            'dinero::pest::Parser::parse': parse, 'pest::Parser::parse': parse}


def text_models(p, g):
    m = {'std::str::FromStr::from_str': parse_num, 'core::str::parse': chain(parse_num, models.M.get('core::str::parse')),
         'chrono::NaiveDate::from_ymd': ymd, 'chrono::NaiveDate::from_ymd_opt': ymd, 'lazy_static::lazy::Lazy::get': lazy}
    m.update(re_models())
    if g is not None:
        m.update(pest_models(p, g))
    return m


def chain(a, b):
    def f(eng, st, fr, call):
        r = a(eng, st, fr, call)
        if r is NotImplemented and b is not None:
            return b(eng, st, fr, call)
        return r
    return f
