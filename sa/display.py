"""The text of an amount (C23): intervals of digits.

The amount under analysis is  sign * (I + k1/10 + k2/100 + ... + kn/10^n + r/10^n)  with an integer I (zero, open digits, or any number at all), each k a
decimal digit (a constant, or any digit of a range) and r either 0 or any number strictly between 0 and 1.  Integer parts, remainders, comparisons and
decimal texts of linear expressions over these quantities are decided by interval arithmetic; the printed text is read back as a number and compared with
the rounded amount as a polynomial identity, so a verdict covers every amount of the scenario.
"""
import math, re
from fractions import Fraction
from scen import *
import absint, models, models2, text
from models import val, num, tstr
from absint import *
from kern import mk, get, adt_info

INF = None
IVS = absint.IV             # symbol -> (lo, strict, hi, strict, integer)
DEF = {}                    # open digit character -> its value


def bounds(p):
    """(lo, strict, hi, strict) of a linear expression; lo or hi None when unbounded"""
    lo = hi = Fraction(0)
    ls = hs = False
    for m, c in poly(p)[1]:
        if not m:
            a = (c, False, c, False)
        else:
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in IVS:
                return (None, False, None, False)
            l, lst, h, hst, _ = IVS[m[0][0]]
            if c < 0:
                l, lst, h, hst = h, hst, l, lst
            a = (None if l is None else l * c, lst, None if h is None else h * c, hst)
        lo, ls = (None, False) if lo is None or a[0] is None else (lo + a[0], ls or a[1])
        hi, hs = (None, False) if hi is None or a[2] is None else (hi + a[2], hs or a[3])
    return lo, ls, hi, hs


def ivsign(p):
    lo, ls, hi, hs = bounds(p)
    r = set('-0+')
    if lo is not None and (lo > 0 or lo == 0 and ls):
        r -= {'-', '0'}
    elif lo == 0:
        r -= {'-'}
    if hi is not None and (hi < 0 or hi == 0 and hs):
        r -= {'+', '0'}
    elif hi == 0:
        r -= {'+'}
    return frozenset(r)


absint.IVSIGN[0] = ivsign


def isint(p):
    return all(c.denominator == 1 and all(a in IVS and IVS[a][4] and e == 1 for a, e in m) and len(m) <= 1 for m, c in poly(p)[1])


def floor_(p):
    """the integer part (towards minus infinity) of a linear expression, or None"""
    p = poly(p)
    if isint(p):
        return unpoly(p)
    n, f = {}, {}
    for m, c in p[1]:
        if m and len(m) == 1 and m[0][1] == 1 and m[0][0] in IVS and IVS[m[0][0]][4]:
            w = Fraction(math.floor(c))
            n[m], f[m] = w, c - w
        else:
            f[m] = c
    lo, ls, hi, hs = bounds(P(f))
    if lo is None or hi is None:
        return None
    a = math.floor(lo)
    b = math.ceil(hi) - 1 if hs else math.floor(hi)
    if a != b:
        return None
    return padd(P(n), pconst(a))


def floor(p):
    r = floor_(p)
    if r is None:
        raise Unsupported("integer part of an open number")
    return r


def ceil(p):
    return pneg(floor(pneg(p)))


def trunc(st, p):
    return floor(p) if not st.test_sign(p, '-') else ceil(p)


def rnd(st, p):
    h = pconst(Fraction(1, 2))
    return floor(padd(p, h)) if not st.test_sign(p, '-') else pneg(floor(padd(pneg(p), h)))


def ndigits(p):
    lo, ls, hi, hs = bounds(p)
    if lo is None or hi is None or lo < 0:
        return None
    n = len(str(math.floor(lo)))
    return n if n == len(str(math.floor(hi))) else None


def digits(p):
    """decimal text of a non-negative integer expression, with open digits; None if its digits are not determined"""
    n = ndigits(p) if isint(p) else None
    if n is None:
        return None
    out, prev = '', PZERO
    for i in range(n - 1, -1, -1):
        q = floor_(pmul(p, pconst(Fraction(1, 10 ** i))))
        if q is None:
            return None
        d = padd(q, pneg(pmul(prev, pconst(10))))
        prev = q
        lo, _, hi, _ = bounds(d)
        if lo is None or hi is None or lo < 0 or hi > 9:
            return None
        if lo == hi:
            out += str(int(lo))
            continue
        c = next((c for c, v in DEF.items() if v == d), None)
        if c is None:
            free = [c for c in absint.DIG if c not in DEF]
            if not free:
                return None
            c = free[0]
            DEF[c] = d
        out += c
    return out


def number(st, v):
    """decimal text of a number; None when it is not determined"""
    p = poly(v)
    if not isint(p):
        return None
    s = st.sign(p) if st else ivsign(p)
    if s == frozenset('0'):
        return ('s', '0')
    neg = s <= frozenset('-')
    if not neg and '-' in s:
        return None
    d = digits(pneg(p) if neg else p)
    if d is None:
        d = T('disp', unpoly(pneg(p) if neg else p))
        return T('cat', ('s', '-'), d) if neg else d
    return ('s', ('-' if neg else '') + d)


def value(s):
    """the number a text of digits stands for"""
    v = PZERO
    for c in s:
        v = padd(pmul(v, pconst(10)), DEF[c] if c in DIGS else pconst(int(c)))
    return v


# ------------------------------------------------------------------ models
MI = models2.INTS


def mint(v):
    """machine integer"""
    q = models2.pc(v)
    return ('i', int(q)) if q is not None and q.denominator == 1 else v


def linear(v):
    return v[0] == 'P' and bool(v[1]) and all(len(m) <= 1 and all(a in IVS for a, e in m) for m, c in v[1]) or v in IVS


def opennum(v):
    return v[0] in ('P', 't') and linear(v) and models2.pc(v) is None


def ratop(n):
    base = models.M['num::rational::Ratio::' + n]

    def f(eng, st, fr, call):
        v = st.deep(call.args[0])
        if not opennum(v):
            return base(eng, st, fr, call)
        if n in ('numer', 'denom'):
            if isint(v):
                return v if n == 'numer' else PONE
            raise Unsupported(n + " of an open number")
        return {'trunc': lambda: trunc(st, v), 'to_integer': lambda: trunc(st, v), 'floor': lambda: floor(v), 'ceil': lambda: ceil(v),
                'fract': lambda: padd(v, pneg(trunc(st, v))), 'round': lambda: rnd(st, v)}[n]()
    return f


def divrem(eng, st, a, b, op, machine):
    q = models2.pc(b)
    if q is None:
        raise Unsupported("division by an open number")
    if q == 0:
        raise Stop('panic', ('division by zero', None))
    t = trunc(st, pmul(a, pconst(1 / q)))
    r = t if op in ('/', 'Div') else padd(a, pneg(pmul(t, pconst(q))))
    return mint(r) if machine else r


def arith(name, op):
    base = models.M[name]

    def f(eng, st, fr, call):
        t = tstr(eng, call).lstrip('&')
        if t.endswith(('BigInt', 'BigUint')) or op == '%' and models.isnum(t):
            a, b = num(st, call.args[0]), num(st, call.args[1])
            if opennum(a) or models2.pc(a) is not None:
                return divrem(eng, st, a, b, op, False)
        return base(eng, st, fr, call)
    return f


def arith_asg(name, op):
    g0 = models.M[name]

    def f(eng, st, fr, call):
        t = tstr(eng, call).lstrip('&')
        if t.endswith(('BigInt', 'BigUint')) and call.args[0][0] == 'R':
            a, b = num(st, call.args[0]), num(st, call.args[1])
            if opennum(a) or models2.pc(a) is not None:
                st.write(call.args[0][1], call.args[0][2], divrem(eng, st, a, b, op, False))
                return UNIT
        return g0(eng, st, fr, call)
    return f


def divs(which):
    def f(eng, st, fr, call):
        a, b = num(st, call.args[0]), num(st, call.args[1])
        if not (linear(a) or models2.pc(a) is not None):
            return NotImplemented
        q = models2.pc(b)
        if q is None or q == 0:
            return NotImplemented
        d = floor(pmul(a, pconst(1 / q))) if which in ('div_floor', 'mod_floor', 'div_mod_floor') else trunc(st, pmul(a, pconst(1 / q)))
        r = padd(a, pneg(pmul(d, pconst(q))))
        return d if which == 'div_floor' else r if which == 'mod_floor' else ('T', (d, r))
    return f


def toprim(t):
    b = MI[t]

    def f(eng, st, fr, call):
        v = num(st, call.args[0])
        if not (linear(v) or models2.pc(v) is not None):
            return NotImplemented
        v = trunc(st, v)
        lo, _, hi, _ = bounds(v)
        if lo is not None and hi is not None and b[0] <= lo and hi <= b[1]:
            return some(mint(v))
        if lo is not None and lo > b[1] or hi is not None and hi < b[0]:
            return NONE
        if st.truth(T('pred', 'fits ' + t, v)):
            return some(mint(v))
        return NONE
    return f


def tofloat(eng, st, fr, call):
    return some(T('app', 'float of', num(st, call.args[0])))


def tostring(eng, st, fr, call):
    v = st.deep(call.args[0])
    if opennum(v) or v[0] == 'P':
        r = number(st, v)
        if r is not None:
            return r
    return models.M['std::string::ToString::to_string'](eng, st, fr, call)


def parse(eng, st, fr, call):
    v = st.deep(call.args[0])
    t = tstr(eng, call, 0)
    if v[0] == 't' and v[1] == 'disp' and opennum(v[2]):
        p = v[2]
    else:
        m = re.fullmatch(r'([+-]?)([0-9%s]+)' % text.D_, v[1]) if v[0] == 's' else None
        if not m or not all(c.isascii() and c.isdigit() or c in DEF for c in m.group(2)):
            return text.parse_num(eng, st, fr, call)
        p = value(m.group(2))
        p = pneg(p) if m.group(1) == '-' else p
    if t in MI:
        lo, _, hi, _ = bounds(p)
        b = MI[t]
        if lo is not None and hi is not None and b[0] <= lo and hi <= b[1]:
            return ok(mint(p))
        if lo is not None and lo > b[1] or hi is not None and hi < b[0]:
            return err(sym('bad number'))
        return ok(mint(p)) if st.truth(T('pred', 'fits ' + t, p)) else err(sym('bad number'))
    if t.endswith(('BigInt', 'BigUint')):
        return ok(p)
    return NotImplemented


def ipow(eng, st, fr, call):
    qa, qb = models2.pc(val(st, call.args[0])), models2.pc(val(st, call.args[1]))
    if qa is None or qb is None:
        return NotImplemented
    r = qa ** int(qb)
    t = next((k for k in MI if '<impl %s>' % k in call.f.get("name", "")), None)
    if call.key.startswith(('core::num::', 'std::num::')):
        if t is not None and not MI[t][0] <= r <= MI[t][1]:
            raise Stop('panic', ('overflow', call.span))
        return ('i', int(r))
    return pconst(r)


def args_new(eng, st, fr, call):
    """format arguments: open numbers become their digits, padding of determined texts is carried out"""
    tv, av = val(st, call.args[0]), val(st, call.args[1])
    if tv[0] != 'V' or av[0] != 'V':
        raise Unsupported("format template")
    bs = [s[1][1] for s in tv[1]]
    args = [s[1] for s in av[1]]
    parts = []
    for p in models.decode_template(bs):
        if isinstance(p, str):
            parts.append(('s', p))
            continue
        i, spec = p
        a = val(st, args[i])
        n = None
        if a[2] == 'display' and (a[4][0] == 'P' or opennum(a[4])):
            n = number(st, a[4])
        d = n if n is not None else models.dispval(a)
        if spec and 'float of' in repr(d):
            spec = ()
        if spec:
            fl, w, pr = 0, None, None
            for k, x in spec:
                if k == 'fl':
                    fl = x
                elif k in ('w', 'p'):
                    w, pr = (x, pr) if k == 'w' else (w, x)
                else:
                    y = val(st, args[x])
                    y = y[4] if y[0] == 't' and y[1] == 'arg' else y
                    if y[0] != 'i':
                        raise Unsupported("open width")
                    w, pr = (y[1], pr) if k == 'wi' else (w, y[1])
            isn = n is not None or a[4][0] == 'i'
            if pr is not None and isn:
                pr = None
            if pr is not None and d[0] == 's':
                d = ('s', d[1][:pr])
            elif pr is not None:
                raise Unsupported("precision of an open text")
            fill = chr(fl & 0x1fffff) if fl else ' '
            plus, zero, al = fl >> 21 & 1, fl >> 24 & 1, fl >> 29 & 3
            if d[0] != 's':
                if w is None and not plus:
                    parts.append(d)
                    continue
                raise Unsupported("padding of an open text")
            s = d[1]
            if isn and plus and not s.startswith('-'):
                s = '+' + s
            k = max(0, (w or 0) - len(s))
            if isn and zero:
                g = s[0] if s[:1] in ('+', '-') else ''
                s = g + '0' * k + s[len(g):]
            else:
                if fl == 0 or al == 3:
                    al = 1 if isn else 0
                s = s + fill * k if al == 0 else fill * k + s if al == 1 else fill * (k // 2) + s + fill * (k - k // 2)
            d = ('s', s)
        parts.append(d)
    return T('fmt', models.cat(*parts))


EXTRA = dict(('num::rational::Ratio::' + n, ratop(n)) for n in models2.RATOPS)
for n_, o_ in (('Div', '/'), ('Rem', '%')):
    k_ = 'std::ops::%s::%s' % (n_, n_.lower())
    EXTRA[k_] = arith(k_, o_)
    k_ = 'std::ops::%sAssign::%s_assign' % (n_, n_.lower())
    EXTRA[k_] = arith_asg(k_, o_)
for n_ in ('div_floor', 'mod_floor', 'div_mod_floor', 'div_rem'):
    EXTRA['num::Integer::' + n_] = EXTRA['num::integer::Integer::' + n_] = EXTRA['num_integer::Integer::' + n_] = divs(n_)
    EXTRA['num::integer::' + n_] = divs(n_)
for t_ in MI:
    for k_ in ('num::ToPrimitive::to_', 'num::traits::ToPrimitive::to_', 'num_traits::ToPrimitive::to_'):
        EXTRA[k_ + t_] = toprim(t_)
for t_ in ('f32', 'f64'):
    for k_ in ('num::ToPrimitive::to_', 'num::traits::ToPrimitive::to_', 'num_traits::ToPrimitive::to_'):
        EXTRA[k_ + t_] = tofloat
for k_ in ('core::num::pow', 'std::num::pow', 'num::pow', 'num::traits::pow', 'num::pow::pow', 'num::traits::Pow::pow', 'num::traits::pow::pow', 'num::BigInt::pow',
           'num::bigint::BigInt::pow', 'num::traits::pow::Pow::pow', 'num::rational::Ratio::pow', 'num::bigint::BigUint::pow', 'num::BigUint::pow'):
    EXTRA[k_] = ipow
EXTRA['std::string::ToString::to_string'] = tostring
EXTRA['std::fmt::Arguments::new'] = args_new
EXTRA['std::str::FromStr::from_str'] = EXTRA['core::str::parse'] = parse


def binop(eng, st, op, a, b):
    """machine arithmetic on open numbers; None to decline"""
    if op in eng.CMP or not (opennum(a) or opennum(b)):
        return None
    o = op.replace('Unchecked', '')
    if o == 'Add':
        return mint(padd(a, b))
    if o == 'Sub':
        return mint(padd(a, pneg(b)))
    if o == 'Mul':
        return mint(pmul(a, b))
    if o in ('Div', 'Rem'):
        return divrem(eng, st, a, b, o, True)
    return None


# ------------------------------------------------------------------ reading the text back
def flat(v, out):
    if v[0] in 'sc' and len(v) == 2:
        out.append(v[1])
    elif v[0] == 't' and v[1] == 'cat':
        for x in v[2:]:
            flat(x, out)
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3 and (v[2][0] == 's' or v[2][0] == 't' and v[2][1] == 'cat'):
        flat(v[2], out)
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3 and (opennum(v[2]) or v[2][0] == 'P'):
        out.append(('n', v[2]))
    elif v[0] == 't' and v[1] == 'disp' and len(v) == 3 and v[2][0] == 'i':
        out.append(str(v[2][1]))
    else:
        out.append(('?', v))


def written(st):
    """the text written to the formatter: strings and ('n', number)"""
    o = st.mem.get(OUT)
    out = []
    for s in (o[1] if o else ()):
        if s[0] != '1':
            return None
        e = s[1]
        if e[0] == 'T' and e[1] and e[1][0] == ('s', 'write'):
            flat(e[1][1], out)
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return r


# ------------------------------------------------------------------ scenarios
CLS = {'l': (1, 4), 'h': (5, 8), 'a': (0, 4), 'u': (5, 9), 'd': (1, 8)}


class Amount:
    """I digits, fraction digits, rest"""

    def __init__(self, neg, ip, frac, tail, rest):
        IVS.clear()
        DEF.clear()
        self.n = 0
        if ip == '*':
            i = sym('any integer')
            IVS[i] = (Fraction(1), False, None, False, True)
        else:
            i = self.num(ip)
        v = i
        self.scaled = i
        for j, c in enumerate(frac + tail):
            k = self.digit(c)
            v = padd(v, pmul(k, pconst(Fraction(1, 10 ** (j + 1)))))
            if j < len(frac):
                self.scaled = padd(pmul(self.scaled, pconst(10)), k)
            elif j == len(frac):
                lo, _, hi, _ = bounds(k)
                self.up = lo >= 5
                assert lo >= 5 or hi < 5
        if rest:
            r = sym('rest')
            IVS[r] = (Fraction(0), True, Fraction(1), True, False)
            v = padd(v, pmul(r, pconst(Fraction(1, 10 ** len(frac + tail)))))
        if not tail:
            self.up = False
        self.value = pneg(v) if neg else v
        self.expected = padd(self.scaled, pconst(1)) if self.up else self.scaled
        self.big = ip == '*' or len(ip) > 17
        self.neg, self.d = neg, len(frac)
        self.name = "%s%s.%s|%s%s" % ('-' if neg else '', ip, frac, tail, '+' if rest else '')

    def digit(self, c):
        if c.isdigit():
            return pconst(int(c))
        ch = absint.DIG[self.n]
        self.n += 1
        k = sym('digit%02x' % ord(ch))
        lo, hi = CLS[c]
        IVS[k] = (Fraction(lo), False, Fraction(hi), False, True)
        DEF[ch] = k
        return k

    def num(self, s):
        v = PZERO
        for c in s:
            v = padd(pmul(v, pconst(10)), self.digit(c))
        return v


def judge(am, pieces, name):
    """None, ('undecided', why) or a message"""
    if pieces is None:
        return ('undecided', 'text of open length')
    for x in pieces:
        if not isinstance(x, str) and x[0] == '?':
            if 'float of' in repr(x) and am.big:
                return "is printed from a floating point number, which does not have all its digits"
            return ('undecided', 'text %s' % show(x[1]))
    def shown():
        return "".join(x if isinstance(x, str) else '<%s>' % show(x[1]) for x in pieces)
    p = list(pieces)
    neg = bool(p) and isinstance(p[0], str) and p[0].startswith('-')
    if neg:
        p[0] = p[0][1:]
    ip, fp, dots = [], [], 0
    rest = ''
    for i, x in enumerate(p):
        if not isinstance(x, str):
            if rest:
                return ('undecided', 'number after the amount')
            (fp if dots else ip).append(x)
            continue
        for j, c in enumerate(x):
            if rest:
                rest += c
            elif c == '.' and not dots:
                dots = 1
            elif c in DIGS or c.isascii() and c.isdigit():
                (fp if dots else ip).append(c)
            else:
                rest = c
    if neg != am.neg:
        return "is printed %s a minus sign" % ('with' if neg else 'without')
    if not ip:
        return "is printed without an integer part"
    if any(not isinstance(x, str) for x in fp) or (len(ip) > 1 and any(not isinstance(x, str) for x in ip)):
        return ('undecided', 'digits of open number')
    if len(fp) != am.d:
        return "is printed with %d decimals instead of %d" % (len(fp), am.d)
    v = ip[0][1] if not isinstance(ip[0], str) else value("".join(ip))
    for c in fp:
        v = padd(pmul(v, pconst(10)), value(c))
    diff = padd(v, pneg(am.expected))
    if ivsign(diff) != frozenset('0') and poly(diff)[1]:
        return "is printed as another number, which differs from the rounded amount by %s in the last place" % show(diff)
    if name not in rest:
        return "is printed without its commodity"
    return None


IPS = ['0', 'd', '99', '*', 'd2345678901234567890', '1' + '0' * 44]
TAILS = [('', False), ('a', True), ('4', False), ('49', True), ('5', False), ('5', True), ('50', True), ('u', True), ('99', True)]


def fracs(d):
    if d == 0:
        return ['']
    if d > 9:
        return ['0' * d, '9' * d, '0' * (d - 3) + 'lhl', 'l' + '9' * (d - 1), 'h' + '0' * (d - 2) + 'h', '123' + '0' * (d - 6) + 'lll']
    out = {'0' * d, '9' * d}
    for z in range(d):
        n = d - z
        for c in 'lh':
            out.add('0' * z + c * n)
            out.add('0' * z + c + '9' * (n - 1))
            out.add('0' * z + c + '0' * (n - 1))
        out.add('0' * z + '9' * n)
        out.add('9' * z + 'l' * n)
    return sorted(out)


def scenarios(d, full):
    fs = fracs(d)
    if not full and len(fs) > 14:
        fs = [f for i, f in enumerate(fs) if i % (len(fs) // 14 + 1) == 0 or set(f) <= set('09')]
    for neg in (False, True):
        for ip in IPS if full else ('0', 'd', '9', '*'):
            for f in fs:
                for t, r in TAILS:
                    if neg and not any(c not in '0' for c in ip + f + t) and not r:
                        continue            # zero has no sign
                    yield neg, ip, f, t, r


def one(ctx, fn, prec, sc, name='EUR'):
    p = ctx.p
    am = Amount(*sc)
    cur = mk(p, 'models::currency::Currency', name=('s', name), precision=some(('i', prec)) if prec is not None else NONE)
    m = ('A', adt_info(p, 'models::money::Money')['def'], 1, (am.value, X(cur)))
    r = Run(p, max_states=3000, extra_models=EXTRA, intmax=10 ** 40)
    r.eng.num_binop = binop
    outs = r.go(fn, [X(m), X(sym('formatter'))])
    t = r.trouble()
    if t:
        return am, ('undecided', "; ".join(t)[:200])
    for kind, info, st in outs:
        if kind != 'return':
            return am, "cannot be printed (%s)" % (info[0] if isinstance(info, tuple) and info else kind,)
        v = st.deep(info)
        if v[0] == 'A' and v[1] == RES and v[2] == 1:
            return am, "cannot be printed (the formatter is told about an error)"
        e = judge(am, written(st), name)
        if e:
            return am, e
    return am, None if outs else ('undecided', 'no outcome')


def where_(fn):
    from rules import where
    return where(fn, None)


def shower(d, full):
    """rule group for one precision (None: a commodity without declared precision)"""
    def g(ctx):
        p = ctx.p
        fn = next((f for f in p.fns.values() if f.local and f.blocks and re.search(r'Money as (std|core)::fmt::Display>::fmt$', f.name)), None)
        if fn is None:
            return ctx.undecided('printing an amount', 'no Display of Money')
        und = {}
        rule = "an amount of a commodity of %s is printed rounded to the nearest, halves away from zero, with a minus sign if negative" % (
            "no declared precision" if d is None else "%d decimals" % d)
        for sc in scenarios(2 if d is None else d, full or ctx.thorough):
            ctx.count("classes of amounts")
            try:
                am, e = one(ctx, fn, d, sc)
            except Unsupported as x:
                am, e = None, ('undecided', str(x))
            finally:
                IVS.clear()
                DEF.clear()
            if e is None:
                ctx.ok(rule, fn.defn)
            elif isinstance(e, tuple):
                und.setdefault(e[1], []).append(str(sc))
            else:
                ctx.bad("printing an amount of precision %s" % d, fn.defn, "an amount of the form %s %s" % (am.name, e))
        for k, v in und.items():
            ctx.undecided("printing an amount of precision %s (%d classes, first %s)" % (d, len(v), v[0]), k)
    g.__name__ = 'shower_%s' % d
    return g


def zero_rule(ctx):
    p = ctx.p
    fn = next((f for f in p.fns.values() if f.local and f.blocks and re.search(r'Money as (std|core)::fmt::Display>::fmt$', f.name)), None)
    if fn is None:
        return ctx.undecided('printing zero', 'no Display of Money')
    IVS.clear()
    r = Run(p, max_states=3000, extra_models=EXTRA)
    outs = r.go(fn, [X(('A', adt_info(p, 'models::money::Money')['def'], 0, ())), X(sym('formatter'))])
    if r.trouble():
        return ctx.undecided('printing zero', "; ".join(r.trouble())[:200])
    for kind, info, st in outs:
        w = written(st)
        if kind == 'return' and w is not None and len(w) == 1 and isinstance(w[0], str):
            ctx.must(re.match(r'0(\.0+)?( |$)', w[0]), 'zero without a commodity', fn.defn, 'zero without a commodity is printed as %r' % w[0], 'zero without a commodity is printed as zero')
        elif kind != 'return':
            ctx.bad('zero without a commodity', fn.defn, 'zero without a commodity cannot be printed (%s)' % kind)
        else:
            ctx.undecided('printing zero', str(w))


GROUPS = [shower(None, True), shower(0, False), shower(1, False), shower(2, False), shower(3, False), shower(4, False), shower(6, False), shower(9, False), shower(25, False), zero_rule]
d_default, d0, d1, d2, d3, d4, d6, d9, d25, _ = GROUPS
