"""A disjunctive abstract interpreter for exported MIR.

Abstract values (hashable tuples):
  ('i',n) ('b',bool) ('c',char) ('s',text)         constants
  ('T',elems) ('A',def,variant,fields) ('C',fnid,captures) ('F',crate,ty)  tuples, ADTs, closures, fn items
  ('R',cell,path)                                   reference / Box / Rc / guard
  ('t',op,...)                                      Herbrand term: an unknown but fixed value
  ('P',monomials)                                   polynomial over terms (exact rational arithmetic)
  ('O',base,((step,val),...))                       term with overwritten parts
  ('V',segs)                                        sequence: ('1',v) exact element, ('M',templates) any number of
                                                    elements, each an instance of one of the templates
  ('H',kind,entries,templates)                      map / set: exact entries plus any number of others
  ('I',kind,fields)                                 iterator
  ('U',)                                            uninitialised box
  ('t','o',n)                                       the n-th "other" individual (instance of a template)
  ('t','top')                                       anything
A state is a call stack, a store, a set of facts (variant of a term, order of two terms, sign of a polynomial)
and an event log.  Loops are solved by iteration to a fixpoint on canonical states (garbage collected, "other"
individuals renumbered, contributions of dead "other" individuals summarised), so every number of iterations and
elements is covered.  Nothing is executed and no solver is involved.
"""
from fractions import Fraction
from functools import lru_cache
import re

UNIT = ('T', ())
TOP = ('t', 'top')
TRUE, FALSE = ('b', True), ('b', False)
UNINIT = ('U',)
OUT = ('g', 'out')      # event log cell
MAXDEPTH = 14


class Fork(Exception):
    def __init__(self, alts):  # list of fact-updates (dict)
        self.alts = alts


# ------------------------------------------------------------------ open characters
# A text under analysis may contain open characters: each stands for any character of its class. They are written with code points that no text of the
# analysis uses otherwise. Comparisons with a constant are noted in TESTED, so that the case of equality is analysed separately.
LET1 = '\x01\x02\x03\x04\x05\x06\x07\x08'                   # any ASCII letter
LET2 = '\u0080\u0081\u0082\u0083\u0084\u0086\u0087\u0088'    # any letter of two bytes
LET3 = '\ue000\ue001\ue002\ue003'                            # any letter of three bytes
DIG = '\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b'   # any decimal digit
LETS = frozenset(LET1 + LET2 + LET3)
DIGS = frozenset(DIG)
OPENC = LETS | DIGS
TESTED = set()


def tested(c, k):
    """an open character was compared with a constant"""
    if c in OPENC and k not in OPENC:
        TESTED.add((c, k))


def isopen(s):
    return any(c in OPENC for c in s)


def boff(s, n):
    """position in characters of byte position n of a text; None if it is beyond the end or inside a character"""
    b = 0
    for i, c in enumerate(s):
        if b == n:
            return i
        if b > n:
            return None
        b += len(c.encode())
    return len(s) if b == n else None


def repc(c):
    """a member of the class of an open character, for predicates on which the class agrees"""
    return '5' if c in DIGS else 'x' if c in LET1 else '\u00e9' if c in LET2 else '\u4e16' if c in LET3 else c


IV = {}                 # intervals of the open quantities of an analysis of printed numbers (display.py)
IVSIGN = [None]


class Stop(Exception):
    """state ends here with an outcome"""
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Again(Exception):
    """the state was advanced; redo the step"""


# ------------------------------------------------------------------ terms
def isterm(v):
    return v[0] in ('t', 'P', 'O')


@lru_cache(maxsize=400000)
def depth(v):
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return max((depth(x) for x in v), default=0)
        return 0
    if v and v[0] == 'R':
        return 1
    d = 0
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            e = depth(x)
            if e > d:
                d = e
    return d + 1


def T(op, *args):
    v = ('t', op) + args
    if depth(v) > MAXDEPTH * 2:
        return TOP
    return v


@lru_cache(maxsize=400000)
def osyms(v):
    """set of 'other' individuals occurring in v (not through references)"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 't' and v[1] == 'o':
            return frozenset((v,))
        if v and v[0] == 'M':
            return frozenset()
        if v and v[0] == 'H':
            return osyms(v[2])
        r = frozenset()
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                r |= osyms(x)
        return r
    if isinstance(v, frozenset):
        r = frozenset()
        for x in v:
            r |= osyms(x)
        return r
    return frozenset()


@lru_cache(maxsize=400000)
def hastop(v):
    if v == TOP:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(hastop(x) for x in v if isinstance(x, (tuple, frozenset)))
    return False


def rename(v, m):
    """apply substitution m (dict of atoms) to v"""
    if isinstance(v, tuple):
        if v in m:
            return m[v]
        if len(v) == 2 and v[0] in ('i', 'b', 'c', 's'):
            return v
        if v and v[0] == 'P':
            return poly_subst(v, m)
        changed = False
        out = []
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                y = rename(x, m)
                changed = changed or y is not x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if changed else v
    if isinstance(v, frozenset):
        return frozenset(rename(x, m) for x in v)
    return v


# ------------------------------------------------------------------ polynomials
def P(mon):
    return ('P', frozenset((k, c) for k, c in mon.items() if c != 0))


def pconst(c):
    return P({(): Fraction(c)})


PZERO = pconst(0)
PONE = pconst(1)


def poly(v):
    if v[0] == 'P':
        return v
    if v[0] == 'i':
        return pconst(v[1])
    return ('P', frozenset([(((v, 1),), Fraction(1))]))


def unpoly(p):
    """canonical form: a bare atom is the atom itself"""
    if len(p[1]) == 1:
        (m, c), = p[1]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return p


def padd(a, b):
    if hastop(a) or hastop(b):
        return TOP
    d = dict(poly(a)[1])
    for m, c in poly(b)[1]:
        d[m] = d.get(m, 0) + c
    return unpoly(P(d))


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr))


def pmul(a, b):
    if hastop(a) or hastop(b):
        return TOP
    d = {}
    for m1, c1 in poly(a)[1]:
        for m2, c2 in poly(b)[1]:
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return unpoly(P(d))


def pneg(a):
    if hastop(a):
        return TOP
    return unpoly(P({m: -c for m, c in poly(a)[1]}))


def pinv(a):
    if hastop(a):
        return TOP
    p = poly(a)
    if len(p[1]) == 1:
        (m, c), = p[1]
        return unpoly(P({tuple((x, -e) for x, e in m): 1 / c}))
    return T('inv', p)


def poly_subst(p, m):
    r = PZERO
    for mon, c in p[1]:
        t = pconst(c)
        for a, e in mon:
            b = rename(a, m)
            for _ in range(abs(e)):
                t = pmul(t, b if e > 0 else pinv(b))
        r = padd(r, t)
    return r


def pis0(p):
    return p[0] == 'P' and len(p[1]) == 0


# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ("fn", "bb", "idx", "fs", "dst", "tgt", "nat")

    def __init__(self, fn, bb, idx, fs, dst, tgt, nat=None):
        self.fn, self.bb, self.idx, self.fs, self.dst, self.tgt, self.nat = fn, bb, idx, fs, dst, tgt, nat

    def copy(self):
        return Frame(self.fn, self.bb, self.idx, self.fs, self.dst, self.tgt, self.nat)


class St:
    __slots__ = ("frames", "mem", "facts", "n", "trace", "steps")

    def __init__(self):
        self.frames, self.mem, self.facts, self.n, self.trace, self.steps = [], {}, {}, 0, None, 0

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.n = self.n
        s.trace = self.trace
        s.steps = self.steps
        return s

    def fresh(self):
        self.n += 1
        return self.n

    # --- store
    def get(self, cell):
        v = self.mem.get(cell)
        if v is None:
            if cell[0] == 'X':
                return cell[1]
        return v

    def read(self, cell, path=()):
        v = self.get(cell)
        for s in path:
            if v is None:
                raise Unsupported("read of uninitialised store")
            v = proj(v, s)
        return v

    def write(self, cell, path, val):
        if not path:
            self.mem[cell] = val
        else:
            v = self.get(cell)
            self.mem[cell] = upd(v, path, val)

    def alloc(self, v):
        c = ('h', self.fresh())
        self.mem[c] = v
        return c

    def load(self, v):
        """strip references"""
        k = 0
        while v is not None and v[0] == 'R':
            v = self.read(v[1], v[2])
            k += 1
            if k > 50:
                raise Unsupported("reference cycle")
        return v

    def deep(self, v, d=0):
        """value with references replaced by contents"""
        v = self.load(v)
        if v is None or d > 14:
            return TOP
        k = v[0]
        if k == 'T':
            return ('T', tuple(self.deep(x, d + 1) if x is not None else TOP for x in v[1]))
        if k == 'A':
            return ('A', v[1], v[2], tuple(self.deep(x, d + 1) if x is not None else TOP for x in v[3]))
        if k == 'O':
            return ('O', v[1], tuple((s, self.deep(x, d + 1)) for s, x in v[2]))
        if k == 'V':
            return ('V', tuple((s[0], self.deep(s[1], d + 1)) if s[0] == '1' else s for s in v[1]))
        if k == 'H':
            return ('H', v[1], tuple((self.deep(a, d + 1), self.deep(b, d + 1)) for a, b in v[2]), v[3])
        if k == 'C':
            return ('C', v[1], tuple(self.deep(x, d + 1) if x is not None else TOP for x in v[2]))
        if k == 't':
            return deep_term(self, v, d)
        return v

    def other(self):
        return ('t', 'o', self.fresh())

    # --- facts
    def variant(self, term, n):
        """decide the variant (0..n-1) of an enum-valued term"""
        if term[0] == 'O':
            return self.variant(term[1], n)
        if term[0] == 't' and term[1] == 'cmp':
            pos = self.order(term[2], term[3])
            if len(pos) == 1:
                return {'<': 0, '=': 1, '>': 2}[next(iter(pos))]
            raise Fork([self.order_fact(term[2], term[3], frozenset(x)) for x in sorted(pos)])
        f = self.facts.get(('v', term))
        if f is not None:
            return f
        ex = self.facts.get(('nv', term), frozenset())
        if hastop(term):
            f = self.facts.get(('once', 'v', term))
            if f is not None:
                return f
            raise Fork([{('once', 'v', term): i} for i in range(n)])
        alts = [i for i in range(n) if i not in ex]
        if len(alts) == 1:
            return alts[0]
        raise Fork([{('v', term): i} for i in alts])

    def order(self, a, b):
        """possible orderings of a and b: subset of '<=>' """
        if a == b and not hastop(a):
            return frozenset('=')
        if a[0] in ('i', 'c', 's', 'b') and b[0] in ('i', 'c', 's', 'b'):
            if a[0] == b[0]:
                if a[0] == 'c':
                    tested(a[1], b[1])
                    tested(b[1], a[1])
                if a[0] in 'sc' and (isopen(a[1]) or isopen(b[1])):
                    for x, y in zip(a[1], b[1]):
                        tested(x, y)
                        tested(y, x)
                        if x != y:
                            if x in OPENC or y in OPENC:
                                return frozenset('<>')
                            break
                return frozenset('<' if a[1] < b[1] else '>' if a[1] > b[1] else '=')
            return frozenset('<>')
        if poly_ok(a) and poly_ok(b) and (a[0] == 'P' or b[0] == 'P'):
            s = self.sign(padd(a, pneg(b)))
            return frozenset({'-': '<', '0': '=', '+': '>'}[x] for x in s)
        if a[0] == 't' and b[0] == 't' and a[1] == 'date' and b[1] == 'date' and len(a) == len(b):
            for x, y in zip(a[2:], b[2:]):
                if x != y:
                    if x[0] == y[0] == 'i':
                        return frozenset('<' if x[1] < y[1] else '>')
                    break
        key, flip = okey(a, b)
        pos = self.facts.get(key, ALLORD)
        if b[0] in ('i', 'c', 's', 'b') or a[0] in ('i', 'c', 's', 'b'):
            t, k = (a, b) if b[0] in ('i', 'c', 's', 'b') else (b, a)
            val = self.facts.get(('v', t))
            if val is not None:
                eq = (val == k[1])
                p2 = frozenset('=') if eq else frozenset('<>')
                return (pos & p2) or p2
            if k[1] in self.facts.get(('nv', t), ()):
                pos = (pos - {'='}) or pos
        if flip:
            pos = frozenset({'<': '>', '>': '<', '=': '='}[x] for x in pos)
        return pos

    def order_fact(self, a, b, pos):
        if poly_ok(a) and poly_ok(b) and (a[0] == 'P' or b[0] == 'P'):
            return self.sign_fact(padd(a, pneg(b)), frozenset({'<': '-', '=': '0', '>': '+'}[x] for x in pos))
        if hastop(a) or hastop(b):
            return {('once', 'c', a, b): pos}
        key, flip = okey(a, b)
        if flip:
            pos = frozenset({'<': '>', '>': '<', '=': '='}[x] for x in pos)
        d = {key: pos}
        for t, k in ((a, b), (b, a)):
            if k[0] in ('i', 'c', 's', 'b') and t[0] == 't':
                if pos == frozenset('='):
                    d[('v', t)] = k[1]
                elif '=' not in pos:
                    d[('nv', t)] = self.facts.get(('nv', t), frozenset()) | {k[1]}
        return d

    def compare(self, a, b, truth):
        pos = self.order(a, b)
        if hastop(a) or hastop(b):
            o = self.facts.get(('once', 'c', a, b))
            if o is not None:
                pos = o
        truth = frozenset(truth)
        if pos <= truth:
            return True
        if not (pos & truth):
            return False
        raise Fork([self.order_fact(a, b, pos & truth), self.order_fact(a, b, pos - truth)])

    def sign(self, p):
        """possible signs of a polynomial: subset of '-0+' """
        p = poly(p)
        if len(p[1]) == 0:
            return frozenset('0')
        if IV:
            r = IVSIGN[0](p)
            if len(r) < 3:
                return r
        if len(p[1]) == 1:
            (m, c), = p[1]
            poss = frozenset('+' if c > 0 else '-')
            for a, e in m:
                s = self.atom_sign(a)
                if e % 2 == 0:
                    s = frozenset({'-': '+', '0': '0', '+': '+'}[x] for x in s)
                if e < 0:
                    s = s - {'0'} or s
                poss = frozenset(smul(x, y) for x in poss for y in s)
            return poss
        q = self.reduce(p)
        if q != p:
            return self.sign(q)
        key, flip = skey(p)
        r = self.facts.get(('sg', key), ALLSGN)
        r = frozenset(sneg(x) for x in r) if flip else r
        if len(r) > 1:
            r = (r & self.sum_sign(p)) or r
        return r

    def reduce(self, p):
        """normal form of a sum modulo the sums and quantities known to be zero"""
        if len(p[1]) < 2:
            return p
        zs = frozenset(k[1] for k, v in self.facts.items() if k[0] == 'sg' and v == Z0)
        if zs:
            p = preduce(p, zs)
        c = common(p)
        if c:
            s = self.sign(('P', frozenset([(c, Fraction(1))])))
            if s <= frozenset('+') or s <= frozenset('-'):
                p = divide(p, c, 1 if s <= frozenset('+') else -1)
                if zs:
                    p = preduce(p, zs)
        return p

    def sum_sign(self, p):
        """possible signs of a sum, from the signs of its summands"""
        strict, kinds = False, set()
        for m in p[1]:
            s = self.sign(('P', frozenset([m])))
            kinds |= s
            if '-' in kinds and '+' in kinds:
                return ALLSGN
            strict |= '0' not in s
        return frozenset(kinds - {'0'} if strict else kinds | {'0'})

    def feasible(self):
        """False when the facts about a sum contradict those about its summands"""
        for k, v in self.facts.items():
            if k[0] == 'sg' and k[1][0] == 'P' and len(k[1][1]) > 1 and not v & self.sum_sign(k[1] if v == Z0 else self.reduce(k[1])):
                return False
        return True

    def atom_sign(self, a):
        if a[0] == 't' and a[1] in ('abs',):
            s = self.sign(a[2])
            return frozenset('0' if x == '0' else '+' for x in s)
        return self.facts.get(('sg', a), ALLSGN)

    def sign_fact(self, p, want):
        p = poly(p)
        if hastop(p):
            return {('once', 'sg', p): want}
        if len(p[1]) == 1:
            (m, c), = p[1]
            unknown = [(a, e) for a, e in m if len(self.atom_sign(a)) > 1]
            # choose the first unknown atom; other atoms are decided later if need be
            a, e = unknown[0]
            if len(unknown) == 1:
                poss = set()
                for x in self.atom_sign(a):
                    y = x
                    if e % 2 == 0:
                        y = {'-': '+', '0': '0', '+': '+'}[y]
                    y = y if c > 0 else sneg(y)
                    for b, eb in m:
                        if b != a:
                            z, = self.atom_sign(b)
                            if eb % 2 == 0:
                                z = {'-': '+', '0': '0', '+': '+'}[z]
                            y = smul(y, z)
                    if y in want:
                        poss.add(x)
                return {('sg', a): frozenset(poss)}
            return None
        key, flip = skey(p)
        return {('sg', key): frozenset(sneg(x) for x in want) if flip else want}

    def test_sign(self, p, truth):
        p = self.reduce(poly(p))
        truth = frozenset(truth)
        pos = self.sign(p)
        if hastop(p):
            o = self.facts.get(('once', 'sg', p))
            if o is not None:
                pos = o
        if pos <= truth:
            return True
        if not (pos & truth):
            return False
        f1 = self.sign_fact(p, pos & truth)
        if f1 is None:   # several unknown factors: decide the first one completely
            (m, c), = p[1]
            a = [x for x, e in m if len(self.atom_sign(x)) > 1][0]
            raise Fork([{('sg', a): frozenset(x)} for x in sorted(self.atom_sign(a))])
        raise Fork([f1, self.sign_fact(p, pos - truth)])

    def truth(self, v):
        """decide a boolean abstract value"""
        if v[0] == 'b':
            return v[1]
        if v[0] == 't':
            op = v[1]
            if op == 'not':
                return not self.truth(v[2])
            if op == 'and':
                return self.truth(v[2]) and self.truth(v[3])
            if op == 'or':
                return self.truth(v[2]) or self.truth(v[3])
            if op == 'ord':
                return self.compare(v[3], v[4], v[2])
            if op == 'sgn':
                return self.test_sign(v[3], v[2])
            if hastop(v):
                o = self.facts.get(('once', 'b', v))
                if o is not None:
                    return o
                raise Fork([{('once', 'b', v): True}, {('once', 'b', v): False}])
            f = self.facts.get(('v', v))
            if f is not None:
                return bool(f)
            raise Fork([{('v', v): True}, {('v', v): False}])
        if v[0] == 'O' or v[0] == 'i':
            raise Unsupported("bool %r" % (v,))
        raise Unsupported("bool %r" % (v[0],))

    def peek_truth(self, v):
        """None if undecided"""
        try:
            return self.truth(v)
        except Fork:
            return None


ALLORD = frozenset('<=>')
ALLSGN = frozenset('-0+')


def deep_term(st, v, d):
    out, ch = [], False
    for x in v:
        if isinstance(x, tuple) and x and x[0] in ('R', 'A', 'T', 'V', 'H', 'C', 'O'):
            y = st.deep(x, d + 1)
            ch = ch or (y is not x)
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def sneg(x):
    return {'-': '+', '+': '-', '0': '0'}[x]


def smul(x, y):
    if x == '0' or y == '0':
        return '0'
    return '+' if x == y else '-'


def poly_ok(v):
    return v[0] in ('P', 't', 'i')


def okey(a, b):
    ra, rb = repr(a), repr(b)
    if ra <= rb:
        return ('c', a, b), False
    return ('c', b, a), True


Z0 = frozenset('0')


@lru_cache(maxsize=100000)
def common(p):
    """greatest common monomial of a sum"""
    if len(p[1]) < 2:
        return ()
    ms = [dict(m) for m, _ in p[1]]
    out = {}
    for a in set(a for m in ms for a in m):
        e = min(m.get(a, 0) for m in ms)
        if e:
            out[a] = e
    return tuple(sorted(out.items(), key=repr))


def divide(p, c, sgn):
    d = {}
    for m, x in p[1]:
        mm = dict(m)
        for a, e in c:
            mm[a] = mm.get(a, 0) - e
        d[tuple(sorted(((a, e) for a, e in mm.items() if e), key=repr))] = x * sgn
    return ('P', frozenset(d.items()))


@lru_cache(maxsize=100000)
def zbasis(zs):
    """atoms that are zero, and an echelon basis {leading monomial: sum} of the sums that are zero"""
    atoms = frozenset(z for z in zs if z[0] != 'P')
    rows = {}
    for z in sorted((z for z in zs if z[0] == 'P'), key=repr):
        d = {m: c for m, c in z[1] if not any(a in atoms for a, e in m)}
        for lead, r in rows.items():
            if lead in d:
                sub(d, r, d[lead] / r[lead])
        if not d:
            continue
        lead = max(d, key=repr)
        for l2, r in rows.items():
            if lead in r:
                sub(r, d, r[lead] / d[lead])
        rows[lead] = d
    return atoms, rows


def sub(d, r, f):
    for m, c in r.items():
        x = d.get(m, 0) - f * c
        if x == 0:
            d.pop(m, None)
        else:
            d[m] = x


@lru_cache(maxsize=200000)
def preduce(p, zs):
    atoms, rows = zbasis(zs)
    d = {m: c for m, c in p[1] if not any(a in atoms for a, e in m)}
    for lead, r in rows.items():
        if lead in d:
            sub(d, r, d[lead] / r[lead])
    return ('P', frozenset(d.items()))


@lru_cache(maxsize=100000)
def skey(p):
    lead = min(p[1], key=lambda mc: repr(mc[0]))
    c = lead[1]
    return ('P', frozenset((m, x / abs(c)) for m, x in p[1])) if c > 0 else \
        ('P', frozenset((m, x / c) for m, x in p[1])), c < 0


def proj(v, s):
    k = v[0]
    if isinstance(s, tuple) and s[0] == 'e':
        if k == 'V':
            n = s[1]
            if n is None:
                return TOP
            if isinstance(n, tuple):     # ('seg', j): stable segment address
                return v[1][n[1]][1]
            for j, seg in enumerate(v[1]):
                if seg[0] != '1':
                    return TOP
                if j == n:
                    return seg[1]
            return None
        if k == 'H':                      # ('e',('ent',j)) : value of entry j ; ('key',j)
            kind, j = s[1]
            return v[2][j][0 if kind == 'key' else 1]
        if k == 'T':
            return v[1][s[1]]
        if v == TOP:
            return TOP
        if isterm(v):
            return T('elem', v, s[1])
        raise Unsupported("index of %r" % (k,))
    var, i = s if isinstance(s, tuple) else (None, s)
    if k == 'A':
        if v[1] == 'Entry':
            return v
        if var is not None and v[2] != var:
            raise Unsupported("downcast to other variant")
        return v[3][i]
    if k == 'T':
        return v[1][i]
    if k == 'C' or k == 'I':
        return v[2][i]
    if k == 'O':
        for st_, x in v[2]:
            if st_ == s:
                return x
        return proj(v[1], s)
    if k == 'R' or k == 'U':
        return v
    if v == TOP:
        return TOP
    if k == 't':
        if v[1] == 'mk':          # ('t','mk',...) never projected
            return TOP
        if var is None:
            return T('f', v, i)
        return T('vf', v, var, i)
    if k in ('V', 'H', 'P', 'i', 's'):
        raise Unsupported("projection of %s" % k)
    raise Unsupported("proj %r" % (k,))


def upd(v, path, val):
    s, rest = path[0], path[1:]
    if v is None:
        v = ('O', ('t', 'undef'), ())
    k = v[0]
    if k == 'U':
        return val
    new = upd(proj(v, s), rest, val) if rest else val
    if isinstance(s, tuple) and s[0] == 'e':
        if k == 'V':
            segs = list(v[1])
            n = s[1]
            if n is None:
                return ('V', (('M', frozenset([(TOP, frozenset())])),))
            j = n[1] if isinstance(n, tuple) else n
            if any(x[0] != '1' for x in segs[:j + 1]) and not isinstance(n, tuple):
                return TOP
            segs[j] = ('1', new)
            return ('V', tuple(segs))
        if k == 'H':
            kind, j = s[1]
            e = list(v[2])
            e[j] = (e[j][0], new) if kind == 'ent' else (new, e[j][1])
            return ('H', v[1], tuple(e), v[3])
        if k == 'T':
            l = list(v[1])
            l[s[1]] = new
            return ('T', tuple(l))
        return TOP
    var, i = s if isinstance(s, tuple) else (None, s)
    if k == 'A':
        l = list(v[3])
        l[i] = new
        return ('A', v[1], v[2], tuple(l))
    if k == 'T':
        l = list(v[1])
        l[i] = new
        return ('T', tuple(l))
    if k in ('C', 'I'):
        l = list(v[2])
        l[i] = new
        return (k, v[1], tuple(l))
    if k == 'O':
        l = [(a, b) for a, b in v[2] if a != s] + [(s, new)]
        return ('O', v[1], tuple(sorted(l, key=repr)))
    if v == TOP:
        return TOP
    if isterm(v):
        return ('O', v, ((s, new),))
    if k == 'R':
        return new
    raise Unsupported("upd %r" % (k,))


# ------------------------------------------------------------------ templates ("any number of others")
def generalise(st, v):
    """value -> template (value, facts) with its 'other' individuals numbered 0.. in order of occurrence"""
    v = st.deep(v)
    os_ = osyms(v)
    order = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 't' and x[1] == 'o':
                if x not in order:
                    order.append(x)
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y)
                elif isinstance(y, frozenset):
                    for z in sorted(y, key=repr):
                        walk(z)
    walk(v)
    m = {o: ('t', 'o', -1 - i) for i, o in enumerate(order)}
    fs = []
    if os_:
        for k, x in st.facts.items():
            o = osyms(k)
            if o and o <= os_:
                fs.append((k, x))
    val = rename(v, m)
    return (val, frozenset(rename_fact(k, x, m) for k, x in fs))


def instantiate(st, tmpl, sub=None):
    """returns (value, facts) with fresh individuals"""
    v, fs = tmpl
    m = dict(sub or {})
    for o in sorted(osyms(v) | frozenset().union(*[osyms(k) for k, _ in fs]) if fs else osyms(v), key=repr):
        if o[2] < 0 and o not in m:
            m[o] = st.other()
    if not m:
        return v, {}
    return rename(v, m), dict(rename_fact(k, x, m) for k, x in fs)


def rename_fact(k, x, m):
    if k[0] == 'c':
        kk, flip = okey(rename(k[1], m), rename(k[2], m))
        if flip:
            x = frozenset({'<': '>', '>': '<', '=': '='}[y] for y in x)
        return kk, x
    if k[0] == 'sg' and k[1][0] == 'P':
        p = poly(rename(k[1], m))
        if len(p[1]) > 1:
            kk, flip = skey(p)
            return ('sg', kk), (frozenset(sneg(y) for y in x) if flip else x)
        return ('sg', p), x
    return rename(k, m), x


MAXTMPL = 40


def addtmpl(ts, t):
    ts = ts | {t}
    if len(ts) > MAXTMPL:
        ts = frozenset((v, frozenset()) for v, _ in ts)
        if len(ts) > MAXTMPL:
            ts = frozenset([(TOP, frozenset())])
    return ts


SAME = [3]      # equal neighbours beyond this many are abstracted to any number of them


def seq_push(st, segs, v):
    dv = st.deep(v)
    if osyms(dv) or hastop(dv):
        t = generalise(st, v)
        if segs and segs[-1][0] == 'M':
            return segs[:-1] + (('M', addtmpl(segs[-1][1], t)),)
        return segs + (('M', frozenset([t])),)
    same = 0
    for s in reversed(segs):
        if s[0] == '1' and st.deep(s[1]) == dv:
            same += 1
        else:
            break
    if segs and segs[-1][0] == 'M' and (dv, frozenset()) in segs[-1][1]:
        return segs
    if same >= SAME[0]:
        return segs[:-same] + (('M', frozenset([(dv, frozenset())])),)
    return segs + (('1', v),)


def as_seq(v):
    """segments of a sequence-like abstract value"""
    if v[0] == 'V':
        return v[1]
    if v == TOP:
        return (('M', frozenset([(TOP, frozenset())])),)
    if isterm(v):
        # unknown sequence: any number of its elements
        e = ('t', 'elem', v, ('t', 'o', -1))
        return (('M', frozenset([(e, frozenset())])),)
    raise Unsupported("sequence %r" % (v[0],))
