"""More of the standard library: operations that take part rarely, but may appear in any change."""
from fractions import Fraction
import models
from absint import *
from models import *
from models import (M, NATIVES, PURE, OPT, RES, ORD, UNIT, TRUE, FALSE, NONE, some, ok, err, val, vget, vplace, as_seq, as_map, seq_push, seq_cat, seqsrc,
                    optvar, eqv, I, IT, push_nat, sub, Nat, native, model, consumer, adaptor, NextOf, Consume, HO, ho, X_, tstr, tinfo, strip_ty,
                    local_impl, ordv, ordterm, nd, coll_base, default_of, map_find, map_insert, map_get, osorted, entry_slot, m_rev, cat, run_next, again)


def exact(v, what):
    if v[0] != 'V' or any(s[0] != '1' for s in v[1]):
        raise Unsupported("%s of an open sequence" % what)
    return [s[1] for s in v[1]]


def seqv(xs):
    return ('V', tuple(('1', x) for x in xs))


def intv(st, x, what):
    v = val(st, x)
    if v[0] != 'i':
        raise Unsupported("%s at an open position" % what)
    return v[1]


def newref(st, v):
    return ('R', st.alloc(v), ())


# ------------------------------------------------------------------ comparison of structured values
@native('cmpv')
class CmpV(Nat):
    """compares a and b (values) by Ord; returns an Ordering"""

    def step(self, eng, st, fr):
        if fr.bb == 0:
            todo = [(self.c(st, fr, 'a'), self.c(st, fr, 'b'), False)]
        else:
            w = self.c(st, fr, 'todo')[1]
            todo = [(x[1][0], x[1][1], x[1][2][1]) for x in w]
            if fr.bb == 2:
                r = self.c(st, fr, 'r')
                r = val(st, r)
                if r[0] == 'A' and r[1] == OPT:
                    r = r[3][0]
                o = ordv(st, r)
                if self.c(st, fr, 'inv') == TRUE:
                    o = 2 - o
                if o != 1:
                    return eng.ret(st, ('A', ORD, o, ()))
        while todo:
            a, b, inv = todo.pop(0)
            a, b = val(st, a), val(st, b)
            if a[0] == 'A' and b[0] == 'A' and a[1] == b[1]:
                g = impl_of(eng, a[1], 'Ord', 'cmp') or impl_of(eng, a[1], 'PartialOrd', 'partial_cmp')
                if g is not None:
                    fr.bb = 2
                    self.s(st, fr, 'todo', ('T', tuple(('T', (x, y, ('b', i))) for x, y, i in todo)))
                    self.s(st, fr, 'inv', ('b', inv))
                    c = Call({"decl": g.name}, [X_(a), X_(b)], ((fr.fs, 'r'), ()), -1, '?', g.crate, g)
                    eng.push_fn(st, fr, g, c)
                    return
                if a[1].endswith('cmp::Reverse'):
                    todo.insert(0, (a[3][0], b[3][0], not inv))
                    continue
                if a[2] != b[2]:
                    return eng.ret(st, ('A', ORD, (0 if a[2] < b[2] else 2) if not inv else (2 if a[2] < b[2] else 0), ()))
                todo = [(x, y, inv) for x, y in zip(a[3], b[3])] + todo
                continue
            if a[0] == 'T' and b[0] == 'T':
                todo = [(x, y, inv) for x, y in zip(a[1], b[1])] + todo
                continue
            if a[0] == 'V' and b[0] == 'V':
                xs, ys = exact(a, 'comparison'), exact(b, 'comparison')
                tail = [(('i', len(xs)), ('i', len(ys)), inv)] if len(xs) != len(ys) else []
                todo = [(x, y, inv) for x, y in zip(xs, ys)] + tail + todo
                continue
            if a[0] in ('A', 'V', 'H', 'T') or b[0] in ('A', 'V', 'H', 'T'):
                raise Unsupported("comparison of %s and %s" % (a[0], b[0]))
            o = ordv(st, ordterm(st, st.deep(a), st.deep(b)))
            if o != 1:
                return eng.ret(st, ('A', ORD, 2 - o if inv else o, ()))
        eng.ret(st, ('A', ORD, 1, ()))


def impl_of(eng, d, trait, method):
    """the local implementation of a trait method for a local type"""
    c = eng.__dict__.setdefault('_implof', {})
    k = (d, trait, method)
    if k not in c:
        r = None
        short = d.split('::')[-1]
        for f in eng.p.fns.values():
            if f.local and f.blocks and f.name.startswith('<') and f.name.endswith('::' + method) and ' as ' in f.name:
                t, b = f.name[1:].rsplit('>::', 1)[0].split(' as ', 1)
                if b.split('<')[0].split('::')[-1] == trait and t.split('<')[0].split('::')[-1] == short and t.split('<')[0].endswith(d.split('::', 1)[-1]):
                    r = f
                    break
        c[k] = r
    return c[k]


def structured(v):
    return v[0] in ('T', 'V') or v[0] == 'A' and v[1] != ORD


def wrapcmp(old, op):
    def f(eng, st, fr, call):
        a, b = val(st, call.args[0]), val(st, call.args[1])
        if structured(a) and structured(b) and not (a[0] == 'A' and (a[1] == OPT or not a[3])):
            t = strip_ty(eng, call.crate, tinfo(eng, call))
            if not (t["k"] == "adt" and (local_impl(eng, call.crate, 'PartialOrd', t, 'partial_cmp') or local_impl(eng, call.crate, 'Ord', t, 'cmp'))):
                return push_nat(eng, st, fr, 'cmpto', {'a': a, 'b': b, 'op': ('s', op)}, call)
        return old(eng, st, fr, call)
    return f


@native('cmpto')
class CmpTo(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'cmpv', {'a': self.c(st, fr, 'a'), 'b': self.c(st, fr, 'b')})
        r, op = self.c(st, fr, 'r'), self.c(st, fr, 'op')[1]
        if op == 'cmp':
            return eng.ret(st, r)
        if op == 'partial_cmp':
            return eng.ret(st, some(r))
        eng.ret(st, ('b', ordv(st, r) in {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}[op]))


for o in ('lt', 'le', 'gt', 'ge', 'partial_cmp'):
    M['std::cmp::PartialOrd::' + o] = wrapcmp(M['std::cmp::PartialOrd::' + o], o)
M['std::cmp::Ord::cmp'] = wrapcmp(M['std::cmp::Ord::cmp'], 'cmp')


# ------------------------------------------------------------------ iterators
def revit(eng, st, it):
    """the iterator from the back; sources must be exact"""
    if it[0] == 'R':
        raise Unsupported("rev by reference")
    if it[0] == 'A' and 'Range' in it[1]:
        lo, hi = it[3][0], it[3][1]
        if lo[0] == 'i' and hi[0] == 'i':
            top = hi[1] + 1 if 'Inclusive' in it[1] else hi[1]
            return I('seq', seqv([('i', x) for x in range(top - 1, lo[1] - 1, -1)]))
        raise Unsupported("rev of an open range")
    if it[0] != 'I':
        raise Unsupported("rev")
    k, f = it[1], it[2]
    if k == 'ref':
        r, i, mut, pend = f
        v = st.read(r[1], r[2])
        n = len(exact(v, 'rev'))
        return I('seq', seqv([('R', r[1], r[2] + (('e', ('seg', j)),)) for j in range(n - 1, i[1] - 1, -1)]))
    if k == 'seq':
        return I('seq', ('V', tuple(reversed(f[0][1]))))
    if k == 'hord':
        return I('hord', f[0], ('T', tuple(reversed(f[1][1]))), f[2])
    if k == 'hval' and f[1][1].endswith('!'):
        h = f[0]
        return I('hval', ('H', h[1], tuple(reversed(h[2])), h[3]), f[1])
    if k in ('map', 'filter', 'cloned', 'filter_map', 'inspect'):
        return ('I', k, (revit(eng, st, f[0]),) + f[1:])
    if k == 'chain':
        return ('I', k, (revit(eng, st, f[1]), revit(eng, st, f[0])))
    n = itlen(st, it)
    if k == 'enumerate' and n is not None and f[1][0] == 'i':
        return I('zip', I('seq', seqv([('i', f[1][1] + j) for j in range(n - 1, -1, -1)])), revit(eng, st, f[0]))
    if k == 'skip' and n is not None:
        return I('take', revit(eng, st, f[0]), ('i', n))
    if k == 'take' and n is not None:
        return I('skip', revit(eng, st, f[0]), ('i', itlen(st, f[0]) - n))
    if k == 'zip' and n is not None:
        a, b = itlen(st, f[0]), itlen(st, f[1])
        return I('zip', I('skip', revit(eng, st, f[0]), ('i', a - n)), I('skip', revit(eng, st, f[1]), ('i', b - n)))
    if k == 'peekable' and f[1] == NONE:
        return revit(eng, st, f[0])
    raise Unsupported("rev of %s" % k)


def itlen(st, it):
    """number of items left, None if unknown"""
    if it[0] == 'A' and 'Range' in it[1]:
        lo, hi = it[3][0], it[3][1]
        return max(0, hi[1] - lo[1] + ('Inclusive' in it[1])) if lo[0] == 'i' and hi[0] == 'i' else None
    if it[0] != 'I':
        return None
    k, f = it[1], it[2]
    if k == 'ref':
        v = st.read(f[0][1], f[0][2])
        if v[0] != 'V' or any(s[0] != '1' for s in v[1]):
            return None
        return len(v[1]) - f[1][1]
    if k == 'seq':
        return len(f[0][1]) if all(s[0] == '1' for s in f[0][1]) else None
    if k == 'hord':
        return len(f[1][1])
    if k == 'hval':
        return len(f[0][2]) if not f[0][3] else None
    if k == 'href':
        h = as_map(st.read(f[0][1], f[0][2]))
        return None if h[3] else len(f[1][1]) if f[1][0] == 'T' else len(h[2]) - f[1][1]
    if k in ('map', 'cloned', 'enumerate', 'inspect'):
        return itlen(st, f[0])
    if k == 'peekable':
        n = itlen(st, f[0])
        return n if f[1] == NONE or n is None else n + (f[1][3][0] != NONE)
    n = itlen(st, f[0]) if k in ('skip', 'take', 'chain', 'zip', 'stepby') else None
    if n is None:
        return None
    if k in ('skip', 'take'):
        m = val(st, f[1])
        if m[0] != 'i':
            return None
        return max(0, n - m[1]) if k == 'skip' else min(n, m[1])
    if k == 'stepby':
        m = val(st, f[1])
        return None if m[0] != 'i' else (n + m[1] - 1) // m[1]
    b = itlen(st, f[1])
    return None if b is None else n + b if k == 'chain' else min(n, b)


old_rev = m_rev


@model(IT + 'rev')
def m_rev2(eng, st, fr, call):
    try:
        return revit(eng, st, call.args[0])
    except Unsupported:
        return old_rev(eng, st, fr, call)


@model('std::iter::ExactSizeIterator::len', IT + 'size_hint')
def m_itlen(eng, st, fr, call):
    it = val(st, call.args[0])
    n = itlen(st, it)
    if n is None:
        raise Unsupported("length of an open iterator")
    return ('i', n) if call.key.endswith('len') else ('T', (('i', n), some(('i', n))))


@native('nextback')
class NextBack(Nat):
    def step(self, eng, st, fr):
        r = self.c(st, fr, 'p')
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': revit(eng, st, st.read(r[1], r[2]))})
        ni, o = self.c(st, fr, 'r')[1]
        st.write(r[1], r[2], revit(eng, st, ni))
        eng.ret(st, o)


@model('std::iter::DoubleEndedIterator::next_back')
def m_nextback(eng, st, fr, call):
    return push_nat(eng, st, fr, 'nextback', {'p': vplace(st, call.args[0])}, call)


def backwards(kind):
    fwd = consumer(kind)

    def f(eng, st, fr, call):
        it = call.args[0]
        if it[0] == 'R':
            it = val(st, it)
        c2 = Call(call.f, [revit(eng, st, it)] + list(call.args[1:]), call.dst, call.to, call.span, call.crate, call.fn)
        return fwd(eng, st, fr, c2)
    return f


M['std::iter::DoubleEndedIterator::rfind'] = backwards('find')
M['std::iter::DoubleEndedIterator::rfold'] = backwards('fold')


@model(IT + 'rposition')
def m_rposition(eng, st, fr, call):
    it = val(st, call.args[0])
    n = itlen(st, it)
    if n is None:
        raise Unsupported("rposition")
    z = I('zip', I('seq', seqv([('i', j) for j in range(n - 1, -1, -1)])), revit(eng, st, it))
    return push_nat(eng, st, fr, 'rpos', {'it': z, 'f': call.args[1]}, call)


@native('rpos', loop=True)
class RPos(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                return eng.ret(st, NONE)
            self.s(st, fr, 'it', ni)
            self.s(st, fr, 'n', o[3][0][1][0])
            fr.bb = 2
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [o[3][0][1][1]])
        if st.truth(self.c(st, fr, 'r')):
            return eng.ret(st, some(self.c(st, fr, 'n')))
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)


def trykind(t):
    return 'o' if t.startswith('std::option::Option') else 'r' if t.startswith('std::result::Result') else \
        'c' if t.startswith('std::ops::ControlFlow') else None


@model(IT + 'try_fold', IT + 'try_for_each')
def m_tryfold(eng, st, fr, call):
    it = call.args[0]
    if it[0] == 'R':
        it = I('byref', it)
    n = len(call.f.get("targs", []))
    tk = next((k for k in (trykind(tstr(eng, call, i)) for i in range(n - 1, 0, -1)) if k), None)
    if tk is None:
        return NotImplemented
    fe = call.key.endswith('try_for_each')
    return push_nat(eng, st, fr, 'tryfold', {'it': it, 'acc': UNIT if fe else call.args[1], 'f': call.args[1 if fe else 2], 'tk': ('s', tk), 'fe': ('b', fe)}, call)


@native('tryfold', loop=True)
class TryFold(Nat):
    def step(self, eng, st, fr):
        tk = self.c(st, fr, 'tk')[1]
        goodv = 1 if tk == 'o' else 0
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            acc = self.c(st, fr, 'acc')
            if o == NONE:
                return eng.ret(st, some(acc) if tk == 'o' else ok(acc) if tk == 'r' else ('A', 'std::ops::ControlFlow', 0, (acc,)))
            self.s(st, fr, 'it', ni)
            fr.bb = 2
            x = o[3][0]
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [x] if self.c(st, fr, 'fe') == TRUE else [acc, x])
        v = val(st, self.c(st, fr, 'r'))
        if optvar(st, v) != goodv:
            return eng.ret(st, v)
        self.s(st, fr, 'acc', v[3][0] if v[0] == 'A' else proj(v, (goodv, 0)))
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)


@native('product', loop=True)
class Product(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        ni, o = self.c(st, fr, 'r')[1]
        acc = self.c(st, fr, 'acc')
        if o == NONE:
            return eng.ret(st, acc)
        self.s(st, fr, 'it', ni)
        x = val(st, o[3][0])
        self.s(st, fr, 'acc', pmul(acc, x) if acc[0] == 'P' or x[0] == 'P' else eng.binop(st, 'Mul', acc, x))
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)


@model(IT + 'product')
def m_product(eng, st, fr, call):
    t = tstr(eng, call, 1)
    it = call.args[0]
    one = ('i', 1) if t in ('i32', 'u32', 'i64', 'u64', 'usize', 'isize', 'u8', 'i8', 'i16', 'u16') else PONE if 'Ratio' in t else None
    if one is None:
        return NotImplemented
    return push_nat(eng, st, fr, 'product', {'it': it, 'acc': one}, call)


def n_scan(self, eng, st, fr, k, f):
    if fr.bb == 0:
        return self.inner(eng, st, fr, f[0])
    if fr.bb == 1:
        ni, o = self.c(st, fr, 'r')[1]
        if o == NONE:
            return self.fin(eng, st, ('I', k, (ni,) + f[1:]), NONE)
        self.s(st, fr, 'ni', ni)
        self.s(st, fr, 'sc', f[1])
        fr.bb = 2
        return eng.nat_call(st, fr, f[2], [('R', (fr.fs, 'sc'), ()), o[3][0]])
    v = val(st, self.c(st, fr, 'r'))
    nit = ('I', k, (self.c(st, fr, 'ni'), self.c(st, fr, 'sc'), f[2]))
    if optvar(st, v) == 0:
        return self.fin(eng, st, I('seq', ('V', ())), NONE)
    self.fin(eng, st, nit, some(proj(v, (1, 0)) if v[0] != 'A' else v[3][0]))


NextOf.n_scan = n_scan
M[IT + 'scan'] = adaptor('scan')


def n_cycle(self, eng, st, fr, k, f):
    if fr.bb == 0:
        return self.inner(eng, st, fr, f[1])
    ni, o = self.c(st, fr, 'r')[1]
    if o == NONE:
        if itlen(st, f[0]) == 0:
            return self.fin(eng, st, ('I', k, f), NONE)
        self.s(st, fr, 'it', ('I', k, (f[0], f[0])))
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)
        return
    self.fin(eng, st, ('I', k, (f[0], ni)), o)


NextOf.n_cycle = n_cycle


@model(IT + 'cycle')
def m_cycle(eng, st, fr, call):
    it = call.args[0]
    if itlen(st, it) is None:
        raise Unsupported("cycle")
    return I('cycle', it, it)


def n_stepby(self, eng, st, fr, k, f):
    """f = (iterator, step, first?)"""
    n = intv(st, f[1], 'step_by')
    first = len(f) < 3
    if fr.bb == 0:
        it = f[0] if first or n == 1 else I('skip', f[0], ('i', n - 1))
        return self.inner(eng, st, fr, it)
    ni, o = self.c(st, fr, 'r')[1]
    self.fin(eng, st, ('I', k, (ni, f[1], FALSE)), o)


NextOf.n_stepby = n_stepby


def n_succ(self, eng, st, fr, k, f):
    """f = (next item or NONE, fn)"""
    if f[0] == NONE:
        return self.fin(eng, st, ('I', k, f), NONE)
    if fr.bb == 0:
        o = val(st, f[0])
        if optvar(st, o) == 0:
            return self.fin(eng, st, ('I', k, (NONE, f[1])), NONE)
        self.s(st, fr, 'x', o[3][0] if o[0] == 'A' else proj(o, (1, 0)))
        fr.bb = 1
        return eng.nat_call(st, fr, f[1], [('R', (fr.fs, 'x'), ())])
    self.fin(eng, st, ('I', k, (self.c(st, fr, 'r'), f[1])), some(self.c(st, fr, 'x')))


NextOf.n_succ = n_succ
M['std::iter::successors'] = lambda eng, st, fr, call: I('succ', call.args[0], call.args[1])


def n_fromfn(self, eng, st, fr, k, f):
    if fr.bb == 0:
        self.s(st, fr, 'fn', f[0])
        fr.bb = 1
        return eng.nat_call(st, fr, ('R', (fr.fs, 'fn'), ()), [])
    v = val(st, self.c(st, fr, 'r'))
    nit = ('I', k, (self.c(st, fr, 'fn'),))
    if optvar(st, v) == 0:
        return self.fin(eng, st, nit, NONE)
    self.fin(eng, st, nit, some(v[3][0] if v[0] == 'A' else proj(v, (1, 0))))


NextOf.n_fromfn = n_fromfn
M['std::iter::from_fn'] = lambda eng, st, fr, call: I('fromfn', call.args[0])


@model('std::iter::repeat_n')
def m_repeatn(eng, st, fr, call):
    return I('take', I('repeat', call.args[0]), call.args[1])


def n_repeatwith(self, eng, st, fr, k, f):
    if fr.bb == 0:
        fr.bb = 1
        return eng.nat_call(st, fr, f[0], [])
    self.fin(eng, st, ('I', k, f), some(self.c(st, fr, 'r')))


NextOf.n_repeatwith = n_repeatwith
M['std::iter::repeat_with'] = lambda eng, st, fr, call: I('repeatwith', call.args[0])

# a local type that implements Iterator
old_step = NextOf.step


def nextof_step(self, eng, st, fr):
    it = self.c(st, fr, 'it')
    if it[0] == 'A' and 'Range' not in it[1]:
        if it[1] == OPT:
            self.s(st, fr, 'it', I('seq', seqv(it[3])))
            return
        g = impl_of(eng, it[1], 'Iterator', 'next')
        if g is not None:
            if fr.bb == 0:
                fr.bb = 1
                self.s(st, fr, 'self', it)
                c = Call({"decl": g.name}, [('R', (fr.fs, 'self'), ())], ((fr.fs, 'r'), ()), -1, '?', g.crate, g)
                eng.push_fn(st, fr, g, c)
                return
            v = val(st, self.c(st, fr, 'r'))
            nit = self.c(st, fr, 'self')
            if optvar(st, v) == 0:
                return self.fin(eng, st, nit, NONE)
            return self.fin(eng, st, nit, some(v[3][0] if v[0] == 'A' else proj(v, (1, 0))))
    return old_step(self, eng, st, fr)


NextOf.step = nextof_step


@model(IT + 'unzip')
def m_unzip(eng, st, fr, call):
    n = len(call.f.get("targs", []))
    ts = [tstr(eng, call, i) for i in range(n)]
    bs = [(t, coll_base(t)) for t in ts[-2:]]
    if any(b is None for _, b in bs):
        return NotImplemented
    return push_nat(eng, st, fr, 'unzip', {'it': call.args[0], 'a': bs[0][1], 'b': bs[1][1], 'ta': ('s', bs[0][0]), 'tb': ('s', bs[1][0])}, call)


@native('unzip', loop=True)
class Unzip(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        ni, o = self.c(st, fr, 'r')[1]
        if o == NONE:
            return eng.ret(st, ('T', (self.c(st, fr, 'a'), self.c(st, fr, 'b'))))
        x = val(st, o[3][0])
        for c, j in (('a', 0), ('b', 1)):
            acc = self.c(st, fr, c)
            y = x[1][j] if x[0] == 'T' else proj(x, j)
            if acc[0] != 'V':
                raise Unsupported("unzip")
            self.s(st, fr, c, ('V', seq_push(st, acc[1], y)))
        self.s(st, fr, 'it', ni)
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)


def itercmp(kind):
    def f(eng, st, fr, call):
        return push_nat(eng, st, fr, 'itercmp', {'a': models.as_iter(eng, st, call.args[0]), 'b': models.as_iter(eng, st, call.args[1]), 'k': ('s', kind)}, call)
    return f


for n_ in ('eq', 'ne', 'cmp', 'lt', 'le', 'gt', 'ge', 'partial_cmp'):
    M[IT + n_] = itercmp(n_)


@native('itercmp')
class IterCmp(Nat):
    def step(self, eng, st, fr):
        k = self.c(st, fr, 'k')[1]
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'consume', {'it': self.c(st, fr, 'a'), 'k': ('s', 'collect'), 'acc': ('V', ()), 't': ('s', 'std::vec::Vec')})
        if fr.bb == 1:
            self.s(st, fr, 'va', self.c(st, fr, 'r'))
            fr.bb = 2
            return sub(eng, st, fr, 'consume', {'it': self.c(st, fr, 'b'), 'k': ('s', 'collect'), 'acc': ('V', ()), 't': ('s', 'std::vec::Vec')})
        if fr.bb == 2:
            a, b = self.c(st, fr, 'va'), self.c(st, fr, 'r')
            if k in ('eq', 'ne'):
                xs, ys = exact(a, 'eq'), exact(b, 'eq')
                r = len(xs) == len(ys) and all(eqv(st, x, y) for x, y in zip(xs, ys))
                return eng.ret(st, ('b', r == (k == 'eq')))
            fr.bb = 3
            return sub(eng, st, fr, 'cmpto', {'a': a, 'b': b, 'op': ('s', k)})
        eng.ret(st, self.c(st, fr, 'r'))


@model('core::slice::is_sorted', IT + 'is_sorted')
def m_issorted(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 'I':
        if v[1] != 'ref':
            raise Unsupported("is_sorted")
        v = st.read(v[2][0][1], v[2][0][2])
    xs = exact(v, 'is_sorted')
    for a, b in zip(xs, xs[1:]):
        if ordv(st, ordterm(st, st.deep(a), st.deep(b))) == 2:
            return FALSE
    return TRUE


# extremes by comparison or key: as the standard library breaks ties
def extreme(kind):
    def f(eng, st, fr, call):
        it = call.args[0]
        if it[0] == 'R':
            it = I('byref', it)
        return push_nat(eng, st, fr, 'extreme', {'it': it, 'k': ('s', kind), 'f': call.args[1] if len(call.args) > 1 else UNIT, 'acc': NONE, 'key': UNIT}, call)
    return f


for n_ in ('max_by', 'min_by', 'max_by_key', 'min_by_key', 'max', 'min'):
    M[IT + n_] = extreme(n_)


@native('extreme', loop=True)
class Extreme(Nat):
    def step(self, eng, st, fr):
        k = self.c(st, fr, 'k')[1]
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            acc = self.c(st, fr, 'acc')
            if o == NONE:
                return eng.ret(st, acc)
            self.s(st, fr, 'it', ni)
            self.s(st, fr, 'x', o[3][0])
            st.mem.pop((fr.fs, 'r'), None)
            if k.endswith('_key'):
                fr.bb = 2
                return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', (fr.fs, 'x'), ())])
            if acc == NONE:
                return self.take(st, fr)
            fr.bb = 3
            if k.endswith('_by'):
                self.s(st, fr, 'y', acc[3][0])
                return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', (fr.fs, 'y'), ()), ('R', (fr.fs, 'x'), ())])
            return sub(eng, st, fr, 'cmpv', {'a': acc[3][0], 'b': self.c(st, fr, 'x')})
        if fr.bb == 2:
            self.s(st, fr, 'nk', self.c(st, fr, 'r'))
            if self.c(st, fr, 'acc') == NONE:
                return self.take(st, fr)
            fr.bb = 3
            return sub(eng, st, fr, 'cmpv', {'a': self.c(st, fr, 'key'), 'b': self.c(st, fr, 'nk')})
        o = ordv(st, self.c(st, fr, 'r'))     # accumulated against new
        if o == 2 if k.startswith('max') else o != 2:
            return self.done(st, fr)
        self.take(st, fr)

    def take(self, st, fr):
        self.s(st, fr, 'acc', some(self.c(st, fr, 'x')))
        if self.c(st, fr, 'nk') is not None:
            self.s(st, fr, 'key', self.c(st, fr, 'nk'))
        self.done(st, fr)

    def done(self, st, fr):
        for q in ('r', 'x', 'y', 'nk'):
            st.mem.pop((fr.fs, q), None)
        fr.bb = 0


@model('std::iter::Peekable::next_if', 'std::iter::Peekable::next_if_eq')
def m_nextif(eng, st, fr, call):
    return push_nat(eng, st, fr, 'nextif', {'p': vplace(st, call.args[0]), 'f': call.args[1], 'eq': ('b', call.key.endswith('_eq'))}, call)


@native('nextif')
class NextIf(Nat):
    def step(self, eng, st, fr):
        r = self.c(st, fr, 'p')
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'peek', {'p': r})
        if fr.bb == 1:
            o = self.c(st, fr, 'r')
            if o == NONE:
                return eng.ret(st, NONE)
            self.s(st, fr, 'x', o[3][0])
            if self.c(st, fr, 'eq') == TRUE:
                self.s(st, fr, 'r', ('b', eqv(st, o[3][0], self.c(st, fr, 'f'))))
                fr.bb = 2
                return
            fr.bb = 2
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [o[3][0]])
        if fr.bb == 2:
            if not st.truth(self.c(st, fr, 'r')):
                return eng.ret(st, NONE)
            fr.bb = 3
            return sub(eng, st, fr, 'next', {'p': r})
        eng.ret(st, self.c(st, fr, 'r'))


@model('std::iter::Peekable::peek_mut')
def m_peekmut(eng, st, fr, call):
    return push_nat(eng, st, fr, 'peek', {'p': vplace(st, call.args[0])}, call)


# sums and collections into Option / Result of sums
old_sum = M[IT + 'sum']


@model(IT + 'sum')
def m_sum(eng, st, fr, call):
    t = tstr(eng, call, 1)
    if t.startswith(('std::option::Option<', 'std::result::Result<')):
        d = default_of(t.split('<', 1)[1].rstrip('>').split(',')[0].lstrip('&'))
        if d is None:
            return NotImplemented
        return push_nat(eng, st, fr, 'trysum', {'it': call.args[0], 'acc': d, 'k': ('s', t[5:11])}, call)
    return old_sum(eng, st, fr, call)


@native('trysum', loop=True)
class TrySum(Nat):
    def step(self, eng, st, fr):
        o_ = self.c(st, fr, 'k')[1].startswith('option')
        good = 1 if o_ else 0
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        ni, o = self.c(st, fr, 'r')[1]
        a = self.c(st, fr, 'acc')
        if o == NONE:
            return eng.ret(st, some(a) if o_ else ok(a))
        v = val(st, o[3][0])
        if optvar(st, v) != good:
            return eng.ret(st, v)
        b = val(st, v[3][0] if v[0] == 'A' else proj(v, (good, 0)))
        self.s(st, fr, 'acc', padd(a, b) if a[0] == 'P' or b[0] == 'P' else eng.binop(st, 'Add', a, b))
        self.s(st, fr, 'it', ni)
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)


# ------------------------------------------------------------------ vectors and slices
def vecop(*names):
    def d(f):
        def g(eng, st, fr, call):
            r, v = vget(st, call.args[0])
            return f(eng, st, call, r, exact(v, call.key.split('::')[-1]))
        for n in names:
            M['std::vec::Vec::' + n] = M['core::slice::' + n] = M['std::slice::' + n] = g
        return f
    return d


def setv(st, r, xs):
    st.write(r[1], r[2], seqv(xs))


@vecop('dedup')
def v_dedup(eng, st, call, r, xs):
    out = []
    for x in xs:
        if not out or not eqv(st, out[-1], x):
            out.append(x)
    setv(st, r, out)
    return UNIT


def dedupby(key):
    def f(eng, st, fr, call):
        r, v = vget(st, call.args[0])
        xs = exact(v, 'dedup')
        return push_nat(eng, st, fr, 'dedupby', {'src': v, 'p': r, 'f': call.args[1], 'out': ('T', ()), 'i': ('i', 0), 'key': ('b', key), 'last': UNIT}, call)
    return f


M['std::vec::Vec::dedup_by'] = dedupby(False)
M['std::vec::Vec::dedup_by_key'] = dedupby(True)


@native('dedupby')
class DedupBy(Nat):
    def step(self, eng, st, fr):
        src, i, out = self.c(st, fr, 'src')[1], self.c(st, fr, 'i')[1], self.c(st, fr, 'out')[1]
        key = self.c(st, fr, 'key') == TRUE
        if i == len(src):
            r = self.c(st, fr, 'p')
            st.write(r[1], r[2], ('V', tuple(src[j[1]] for j in out)))
            return eng.ret(st, UNIT)
        if fr.bb == 0:
            if not out and not key:
                return self.keep(st, fr, i, out)
            fr.bb = 1
            a = [X_(src[i][1])] if key else [X_(src[i][1]), X_(src[out[-1][1]][1])]
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), a)
        r = self.c(st, fr, 'r')
        fr.bb = 0
        if key:
            if out and eqv(st, self.c(st, fr, 'last'), r):
                return self.s(st, fr, 'i', ('i', i + 1))
            self.s(st, fr, 'last', r)
            return self.keep(st, fr, i, out)
        if st.truth(r):
            return self.s(st, fr, 'i', ('i', i + 1))
        self.keep(st, fr, i, out)

    def keep(self, st, fr, i, out):
        self.s(st, fr, 'out', ('T', out + (('i', i),)))
        self.s(st, fr, 'i', ('i', i + 1))


def subslice(st, r, xs, lo, hi):
    """a slice of the vector: the elements stay in place when the slice is the whole"""
    return newref(st, seqv(xs[lo:hi]))


@vecop('split_at')
def v_splitat(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'split_at')
    if n > len(xs):
        raise Stop('panic', ('split_at', call.span))
    return ('T', (subslice(st, r, xs, 0, n), subslice(st, r, xs, n, len(xs))))


@vecop('split_off')
def v_splitoff(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'split_off')
    if n > len(xs):
        raise Stop('panic', ('split_off', call.span))
    setv(st, r, xs[:n])
    return seqv(xs[n:])


@vecop('swap')
def v_swap(eng, st, call, r, xs):
    a, b = intv(st, call.args[1], 'swap'), intv(st, call.args[2], 'swap')
    if max(a, b) >= len(xs):
        raise Stop('panic', ('swap', call.span))
    xs[a], xs[b] = xs[b], xs[a]
    setv(st, r, xs)
    return UNIT


@vecop('swap_remove')
def v_swaprem(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'swap_remove')
    if n >= len(xs):
        raise Stop('panic', ('swap_remove', call.span))
    x = xs[n]
    xs[n] = xs[-1]
    setv(st, r, xs[:-1])
    return x


@vecop('resize')
def v_resize(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'resize')
    if n > 200:
        raise Unsupported('resize')
    setv(st, r, (xs + [call.args[2]] * n)[:n])
    return UNIT


@vecop('chunks', 'chunks_exact')
def v_chunks(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'chunks')
    cs = [xs[i:i + n] for i in range(0, len(xs), n)]
    if call.key.endswith('exact'):
        cs = [c for c in cs if len(c) == n]
    return I('seq', seqv([newref(st, seqv(c)) for c in cs]))


@vecop('windows')
def v_windows(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'windows')
    return I('seq', seqv([newref(st, seqv(xs[i:i + n])) for i in range(0, len(xs) - n + 1)]))


def el(r, j):
    return ('R', r[1], r[2] + (('e', ('seg', j)),))


@vecop('split_first', 'split_first_mut')
def v_splitfirst(eng, st, call, r, xs):
    if not xs:
        return NONE
    return some(('T', (el(r, 0), subslice(st, r, xs, 1, len(xs)))))


@vecop('split_last', 'split_last_mut')
def v_splitlast(eng, st, call, r, xs):
    if not xs:
        return NONE
    return some(('T', (el(r, len(xs) - 1), subslice(st, r, xs, 0, len(xs) - 1))))


@vecop('starts_with', 'ends_with')
def v_startsw(eng, st, call, r, xs):
    ys = exact(val(st, call.args[1]), 'starts_with')
    if len(ys) > len(xs):
        return FALSE
    part = xs[:len(ys)] if call.key.endswith('starts_with') else xs[len(xs) - len(ys):]
    return ('b', all(eqv(st, a, b) for a, b in zip(part, ys)))


@vecop('rotate_left', 'rotate_right')
def v_rot(eng, st, call, r, xs):
    n = intv(st, call.args[1], 'rotate')
    if call.key.endswith('right'):
        n = len(xs) - n
    setv(st, r, xs[n:] + xs[:n])
    return UNIT


@vecop('fill')
def v_fill(eng, st, call, r, xs):
    setv(st, r, [call.args[1]] * len(xs))
    return UNIT


@vecop('binary_search')
def v_bs(eng, st, call, r, xs):
    for i, x in enumerate(xs):
        o = ordv(st, ordterm(st, st.deep(x), st.deep(call.args[1])))
        if o == 1:
            return ok(('i', i))
        if o == 2:
            return err(('i', i))
    return err(('i', len(xs)))


@model('std::vec::from_elem')
def m_fromelem(eng, st, fr, call):
    n = intv(st, call.args[1], 'vec![x; n]')
    if n > 200:
        raise Unsupported("long vector")
    return seqv([call.args[0]] * n)


def bounds(eng, st, call, x, n, i=1):
    """(lo, hi) of a range argument"""
    t = next((tstr(eng, call, j) for j in range(len(call.f.get("targs", []))) if 'Range' in tstr(eng, call, j)), '')
    v = val(st, x)
    f = [val(st, y) for y in v[3]] if v[0] == 'A' else []
    if 'RangeFull' in t:
        return 0, n
    if any(y[0] not in ('i', 'b') for y in f):
        raise Unsupported("open range")
    f = [y[1] for y in f]
    if 'RangeFrom' in t:
        return f[0], n
    if 'RangeToInclusive' in t:
        return 0, f[0] + 1
    if 'RangeTo' in t:
        return 0, f[0]
    if 'RangeInclusive' in t:
        return f[0], f[1] + 1
    if 'Range' in t:
        return f[0], f[1]
    raise Unsupported("range")


old_vdrain = M['std::vec::Vec::drain']


@model('std::vec::Vec::drain')
def m_vdrain2(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if 'RangeFull' in tstr(eng, call, 1) or 'RangeFull' in tstr(eng, call, 2):
        return old_vdrain(eng, st, fr, call)
    xs = exact(v, 'drain')
    lo, hi = bounds(eng, st, call, call.args[1], len(xs))
    if lo > hi or hi > len(xs):
        raise Stop('panic', ('drain', call.span))
    setv(st, r, xs[:lo] + xs[hi:])
    return I('seq', seqv(xs[lo:hi]))


@model('std::string::String::drain')
def m_sdrain(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] != 's':
        raise Unsupported("drain of an open text")
    lo, hi = bounds(eng, st, call, call.args[1], len(v[1].encode()))
    lo, hi = boff(v[1], lo), boff(v[1], hi)
    if lo is None or hi is None or lo > hi:
        raise Stop('panic', ('drain', call.span))
    st.write(r[1], r[2], ('s', v[1][:lo] + v[1][hi:]))
    return I('seq', seqv([('c', c) for c in v[1][lo:hi]]))


old_get = M['core::slice::get']


@model('core::slice::get', 'std::vec::Vec::get', 'core::slice::get_mut')
def m_get2(eng, st, fr, call):
    i = val(st, call.args[1])
    if i[0] == 'A' and 'ange' in i[1]:
        r, v = vget(st, call.args[0])
        xs = exact(v, 'get')
        lo, hi = bounds(eng, st, call, call.args[1], len(xs))
        if lo > hi or hi > len(xs):
            return NONE
        return some(subslice(st, r, xs, lo, hi))
    return old_get(eng, st, fr, call)


old_slice_range = models.m_slice_range


def slice_range(eng, st, call, a, i):
    v = val(st, a)
    t = tstr(eng, call, 1)
    if 'Inclusive' in t and (v[0] == 'V' or v[0] == 's'):
        n = len(exact(v, 'slice')) if v[0] == 'V' else len(v[1].encode())
        lo, hi = bounds(eng, st, call, i, n)
        if v[0] == 's':
            lo, hi = boff(v[1], lo), boff(v[1], hi)
        if lo is None or hi is None or lo > hi or hi > n:
            raise Stop('panic', ('slice index', call.span))
        return ('s', v[1][lo:hi]) if v[0] == 's' else newref(st, ('V', v[1][lo:hi]))
    return old_slice_range(eng, st, call, a, i)


models.m_slice_range = slice_range


@model('core::str::get')
def m_sget(eng, st, fr, call):
    v = st.deep(call.args[0])
    i = val(st, call.args[1])
    if v[0] == 's':
        lo, hi = bounds(eng, st, call, call.args[1], len(v[1].encode()))
        lo, hi = boff(v[1], lo), boff(v[1], hi)
        return some(('s', v[1][lo:hi])) if lo is not None and hi is not None and lo <= hi else NONE
    return T('app', 'core::str::get', v, st.deep(i))


old_join = M['std::slice::join']


@model('std::slice::join', 'std::slice::concat')
def m_join2(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 'V' and all(s[0] == '1' for s in v[1]) and v[1] and all(val(st, s[1])[0] == 'V' for s in v[1]):
        out = ()
        for i, s in enumerate(v[1]):
            if i and len(call.args) > 1:
                x = val(st, call.args[1])
                out = seq_cat(st, out, as_seq(x) if x[0] == 'V' else (('1', x),))
            out = seq_cat(st, out, as_seq(val(st, s[1])))
        return ('V', out)
    return old_join(eng, st, fr, call)


@model('std::vec::Vec::retain_mut')
def m_retainmut(eng, st, fr, call):
    return M['std::vec::Vec::retain'](eng, st, fr, call)


@model('std::array::map')
def m_arrmap(eng, st, fr, call):
    return push_nat(eng, st, fr, 'consume', {'it': I('map', I('seq', val(st, call.args[0])), call.args[1]), 'k': ('s', 'collect'), 'acc': ('V', ()), 't': ('s', 'std::vec::Vec')}, call)


VD = 'std::collections::VecDeque::'


@model(VD + 'push_front')
def m_pushfront(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    st.write(r[1], r[2], ('V', (('1', call.args[1]),) + as_seq(v)))
    return UNIT


@model(VD + 'pop_front')
def m_popfront(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    xs = exact(v, 'pop_front')
    if not xs:
        return NONE
    setv(st, r, xs[1:])
    return some(xs[0])


M[VD + 'pop_back'] = M['std::vec::Vec::pop']
M[VD + 'front'] = M[VD + 'front_mut'] = M['core::slice::first']
M[VD + 'back'] = M[VD + 'back_mut'] = M['core::slice::last']
M[VD + 'is_empty'] = M['std::vec::Vec::is_empty']
M[VD + 'get'] = M['core::slice::get']
M[VD + 'iter_mut'] = M['core::slice::iter_mut']
M[VD + 'contains'] = M['core::slice::contains']
M[VD + 'clear'] = M['std::vec::Vec::clear']
M[VD + 'with_capacity'] = M['std::vec::Vec::new']


@model('std::vec::Vec::pop_if')
def m_popif(eng, st, fr, call):
    raise Unsupported("pop_if")


# ------------------------------------------------------------------ text
def nbytes(s):
    return len(s.encode())


def near(s, pat, case=False):
    """notes the open characters whose value decides whether a constant occurs in a text"""
    if not isopen(s) or isopen(pat):
        return
    for i in range(len(s) - len(pat) + 1):
        w = s[i:i + len(pat)]
        if all(c == k or c in OPENC for c, k in zip(w, pat)):
            for c, k in zip(w, pat):
                tested(c, k)
                if case:
                    tested(c, k.upper())
                    tested(c, k.lower())


def spans(s, pat):
    """non-overlapping matches of a concrete pattern, left to right"""
    if isinstance(pat, str):
        near(s, pat)
        if pat == '':
            return [(i, i) for i in range(len(s) + 1)]
        out, i = [], 0
        while True:
            j = s.find(pat, i)
            if j < 0:
                return out
            out.append((j, j + len(pat)))
            i = j + len(pat)
    return [(i, i + 1) for i, b in enumerate(pat) if b]


def rspans(s, pat):
    if isinstance(pat, str) and pat:
        out, i = [], len(s)
        while True:
            j = s.rfind(pat, 0, i)
            if j < 0:
                return out
            out.append((j, j + len(pat)))
            i = j
    return list(reversed(spans(s, pat)))


def pieces(s, ms):
    out, i = [], 0
    for a, b in ms:
        out.append(s[i:a])
        i = b
    return out + [s[i:]]


def seqs(xs):
    return I('seq', seqv([('s', x) for x in xs]))


def two(x):
    return NONE if x is None else some(('T', (('s', x[0]), ('s', x[1]))))


def s_op(op, s, pat, extra):
    ms = spans(s, pat)
    if op == 'find':
        return some(('i', nbytes(s[:ms[0][0]]))) if ms else NONE
    if op == 'rfind':
        ms = rspans(s, pat)
        return some(('i', nbytes(s[:ms[0][0]]))) if ms else NONE
    if op == 'contains':
        return ('b', bool(ms))
    if op == 'starts_with':
        return ('b', bool(ms) and ms[0][0] == 0)
    if op in ('ends_with', 'strip_suffix'):
        ms = rspans(s, pat)
        y = bool(ms) and ms[0][1] == len(s)
        if op == 'ends_with':
            return ('b', y)
        return some(('s', s[:ms[0][0]])) if y else NONE
    if op == 'strip_prefix':
        return some(('s', s[ms[0][1]:])) if ms and ms[0][0] == 0 else NONE
    if op == 'split':
        return seqs(pieces(s, ms))
    if op == 'split_inclusive':
        out, i = [], 0
        for a, b in ms:
            out.append(s[i:b])
            i = b
        return seqs(out + ([s[i:]] if i < len(s) else []))
    if op == 'split_terminator':
        p = pieces(s, ms)
        return seqs(p[:-1] if p[-1] == '' else p)
    if op in ('rsplit', 'rsplit_terminator'):
        p = pieces(s, list(reversed(rspans(s, pat))))
        return seqs(list(reversed(p)))
    if op == 'splitn':
        n = extra[0]
        return seqs(pieces(s, ms[:n - 1]) if n else [])
    if op == 'rsplitn':
        n = extra[0]
        return seqs(list(reversed(pieces(s, list(reversed(rspans(s, pat)[:n - 1]))))) if n else [])
    if op == 'split_once':
        return two((s[:ms[0][0]], s[ms[0][1]:]) if ms else None)
    if op == 'rsplit_once':
        ms = rspans(s, pat)
        return two((s[:ms[0][0]], s[ms[0][1]:]) if ms else None)
    if op in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left_matches', 'trim_right_matches'):
        i, j = 0, len(s)
        if op not in ('trim_end_matches', 'trim_right_matches'):
            for a, b in ms:
                if a != i or a == b:
                    break
                i = b
        if op not in ('trim_start_matches', 'trim_left_matches'):
            for a, b in rspans(s, pat):
                if b != j or a == b or a < i:
                    break
                j = a
        return ('s', s[i:j])
    if op == 'replace':
        return ('s', extra[0].join(pieces(s, ms)))
    if op == 'replacen':
        return ('s', extra[0].join(pieces(s, ms[:extra[1]])))
    if op == 'matches':
        return seqs([s[a:b] for a, b in ms])
    if op == 'match_indices':
        return I('seq', seqv([('T', (('i', nbytes(s[:a])), ('s', s[a:b]))) for a, b in ms]))
    raise Unsupported(op)


def pattern(st, p):
    """a concrete pattern: a string, a set of characters, or None (a predicate)"""
    p = st.deep(p)
    if p[0] == 's':
        return p[1]
    if p[0] == 'c':
        return p[1]
    if p[0] == 'V' and all(s[0] == '1' and s[1][0] == 'c' for s in p[1]):
        return frozenset(s[1][1] for s in p[1])
    return None


def strop(op, old, pure):
    patix = 1
    if op in ('splitn', 'rsplitn'):
        patix = 2

    def f(eng, st, fr, call):
        s = st.deep(call.args[0])
        extra = [st.deep(x) for i, x in enumerate(call.args) if i not in (0, patix)]
        p = pattern(st, call.args[patix])
        if s[0] == 't' and s[1] == 'app' and str(s[2]).endswith('case') and s[3][0] == 's' and isinstance(p, str) and p and not isopen(p) and \
                op in ('contains', 'starts_with', 'ends_with'):
            lo = ''.join(c if c in OPENC else (c.lower() if s[2].endswith('lowercase') else c.upper()) for c in s[3][1])
            lo = {'contains': lo, 'starts_with': lo[:len(p)], 'ends_with': lo[-len(p):]}[op]
            near(lo, p, True)
            return ('b', p in lo)
        if isinstance(p, frozenset) and s[0] == 's':
            for c in s[1]:
                for k in p:
                    tested(c, k)
        if s[0] == 's' and all(x[0] in ('s', 'i') for x in extra):
            ex = [x[1] for x in extra]
            if isinstance(p, str):
                return s_op(op, s[1], p, ex)
            if isinstance(p, frozenset):
                return s_op(op, s[1], [c in p for c in s[1]], ex)
            pv = val(st, call.args[patix])
            if pv[0] in ('C', 'F') or pv[0] == 't' and pv[1] == 'fn':
                return push_nat(eng, st, fr, 'strpred', {'s': s, 'f': call.args[patix], 'op': ('s', op), 'ex': ('T', tuple(extra)), 'm': ('T', ())}, call)
        if old is not None:
            return old(eng, st, fr, call)
        if pure == 'seq':
            return I('seq', ('V', as_seq(T('app', op, s, *[st.deep(x) for x in call.args[1:]]))))
        return T('app', 'core::str::' + op, s, *[st.deep(x) for x in call.args[1:]])
    return f


@native('strpred')
class StrPred(Nat):
    """which characters satisfy the predicate"""

    def step(self, eng, st, fr):
        s = self.c(st, fr, 's')[1]
        m = self.c(st, fr, 'm')[1]
        if fr.bb == 1:
            m = m + (('b', st.truth(self.c(st, fr, 'r'))),)
            self.s(st, fr, 'm', ('T', m))
            fr.bb = 0
            return
        if len(m) < len(s):
            fr.bb = 1
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('c', s[len(m)])])
        eng.ret(st, s_op(self.c(st, fr, 'op')[1], s, [b[1] for b in m], [x[1] for x in self.c(st, fr, 'ex')[1]]))


for op, pure in (('find', 'x'), ('rfind', 'x'), ('contains', 'x'), ('starts_with', 'x'), ('ends_with', 'x'), ('strip_suffix', 'x'), ('strip_prefix', 'x'),
                 ('split', 'seq'), ('split_terminator', 'seq'), ('split_inclusive', 'seq'), ('rsplit', 'seq'), ('splitn', 'seq'), ('rsplitn', 'seq'), ('split_once', 'x'),
                 ('rsplit_once', 'x'), ('trim_matches', 'x'), ('trim_start_matches', 'x'), ('trim_end_matches', 'x'), ('trim_left_matches', 'x'), ('trim_right_matches', 'x'),
                 ('replace', 'x'), ('replacen', 'x'), ('matches', 'seq'), ('match_indices', 'seq')):
    old = M.get('core::str::' + op) or M.get('std::str::' + op)
    M['core::str::' + op] = M['std::str::' + op] = strop(op, old, pure)

old_split = None


def opencase(s, py):
    if any(c in LETS for c in s):
        return None
    return ('s', py(s))


@model('core::str::eq_ignore_ascii_case')
def m_eqic(eng, st, fr, call):
    a, b = st.deep(call.args[0]), st.deep(call.args[1])
    if a[0] == b[0] == 's':
        return ('b', a[1].lower() == b[1].lower())
    if a == b or st.order(a, b) == frozenset('='):
        return TRUE
    x, y = sorted((a, b), key=repr)
    return T('pred', 'str::eq_ignore_ascii_case', x, y)


for n_, py_ in (('to_ascii_uppercase', str.upper), ('to_uppercase', str.upper), ('to_lowercase', str.lower), ('to_ascii_lowercase', str.lower)):
    M['core::str::' + n_] = M['std::str::' + n_] = models.strfn('str::' + n_, lambda s, py_=py_: opencase(s, py_))


@model('core::str::split_at')
def m_ssplitat(eng, st, fr, call):
    s = st.deep(call.args[0])
    n = val(st, call.args[1])
    if s[0] == 's' and n[0] == 'i':
        k = boff(s[1], n[1])
        if k is None:
            raise Stop('panic', ('split_at', call.span))
        return ('T', (('s', s[1][:k]), ('s', s[1][k:])))
    raise Unsupported("split_at of an open text")


@model('core::str::is_char_boundary')
def m_charb(eng, st, fr, call):
    s, n = st.deep(call.args[0]), val(st, call.args[1])
    if s[0] == 's' and n[0] == 'i':
        return ('b', boff(s[1], n[1]) is not None)
    return T('pred', 'is_char_boundary', s, n)


@model('core::str::as_bytes', 'std::string::String::into_bytes')
def m_asbytes(eng, st, fr, call):
    s = st.deep(call.args[0])
    if s[0] == 's':
        if isopen(s[1]):
            raise Unsupported("bytes of an open text")
        return newref(st, seqv([('i', b) for b in s[1].encode()])) if call.key.endswith('as_bytes') else seqv([('i', b) for b in s[1].encode()])
    return T('app', 'bytes_of', s)


def bytes_(s):
    if isopen(s):
        raise Unsupported("bytes of an open text")
    return [('i', b) for b in s.encode()]


M['core::str::bytes'] = seqsrc('bytes', bytes_)


@model('std::string::String::from_utf8', 'std::str::from_utf8')
def m_fromutf8(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 'V':
        xs = [val(st, x) for x in exact(v, 'from_utf8')]
        if all(x[0] == 'i' for x in xs):
            try:
                return ok(('s', bytes(x[1] for x in xs).decode()))
            except UnicodeDecodeError:
                return err(T('sym', 'utf8error'))
    if v[0] == 't' and v[1] == 'app' and v[2] == 'bytes_of':
        return ok(v[3])
    return NotImplemented


def ci(s):
    out, i = [], 0
    for c in s:
        out.append(('T', (('i', i), ('c', c))))
        i += nbytes(c)
    return out


M['core::str::char_indices'] = seqsrc('char_indices', ci)


def splitlines(s):
    p = s.split('\n')
    if p[-1] == '':
        p = p[:-1]
    return [('s', x[:-1] if x.endswith('\r') else x) for x in p]


M['core::str::lines'] = seqsrc('lines', splitlines)

INTS = {'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1),
        'u8': (0, 255), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'i128': (-2**127, 2**127 - 1), 'u128': (0, 2**128 - 1)}


@model('core::str::parse')
def m_parse(eng, st, fr, call):
    s = st.deep(call.args[0])
    t = tstr(eng, call, 0)
    if s[0] == 's' and t in INTS:
        import re as _re
        lo, hi = INTS[t]
        if _re.match(r'^[+]?[0-9]+$' if lo == 0 else r'^[+-]?[0-9]+$', s[1]) and lo <= int(s[1]) <= hi:
            return ok(('i', int(s[1])))
        return err(T('sym', 'parseinterror'))
    if t == 'std::string::String':
        return ok(s)
    return NotImplemented


def smut(f):
    def g(eng, st, fr, call):
        r, v = vget(st, call.args[0])
        return f(eng, st, call, r, v)
    return g


def m_sinsert(eng, st, call, r, v):
    n = val(st, call.args[1])
    x = st.deep(call.args[2])
    if n == ('i', 0):
        st.write(r[1], r[2], cat(x if x[0] != 'c' else ('s', x[1]), v))
        return UNIT
    if v[0] == 's' and n[0] == 'i':
        k = boff(v[1], n[1])
        if k is None:
            raise Stop('panic', ('insert', call.span))
        st.write(r[1], r[2], cat(('s', v[1][:k]), x if x[0] != 'c' else ('s', x[1]), ('s', v[1][k:])))
        return UNIT
    raise Unsupported("insert into an open text")


M['std::string::String::insert'] = M['std::string::String::insert_str'] = smut(m_sinsert)


def m_sremove(eng, st, call, r, v):
    n = val(st, call.args[1])
    if v[0] == 's' and n[0] == 'i':
        k = boff(v[1], n[1])
        if k is None or k >= len(v[1]):
            raise Stop('panic', ('remove', call.span))
        st.write(r[1], r[2], ('s', v[1][:k] + v[1][k + 1:]))
        return ('c', v[1][k])
    raise Unsupported("remove from an open text")


M['std::string::String::remove'] = smut(m_sremove)


def m_struncate(eng, st, call, r, v):
    n = val(st, call.args[1])
    if v[0] == 's' and n[0] == 'i':
        k = boff(v[1], n[1])
        if k is None and n[1] < len(v[1].encode()):
            raise Stop('panic', ('truncate', call.span))
        st.write(r[1], r[2], ('s', v[1][:k]))
        return UNIT
    if n == ('i', 0):
        st.write(r[1], r[2], ('s', ''))
        return UNIT
    st.write(r[1], r[2], T('app', 'str::truncate', st.deep(v), n))
    return UNIT


M['std::string::String::truncate'] = smut(m_struncate)


@native('sretain')
class SRetain(Nat):
    def step(self, eng, st, fr):
        s, m = self.c(st, fr, 's')[1], self.c(st, fr, 'm')[1]
        if fr.bb == 1:
            self.s(st, fr, 'm', ('T', m + (('b', st.truth(self.c(st, fr, 'r'))),)))
            fr.bb = 0
            return
        if len(m) < len(s):
            fr.bb = 1
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('c', s[len(m)])])
        r = self.c(st, fr, 'p')
        st.write(r[1], r[2], ('s', ''.join(c for c, b in zip(s, m) if b[1])))
        eng.ret(st, UNIT)


@model('std::string::String::retain')
def m_sretain(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] != 's':
        raise Unsupported("retain of an open text")
    return push_nat(eng, st, fr, 'sretain', {'s': v, 'p': r, 'f': call.args[1], 'm': ('T', ())}, call)


old_write = M['std::fmt::Write::write_str']


@model('std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_char')
def m_write2(eng, st, fr, call):
    a = call.args[0]
    if a[0] == 'R' and tstr(eng, call).lstrip('&mut ').startswith('std::string::String'):
        r, old = vget(st, a)
        v = st.deep(call.args[1])
        v = v[2] if v[0] == 't' and v[1] == 'fmt' else ('s', v[1]) if v[0] == 'c' else v
        st.write(r[1], r[2], cat(old, v))
        return ok(UNIT)
    return old_write(eng, st, fr, call)


# characters
def charfn(name, py):
    def f(eng, st, fr, call):
        v = val(st, call.args[0])
        if v[0] == 'c':
            if v[1] in OPENC:
                return openchar(name, v[1], call)
            r = py(v[1], *[val(st, x)[1] for x in call.args[1:]])
            if r is not None:
                return r
        return T('app', name, st.deep(v), *[st.deep(x) for x in call.args[1:]])
    return f


def openchar(name, c, call):
    n = name.split('::')[-1]
    if n == 'to_digit' and c in DIGS:
        return some(T('sym', 'int:' + c))
    if n == 'to_digit':
        return NONE
    if n == 'len_utf8':
        return ('i', nbytes(c))
    if c in DIGS and n in ('to_ascii_lowercase', 'to_ascii_uppercase'):
        return ('c', c)
    raise Unsupported("%s of an open character" % n)


def chm(n, py):
    for b in ('std::char::methods::', 'core::char::methods::', 'core::char::', 'std::char::'):
        M[b + n] = charfn('char::' + n, py)


def to_digit(c, base):
    try:
        return some(('i', int(c, base))) if c.isascii() and c.isalnum() else NONE
    except ValueError:
        return NONE


chm('to_digit', to_digit)
chm('to_ascii_lowercase', lambda c: ('c', c.lower() if c.isascii() else c))
chm('to_ascii_uppercase', lambda c: ('c', c.upper() if c.isascii() else c))
chm('to_lowercase', lambda c: I('seq', seqv([('c', x) for x in c.lower()])))
chm('to_uppercase', lambda c: I('seq', seqv([('c', x) for x in c.upper()])))
chm('eq_ignore_ascii_case', lambda c, d: ('b', c.lower() == d.lower()))
chm('len_utf8', lambda c: ('i', nbytes(c)))
for n_, py_ in (('is_uppercase', str.isupper), ('is_lowercase', str.islower), ('is_ascii_uppercase', lambda c: c.isascii() and c.isupper()),
                ('is_ascii_lowercase', lambda c: c.isascii() and c.islower()), ('is_ascii', str.isascii), ('is_control', lambda c: ord(c) < 32 or 127 <= ord(c) < 160),
                ('is_ascii_punctuation', lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' '),
                ('is_ascii_graphic', lambda c: '!' <= c <= '~'), ('is_ascii_control', lambda c: ord(c) < 32 or ord(c) == 127),
                ('is_ascii_hexdigit', lambda c: c in '0123456789abcdefABCDEF')):
    for b in ('std::char::methods::', 'core::char::methods::', 'core::char::', 'std::char::'):
        M.setdefault(b + n_, models.charpred(n_, py_))


@model('std::char::from_digit', 'core::char::from_digit')
def m_fromdigit(eng, st, fr, call):
    n, b = val(st, call.args[0]), val(st, call.args[1])
    if n[0] == 'i' and b[0] == 'i':
        return some(('c', '0123456789abcdefghijklmnopqrstuvwxyz'[n[1]])) if n[1] < b[1] else NONE
    return NotImplemented


@model('std::char::from_u32', 'core::char::from_u32')
def m_fromu32(eng, st, fr, call):
    n = val(st, call.args[0])
    return some(('c', chr(n[1]))) if n[0] == 'i' else NotImplemented


# ------------------------------------------------------------------ maps and sets
HM, BM, HS, BS = ('std::collections::%s::' % x for x in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'))


def closed(v, what):
    h = as_map(v)
    if h[3]:
        raise Unsupported("%s of an open map" % what)
    return h


@model(HM + 'retain', BM + 'retain', HS + 'retain', BS + 'retain')
def m_hretain(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = closed(v, 'retain')
    return push_nat(eng, st, fr, 'hretain', {'p': r, 'f': call.args[1], 'i': ('i', 0), 'set': ('b', 'Set' in call.key)}, call)


@native('hretain')
class HRetain(Nat):
    def step(self, eng, st, fr):
        r, i = self.c(st, fr, 'p'), self.c(st, fr, 'i')[1]
        h = as_map(st.read(r[1], r[2]))
        if fr.bb == 1:
            fr.bb = 0
            if st.truth(self.c(st, fr, 'r')):
                self.s(st, fr, 'i', ('i', i + 1))
            else:
                st.write(r[1], r[2], ('H', h[1], h[2][:i] + h[2][i + 1:], h[3]))
            return
        if i >= len(h[2]):
            return eng.ret(st, UNIT)
        fr.bb = 1
        k = ('R', r[1], r[2] + (('e', ('key', i)),))
        v = ('R', r[1], r[2] + (('e', ('ent', i)),))
        eng.nat_call(st, fr, self.c(st, fr, 'f'), [k] if self.c(st, fr, 'set') == TRUE else [k, v])


@model(HM + 'get_key_value', BM + 'get_key_value')
def m_getkv(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = closed(v, 'get_key_value')
    j = map_find(st, h, call.args[1])
    return NONE if j is None else some(('T', (('R', r[1], r[2] + (('e', ('key', j)),)), ('R', r[1], r[2] + (('e', ('ent', j)),)))))


@model(HM + 'remove_entry', BM + 'remove_entry')
def m_rement(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = closed(v, 'remove_entry')
    j = map_find(st, h, call.args[1])
    if j is None:
        return NONE
    st.write(r[1], r[2], ('H', h[1], h[2][:j] + h[2][j + 1:], h[3]))
    return some(('T', h[2][j]))


@model(HS + 'take', BS + 'take')
def m_hstake(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = closed(v, 'take')
    j = map_find(st, h, call.args[1])
    if j is None:
        return NONE
    st.write(r[1], r[2], ('H', h[1], h[2][:j] + h[2][j + 1:], h[3]))
    return some(h[2][j][0])


M[BS + 'remove'] = M[HS + 'remove']
M[HS + 'clear'] = M[BS + 'clear'] = lambda eng, st, fr, call: (st.write(vplace(st, call.args[0])[1], vplace(st, call.args[0])[2], ('H', 'set', (), frozenset())), UNIT)[1]
M[BM + 'clear'] = M[HM + 'clear']
M[BS + 'get'] = M.get(HS + 'get')
M[BS + 'contains'] = M[HS + 'contains']
M[BM + 'contains_key'] = M[HM + 'contains_key']


def setitems(st, a):
    r, v = vget(st, a)
    return r, closed(v, 'set operation')


def setop(eng, st, fr, call):
    n = call.key.split('::')[-1]
    ra, a = setitems(st, call.args[0])
    rb, b = setitems(st, call.args[1])
    ina = [map_find(st, b, k) is not None for k, _ in a[2]]
    inb = [map_find(st, a, k) is not None for k, _ in b[2]]
    ref = lambda r, j: ('R', r[1], r[2] + (('e', ('key', j)),))
    if n == 'is_subset':
        return ('b', all(ina))
    if n == 'is_superset':
        return ('b', all(inb))
    if n == 'is_disjoint':
        return ('b', not any(ina))
    A_ = [ref(ra, j) for j in range(len(a[2]))]
    B_ = [ref(rb, j) for j in range(len(b[2]))]
    out = {'intersection': [x for x, i in zip(A_, ina) if i], 'difference': [x for x, i in zip(A_, ina) if not i],
           'union': A_ + [x for x, i in zip(B_, inb) if not i],
           'symmetric_difference': [x for x, i in zip(A_, ina) if not i] + [x for x, i in zip(B_, inb) if not i]}[n]
    if len(out) > 1:
        eng.unordered = True
    return I('seq', seqv(out))


for n_ in ('is_subset', 'is_superset', 'is_disjoint', 'intersection', 'difference', 'union', 'symmetric_difference'):
    M[HS + n_] = M[BS + n_] = setop


def border(st, a, what):
    r, v = vget(st, a)
    h = closed(v, what)
    o = osorted(st, h)
    if o is None:
        raise Unsupported("%s: order of the keys" % what)
    return r, h, [h[2].index(x) for x in o[2]]


def kvref(r, j, s=False):
    k = ('R', r[1], r[2] + (('e', ('key', j)),))
    return k if s else ('T', (k, ('R', r[1], r[2] + (('e', ('ent', j)),))))


def firstlast(last, isset):
    def f(eng, st, fr, call):
        r, h, o = border(st, call.args[0], 'first')
        return some(kvref(r, o[-1 if last else 0], isset)) if o else NONE
    return f


M[BM + 'first_key_value'], M[BM + 'last_key_value'] = firstlast(False, False), firstlast(True, False)
M[BS + 'first'], M[BS + 'last'] = firstlast(False, True), firstlast(True, True)


def popfl(last, isset):
    def f(eng, st, fr, call):
        r, h, o = border(st, call.args[0], 'pop')
        if not o:
            return NONE
        j = o[-1 if last else 0]
        st.write(r[1], r[2], ('H', h[1], h[2][:j] + h[2][j + 1:], h[3]))
        return some(h[2][j][0] if isset else ('T', h[2][j]))
    return f


M[BM + 'pop_first'], M[BM + 'pop_last'] = popfl(False, False), popfl(True, False)
M[BS + 'pop_first'], M[BS + 'pop_last'] = popfl(False, True), popfl(True, True)


def brange(isset):
    def f(eng, st, fr, call):
        r, h, o = border(st, call.args[0], 'range')
        rg = val(st, call.args[1])
        t = next((tstr(eng, call, j) for j in range(len(call.f.get("targs", []))) if 'Range' in tstr(eng, call, j)), '')
        f_ = list(rg[3]) if rg[0] == 'A' else []
        lo = hi = None
        inc = 'Inclusive' in t
        if 'RangeFull' in t:
            pass
        elif 'RangeFrom' in t:
            lo = f_[0]
        elif 'RangeTo' in t:
            hi = f_[0]
        elif 'Range' in t:
            lo, hi = f_[0], f_[1]
        else:
            raise Unsupported("range")
        out = []
        for j in o:
            k = st.deep(h[2][j][0])
            if lo is not None and ordv(st, ordterm(st, k, st.deep(lo))) == 0:
                continue
            if hi is not None and ordv(st, ordterm(st, k, st.deep(hi))) not in ((0, 1) if inc else (0,)):
                continue
            out.append(kvref(r, j, isset))
        return I('seq', seqv(out))
    return f


M[BM + 'range'], M[BS + 'range'] = brange(False), brange(True)


@model(BM + 'append', BS + 'append')
def m_bappend(eng, st, fr, call):
    r2, v2 = vget(st, call.args[1])
    h2 = closed(v2, 'append')
    st.write(r2[1], r2[2], ('H', h2[1], (), frozenset()))
    for k, v in h2[2]:
        map_insert(st, call.args[0], k, v)
    return UNIT


# entries: which of the two it is is settled when it is looked at
def entry_variant(eng, st, e, btree):
    r, k = e[3]
    h = as_map(st.read(r[1], r[2]))
    if h[3]:
        raise Unsupported("entry of an open map")
    occ = map_find(st, h, k) is not None
    return (1 if occ else 0) if btree else (0 if occ else 1)


def entry_key(e):
    return e[3]


for B in ('std::collections::hash_map::', 'std::collections::btree_map::', 'std::collections::btree::map::entry::'):
    def slot(eng, st, fr, call):
        r, k = val(st, call.args[0])[3]
        h = as_map(st.read(r[1], r[2]))
        j = map_find(st, h, k)
        if j is None:
            raise Unsupported("occupied entry")
        return ('R', r[1], r[2] + (('e', ('ent', j)),))
    for n_ in ('get', 'get_mut', 'into_mut'):
        M[B + 'OccupiedEntry::' + n_] = slot

    def occins(eng, st, fr, call):
        r, k = val(st, call.args[0])[3]
        return val(st, map_insert(st, r, k, call.args[1]))[3][0]
    M[B + 'OccupiedEntry::insert'] = occins

    def occrem(eng, st, fr, call):
        r, k = val(st, call.args[0])[3]
        h = as_map(st.read(r[1], r[2]))
        j = map_find(st, h, k)
        st.write(r[1], r[2], ('H', h[1], h[2][:j] + h[2][j + 1:], h[3]))
        return h[2][j][1] if call.key.endswith('remove') else ('T', h[2][j])
    M[B + 'OccupiedEntry::remove'] = M[B + 'OccupiedEntry::remove_entry'] = occrem

    def vacins(eng, st, fr, call):
        e = val(st, call.args[0])
        return entry_slot(eng, st, ('A', 'Entry', 0, e[3]), lambda: call.args[1])
    M[B + 'VacantEntry::insert'] = vacins
    M[B + 'VacantEntry::insert_entry'] = lambda eng, st, fr, call: (vacins(eng, st, fr, call), val(st, call.args[0]))[1]

    def ekey(eng, st, fr, call):
        k = val(st, call.args[0])[3][1]
        return k if k[0] == 'R' else newref(st, k)
    for c_ in ('OccupiedEntry', 'VacantEntry', 'Entry'):
        M[B + c_ + '::key'] = ekey
    M[B + 'VacantEntry::into_key'] = lambda eng, st, fr, call: val(st, call.args[0])[3][1]

    def orwithkey(eng, st, fr, call):
        return push_nat(eng, st, fr, 'orwithkey', {'e': call.args[0], 'f': call.args[1]}, call)
    M[B + 'Entry::or_insert_with_key'] = orwithkey


@native('orwithkey')
class OrWithKey(Nat):
    def step(self, eng, st, fr):
        e = self.c(st, fr, 'e')
        if fr.bb == 0:
            r, k = e[3]
            h = as_map(st.read(r[1], r[2]))
            j = map_find(st, h, k)
            if j is not None:
                return eng.ret(st, ('R', r[1], r[2] + (('e', ('ent', j)),)))
            fr.bb = 1
            self.s(st, fr, 'key', k)
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', (fr.fs, 'key'), ())])
        v = self.c(st, fr, 'r')
        eng.ret(st, entry_slot(eng, st, e, lambda: v))


# ------------------------------------------------------------------ Option / Result
@native('takeif')
class TakeIf(Nat):
    def step(self, eng, st, fr):
        r = self.c(st, fr, 'p')
        v = st.read(r[1], r[2])
        if fr.bb == 0:
            if optvar(st, v) == 0:
                return eng.ret(st, NONE)
            fr.bb = 1
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', r[1], r[2] + ((1, 0),))])
        if st.truth(self.c(st, fr, 'r')):
            st.write(r[1], r[2], NONE)
            return eng.ret(st, v)
        eng.ret(st, NONE)


@model('std::option::Option::take_if')
def m_takeif(eng, st, fr, call):
    return push_nat(eng, st, fr, 'takeif', {'p': vplace(st, call.args[0]), 'f': call.args[1]}, call)


@model('std::result::Result::iter', 'std::result::Result::into_iter', 'std::result::Result::iter_mut')
def m_resiter(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 1:
        return I('seq', ('V', ()))
    r = vplace(st, call.args[0])
    return I('seq', seqv([('R', r[1], r[2] + ((0, 0),))]))


old_intoiter = M['std::iter::IntoIterator::into_iter']


@model('std::iter::IntoIterator::into_iter')
def m_intoiter2(eng, st, fr, call):
    t = tinfo(eng, call)
    if t["k"] == "adt" and t.get("def") == RES:
        v = val(st, call.args[0])
        if optvar(st, v) == 1:
            return I('seq', ('V', ()))
        return I('seq', seqv([v[3][0] if v[0] == 'A' else proj(v, (0, 0))]))
    return old_intoiter(eng, st, fr, call)


# ------------------------------------------------------------------ pointers
@model('std::rc::Rc::try_unwrap')
def m_tryunwrap(eng, st, fr, call):
    return ok(val(st, call.args[0]))


@model('std::rc::Rc::unwrap_or_clone', 'std::boxed::Box::leak')
def m_rcuoc(eng, st, fr, call):
    return val(st, call.args[0])


@model('std::rc::Rc::make_mut')
def m_makemut(eng, st, fr, call):
    return vplace(st, call.args[0])


@model('std::rc::Rc::get_mut')
def m_rcgetmut(eng, st, fr, call):
    raise Unsupported("Rc::get_mut")


# ------------------------------------------------------------------ numbers
def intop(n, f):
    def g(eng, st, fr, call):
        a = [val(st, x) for x in call.args]
        if all(x[0] == 'i' for x in a):
            t = call.f.get("name", "")
            ty = next((k for k in INTS if '<impl %s>' % k in t), 'i64')
            r = f(INTS[ty], *[x[1] for x in a])
            if r is not None:
                return r
        return NotImplemented
    for b in ('core::num::', 'std::num::'):
        old = M.get(b + n)
        M[b + n] = g if old is None else (lambda eng, st, fr, call, g=g, old=old: (lambda r: old(eng, st, fr, call) if r is NotImplemented else r)(g(eng, st, fr, call)))


def chk(f):
    def g(b, *a):
        try:
            r = f(*a)
        except ZeroDivisionError:
            return NONE
        return some(('i', r)) if b[0] <= r <= b[1] else NONE
    return g


tdiv = lambda x, y: abs(x) // abs(y) * (1 if x * y >= 0 else -1)
wrap = lambda b, r: ('i', (r - b[0]) % (b[1] - b[0] + 1) + b[0])
inr = lambda b, r: ('i', r) if b[0] <= r <= b[1] else None
intop('checked_add', chk(lambda x, y: x + y))
intop('checked_sub', chk(lambda x, y: x - y))
intop('checked_mul', chk(lambda x, y: x * y))
intop('checked_div', chk(tdiv))
intop('checked_rem', chk(lambda x, y: x - y * tdiv(x, y)))
intop('pow', lambda b, x, y: inr(b, x ** y))
intop('rem_euclid', lambda b, x, y: ('i', x % abs(y)) if y else None)
intop('div_euclid', lambda b, x, y: ('i', (x - x % abs(y)) // y) if y else None)
intop('wrapping_add', lambda b, x, y: wrap(b, x + y))
intop('wrapping_sub', lambda b, x, y: wrap(b, x - y))
intop('wrapping_mul', lambda b, x, y: wrap(b, x * y))
intop('saturating_add', lambda b, x, y: ('i', min(x + y, b[1])))
intop('saturating_sub', lambda b, x, y: ('i', max(x - y, b[0])))
intop('saturating_mul', lambda b, x, y: ('i', max(b[0], min(x * y, b[1]))))
intop('abs_diff', lambda b, x, y: ('i', abs(x - y)))
intop('div_ceil', lambda b, x, y: ('i', -(-x // y)) if y else None)
intop('abs', lambda b, x: ('i', abs(x)))
intop('unsigned_abs', lambda b, x: ('i', abs(x)))
intop('signum', lambda b, x: ('i', (x > 0) - (x < 0)))
intop('is_positive', lambda b, x: ('b', x > 0))
intop('is_negative', lambda b, x: ('b', x < 0))
intop('is_power_of_two', lambda b, x: ('b', x > 0 and x & (x - 1) == 0))


@model('std::cmp::Ord::clamp')
def m_clamp(eng, st, fr, call):
    a, lo, hi = [st.deep(x) for x in call.args]
    if a[0] not in ('i', 't', 'P', 'c', 's'):
        return NotImplemented
    if st.compare(a, lo, '<'):
        return call.args[1]
    if st.compare(a, hi, '>'):
        return call.args[2]
    return call.args[0]


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_tryfrom(eng, st, fr, call):
    v = val(st, call.args[0])
    ts = [tstr(eng, call, j) for j in range(len(call.f.get("targs", [])))]
    if v[0] == 'i' and len(ts) >= 2 and all(t in INTS for t in ts[:2]):
        b = INTS[ts[0] if call.key.endswith('try_from') else ts[1]]
        return ok(v) if b[0] <= v[1] <= b[1] else err(T('sym', 'tryfromint'))
    return NotImplemented


# exact rationals
def pc(v):
    """constant value of a rational"""
    if v[0] == 'P':
        d = dict(v[1])
        if not d:
            return Fraction(0)
        if set(d) == {()}:
            return d[()]
    if v[0] == 'i':
        return Fraction(v[1])
    return None


import math
RATOPS = {'trunc': lambda q: Fraction(math.trunc(q)), 'floor': lambda q: Fraction(math.floor(q)), 'ceil': lambda q: Fraction(math.ceil(q)),
          'fract': lambda q: q - math.trunc(q), 'round': lambda q: Fraction(math.floor(abs(q) + Fraction(1, 2))) * (1 if q >= 0 else -1),
          'numer': lambda q: Fraction(q.numerator), 'denom': lambda q: Fraction(q.denominator), 'to_integer': lambda q: Fraction(math.trunc(q))}


def ratop(n):
    key = 'num::rational::Ratio::' + n

    def f(eng, st, fr, call):
        v = st.deep(call.args[0])
        q = pc(v)
        if q is not None:
            return pconst(RATOPS[n](q))
        return T('app', key, v)
    M[key] = f


for n_ in RATOPS:
    ratop(n_)


@model('num::rational::Ratio::is_integer')
def m_isint(eng, st, fr, call):
    v = st.deep(call.args[0])
    q = pc(v)
    if q is not None:
        return ('b', q.denominator == 1)
    return eng.binop(st, 'Eq', T('app', 'num::rational::Ratio::denom', v), PONE)


@model('num::rational::Ratio::reduced')
def m_reduced(eng, st, fr, call):
    return val(st, call.args[0])
