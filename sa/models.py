"""Semantics of the standard library and of the arithmetic crates, as transfer functions of the abstract interpreter."""
import hashlib
import re
from absint import *
from absint import Fork, Stop, Unsupported, Again
from eng import PUSHED, Call, Frame, key_of

OPT = 'std::option::Option'
RES = 'std::result::Result'
ORD = 'std::cmp::Ordering'


def some(v):
    return ('A', OPT, 1, (v,))


NONE = ('A', OPT, 0, ())


def ok(v):
    return ('A', RES, 0, (v,))


def err(v):
    return ('A', RES, 1, (v,))


M = {}          # generics-stripped declaration -> model
NATIVES = {}
# functions deliberately left uninterpreted: deterministic functions of their arguments
PURE = set()
# anything else that has no model makes a verdict undecided


def model(*keys, force=False):
    def d(f):
        for k in keys:
            M[k] = f
        f.force = force
        return f
    return d


def tstr(eng, call, i=0):
    t = call.f.get("targs", [])
    return eng.p.types[call.crate][t[i]]["s"] if i < len(t) else ""


def tinfo(eng, call, i=0):
    t = call.f.get("targs", [])
    return eng.p.types[call.crate][t[i]] if i < len(t) else None


def val(st, x):
    v = st.load(x)
    if v is None:
        raise Unsupported("uninitialised value")
    return v


def horder(seed, st, key):
    """place of a key in the order in which one run visits its hash collections"""
    return hashlib.md5(('%s %r' % (seed, st.deep(key))).encode()).hexdigest()


def nd(st, name, alts):
    """nondeterministic choice among alts (at most once per step and name)"""
    if len(alts) == 1:
        return alts[0]
    k = ('once', 'nd', name)
    if k in st.facts:
        return st.facts[k]
    raise Fork([{k: a} for a in alts])


# ------------------------------------------------------------------ structural equality
def eqv(st, a, b):
    """decide structural equality of two abstract values (forks if open)"""
    a, b = val(st, a), val(st, b)
    if a == b and not hastop(a):
        return True
    ka, kb = a[0], b[0]
    if ka == 'A' and kb == 'A':
        if a[2] != b[2]:
            return False
        return all(eqv(st, x, y) for x, y in zip(a[3], b[3]))
    if ka == 'T' and kb == 'T':
        return all(eqv(st, x, y) for x, y in zip(a[1], b[1]))
    if ka == 'A' and kb in ('t', 'O'):
        a, b, ka, kb = b, a, kb, ka
    if kb == 'A' and ka in ('t', 'O'):
        n = nvariants(b)
        v = st.variant(a, n)
        if v != b[2]:
            return False
        return all(eqv(st, proj(a, (v, i) if n > 1 else i), y) for i, y in enumerate(b[3]))
    if ka == 'V' and kb == 'V':
        if all(s[0] == '1' for s in a[1]) and all(s[0] == '1' for s in b[1]):
            if len(a[1]) != len(b[1]):
                return False
            return all(eqv(st, x[1], y[1]) for x, y in zip(a[1], b[1]))
        return st.truth(T('veq', st.deep(a), st.deep(b)))
    if ka == 'O' and kb == 'O' and a[1] == b[1]:
        return st.truth(T('oeq', st.deep(a), st.deep(b)))
    return st.compare(st.deep(a), st.deep(b), '=')


NVAR = {OPT: 2, RES: 2, ORD: 3}


def nvariants(a):
    return NVAR.get(a[1], 1)


def peek_eq(st, a, b):
    try:
        return eqv(st, a, b)
    except Fork:
        return None


# ------------------------------------------------------------------ pointers, clones, conversions
SMART = ('std::rc::Rc', 'std::cell::Ref', 'std::cell::RefMut', 'std::boxed::Box', 'std::sync::Arc', 'std::rc::Weak')


def rd1(st, x):
    """read through one reference"""
    if x[0] == 'R':
        v = st.read(x[1], x[2])
        if v is None:
            raise Unsupported("read of uninitialised")
        return v
    return x


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def m_clone(eng, st, fr, call):
    v = rd1(st, call.args[0])
    if v[0] == 'I':
        return v
    return v


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut')
def m_deref(eng, st, fr, call):
    t = tstr(eng, call)
    a = call.args[0]
    if t.startswith(SMART) or t.startswith(('Rc<', 'Box<')):
        return rd1(st, a)
    if t.startswith(('std::vec::Vec', 'std::string::String', 'std::path::PathBuf', 'std::borrow::Cow', 'colored::ColoredString')):
        return a
    return NotImplemented


def ident(eng, st, fr, call):
    return call.args[0]


for k in ('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::get_mut',
          'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::cell::RefCell::new',
          'std::cell::RefCell::into_inner', 'std::string::String::as_str', 'std::string::String::as_mut_str',
          'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::hint::must_use', 'std::convert::identity',
          'std::cell::Cell::new', 'std::string::String::into_boxed_str', 'std::vec::Vec::into_boxed_slice',
          'std::iter::Iterator::by_ref', 'std::cell::Ref::map', 'std::hint::black_box', 'core::hint::must_use',
          'std::path::Path::new', 'std::path::PathBuf::as_path', 'std::option::Option::as_deref_',
          'core::fmt::rt::Argument::none'):
    M[k] = ident


@model('std::rc::Rc::downgrade')
def m_downgrade(eng, st, fr, call):
    if 'std::rc::Weak::upgrade' in upgrades(eng):
        return rd1(st, call.args[0])
    return T('sym', 'weak')      # never upgraded anywhere: not observable


def upgrades(eng):
    c = eng.p.__dict__.get('_upg')
    if c is None:
        c = set()
        for f in eng.p.local_fns():
            for b in f.blocks:
                if b["t"]["t"] == "call" and key_of(b["t"]["f"].get("decl", "?")) == 'std::rc::Weak::upgrade':
                    c.add('std::rc::Weak::upgrade')
        eng.p._upg = c
    return c


@model('std::rc::Rc::clone')
def m_rcclone(eng, st, fr, call):
    return rd1(st, call.args[0])


@model('std::cell::Cell::get')
def m_cellget(eng, st, fr, call):
    return rd1(st, call.args[0])


@model('std::cell::Cell::set')
def m_cellset(eng, st, fr, call):
    a = call.args[0]
    if a[0] != 'R':
        raise Unsupported("cell set")
    st.write(a[1], a[2], call.args[1])
    return UNIT


@model('std::rc::Rc::new', 'std::boxed::Box::new', 'std::sync::Arc::new', 'std::boxed::Box::pin')
def m_box(eng, st, fr, call):
    v = call.args[0]
    if v[0] in ('t', 's', 'P') or (v[0] == 'R' and v[1][0] == 'X' and v[1][1][0] in ('t', 's')):
        return v if v[0] != 'R' else v[1][1]
    return ('R', st.alloc(v), ())


@model('std::boxed::Box::new_uninit')
def m_boxun(eng, st, fr, call):
    return ('R', st.alloc(UNINIT), ())


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(eng, st, fr, call):
    v = val(st, call.args[0])
    return v


@model('std::boxed::Box::assume_init', 'std::boxed::Box::write')
def m_boxinit(eng, st, fr, call):
    if len(call.args) == 2:
        a = call.args[0]
        st.write(a[1], a[2], call.args[1])
    return call.args[0]


@model('std::cell::RefCell::replace', 'std::cell::Cell::replace', 'std::mem::replace')
def m_replace(eng, st, fr, call):
    a = call.args[0]
    if a[0] != 'R':
        st.mem[('X', a)] = call.args[1]
        return a
    old = st.read(a[1], a[2])
    st.write(a[1], a[2], call.args[1])
    return old


@model('std::mem::take', 'std::cell::RefCell::take', 'std::cell::Cell::take')
def m_take(eng, st, fr, call):
    a = call.args[0]
    if a[0] != 'R':
        raise Unsupported("take of term")
    old = st.read(a[1], a[2])
    d = default_of(tstr(eng, call))
    if d is None:
        raise Unsupported("default of %s" % tstr(eng, call))
    st.write(a[1], a[2], d)
    return old


@model('std::mem::swap')
def m_swap(eng, st, fr, call):
    a, b = call.args
    if a[0] != 'R' or b[0] != 'R':
        raise Unsupported("swap")
    x, y = st.read(a[1], a[2]), st.read(b[1], b[2])
    st.write(a[1], a[2], y)
    st.write(b[1], b[2], x)
    return UNIT


@model('std::mem::drop', 'std::mem::forget')
def m_drop(eng, st, fr, call):
    return UNIT


def default_of(t):
    if t.startswith('std::vec::Vec'):
        return ('V', ())
    if t.startswith('std::string::String') or t == '&str':
        return ('s', '')
    if t.startswith('std::option::Option'):
        return NONE
    if t.startswith('std::collections::HashMap') or t.startswith('std::collections::BTreeMap'):
        return ('H', 'map', (), frozenset())
    if t.startswith('std::collections::HashSet') or t.startswith('std::collections::BTreeSet'):
        return ('H', 'set', (), frozenset())
    if t in INTS:
        return ('i', 0)
    if t == 'char':
        return ('c', '\0')
    if t.startswith('(') and '<' not in t and '(' not in t[1:]:
        ds = [default_of(x.strip()) for x in t[1:-1].split(',') if x.strip()]
        return None if None in ds else ('T', tuple(ds))
    if t == 'bool':
        return FALSE
    if t == '()':
        return UNIT
    if t.startswith('std::cell::RefCell<'):
        return default_of(t[len('std::cell::RefCell<'):-1])
    if t.startswith('std::rc::Weak'):
        return T('sym', 'weak')
    if 'Ratio' in t:
        return PZERO
    return None


@model('std::default::Default::default', 'std::rc::Weak::new')
def m_default(eng, st, fr, call):
    d = default_of(tstr(eng, call)) if call.key.endswith('default') else T('sym', 'weak')
    return NotImplemented if d is None else d


@model('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut')
def m_asref(eng, st, fr, call):
    t = tstr(eng, call)
    if t.startswith(SMART):
        return rd1(st, call.args[0])
    return call.args[0]


STRINGY = ('std::string::String', '&str', 'str', '&std::string::String', 'std::path::PathBuf', '&std::path::Path',
           'std::borrow::Cow<', 'char', 'std::boxed::Box<str>', '&&str', 'std::rc::Rc<str>')
RATIO = 'num::rational::Ratio<'
BIGINT = 'num::BigInt'


def isnum(t):
    t = t.lstrip('&')
    return 'Ratio<' in t.split(' ')[0] or t.endswith('BigInt') or t.endswith('BigUint')


@model('std::convert::From::from', 'std::convert::Into::into', 'std::convert::TryFrom::try_from',
       'std::convert::TryInto::try_into')
def m_from(eng, st, fr, call):
    t0, t1 = tstr(eng, call, 0), tstr(eng, call, 1)
    into = call.key.endswith('into')
    src, dst = (t0, t1) if into else (t1, t0)
    v = call.args[0]
    tr = (lambda x: ok(x)) if 'Try' in call.key else (lambda x: x)
    if src == dst:
        return tr(v)
    if dst == 'colored::ColoredString':
        return st.deep(v)
    if isnum(dst):
        x = val(st, v)
        if x[0] == 'i':
            return tr(pconst(x[1]))
        if x[0] in ('P',) or (x[0] == 't' and isnum(src)):
            return tr(x)
        if x[0] == 'T' and len(x[1]) == 2:
            return tr(pmul(num(st, x[1][0]), pinv(num(st, x[1][1]))))
        if 'f32' in src or 'f64' in src:
            return NotImplemented
        return tr(T('num', x))
    if dst.startswith(STRINGY) and src.startswith(STRINGY):
        x = val(st, v)
        return tr(('s', x[1]) if x[0] == 'c' else x)
    if re.match(r'std::collections::(Hash|BTree)(Map|Set)<', dst) and not into or re.match(r'std::collections::(Hash|BTree)(Map|Set)<', dst) and src.startswith('['):
        x = val(st, v)
        if x[0] == 'V' and all(s_[0] == '1' for s_ in x[1]):
            c = st.alloc(('H', 'map' if 'Map<' in dst.split(',')[0] else 'set', (), frozenset()))
            for _, e in x[1]:
                e = val(st, e) if 'Map<' in dst.split(',')[0] else e
                kv = e[1] if 'Map<' in dst.split(',')[0] else (e, UNIT)
                map_insert(st, ('R', c, ()), kv[0], kv[1])
            return st.read(c)
        return NotImplemented
    if dst.startswith('std::boxed::Box<') or dst.startswith('std::rc::Rc<'):
        return tr(m_box(eng, st, fr, call))
    if dst.startswith(OPT):
        return tr(some(v))
    if dst.startswith('std::vec::Vec') and src.startswith(('[', '&[', 'std::boxed::Box<[')):
        return tr(val(st, v))
    if dst.startswith('std::cell::RefCell'):
        return tr(v)
    if dst in INTS and src in INTS:
        return tr(v)
    if into:
        # blanket impl: From::from on the target
        inst = find_from(eng, call.crate, src, dst)
        if inst is not None:
            return eng.push_fn(st, fr, inst, call)
    return NotImplemented


INTS = ('usize', 'isize', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128')


def find_from(eng, crate, src, dst):
    """local impl From<src> for dst"""
    cache = eng.p.__dict__.setdefault('_from', {})
    k = (crate, src, dst)
    if k not in cache:
        r = None
        for f in eng.p.fns.values():
            if f.crate == crate and f.local and f.nargs == 1 and f.name.endswith('::from') and 'From<' in f.name:
                ts = eng.p.types[crate]
                if ts[f.locals[1]]["s"] == src and ts[f.locals[0]]["s"] == dst:
                    r = f
        cache[k] = r
    return cache[k]


# ------------------------------------------------------------------ exact numbers
def num(st, x):
    v = val(st, x)
    if v[0] == 'i':
        return pconst(v[1])
    if v[0] in ('P', 't'):
        return v
    raise Unsupported("number %r" % (v[0],))


def arith(op):
    def f(eng, st, fr, call):
        t = tstr(eng, call)
        t2 = tstr(eng, call, 1)
        if not (isnum(t) or isnum(t2)):
            if t.lstrip('&') in INTS:
                a = [val(st, x) for x in call.args]
                o = {'+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div', '%': 'Rem'}[op]
                return eng.binop(st, o, a[0], a[1])
            if op == '+' and t.startswith('std::string::String'):
                return cat(val(st, call.args[0]), val(st, call.args[1]))
            return NotImplemented
        a, b = num(st, call.args[0]), num(st, call.args[1])
        if t.lstrip('&').endswith('BigInt') and op == '/':
            return T('app', 'bigint-div', a, b)
        if op == '/' and not hastop(b) and st.truth(T('sgn', frozenset('0'), poly(b))):
            raise Stop('panic', ('division by zero', call.span))
        return {'+': lambda: padd(a, b), '-': lambda: padd(a, pneg(b)), '*': lambda: pmul(a, b),
                '/': lambda: pmul(a, pinv(b)), '%': lambda: T('app', 'rem', a, b)}[op]()
    return f


for n, o in (('Add', '+'), ('Sub', '-'), ('Mul', '*'), ('Div', '/'), ('Rem', '%')):
    M['std::ops::%s::%s' % (n, n.lower())] = arith(o)

    def asg(eng, st, fr, call, g=arith(o), o=o):
        a = call.args[0]
        v = g(eng, st, fr, call)
        if v is NotImplemented:
            return v
        if a[0] != 'R':
            raise Unsupported("assign-op on term")
        st.write(a[1], a[2], v)
        return UNIT
    M['std::ops::%sAssign::%s_assign' % (n, n.lower())] = asg


@model('std::ops::Neg::neg')
def m_neg(eng, st, fr, call):
    if isnum(tstr(eng, call)):
        return pneg(num(st, call.args[0]))
    return NotImplemented


@model('std::ops::Not::not')
def m_not(eng, st, fr, call):
    return eng.bnot(val(st, call.args[0]))


def boolop(op):
    def f(eng, st, fr, call):
        return eng.binop(st, op, val(st, call.args[0]), val(st, call.args[1]))
    return f


for n in ('BitAnd', 'BitOr', 'BitXor'):
    M['std::ops::%s::%s' % (n, n.lower())] = boolop(n)

    def basg(eng, st, fr, call, g=boolop(n)):
        a = call.args[0]
        st.write(a[1], a[2], g(eng, st, fr, call))
        return UNIT
    M['std::ops::%sAssign::%s_assign' % (n, n.lower())] = basg


@model('num::traits::Inv::inv', 'num::rational::Ratio::recip')
def m_inv(eng, st, fr, call):
    return pinv(num(st, call.args[0]))


@model('num::rational::Ratio::new', 'num::rational::Ratio::new_raw')
def m_rnew(eng, st, fr, call):
    return pmul(num(st, call.args[0]), pinv(num(st, call.args[1])))


@model('num::rational::Ratio::from_integer')
def m_rint(eng, st, fr, call):
    return num(st, call.args[0])


@model('num::Zero::zero', 'num::traits::Zero::zero')
def m_zero(eng, st, fr, call):
    return PZERO if isnum(tstr(eng, call)) else ('i', 0)


@model('num::One::one', 'num::traits::One::one')
def m_one(eng, st, fr, call):
    return PONE if isnum(tstr(eng, call)) else ('i', 1)


def sgn(which):
    def f(eng, st, fr, call):
        p = num(st, call.args[0])
        pos = st.sign(p)
        w = frozenset(which)
        if not hastop(p):
            if pos <= w:
                return TRUE
            if not pos & w:
                return FALSE
        return T('sgn', w, p)
    return f


M['num::Zero::is_zero'] = M['num::traits::Zero::is_zero'] = sgn('0')
M['num::Signed::is_positive'] = M['num::traits::Signed::is_positive'] = sgn('+')
M['num::Signed::is_negative'] = M['num::traits::Signed::is_negative'] = sgn('-')


@model('num::Signed::signum', 'num::signum', 'num::traits::Signed::signum')
def m_signum(eng, st, fr, call):
    v = num(st, call.args[0])
    if st.test_sign(v, '0'):
        return PZERO
    return pconst(-1 if st.test_sign(v, '-') else 1)


@model('num::Signed::abs', 'num::abs', 'num::traits::Signed::abs')
def m_abs(eng, st, fr, call):
    v = num(st, call.args[0])
    return pabs(st, v)


def pabs(st, v):
    s = st.sign(v)
    if s <= frozenset('0+'):
        return v
    if s <= frozenset('-0'):
        return pneg(v)
    if st.test_sign(v, '-'):
        return pneg(v)
    return v


# ------------------------------------------------------------------ comparisons
def strip_ty(eng, crate, t):
    """peel references and smart pointers"""
    while t is not None:
        if t["k"] in ("ref",):
            t = eng.p.types[crate][t["elem"]]
        elif t["k"] == "adt" and t["def"] in ('std::rc::Rc', 'std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut'):
            t = eng.p.types[crate][t["args"][0]]
        else:
            return t
    return t


def local_impl(eng, crate, trait, t, meth):
    """local implementation of trait (by last path segment) for the ADT type t"""
    cache = eng.p.__dict__.setdefault('_limpl', {})
    k = (crate, trait, t["s"], meth)
    if k in cache:
        return cache[k]
    r = None
    for f in eng.p.fns.values():
        if f.crate != crate or not f.local or not f.blocks:
            continue
        n = f.name
        if n.endswith('::' + meth) and n.startswith('<') and f.nargs >= 1:
            head = n[1:n.rindex('>')]
            if ' as ' in head:
                a, b = head.split(' as ', 1)
                t1 = eng.p.types[crate][f.locals[1]]
                while t1["k"] == "ref":
                    t1 = eng.p.types[crate][t1["elem"]]
                if b.split('<')[0].split('::')[-1] == trait and t1["s"] == t["s"]:
                    r = f
    cache[k] = r
    return r


def m_eq(neg):
    def f(eng, st, fr, call):
        t = tinfo(eng, call)
        s = strip_ty(eng, call.crate, t) if t else None
        if s is not None and s["k"] == "adt" and s["def"].startswith(('models', 'list', 'parser', 'filter', 'error',
                                                                       'dinero', 'crate', 'commands')) or \
                (s is not None and s["k"] == "adt" and local_impl(eng, call.crate, 'PartialEq', s, 'eq')):
            g = local_impl(eng, call.crate, 'PartialEq', s, 'eq')
            if g is not None:
                a = [refto(st, x) for x in call.args]
                if neg:
                    return push_nat(eng, st, fr, 'negate', {'g': ('fid', g.id), 'a': a[0], 'b': a[1]}, call)
                c2 = Call(call.f, a, call.dst, call.to, call.span, call.crate, call.fn)
                return eng.push_fn(st, fr, g, c2)
        if s is not None and s["k"] == "adt" and s["def"] == OPT:
            e = strip_ty(eng, call.crate, eng.p.types[call.crate][s["args"][0]])
            g = local_impl(eng, call.crate, 'PartialEq', e, 'eq') if e["k"] == "adt" else None
            if g is not None:
                a, b = val(st, call.args[0]), val(st, call.args[1])
                va, vb = optvar(st, a), optvar(st, b)
                if va != vb or va == 0:
                    return ('b', (va == vb) != neg)
                a, b = [refto(st, proj(x, (1, 0)) if x[0] != 'A' else x[3][0]) for x in (a, b)]
                if neg:
                    return push_nat(eng, st, fr, 'negate', {'g': ('fid', g.id), 'a': a, 'b': b}, call)
                c2 = Call(call.f, [a, b], call.dst, call.to, call.span, call.crate, call.fn)
                return eng.push_fn(st, fr, g, c2)
        a, b = val(st, call.args[0]), val(st, call.args[1])
        if a[0] in ('A', 'T', 'V', 'H') or b[0] in ('A', 'T', 'V', 'H'):
            return ('b', eqv(st, a, b) != neg)
        return eng.binop(st, 'Ne' if neg else 'Eq', st.deep(a), st.deep(b))
    return f


def optvar(st, a):
    return a[2] if a[0] == 'A' else st.variant(a, 2)


def refto(st, x):
    """a single-level reference to the underlying value"""
    while x[0] == 'R':
        v = st.read(x[1], x[2])
        if v is not None and v[0] == 'R':
            x = v
        else:
            return x if v is None or v[0] != 't' else v
    if x[0] in ('A', 'T', 'V', 'H', 'C', 'O'):
        return ('R', ('X', x), ()) if not osyms(x) or True else x
    return x


M['std::cmp::PartialEq::eq'] = m_eq(False)
M['std::cmp::PartialEq::ne'] = m_eq(True)


def cmpop(op):
    def f(eng, st, fr, call):
        t = strip_ty(eng, call.crate, tinfo(eng, call))
        if t["k"] == "adt" and local_impl(eng, call.crate, 'PartialOrd', t, op):
            return NotImplemented
        g = local_impl(eng, call.crate, 'PartialOrd', t, 'partial_cmp') if t["k"] == "adt" else None
        if g is not None:
            a = [refto(st, x) for x in call.args]
            return push_nat(eng, st, fr, 'bycmp', {'g': ('fid', g.id), 'a': a[0], 'b': a[1], 'op': ('s', op)}, call)
        a, b = val(st, call.args[0]), val(st, call.args[1])
        a, b = peel(st.deep(a), st.deep(b))
        return eng.binop(st, op.capitalize(), a, b)
    return f


for o in ('lt', 'le', 'gt', 'ge'):
    M['std::cmp::PartialOrd::' + o] = cmpop(o)


def m_cmp(partial):
    def f(eng, st, fr, call):
        t = strip_ty(eng, call.crate, tinfo(eng, call))
        if t["k"] == "adt":
            g = local_impl(eng, call.crate, 'PartialOrd' if partial else 'Ord', t, 'partial_cmp' if partial else 'cmp')
            if g is not None:
                c2 = Call(call.f, [refto(st, x) for x in call.args], call.dst, call.to, call.span, call.crate, call.fn)
                return eng.push_fn(st, fr, g, c2)
        a, b = st.deep(call.args[0]), st.deep(call.args[1])
        r = ordterm(st, a, b)
        return some(r) if partial else r
    return f


def peel(a, b):
    """options compare by presence, then by content"""
    while a[0] == b[0] == 'A' and a[1] == b[1] == OPT:
        if a[2] != b[2]:
            return ('i', a[2]), ('i', b[2])
        if not a[3]:
            return ('i', 0), ('i', 0)
        a, b = a[3][0], b[3][0]
    return a, b


def ordterm(st, a, b):
    a, b = peel(a, b)
    pos = st.order(a, b)
    if len(pos) == 1 and not (hastop(a) or hastop(b)):
        return ('A', ORD, {'<': 0, '=': 1, '>': 2}[next(iter(pos))], ())
    return T('cmp', a, b)


M['std::cmp::Ord::cmp'] = m_cmp(False)
M['std::cmp::PartialOrd::partial_cmp'] = m_cmp(True)


def ordv(st, v):
    v = val(st, v)
    return v[2] if v[0] == 'A' else st.variant(v, 3)


@model('std::cmp::Ordering::reverse')
def m_ordrev(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 't' and v[1] == 'cmp':
        return T('cmp', v[3], v[2])
    return ('A', ORD, 2 - ordv(st, v), ())


@model('std::cmp::Ordering::then')
def m_then(eng, st, fr, call):
    return call.args[1] if ordv(st, call.args[0]) == 1 else call.args[0]


for n, s in (('is_eq', (1,)), ('is_ne', (0, 2)), ('is_lt', (0,)), ('is_le', (0, 1)), ('is_gt', (2,)), ('is_ge', (1, 2))):
    M['std::cmp::Ordering::' + n] = lambda eng, st, fr, call, s=s: ('b', ordv(st, call.args[0]) in s)


def minmax(mx):
    def f(eng, st, fr, call):
        a, b = call.args
        da, db = st.deep(a), st.deep(b)
        if da[0] not in ('i', 't', 'P', 'c', 's'):
            return NotImplemented
        ge = st.compare(da, db, '>')      # a > b
        if mx:
            return a if ge else b
        return b if ge else a
    return f


M['std::cmp::Ord::max'] = M['std::cmp::max'] = minmax(True)
M['std::cmp::Ord::min'] = M['std::cmp::min'] = minmax(False)


# ------------------------------------------------------------------ integers
def intbin(op):
    return lambda eng, st, fr, call: eng.binop(st, op, val(st, call.args[0]), val(st, call.args[1]))


for ty in INTS:
    for n, o in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul'), ('saturating_add', 'Add')):
        M['core::num::%s' % n] = intbin(o)


@model('core::num::saturating_sub')
def m_satsub(eng, st, fr, call):
    a, b = val(st, call.args[0]), val(st, call.args[1])
    if a[0] == 'i' and b[0] == 'i':
        return ('i', max(0, a[1] - b[1]))
    return T('app', 'satsub', a, b)


@model('core::num::checked_sub')
def m_chksub(eng, st, fr, call):
    a, b = val(st, call.args[0]), val(st, call.args[1])
    if a[0] == 'i' and b[0] == 'i':
        return some(('i', a[1] - b[1])) if a[1] >= b[1] else NONE
    if st.compare(a, b, '<'):
        return NONE
    return some(eng.binop(st, 'Sub', a, b))


# ------------------------------------------------------------------ strings
def cat(*parts):
    out = []
    for p in parts:
        if p[0] == 't' and p[1] == 'cat':
            ps = p[2:]
        else:
            ps = (p,)
        for x in ps:
            if x[0] == 'c':
                x = ('s', x[1])
            if x[0] == 's' and x[1] == '':
                continue
            if x[0] == 's' and out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return ('s', '')
    if len(out) == 1:
        return out[0]
    if len(out) > 200:
        return TOP
    return T('cat', *out)


@model('std::string::String::new', 'std::string::String::with_capacity')
def m_snew(eng, st, fr, call):
    return ('s', '')


@model('std::string::String::push_str', 'std::string::String::push')
def m_spush(eng, st, fr, call):
    a = call.args[0]
    if a[0] != 'R':
        raise Unsupported("push on term")
    while st.read(a[1], a[2])[0] == 'R':
        a = st.read(a[1], a[2])
    x = st.deep(call.args[1])
    old = st.read(a[1], a[2])
    if osyms(x) and not osyms(old) and old[0] != 's' or (old[0] == 't' and old[1] == 'cats'):
        st.write(a[1], a[2], T('cats', old if old[1] != 'cats' else old[2]))
    else:
        st.write(a[1], a[2], cat(old, x))
    return UNIT


@model('std::string::String::clear', 'std::vec::Vec::clear', 'std::collections::HashMap::clear')
def m_clear(eng, st, fr, call):
    a = call.args[0]
    v = val(st, a)
    while a[0] == 'R' and st.read(a[1], a[2])[0] == 'R':
        a = st.read(a[1], a[2])
    n = ('s', '') if v[0] == 's' or call.key.startswith('std::string') else \
        ('V', ()) if 'vec' in call.key else ('H', 'map', (), frozenset())
    st.write(a[1], a[2], n)
    return UNIT


@model('std::string::ToString::to_string')
def m_tostring(eng, st, fr, call):
    t = tstr(eng, call)
    v = st.deep(call.args[0])
    if t.lstrip('&').startswith(('std::string::String', 'str', 'std::borrow::Cow')) or v[0] == 's':
        return v
    if v[0] == 'c':
        return ('s', v[1])
    if v[0] == 'i':
        return ('s', str(v[1]))
    if v[0] == 'I' and v[1] == 'seq' and v[2][0][0] == 'V' and all(x[0] == '1' for x in v[2][0][1]):
        return cat(*[x[1] for x in v[2][0][1]])
    return T('disp', v)


@model('std::string::String::len', 'core::str::len', 'std::vec::Vec::len', 'core::slice::len',
       'std::collections::HashMap::len', 'std::collections::HashSet::len', 'std::collections::BTreeMap::len',
       'std::collections::BTreeSet::len', 'std::collections::VecDeque::len')
def m_len(eng, st, fr, call):
    return eng.seqlen(st, val(st, call.args[0]))


@model('std::string::String::is_empty', 'core::str::is_empty', 'std::vec::Vec::is_empty', 'core::slice::is_empty',
       'std::collections::HashMap::is_empty', 'std::collections::HashSet::is_empty',
       'std::collections::BTreeMap::is_empty', 'std::collections::BTreeSet::is_empty')
def m_empty(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 's':
        return ('b', v[1] == '')
    if v[0] == 'V':
        if any(s[0] == '1' for s in v[1]):
            return FALSE
        if not v[1]:
            return TRUE
        return T('pred', 'empty', TOP)
    if v[0] == 'H':
        if v[2]:
            return FALSE
        if not v[3]:
            return TRUE
        return T('pred', 'empty', TOP)
    if v[0] == 't' and v[1] == 'cat' and any(x[0] == 's' and x[1] for x in v[2:]):
        return FALSE
    if call.key.startswith(('std::string', 'core::str')):
        return eng.binop(st, 'Eq', v, ('s', ''))
    return eng.binop(st, 'Eq', T('len', v), ('i', 0))


def strfn(name, py=None):
    def f(eng, st, fr, call):
        a = [st.deep(x) for x in call.args]
        if py and all(x[0] in ('s', 'c', 'i') for x in a):
            r = py(*[x[1] for x in a])
            if r is not None:
                return r
        return T('app', name, *a)
    return f


for k, py in (('to_lowercase', lambda s: ('s', s.lower())), ('to_uppercase', lambda s: ('s', s.upper())),
              ('trim', lambda s: ('s', s.strip())), ('trim_start', lambda s: ('s', s.lstrip())),
              ('trim_end', lambda s: ('s', s.rstrip())), ('to_ascii_lowercase', lambda s: ('s', s.lower())),
              ('repeat', lambda s, n: ('s', s * n)), ('replace', lambda s, a, b: ('s', s.replace(a, b)))):
    M['core::str::' + k] = M['std::str::' + k] = strfn('str::' + k, py)


def strpred(name, py):
    def f(eng, st, fr, call):
        a = [st.deep(x) for x in call.args]
        if all(x[0] in ('s', 'c') for x in a):
            return ('b', py(a[0][1], a[1][1]))
        if name == 'starts_with' and a[0][0] == 't' and a[0][1] == 'cat' and a[0][2][0] == 's' and a[1][0] in 'sc':
            h, n = a[0][2][1], a[1][1]
            if h.startswith(n):
                return TRUE
            if not n.startswith(h):
                return FALSE
        return T('pred', 'str::' + name, *a)
    return f


for n, py in (('starts_with', str.startswith), ('ends_with', str.endswith), ('contains', lambda a, b: b in a)):
    M['core::str::' + n] = strpred(n, py)


@model('std::string::String::pop')
def m_spop(eng, st, fr, call):
    a = call.args[0]
    v = st.read(a[1], a[2])
    if v[0] == 's':
        if not v[1]:
            return NONE
        st.write(a[1], a[2], ('s', v[1][:-1]))
        return some(('c', v[1][-1]))
    st.write(a[1], a[2], T('app', 'str::init', v))
    return T('app', 'str::lastchar', v)


def charpred(name, py):
    def f(eng, st, fr, call):
        v = val(st, call.args[0])
        if v[0] == 'c':
            if v[1] in LETS and name.endswith('case'):
                raise Unsupported("case of an open letter")
            return ('b', py(repc(v[1])))
        if v[0] == 't' and v[1] == 'sym' and str(v[2]).startswith('digit'):     # some decimal digit
            return ('b', py('5'))
        if v[0] == 't' and v[1] == 'sym' and str(v[2]).startswith('letter'):    # some letter
            return ('b', py('x'))
        return T('pred', name, v)
    return f


for n_, py_ in (('numeric', str.isnumeric), ('whitespace', str.isspace), ('alphabetic', str.isalpha),
                ('alphanumeric', str.isalnum), ('ascii_digit', lambda c: c in '0123456789'),
                ('ascii_whitespace', lambda c: c in ' \t\n\r\x0c'), ('ascii_alphabetic', lambda c: c.isascii() and c.isalpha()),
                ('ascii_alphanumeric', lambda c: c.isascii() and c.isalnum()), ('digit', lambda c: c in '0123456789'),
                ('ascii_punctuation', lambda c: c in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~'),
                ('control', lambda c: ord(c) < 32 or 127 <= ord(c) < 160), ('ascii', lambda c: ord(c) < 128)):
    M['std::char::methods::is_' + n_] = charpred(n_, py_)


# ------------------------------------------------------------------ vectors
def vplace(st, a):
    """reference to the sequence itself"""
    while a[0] == 'R':
        v = st.read(a[1], a[2])
        if v is not None and v[0] == 'R':
            a = v
        else:
            return a
    return ('R', ('X', a), ())


def vget(st, a):
    r = vplace(st, a)
    v = st.read(r[1], r[2])
    return r, v


@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new')
def m_vnew(eng, st, fr, call):
    return ('V', ())


@model('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def m_vpush(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    st.write(r[1], r[2], ('V', seq_push(st, as_seq(v), call.args[1])))
    return UNIT


@model('std::vec::Vec::append', 'std::vec::Vec::extend_from_slice')
def m_vappend(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    r2, w = vget(st, call.args[1])
    st.write(r[1], r[2], ('V', seq_cat(st, as_seq(v), as_seq(w))))
    if call.key.endswith('append'):
        st.write(r2[1], r2[2], ('V', ()))
    return UNIT


def seq_cat(st, a, b):
    out = a
    for s in b:
        if s[0] == '1':
            out = seq_push(st, out, s[1])
        elif out and out[-1][0] == 'M':
            ts = out[-1][1]
            for t in s[1]:
                ts = addtmpl(ts, t)
            out = out[:-1] + (('M', ts),)
        else:
            out = out + (s,)
    return out


@model('std::vec::Vec::pop')
def m_vpop(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    segs = as_seq(v)
    if not segs:
        return NONE
    if segs[-1][0] == '1':
        st.write(r[1], r[2], ('V', segs[:-1]))
        return some(segs[-1][1])
    ch = nd(st, 'pop', ['drop'] + [('t', i) for i in range(len(segs[-1][1]))])
    if ch == 'drop':
        st.write(r[1], r[2], ('V', segs[:-1]))
        return again()
    t = sorted(segs[-1][1], key=repr)[ch[1]]
    x, fs = instantiate(st, t)
    st.facts.update(fs)
    return some(x)


def again():
    raise Again()


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_vremove(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    segs = as_seq(v)
    n = val(st, call.args[1])
    if n[0] == 'i' and all(s[0] == '1' for s in segs[:n[1] + 1]):
        if n[1] >= len(segs):
            raise Stop('panic', ('remove index', call.span))
        st.write(r[1], r[2], ('V', segs[:n[1]] + segs[n[1] + 1:]))
        return segs[n[1]][1]
    raise Unsupported("Vec::remove")


@model('std::vec::Vec::insert')
def m_vinsert(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    segs = as_seq(v)
    n = val(st, call.args[1])
    if n[0] == 'i' and all(s[0] == '1' for s in segs[:n[1]]) and n[1] <= len(segs):
        st.write(r[1], r[2], ('V', segs[:n[1]] + (('1', call.args[2]),) + segs[n[1]:]))
        return UNIT
    raise Unsupported("Vec::insert")


@model('std::vec::Vec::truncate')
def m_vtrunc(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    segs = as_seq(v)
    n = val(st, call.args[1])
    if n[0] == 'i' and all(s[0] == '1' for s in segs[:n[1]]):
        st.write(r[1], r[2], ('V', segs[:n[1]]))
        return UNIT
    raise Unsupported("Vec::truncate")


@model('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::collections::HashMap::reserve',
       'std::string::String::reserve')
def m_unit(eng, st, fr, call):
    return UNIT


def elem_at(st, a, i):
    """Option<ref to element i>; i an abstract integer"""
    r, v = vget(st, a)
    segs = as_seq(v)
    if i[0] == 'i':
        if i[1] < 0:
            return NONE
        if v[0] != 'V':
            return None
        for j, s in enumerate(segs):
            if s[0] != '1':
                break
            if j == i[1]:
                return some(('R', r[1], r[2] + (('e', ('seg', j)),)))
        else:
            return NONE
        if i[1] < j:
            return NONE
        # inside or beyond a segment of unknown length: some later element or none
        alts = ['none']
        for k in range(j, len(segs)):
            if segs[k][0] == '1':
                if k >= j + 1:
                    alts.append(('1', k))
            else:
                alts += [('t', k, q) for q in range(len(segs[k][1]))]
        ch = nd(st, 'at', alts)
        if ch == 'none':
            return NONE
        if ch[0] == '1':
            return some(('R', r[1], r[2] + (('e', ('seg', ch[1])),)))
        x, fs = instantiate(st, sorted(segs[ch[1]][1], key=repr)[ch[2]])
        st.facts.update(fs)
        return some(('R', st.alloc(x), ()))
    return None


@model('core::slice::get', 'std::vec::Vec::get', 'core::slice::get_mut')
def m_get(eng, st, fr, call):
    i = val(st, call.args[1])
    r = elem_at(st, call.args[0], i)
    if r is None:
        r_, v = vget(st, call.args[0])
        if v[0] == 'V':
            raise Unsupported("get with unknown index")
        return T('app', 'get', v, i)
    return r


@model('core::slice::first', 'core::slice::first_mut')
def m_first(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] != 'V':
        return T('app', 'first', v)
    return elem_at(st, call.args[0], ('i', 0))


@model('core::slice::last', 'core::slice::last_mut')
def m_last(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] != 'V':
        return T('app', 'last', v)
    segs = v[1]
    if not segs:
        return NONE
    if segs[-1][0] == '1':
        return some(('R', r[1], r[2] + (('e', ('seg', len(segs) - 1)),)))
    alts = []
    for k in range(len(segs) - 1, -1, -1):
        if segs[k][0] == '1':
            alts.append(('1', k))
            break
        alts += [('t', k, q) for q in range(len(segs[k][1]))]
    else:
        alts.append('none')
    ch = nd(st, 'last', alts)
    if ch == 'none':
        return NONE
    if ch[0] == '1':
        return some(('R', r[1], r[2] + (('e', ('seg', ch[1])),)))
    x, fs = instantiate(st, sorted(segs[ch[1]][1], key=repr)[ch[2]])
    st.facts.update(fs)
    return some(('R', st.alloc(x), ()))


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(eng, st, fr, call):
    t = tstr(eng, call)
    a = call.args[0]
    if t.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
        r = map_get(eng, st, a, call.args[1])
        if optvar(st, r) == 0:
            raise Stop('panic', ('key not found', call.span))
        return proj(r, (1, 0))
    i = val(st, call.args[1])
    if i[0] == 'A' or i[0] == 'T' or tstr(eng, call, 1).startswith(('std::ops::Range', 'std::range')):
        return m_slice_range(eng, st, call, a, i)
    r = elem_at(st, a, i)
    if r is not None:
        if r == NONE:
            raise Stop('panic', ('index out of bounds', call.span))
        return r[3][0]
    r_, v = vget(st, a)
    if v[0] == 'V':
        raise Unsupported("index with unknown index")
    return T('elem', v, i)


def m_slice_range(eng, st, call, a, i):
    v = val(st, a)
    t = tstr(eng, call, 1)
    n = None
    if v[0] == 'V' and all(s[0] == '1' for s in v[1]):
        n = len(v[1])
    elif v[0] == 's':
        n = len(v[1].encode())
    fs = i[3] if i[0] == 'A' else ()
    lo, hi = ('i', 0), ('i', n) if n is not None else None
    if 'RangeFull' in t:
        return a
    if 'RangeFrom' in t:
        lo = fs[0]
    elif 'RangeTo' in t and 'Inclusive' not in t:
        hi = fs[0]
    elif t.startswith(('std::ops::Range<', 'std::range::Range<')):
        lo, hi = fs[0], fs[1]
    else:
        raise Unsupported("slice range")
    if n is not None and lo[0] == 'i' and hi[0] == 'i':
        if lo[1] > hi[1] or hi[1] > n:
            raise Stop('panic', ('slice index', call.span))
        if v[0] == 's':
            b, e = boff(v[1], lo[1]), boff(v[1], hi[1])
            if b is None or e is None:
                raise Stop('panic', ('slice inside a character', call.span))
            return ('s', v[1][b:e])
        return ('R', st.alloc(('V', v[1][lo[1]:hi[1]])), ())
    if v[0] == 'V':
        raise Unsupported("slice of unknown range")
    return T('app', 'slice', st.deep(v), lo, hi if hi is not None else TOP)


@model('core::slice::contains')
def m_contains(eng, st, fr, call):
    v = val(st, call.args[0])
    if v[0] == 'V' and all(s[0] == '1' for s in v[1]):
        for s in v[1]:
            if eqv(st, s[1], call.args[1]):
                return TRUE
        return FALSE
    if v[0] == 'V':
        for s in v[1]:
            if s[0] == '1' and eqv(st, s[1], call.args[1]):
                return TRUE
        return T('pred', 'contains', TOP)
    return T('pred', 'contains', st.deep(v), st.deep(call.args[1]))


@model('core::slice::reverse')
def m_reverse(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] != 'V':
        raise Unsupported("reverse")
    st.write(r[1], r[2], ('V', tuple(reversed(v[1]))))
    return UNIT


@model('core::slice::to_vec', 'std::slice::to_vec', 'std::slice::into_vec', 'std::iter::Iterator::collect_')
def m_tovec(eng, st, fr, call):
    return val(st, call.args[0])


@model('std::slice::join', 'std::slice::concat')
def m_join(eng, st, fr, call):
    v = val(st, call.args[0])
    sep = st.deep(call.args[1]) if len(call.args) > 1 else ('s', '')
    if v[0] == 'V' and all(s[0] == '1' for s in v[1]):
        parts = []
        for s in v[1]:
            if parts:
                parts.append(sep)
            parts.append(st.deep(s[1]))
        return cat(*parts)
    return T('app', 'join', st.deep(v), sep)


@model('std::slice::sort_by', 'core::slice::sort_by', 'std::slice::sort', 'core::slice::sort_unstable_by',
       'core::slice::sort_unstable', 'std::slice::sort_by_key', 'core::slice::sort_unstable_by_key',
       'std::slice::sort_by_cached_key')
def m_sort(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if v[0] == 'V':
        ones = [s for s in v[1] if s[0] == '1']
        if len(v[1]) <= 1 and all(s[0] == '1' for s in v[1]):
            return UNIT
        if all(s[0] == '1' for s in v[1]) and len(ones) <= 12:
            kind = call.key.rsplit('::', 1)[1]
            return push_nat(eng, st, fr, 'sort', {'dst': ('T', (r,)), 'k': ('s', kind), 'f': call.args[1] if len(call.args) > 1 else UNIT,
                                                  'src': v, 'out': ('T', ()), 'i': ('i', 0), 'j': ('i', 0), 'ks': ('T', ())}, call)
        ts = frozenset()
        for s in v[1]:
            if s[0] == 'M':
                ts |= s[1]
        if len(ones) == 0:
            st.write(r[1], r[2], ('V', (('M', ts),) if ts else ()))
        elif len(ones) == 1:
            m = (('M', ts),) if ts else ()
            st.write(r[1], r[2], ('V', m + (ones[0],) + m))
        else:
            perm = list(range(len(ones)))
            import itertools
            alts = list(itertools.permutations(perm))
            if len(alts) > 24:
                raise Unsupported("sort of many")
            ch = nd(st, 'sort', alts)
            m = (('M', ts),) if ts else ()
            out = m
            for j in ch:
                out = out + (ones[j],) + m
            st.write(r[1], r[2], ('V', out))
    return UNIT


# ------------------------------------------------------------------ maps and sets
@model('std::collections::HashMap::new', 'std::collections::BTreeMap::new', 'std::collections::HashMap::with_capacity')
def m_hnew(eng, st, fr, call):
    return ('H', 'map', (), frozenset())


@model('std::collections::HashSet::new', 'std::collections::BTreeSet::new', 'std::collections::HashSet::with_capacity')
def m_hsnew(eng, st, fr, call):
    return ('H', 'set', (), frozenset())


def as_map(v):
    if v[0] == 'H':
        return v
    if isterm(v):
        return ('H', 'map', (), frozenset([('base', v)]))
    raise Unsupported("map %r" % (v[0],))


def map_find(st, h, k):
    """index of the exact entry with key k, or None (forks on open equalities)"""
    for j, (kj, vj) in enumerate(h[2]):
        if eqv(st, k, kj):
            return j
    return None


def map_get(eng, st, a, k):
    r, v = vget(st, a)
    h = as_map(v)
    j = map_find(st, h, k)
    if j is not None:
        return some(('R', r[1], r[2] + (('e', ('ent', j)),)))
    if not h[3]:
        return NONE
    kd = st.deep(k)
    alts = []
    for q, t in enumerate(sorted(h[3], key=repr)):
        if t[0] == 'base':
            return T('mapget', t[1], kd)
    cands = []
    for t in sorted(h[3], key=repr):
        sub_ = {}
        if t[0] == TOP or match(st, t[0][1][0], kd, sub_):
            if consistent(st, t[1], sub_):
                cands.append((t, sub_))
    ch = nd(st, 'mapget', ['none'] + list(range(len(cands))))
    if ch == 'none':
        return NONE
    t, sub_ = cands[ch]
    if t[0] == TOP:
        return some(TOP)
    x, fs = instantiate(st, t, sub_)
    for k_, v_ in fs.items():
        st.facts.setdefault(k_, v_)
    y = x[1][1]
    return some(y if y[0] in ('t', 's', 'i') else ('R', st.alloc(y), ()))


def consistent(st, fs, sub_):
    for k, x in fs:
        k2, x2 = rename_fact(k, x, sub_)
        if k2[0] == 'c':
            if not (st.order(k2[1], k2[2]) & x2):
                return False
        elif k2[0] == 'sg':
            if not (st.sign(k2[1]) & x2):
                return False
        elif k2[0] == 'v' and st.facts.get(k2, x2) != x2:
            return False
    return True


def match(st, pat, v, sub_):
    """one-way matching of a template key against a value"""
    if len(pat) == 3 and pat[0] == 't' and pat[1] == 'o' and pat[2] < 0:
        if pat in sub_:
            return sub_[pat] == v
        sub_[pat] = v
        return True
    if pat[0] != v[0]:
        return pat[0] == 't' or v[0] == 't'
    if pat[0] == 'A':
        return pat[2] == v[2] and all(match(st, a, b, sub_) for a, b in zip(pat[3], v[3]))
    if pat[0] == 'T':
        return all(match(st, a, b, sub_) for a, b in zip(pat[1], v[1]))
    if pat[0] in ('s', 'i', 'c', 'b'):
        return pat == v
    if pat[0] == 't' and v[0] == 't' and pat[1] == v[1] and len(pat) == len(v):
        for a, b in zip(pat[2:], v[2:]):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if not match(st, a, b, sub_):
                    return False
            elif a != b:
                return False
        return True
    return True


@model('std::collections::HashMap::get', 'std::collections::BTreeMap::get', 'std::collections::HashMap::get_mut',
       'std::collections::BTreeMap::get_mut')
def m_hget(eng, st, fr, call):
    return map_get(eng, st, call.args[0], call.args[1])


@model('std::collections::HashSet::get', 'std::collections::BTreeSet::get')
def m_hsget(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = as_map(v)
    j = map_find(st, h, call.args[1])
    if j is not None:
        return some(('R', r[1], r[2] + (('e', ('key', j)),)))
    if not h[3]:
        return NONE
    return T('mapget', st.deep(v), st.deep(call.args[1]))


@model('std::collections::HashMap::contains_key', 'std::collections::BTreeMap::contains_key',
       'std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def m_hcontains(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = as_map(v)
    j = map_find(st, h, call.args[1])
    if j is not None:
        return TRUE
    if not h[3]:
        return FALSE
    for t in h[3]:
        if t[0] == 'base':
            m = T('mapget', t[1], st.deep(call.args[1]))
            return ('b', st.variant(m, 2) == 1)
    return T('pred', 'contains', TOP)


def map_insert(st, a, k, v):
    r, m = vget(st, a)
    h = as_map(m)
    j = map_find(st, h, k)
    if j is not None:
        old = h[2][j][1]
        e = list(h[2])
        e[j] = (e[j][0], v)
        st.write(r[1], r[2], ('H', h[1], tuple(e), h[3]))
        return some(old)
    kd, vd = st.deep(k), st.deep(v)
    if osyms(kd) or osyms(vd) and not all(t[0] != 'base' for t in h[3]):
        pass
    if osyms(kd) or hastop(kd):
        t = generalise(st, ('T', (k, v)))
        st.write(r[1], r[2], ('H', h[1], h[2], addtmpl(h[3], t)))
        return TOP
    st.write(r[1], r[2], ('H', h[1], h[2] + ((k, v),), h[3]))
    if not h[3]:
        return NONE
    for t in h[3]:
        if t[0] == 'base':
            return T('mapget', t[1], kd)
    return TOP


@model('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert')
def m_hinsert(eng, st, fr, call):
    return map_insert(st, *call.args)


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def m_hsinsert(eng, st, fr, call):
    r, m = vget(st, call.args[0])
    h = as_map(m)
    j = map_find(st, h, call.args[1])
    if j is not None:
        return FALSE
    o = map_insert(st, call.args[0], call.args[1], UNIT)
    if o == NONE:
        return TRUE
    if o == TOP:
        return T('pred', 'new', TOP)
    return ('b', st.variant(o, 2) == 0) if o[0] == 't' else FALSE


@model('std::collections::HashMap::remove', 'std::collections::HashSet::remove', 'std::collections::BTreeMap::remove')
def m_hremove(eng, st, fr, call):
    r, m = vget(st, call.args[0])
    h = as_map(m)
    j = map_find(st, h, call.args[1])
    isset = 'Set' in call.key
    if j is not None:
        old = h[2][j][1]
        st.write(r[1], r[2], ('H', h[1], h[2][:j] + h[2][j + 1:], h[3]))
        return TRUE if isset else some(old)
    if not h[3]:
        return FALSE if isset else NONE
    raise Unsupported("remove from open map")


@model('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def m_entry(eng, st, fr, call):
    r = vplace(st, call.args[0])
    return ('A', 'Entry', 0, (r, call.args[1]))


def entry_slot(eng, st, e, mk):
    r, k = e[3]
    m = st.read(r[1], r[2])
    h = as_map(m)
    j = map_find(st, h, k)
    if j is None:
        if h[3]:
            g = map_get(eng, st, r, k)
            vv = optvar(st, g)
            kd = st.deep(k)
            if osyms(kd):
                raise Unsupported("entry of open map")
            v = mk() if vv == 0 else st.load(proj(g, (1, 0)))
        else:
            v = mk()
        if v is None:
            raise Unsupported("entry default")
        map_insert(st, r, k, v)
        h = as_map(st.read(r[1], r[2]))
        j = map_find(st, h, k)
    return ('R', r[1], r[2] + (('e', ('ent', j)),))


for B in ('std::collections::hash_map::Entry', 'std::collections::btree_map::Entry',
          'std::collections::hash_map::Entry::<_>', 'std::collections::btree::map::entry::Entry'):
    M[B + '::or_insert'] = lambda eng, st, fr, call: entry_slot(eng, st, call.args[0], lambda: call.args[1])

    def ordefault(eng, st, fr, call):
        i = 1 if tstr(eng, call, 0).startswith("'") else 1
        ds = [default_of(tstr(eng, call, q)) for q in range(len(call.f.get("targs", [])))]
        return entry_slot(eng, st, call.args[0], lambda: ds[-1] if ds else None)
    M[B + '::or_default'] = ordefault

    def orwith(eng, st, fr, call):
        return push_nat(eng, st, fr, 'orwith', {'e': call.args[0], 'f': call.args[1]}, call)
    M[B + '::or_insert_with'] = orwith

    def andmod(eng, st, fr, call):
        return push_nat(eng, st, fr, 'andmod', {'e': call.args[0], 'f': call.args[1]}, call)
    M[B + '::and_modify'] = andmod


# ------------------------------------------------------------------ native frames
def push_nat(eng, st, fr, name, cells, call):
    return eng.push_native(st, fr, name, cells, call)


def sub(eng, st, fr, name, cells):
    """from a native frame: run another native; its result arrives in (fs,'r')"""
    nf = Frame(None, 0, 0, ('l', st.fresh()), ((fr.fs, 'r'), ()), -1, name)
    for k, v in cells.items():
        st.mem[(nf.fs, k)] = v
    st.frames.append(nf)


class Nat:
    loop = False

    def c(self, st, fr, k):
        return st.mem.get((fr.fs, k))

    def s(self, st, fr, k, v):
        st.mem[(fr.fs, k)] = v


def native(name, loop=False):
    def d(cls):
        o = cls()
        o.loop = loop
        NATIVES[name] = o
        return cls
    return d


@native('bycmp')
class ByCmp(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fn = eng.p.fns[self.c(st, fr, 'g')[1]]
            fr.bb = 1
            c = Call({"decl": fn.name}, [self.c(st, fr, 'a'), self.c(st, fr, 'b')], ((fr.fs, 'r'), ()), -1, '?',
                     fn.crate, fn)
            eng.push_fn(st, fr, fn, c)
        else:
            r = self.c(st, fr, 'r')
            if optvar(st, r) == 0:
                return eng.ret(st, ('b', False))
            o = ordv(st, r[3][0] if r[0] == 'A' else proj(r, (1, 0)))
            eng.ret(st, ('b', o in {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}[self.c(st, fr, 'op')[1]]))


@native('negate')
class Negate(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            g = self.c(st, fr, 'g')
            fn = eng.p.fns[g[1]]
            fr.bb = 1
            c = Call({"decl": fn.name}, [self.c(st, fr, 'a'), self.c(st, fr, 'b')], ((fr.fs, 'r'), ()), -1, '?',
                     fn.crate, fn)
            eng.push_fn(st, fr, fn, c)
        else:
            eng.ret(st, eng.bnot(self.c(st, fr, 'r')))


@native('sort')
class Sort(Nat):
    """insertion sort of an exact vector with the given comparison; equal elements keep their order only in the stable variants"""
    def step(self, eng, st, fr):
        src = self.c(st, fr, 'src')
        kind = self.c(st, fr, 'k')[1]
        i, j = self.c(st, fr, 'i')[1], self.c(st, fr, 'j')[1]
        out = self.c(st, fr, 'out')[1]
        n = len(src[1])
        byk = 'by_key' in kind or 'cached' in kind
        if byk and len(self.c(st, fr, 'ks')[1]) < n:
            ks = self.c(st, fr, 'ks')[1]
            if fr.bb == 1:
                v = self.c(st, fr, 'r')
                self.s(st, fr, 'ks', ('T', ks + (st.deep(v),)))
                fr.bb = 0
                return
            fr.bb = 1
            self.call(eng, st, fr, [X_(src[1][len(ks)][1])])
            return
        if i == n:
            r = self.c(st, fr, 'dst')[1][0]
            st.write(r[1], r[2], ('V', tuple(src[1][k[1]] for k in out)))
            eng.ret(st, UNIT)
            return
        # insert element i before out[j], scanning from the end
        if fr.bb == 0:
            if j == len(out):
                self.place(st, fr, i, 0, out)
                return
            o = out[len(out) - 1 - j][1]
            if byk or kind in ('sort', 'sort_unstable'):
                ks = self.c(st, fr, 'ks')[1]
                a, b = (ks[o], ks[i]) if byk else (st.deep(src[1][o][1]), st.deep(src[1][i][1]))
                if any(x[0] in ('T', 'V', 'b') or x[0] == 'A' and x[1] != OPT for x in (a, b)):
                    fr.bb = 2
                    return sub(eng, st, fr, 'cmpv', {'a': a, 'b': b})
                for x in (a, b):
                    if x[0] not in ('i', 't', 'P', 'c', 's') and not (x[0] == 'A' and x[1] == OPT):
                        raise Unsupported("sort of %s" % x[0])
                if a[0] == 'A' or b[0] == 'A':
                    if a[0] != 'A' or b[0] != 'A':
                        raise Unsupported("sort of options")
                    if a[2] != b[2]:
                        c = 0 if a[2] < b[2] else 2
                    elif a[2] == 0:
                        c = 1
                    else:
                        c = ordv(st, ordterm(st, a[3][0], b[3][0]))
                else:
                    c = ordv(st, ordterm(st, a, b))
                self.decide(st, fr, kind, c, i, j, out)
                return
            fr.bb = 2
            self.call(eng, st, fr, [X_(src[1][o][1]), X_(src[1][i][1])])
            return
        c = ordv(st, self.c(st, fr, 'r'))
        fr.bb = 0
        self.decide(st, fr, kind, c, i, j, out)

    def call(self, eng, st, fr, args):
        r = eng.call_value(st, self.c(st, fr, 'f'), args, ((fr.fs, 'r'), ()), -1, "?", fr)
        if r is not PUSHED:
            st.mem[(fr.fs, 'r')] = r

    def decide(self, st, fr, kind, c, i, j, out):
        if c == 1 and 'unstable' in kind:
            c = nd(st, 'tie', [0, 2])
        if c == 2:
            self.s(st, fr, 'j', ('i', j + 1))
        else:
            self.place(st, fr, i, len(out) - j, out)

    def place(self, st, fr, i, at, out):
        self.s(st, fr, 'out', ('T', out[:at] + (('i', i),) + out[at:]))
        self.s(st, fr, 'i', ('i', i + 1))
        self.s(st, fr, 'j', ('i', 0))


def X_(v):
    return ('R', ('X', v), ())


@native('orwith')
class OrWith(Nat):
    def step(self, eng, st, fr):
        e = self.c(st, fr, 'e')
        if fr.bb == 0:
            r, k = e[3]
            h = as_map(st.read(r[1], r[2]))
            j = map_find(st, h, k)
            if j is not None:
                eng.ret(st, ('R', r[1], r[2] + (('e', ('ent', j)),)))
                return
            fr.bb = 1
            eng.nat_call(st, fr, self.c(st, fr, 'f'), [])
        else:
            v = self.c(st, fr, 'r')
            eng.ret(st, entry_slot(eng, st, e, lambda: v))


@native('andmod')
class AndMod(Nat):
    def step(self, eng, st, fr):
        e = self.c(st, fr, 'e')
        if fr.bb == 0:
            r, k = e[3]
            h = as_map(st.read(r[1], r[2]))
            j = map_find(st, h, k)
            if j is None:
                if h[3]:
                    raise Unsupported("and_modify on open map")
                eng.ret(st, e)
                return
            fr.bb = 1
            eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', r[1], r[2] + (('e', ('ent', j)),))])
        else:
            eng.ret(st, e)


# ------------------------------------------------------------------ iterators
def I(kind, *fields):
    return ('I', kind, tuple(fields))


@model('core::slice::iter', 'std::collections::VecDeque::iter')
def m_iter(eng, st, fr, call):
    return I('ref', vplace(st, call.args[0]), ('i', 0), FALSE, NONE)


@model('core::slice::iter_mut')
def m_itermut(eng, st, fr, call):
    return I('ref', vplace(st, call.args[0]), ('i', 0), TRUE, NONE)


def okey(v):
    """concrete position of a key in the order of its type, or None"""
    if v[0] in ('s', 'c', 'i', 'b'):
        return (v[1],)
    if v[0] == 'A':
        names = [x for x in v[3] if x[0] == 's']
        if v[1] == OPT:
            k = okey(v[3][0]) if v[3] else ()
            return None if k is None else (v[2],) + k
        if names:
            return (v[2], names[0][1])
        ks = [okey(x) for x in v[3]]
        return None if None in ks else (v[2],) + tuple(ks)
    if v[0] == 'T':
        ks = [okey(x) for x in v[1]]
        return None if None in ks else tuple(ks)
    return None


def osorted(st, h):
    """the map with its entries in key order, None if that order is open"""
    if h[0] != 'H':
        return None
    if len(h[2]) < 2 and not h[3]:
        return h
    if h[3]:
        return None
    ks = [okey(st.deep(k)) for k, _ in h[2]]
    if None in ks:
        return None
    try:
        o = sorted(range(len(ks)), key=lambda i: ks[i])
    except TypeError:
        return None
    return ('H', h[1], tuple(h[2][i] for i in o), h[3])


def href(eng, st, ref, mode, ordered):
    r = vplace(st, ref)
    if ordered:
        h = as_map(st.read(r[1], r[2]))
        o = osorted(st, h)
        if o is None:
            if len(h[2]) > 1:
                eng.unordered = True
        else:
            return I('hord', r, ('T', tuple(('i', h[2].index(x)) for x in o[2])), ('s', mode))
    return I('href', r, ('i', 0), ('s', mode))


def hval(eng, st, h, mode, ordered):
    if ordered:
        o = osorted(st, as_map(h))
        if o is not None:
            return I('hval', o, ('s', mode + '!'))
        if len(as_map(h)[2]) > 1:
            eng.unordered = True
    return I('hval', h, ('s', mode))


@model('std::collections::HashMap::iter', 'std::collections::BTreeMap::iter', 'std::collections::HashMap::iter_mut',
       'std::collections::BTreeMap::iter_mut')
def m_hiter(eng, st, fr, call):
    return href(eng, st, call.args[0], 'kv', 'BTree' in call.key)


@model('std::collections::HashMap::values', 'std::collections::BTreeMap::values',
       'std::collections::HashMap::values_mut', 'std::collections::BTreeMap::values_mut')
def m_hvalues(eng, st, fr, call):
    return href(eng, st, call.args[0], 'v', 'BTree' in call.key)


@model('std::collections::HashMap::keys', 'std::collections::BTreeMap::keys', 'std::collections::HashSet::iter',
       'std::collections::BTreeSet::iter')
def m_hkeys(eng, st, fr, call):
    return href(eng, st, call.args[0], 'k', 'BTree' in call.key)


@model('std::collections::HashMap::into_values', 'std::collections::BTreeMap::into_values')
def m_hivalues(eng, st, fr, call):
    return hval(eng, st, val(st, call.args[0]), 'v', 'BTree' in call.key)


@model('std::collections::HashMap::into_keys', 'std::collections::BTreeMap::into_keys')
def m_hikeys(eng, st, fr, call):
    return hval(eng, st, val(st, call.args[0]), 'k', 'BTree' in call.key)


@model('std::collections::HashMap::drain', 'std::collections::HashSet::drain')
def m_hdrain(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    h = as_map(v)
    st.write(r[1], r[2], ('H', h[1], (), frozenset()))
    return I('hval', h, ('s', 'k' if 'Set' in call.key else 'kv'))


@model('std::vec::Vec::drain')
def m_vdrain(eng, st, fr, call):
    if 'RangeFull' not in tstr(eng, call, 2) and 'RangeFull' not in tstr(eng, call, 1):
        raise Unsupported("drain of a range")
    r, v = vget(st, call.args[0])
    st.write(r[1], r[2], ('V', ()))
    return I('seq', ('V', as_seq(v)))


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(eng, st, fr, call):
    t = tinfo(eng, call)
    a = call.args[0]
    s = t["s"]
    if a[0] == 'I':
        return a
    if t["k"] == "ref":
        e = strip_ty(eng, call.crate, t)
        d = e.get("def", "")
        if d.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
            return href(eng, st, a, 'kv', 'BTree' in d)
        if d.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
            return href(eng, st, a, 'k', 'BTree' in d)
        if d.startswith('std::vec::Vec') or e["k"] in ("slice", "array"):
            return I('ref', vplace(st, a), ('i', 0), TRUE if t.get("mut") else FALSE, NONE)
        if d == OPT:
            v = val(st, a)
            if optvar(st, v) == 0:
                return I('seq', ('V', ()))
            p = proj(v, (1, 0)) if v[0] != 'A' else None
            r = vplace(st, a)
            return I('seq', ('V', (('1', ('R', r[1], r[2] + ((1, 0),))),)))
        if s.startswith('&mut'):
            return a
        raise Unsupported("into_iter of %s" % s)
    d = t.get("def", "")
    if d.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
        return hval(eng, st, as_map(val(st, a)), 'kv', 'BTree' in d)
    if d.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
        return hval(eng, st, as_map(val(st, a)), 'k', 'BTree' in d)
    if d.startswith('std::vec::Vec') or t["k"] == "array" or d.startswith('std::boxed::Box'):
        return I('seq', ('V', as_seq(val(st, a))))
    if d == OPT:
        if optvar(st, a) == 0:
            return I('seq', ('V', ()))
        return I('seq', ('V', (('1', proj(a, (1, 0))),)))
    if d in ('std::ops::Range', 'std::range::Range'):
        return a
    if d.startswith('std::ops::RangeInclusive'):
        return a
    return a     # already an iterator (a term, or an ADT that implements Iterator)


@model('std::option::Option::iter', 'std::option::Option::iter_mut')
def m_optiter(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 0:
        return I('seq', ('V', ()))
    r = vplace(st, call.args[0])
    return I('seq', ('V', (('1', ('R', r[1], r[2] + ((1, 0),))),)))


def seqsrc(name, py=None):
    def f(eng, st, fr, call):
        a = [st.deep(x) for x in call.args]
        if py and all(x[0] in ('s', 'c', 'i') for x in a):
            return I('seq', ('V', tuple(('1', x) for x in py(*[x[1] for x in a]))))
        return I('seq', ('V', as_seq(T('app', name, *a))))
    return f


M['core::str::chars'] = seqsrc('chars', lambda s: [('c', x) for x in s])
M['core::str::split'] = seqsrc('split', lambda s, p: [('s', x) for x in s.split(p)])
M['core::str::lines'] = seqsrc('lines', lambda s: [('s', x) for x in s.splitlines()])
M['core::str::split_whitespace'] = seqsrc('split_whitespace', lambda s: [('s', x) for x in s.split()])
M['core::str::matches'] = seqsrc('matches', lambda s, p: [('s', p)] * s.count(p))
M['core::str::bytes'] = seqsrc('bytes')
M['core::str::char_indices'] = seqsrc('char_indices')
M['regex::Captures::iter'] = seqsrc('captures_iter')
M['core::slice::windows'] = seqsrc('windows')


def adaptor(name, *, extra=None):
    def f(eng, st, fr, call):
        it = call.args[0]
        if it[0] == 'R':
            it = I('byref', it)
        if it[0] not in ('I', 'A', 't'):
            raise Unsupported("iterator %r" % (it[0],))
        return I(name, it, *call.args[1:], *(extra or ()))
    return f


IT = 'std::iter::Iterator::'
for n in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'flat_map', 'map_while'):
    M[IT + n] = adaptor(n)
M[IT + 'flat_map'] = adaptor('flatmap', extra=(NONE,))
M[IT + 'flatten'] = adaptor('flatten', extra=(NONE,))
M[IT + 'enumerate'] = adaptor('enumerate', extra=(('i', 0),))
M[IT + 'cloned'] = M[IT + 'copied'] = adaptor('cloned')
M[IT + 'take'] = adaptor('take')
M[IT + 'skip'] = adaptor('skip')
M[IT + 'step_by'] = adaptor('stepby')
M[IT + 'peekable'] = adaptor('peekable', extra=(NONE,))
M[IT + 'fuse'] = ident
M[IT + 'skip_while'] = adaptor('skip_while', extra=(FALSE,))
M[IT + 'take_while'] = adaptor('take_while', extra=(FALSE,))


@model(IT + 'rev')
def m_rev(eng, st, fr, call):
    it = call.args[0]
    if it[0] == 'I' and it[1] == 'ref':
        r, i, mut, pend = it[2]
        v = st.read(r[1], r[2])
        segs = as_seq(v)
        if i != ('i', 0):
            raise Unsupported("rev of partly consumed iterator")
        if v[0] == 'V':
            idx = []
            if all(s[0] == '1' for s in segs):
                return I('seq', ('V', tuple(('1', ('R', r[1], r[2] + (('e', ('seg', j)),)))
                                            for j in range(len(segs) - 1, -1, -1))))
            return I('revref', r, ('i', len(segs) - 1))
        return I('seq', ('V', as_seq(v)))
    if it[0] == 'I' and it[1] == 'seq':
        return I('seq', ('V', tuple(reversed(it[2][0][1]))))
    if it[0] == 'I' and it[1] in ('map', 'filter', 'cloned'):
        c2 = Call(call.f, [it[2][0]], call.dst, call.to, call.span, call.crate, call.fn)
        return ('I', it[1], (m_rev(eng, st, fr, c2),) + it[2][1:])
    if it[0] == 'A' and 'Range' in it[1]:
        lo, hi = it[3][0], it[3][1]
        if lo[0] == 'i' and hi[0] == 'i' and 'Inclusive' not in it[1]:
            return I('seq', ('V', tuple(('1', ('i', x)) for x in range(hi[1] - 1, lo[1] - 1, -1))))
    raise Unsupported("rev")


def as_iter(eng, st, x, call=None):
    """IntoIterator on an argument whose type is unknown here"""
    if x[0] == 'I':
        return x
    if x[0] == 'R':
        v = val(st, x)
        if v[0] == 'I':
            return I('byref', x)
        if v[0] == 'H':
            return I('href', vplace(st, x), ('i', 0), ('s', 'k' if v[1] == 'set' else 'kv'))
        if v[0] == 'V' or isterm(v):
            return I('ref', vplace(st, x), ('i', 0), FALSE, NONE)
    if x[0] == 'V':
        return I('seq', x)
    if x[0] == 'H':
        return I('hval', x, ('s', 'k' if x[1] == 'set' else 'kv'))
    if x[0] == 'A' and x[1] == OPT:
        return I('seq', ('V', tuple(('1', y) for y in x[3])))
    if x[0] == 'A' and ('Range' in x[1] or '::' in x[1]):
        return x
    if isterm(x):
        return I('seq', ('V', as_seq(x)))
    raise Unsupported("iterable %r" % (x[0],))


@model(IT + 'chain')
def m_chain(eng, st, fr, call):
    return I('chain', as_iter(eng, st, call.args[0]), as_iter(eng, st, call.args[1]))


@model(IT + 'zip')
def m_zip(eng, st, fr, call):
    return I('zip', as_iter(eng, st, call.args[0]), as_iter(eng, st, call.args[1]))


@model('std::iter::once')
def m_once(eng, st, fr, call):
    return I('seq', ('V', (('1', call.args[0]),)))


@model('std::iter::empty')
def m_emptyit(eng, st, fr, call):
    return I('seq', ('V', ()))


@model('std::iter::repeat')
def m_repeat(eng, st, fr, call):
    return I('repeat', call.args[0])


@native('nextof')
class NextOf(Nat):
    """cells: it -> returns ('T',(new iterator, Option item))"""

    def fin(self, eng, st, it, opt):
        eng.ret(st, ('T', (it, opt)))

    def step(self, eng, st, fr):
        it = self.c(st, fr, 'it')
        if it[0] == 'A' and it[1] in ('std::ops::Range', 'std::range::Range'):
            lo, hi = it[3]
            if lo[0] == 'i' and hi[0] == 'i' or True:
                less = st.compare(lo, hi, '<') if lo[0] in 'it' and hi[0] in 'it' else None
                if less is None:
                    raise Unsupported("range")
                if not less:
                    return self.fin(eng, st, it, NONE)
                if lo[0] == 'i' and hi[0] == 't' and lo[1] >= 3 or lo[0] == 't':
                    nx = T('rng', hi)    # some later index
                    if hastop(hi):
                        nx = TOP
                    return self.fin(eng, st, ('A', it[1], it[2], (TOP, hi)), some(lo))
                return self.fin(eng, st, ('A', it[1], it[2], (('i', lo[1] + 1), hi)), some(lo))
        if it[0] == 'A' and it[1].startswith('std::ops::RangeInclusive'):
            lo, hi = it[3][0], it[3][1]
            if lo[0] == 'i' and hi[0] == 'i':
                if lo[1] > hi[1]:
                    return self.fin(eng, st, it, NONE)
                return self.fin(eng, st, ('A', it[1], it[2], (('i', lo[1] + 1),) + it[3][1:]), some(lo))
            raise Unsupported("inclusive range")
        if isterm(it):
            it = I('seq', ('V', as_seq(it)))
        if it[0] != 'I':
            raise Unsupported("next of %r" % (it[0],))
        k, f = it[1], it[2]
        getattr(self, 'n_' + k)(eng, st, fr, k, f)

    # --- sources
    def take_seg(self, st, segs):
        """(remaining segs, item or None)"""
        if not segs:
            return segs, None
        s = segs[0]
        if s[0] == '1':
            return segs[1:], s[1]
        ts = sorted(s[1], key=repr)
        ch = nd(st, 'seg', ['done'] + list(range(len(ts))))
        if ch == 'done':
            return ('skip', segs[1:]), None
        x, fs = instantiate(st, ts[ch])
        st.facts.update(fs)
        return segs, x

    def n_seq(self, eng, st, fr, k, f):
        segs, x = self.take_seg(st, f[0][1])
        if x is None and segs and segs[0] == 'skip':
            self.s(st, fr, 'it', I('seq', ('V', segs[1])))
            return          # same frame again with the shorter sequence
        self.fin(eng, st, I('seq', ('V', segs)), NONE if x is None else some(x))

    def n_ref(self, eng, st, fr, k, f):
        r, i, mut, pend = f
        v = st.read(r[1], r[2])
        segs = as_seq(v)
        i = i[1]
        if v[0] != 'V':
            st.write(r[1], r[2], ('V', segs)) if mut == TRUE else None
        if pend[0] == 'A' and pend[2] == 1:
            # write back the element handed out last
            c = pend[3][0]
            t = generalise(st, st.mem[c[1]])
            newsegs = list(segs)
            acc = newsegs[i]
            # accumulated new templates live in a shadow segment directly after the old one
            newsegs[i] = ('M', acc[1], addtmpl(acc[2] if len(acc) > 2 else frozenset(), t))
            st.write(r[1], r[2], ('V', tuple(newsegs)))
            self.s(st, fr, 'it', I('ref', r, ('i', i), mut, NONE))
            return
        if i >= len(segs):
            return self.fin(eng, st, I('ref', r, ('i', i), mut, NONE), NONE)
        s = segs[i]
        if s[0] == '1':
            return self.fin(eng, st, I('ref', r, ('i', i + 1), mut, NONE),
                            some(('R', r[1], r[2] + (('e', ('seg', i)),))))
        ts = sorted(s[1], key=repr)
        ch = nd(st, 'seg', ['done'] + list(range(len(ts))))
        if ch == 'done':
            if mut == TRUE:
                newsegs = list(segs)
                newsegs[i] = ('M', s[2] if len(s) > 2 else frozenset())
                st.write(r[1], r[2], ('V', tuple(newsegs)))
            self.s(st, fr, 'it', I('ref', r, ('i', i + 1), mut, NONE))
            return
        x, fs = instantiate(st, ts[ch])
        st.facts.update(fs)
        if mut == TRUE:
            c = ('R', st.alloc(x), ())
            return self.fin(eng, st, I('ref', r, ('i', i), mut, some(c)), some(c))
        item = x if x[0] in ('t', 's', 'i') else ('R', ('X', x), ())
        self.fin(eng, st, I('ref', r, ('i', i), mut, NONE), some(item))

    def n_revref(self, eng, st, fr, k, f):
        r, i = f
        v = st.read(r[1], r[2])
        segs = as_seq(v)
        i = i[1]
        if i < 0:
            return self.fin(eng, st, I('revref', r, ('i', i)), NONE)
        s = segs[i]
        if s[0] == '1':
            return self.fin(eng, st, I('revref', r, ('i', i - 1)), some(('R', r[1], r[2] + (('e', ('seg', i)),))))
        ts = sorted(s[1], key=repr)
        ch = nd(st, 'seg', ['done'] + list(range(len(ts))))
        if ch == 'done':
            self.s(st, fr, 'it', I('revref', r, ('i', i - 1)))
            return
        x, fs = instantiate(st, ts[ch])
        st.facts.update(fs)
        item = x if x[0] in ('t', 's', 'i') else ('R', ('X', x), ())
        self.fin(eng, st, I('revref', r, ('i', i)), some(item))

    def n_hord(self, eng, st, fr, k, f):
        r, left, mode = f
        if not left[1]:
            return self.fin(eng, st, I('hord', r, left, mode), NONE)
        j = left[1][0][1]
        kr = ('R', r[1], r[2] + (('e', ('key', j)),))
        vr = ('R', r[1], r[2] + (('e', ('ent', j)),))
        self.fin(eng, st, I('hord', r, ('T', left[1][1:]), mode), some({'kv': ('T', (kr, vr)), 'v': vr, 'k': kr}[mode[1]]))

    def n_href(self, eng, st, fr, k, f):
        r, i, mode = f
        h = as_map(st.read(r[1], r[2]))
        if eng.hseed is not None and i == ('i', 0) and not h[3] and mode[1][-1] != '!':
            left = sorted(range(len(h[2])), key=lambda j: horder(eng.hseed, st, h[2][j][0]))
            return self.n_hord(eng, st, fr, 'hord', (r, ('T', tuple(('i', j) for j in left)), mode))
        if eng.anyorder and i[0] == 'i' and i[1] < 10 ** 6 and len(h[2]) <= 3:
            i = ('T', tuple(('i', j) for j in range(len(h[2]))))
        if i[0] == 'T':
            left = [x[1] for x in i[1]]
            alts = left + (['open'] if h[3] else [])
            if left:
                j = nd(st, 'pick', alts)
                if j != 'open':
                    kr = ('R', r[1], r[2] + (('e', ('key', j)),))
                    vr = ('R', r[1], r[2] + (('e', ('ent', j)),))
                    item = {'kv': ('T', (kr, vr)), 'v': vr, 'k': kr}[mode[1].strip('!')]
                    rest = ('T', tuple(x for x in i[1] if x[1] != j))
                    return self.fin(eng, st, I('href', r, rest, mode), some(item))
                return self.open_entries(eng, st, fr, h, mode, I('href', r, i, mode), None, True)
            return self.open_entries(eng, st, fr, h, mode, I('href', r, i, mode), I('href', r, ('i', 10 ** 6), mode), True)
        i = i[1]
        n = len(h[2])
        if i < n:
            kr = ('R', r[1], r[2] + (('e', ('key', i)),))
            vr = ('R', r[1], r[2] + (('e', ('ent', i)),))
            item = {'kv': ('T', (kr, vr)), 'v': vr, 'k': kr}[mode[1].strip('!')]
            return self.fin(eng, st, I('href', r, ('i', i + 1), mode), some(item))
        self.open_entries(eng, st, fr, h, mode, I('href', r, ('i', i), mode), I('href', r, ('i', 10 ** 6), mode), i < 10 ** 6)

    def open_entries(self, eng, st, fr, h, mode, it, itdone, more):
        if not h[3] or not more:
            return self.fin(eng, st, itdone, NONE)
        ts = sorted(h[3], key=repr)
        ch = nd(st, 'ent', (['done'] if itdone else []) + list(range(len(ts))))
        if ch == 'done':
            return self.fin(eng, st, itdone, NONE)
        t = ts[ch]
        if t[0] == 'base':
            o = st.other()
            kk, vv = T('key', t[1], o), T('vat', t[1], o)
        else:
            x, fs = instantiate(st, t)
            st.facts.update(fs)
            kk, vv = x[1] if x != TOP else (TOP, TOP)
            wrap = lambda y: y if y[0] in ('t', 's', 'i') else ('R', ('X', y), ())
            kk, vv = wrap(kk), wrap(vv)
        item = {'kv': ('T', (kk, vv)), 'v': vv, 'k': kk}[mode[1].strip('!')]
        self.fin(eng, st, it, some(item))

    def n_hval(self, eng, st, fr, k, f):
        h, mode = f
        j = 0
        if eng.hseed is not None and h[2] and mode[1][-1] != '!':
            j = min(range(len(h[2])), key=lambda j: horder(eng.hseed, st, h[2][j][0]))
        elif eng.anyorder and 1 <= len(h[2]) <= 3 and mode[1][-1] != '!':
            j = nd(st, 'pick', list(range(len(h[2]))) + (['open'] if h[3] else []))
        if h[2] and j != 'open':
            kk, vv = h[2][j]
            rest = ('H', h[1], h[2][:j] + h[2][j + 1:], h[3])
            item = {'kv': ('T', (kk, vv)), 'v': vv, 'k': kk}[mode[1].strip('!')]
            return self.fin(eng, st, I('hval', rest, mode), some(item))
        ts = sorted(h[3], key=repr)
        if not ts:
            return self.fin(eng, st, I('hval', h, mode), NONE)
        ch = nd(st, 'ent', (['done'] if not h[2] else []) + list(range(len(ts))))
        if ch == 'done':
            return self.fin(eng, st, I('hval', ('H', h[1], (), frozenset()), mode), NONE)
        t = ts[ch]
        if t[0] == 'base':
            o = st.other()
            kk, vv = T('key', t[1], o), T('vat', t[1], o)
        else:
            x, fs = instantiate(st, t)
            st.facts.update(fs)
            kk, vv = x[1] if x != TOP else (TOP, TOP)
        item = {'kv': ('T', (kk, vv)), 'v': vv, 'k': kk}[mode[1].strip('!')]
        self.fin(eng, st, I('hval', h, mode), some(item))

    def n_repeat(self, eng, st, fr, k, f):
        self.fin(eng, st, ('I', k, f), some(f[0]))

    # --- adaptors
    def inner(self, eng, st, fr, it):
        fr.bb = 1
        sub(eng, st, fr, 'nextof', {'it': it})

    def n_byref(self, eng, st, fr, k, f):
        r = vplace(st, f[0])
        if fr.bb == 0:
            return self.inner(eng, st, fr, st.read(r[1], r[2]))
        ni, o = self.c(st, fr, 'r')[1]
        st.write(r[1], r[2], ni)
        self.fin(eng, st, ('I', k, f), o)

    def n_map(self, eng, st, fr, k, f):
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            self.s(st, fr, 'ni', ni)
            if o == NONE:
                return self.fin(eng, st, ('I', k, (ni,) + f[1:]), NONE)
            self.s(st, fr, 'x', o[3][0])
            fr.bb = 2
            arg = o[3][0]
            if k in ('filter', 'take_while', 'skip_while', 'inspect'):
                if arg[0] != 'R' or True:
                    arg = ('R', (fr.fs, 'x'), ())
            return eng.nat_call(st, fr, f[1], [arg])
        ni, x, r = self.c(st, fr, 'ni'), self.c(st, fr, 'x'), self.c(st, fr, 'r')
        nit = ('I', k, (ni,) + f[1:])
        if k == 'map':
            return self.fin(eng, st, nit, some(r))
        if k == 'inspect':
            return self.fin(eng, st, nit, some(x))
        if k == 'filter':
            if st.truth(r):
                return self.fin(eng, st, nit, some(x))
        elif k == 'filter_map':
            v = val(st, r)
            if optvar(st, v) == 1:
                return self.fin(eng, st, nit, some(proj(v, (1, 0))))
        elif k == 'map_while':
            v = val(st, r)
            if optvar(st, v) == 1:
                return self.fin(eng, st, nit, some(proj(v, (1, 0))))
            return self.fin(eng, st, I('seq', ('V', ())), NONE)
        elif k == 'take_while':
            if st.truth(r):
                return self.fin(eng, st, nit, some(x))
            return self.fin(eng, st, I('seq', ('V', ())), NONE)
        elif k == 'skip_while':
            if not st.truth(r):
                return self.fin(eng, st, ni, some(x))
        # rejected: restart with the advanced iterator
        self.s(st, fr, 'it', nit)
        fr.bb = 0
        for q in ('ni', 'x', 'r'):
            st.mem.pop((fr.fs, q), None)

    n_filter = n_filter_map = n_take_while = n_skip_while = n_inspect = n_map_while = n_map

    def n_cloned(self, eng, st, fr, k, f):
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        if o != NONE:
            o = some(rd1(st, o[3][0]))
        self.fin(eng, st, ('I', k, (ni,)), o)

    def n_enumerate(self, eng, st, fr, k, f):
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        n = f[1]
        if o != NONE:
            x = o[3][0]
            o = some(('T', (n, x)))
            n2 = eng.binop(st, 'Add', n, ('i', 1))
            if n2[0] == 'i' and n2[1] > 3 and has_open(st, ni):
                n2 = T('lenge', 3, TOP)
            elif n2[0] == 't':
                n2 = T('lenge', n2[2] if n2[1] == 'lenge' and n2[2] <= 4 else 3, TOP)
            n = n2
        self.fin(eng, st, ('I', k, (ni, n)), o)

    def n_take(self, eng, st, fr, k, f):
        n = val(st, f[1])
        if fr.bb == 0:
            if n[0] == 'i':
                if n[1] <= 0:
                    return self.fin(eng, st, ('I', k, f), NONE)
            else:
                if nd(st, 'take', ['stop', 'go']) == 'stop':
                    return self.fin(eng, st, I('seq', ('V', ())), NONE)
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        self.fin(eng, st, ('I', k, (ni, ('i', n[1] - 1) if n[0] == 'i' else n)), o)

    def n_skip(self, eng, st, fr, k, f):
        n = val(st, f[1])
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        if o == NONE:
            return self.fin(eng, st, ni, NONE)
        if n[0] == 'i':
            if n[1] <= 0:
                return self.fin(eng, st, ni, o)
            self.s(st, fr, 'it', ('I', k, (ni, ('i', n[1] - 1))))
        else:
            if nd(st, 'skip', ['go', 'skip']) == 'go':
                return self.fin(eng, st, ni, o)
            self.s(st, fr, 'it', ('I', k, (ni, n)))
        fr.bb = 0

    def n_stepby(self, eng, st, fr, k, f):
        raise Unsupported("step_by")

    def n_chain(self, eng, st, fr, k, f):
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        if o == NONE:
            self.s(st, fr, 'it', f[1])
            fr.bb = 0
            return
        self.fin(eng, st, ('I', k, (ni, f[1])), o)

    def n_zip(self, eng, st, fr, k, f):
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                return self.fin(eng, st, I('seq', ('V', ())), NONE)
            self.s(st, fr, 'ni', ni)
            self.s(st, fr, 'x', o[3][0])
            fr.bb = 2
            return sub(eng, st, fr, 'nextof', {'it': f[1]})
        ni2, o2 = self.c(st, fr, 'r')[1]
        if o2 == NONE:
            return self.fin(eng, st, I('seq', ('V', ())), NONE)
        self.fin(eng, st, ('I', k, (self.c(st, fr, 'ni'), ni2)), some(('T', (self.c(st, fr, 'x'), o2[3][0]))))

    def n_peekable(self, eng, st, fr, k, f):
        if f[1] != NONE:
            return self.fin(eng, st, ('I', k, (f[0], NONE)), f[1][3][0])
        if fr.bb == 0:
            return self.inner(eng, st, fr, f[0])
        ni, o = self.c(st, fr, 'r')[1]
        self.fin(eng, st, ('I', k, (ni, NONE)), o)

    def n_flatten(self, eng, st, fr, k, f):
        # f = (outer, [fn], current inner iterator or NONE)
        cur = f[-1]
        if fr.bb == 0:
            if cur != NONE:
                fr.bb = 5
                return sub(eng, st, fr, 'nextof', {'it': cur[3][0]})
            return self.inner(eng, st, fr, f[0])
        if fr.bb == 5:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                self.s(st, fr, 'it', ('I', k, f[:-1] + (NONE,)))
                fr.bb = 0
                return
            return self.fin(eng, st, ('I', k, f[:-1] + (some(ni),)), o)
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                return self.fin(eng, st, ('I', k, (ni,) + f[1:]), NONE)
            self.s(st, fr, 'ni', ni)
            if k == 'flatmap':
                fr.bb = 2
                return eng.nat_call(st, fr, f[1], [o[3][0]])
            self.s(st, fr, 'r', o[3][0])
            fr.bb = 2
            return
        x = self.c(st, fr, 'r')
        x = flat_item(st, x)
        self.s(st, fr, 'it', ('I', k, (self.c(st, fr, 'ni'),) + f[1:-1] + (some(as_iter(eng, st, x)),)))
        fr.bb = 0

    n_flatmap = n_flatten


def flat_item(st, x):
    v = val(st, x)
    if v[0] == 'A' and v[1] == RES:
        return ('A', OPT, 1, v[3]) if v[2] == 0 else NONE
    return x


def has_open(st, it):
    from models2 import itlen
    try:
        return itlen(st, it) is None
    except Exception:
        return True


def run_next(eng, st, fr, call):
    """Iterator::next on a place holding an iterator"""
    a = call.args[0]
    r = vplace(st, a)
    v = st.read(r[1], r[2])
    if v is not None and v[0] == 'I' or v[0] == 'A' and 'Range' in v[1] or isterm(v):
        return push_nat(eng, st, fr, 'next', {'p': r}, call)
    return NotImplemented


M[IT + 'next'] = run_next


@native('next')
class Next(Nat):
    def step(self, eng, st, fr):
        r = self.c(st, fr, 'p')
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': st.read(r[1], r[2])})
        ni, o = self.c(st, fr, 'r')[1]
        st.write(r[1], r[2], ni)
        eng.ret(st, o)


@model('std::iter::Peekable::peek', 'std::iter::Peekable::next_if')
def m_peek(eng, st, fr, call):
    if call.key.endswith('next_if'):
        return NotImplemented
    return push_nat(eng, st, fr, 'peek', {'p': vplace(st, call.args[0])}, call)


@native('peek')
class Peek(Nat):
    def step(self, eng, st, fr):
        r = self.c(st, fr, 'p')
        it = st.read(r[1], r[2])
        if fr.bb == 0:
            if it[2][1] != NONE:
                o = it[2][1][3][0]
                return eng.ret(st, o if o == NONE else some(('R', r[1], r[2] + (1, (1, 0), (1, 0)))))
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': it[2][0]})
        ni, o = self.c(st, fr, 'r')[1]
        st.write(r[1], r[2], ('I', 'peekable', (ni, some(o))))
        eng.ret(st, o if o == NONE else some(('R', r[1], r[2] + (1, (1, 0), (1, 0)))))


def consumer(kind):
    def f(eng, st, fr, call):
        it = call.args[0]
        back = NONE
        if it[0] == 'R' and kind in ('any', 'all', 'find', 'position', 'nth', 'try_fold', 'find_map', 'try_for_each'):
            back = some(it)
        if it[0] == 'R':
            it = I('byref', it)
        elif it[0] == 'I' or it[0] == 'A' or isterm(it):
            pass
        else:
            raise Unsupported("consume %r" % (it[0],))
        cells = {'it': it, 'k': ('s', kind), 'acc': UNIT}
        a = call.args[1:]
        if kind == 'fold':
            cells['acc'], cells['f'] = a[0], a[1]
        elif kind == 'count':
            cells['acc'] = ('i', 0)
        elif kind in ('any', 'all', 'find', 'position', 'for_each', 'find_map', 'try_for_each', 'max_by', 'min_by',
                      'max_by_key', 'min_by_key', 'partition', 'reduce'):
            cells['f'] = a[0]
            cells['acc'] = ('i', 0) if kind == 'position' else NONE
        elif kind == 'nth':
            cells['acc'] = val(st, a[0])
        elif kind in ('last', 'max', 'min'):
            cells['acc'] = NONE
        elif kind == 'sum':
            t = tstr(eng, call, 1)
            d = default_of(t.lstrip('&'))
            if d is None:
                return NotImplemented
            cells['acc'] = d
        elif kind == 'collect':
            t = tstr(eng, call, 1)
            cells['t'] = ('s', t)
            b = coll_base(t)
            if b is None:
                return NotImplemented
            cells['acc'] = b
        return push_nat(eng, st, fr, 'consume', cells, call)
    return f


def coll_base(t):
    if t.startswith('std::vec::Vec') or t.startswith('std::collections::VecDeque') or t.startswith('std::boxed::Box<['):
        return ('V', ())
    if t.startswith(('std::collections::HashMap', 'std::collections::BTreeMap')):
        return ('H', 'map', (), frozenset())
    if t.startswith(('std::collections::HashSet', 'std::collections::BTreeSet')):
        return ('H', 'set', (), frozenset())
    if t.startswith('std::string::String'):
        return ('s', '')
    if t.startswith(('std::result::Result<', 'std::option::Option<')):
        return coll_base(t.split('<', 1)[1])
    return None


for n in ('fold', 'count', 'any', 'all', 'find', 'position', 'for_each', 'nth', 'last', 'collect', 'sum', 'find_map',
          'max', 'min', 'reduce', 'max_by', 'min_by', 'partition', 'max_by_key', 'min_by_key'):
    M[IT + n] = consumer(n)


@model('std::iter::Extend::extend')
def m_extend(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    it = as_iter(eng, st, call.args[1])
    ta, tb = tstr(eng, call, 0), tstr(eng, call, 1)
    if tb.startswith('&') and not re.match(r'[\w:]+<&|std::string::String', ta):
        it = I('cloned', it)
    t = 'std::vec::Vec' if v[0] == 'V' else 'std::string::String' if v[0] == 's' else \
        'std::collections::HashMap' if v[0] == 'H' and v[1] == 'map' else \
        'std::collections::HashSet' if v[0] == 'H' else tstr(eng, call)
    if v[0] in ('t', 'O'):
        if t.startswith('std::vec::Vec'):
            v = ('V', as_seq(v))
        elif 'Map' in t or 'Set' in t:
            v = as_map(v)
    return push_nat(eng, st, fr, 'consume', {'it': it, 'k': ('s', 'extend'), 'acc': v, 't': ('s', t), 'p': r}, call)


@native('consume', loop=True)
class Consume(Nat):
    def step(self, eng, st, fr):
        k = self.c(st, fr, 'k')[1]
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                return self.finish(eng, st, fr, k)
            x = o[3][0]
            acc = self.c(st, fr, 'acc')
            if k == 'fold' or k == 'reduce' and acc != NONE:
                self.adv(st, fr, ni)
                fr.bb = 2
                st.mem.pop((fr.fs, 'r'), None)
                return eng.nat_call(st, fr, self.c(st, fr, 'f'), [acc if k == 'fold' else acc[3][0], x])
            if k == 'reduce':
                self.s(st, fr, 'acc', some(x))
            elif k in ('any', 'all', 'for_each', 'position', 'find_map'):
                self.adv(st, fr, ni)
                fr.bb = 2
                return eng.nat_call(st, fr, self.c(st, fr, 'f'), [x])
            elif k in ('find', 'partition'):
                self.adv(st, fr, ni)
                self.s(st, fr, 'x', x)
                fr.bb = 2
                return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', (fr.fs, 'x'), ())])
            elif k == 'count':
                n = eng.binop(st, 'Add', acc, ('i', 1))
                if acc[0] == 'i' and osyms(st.deep(x)) and acc[1] >= 3:
                    n = T('lenge', 3, TOP)
                if acc[0] == 't':
                    n = T('lenge', min(acc[2] + 1, 6) if acc[1] == 'lenge' and not osyms(st.deep(x)) else 3, TOP)
                self.s(st, fr, 'acc', n)
            elif k == 'last':
                self.s(st, fr, 'acc', some(x))
            elif k == 'nth':
                if acc[0] == 'i':
                    if acc[1] == 0:
                        return eng.ret(st, some(x))
                    self.s(st, fr, 'acc', ('i', acc[1] - 1))
                else:
                    if nd(st, 'nth', ['this', 'later']) == 'this':
                        return eng.ret(st, some(x))
            elif k == 'sum':
                a, b = val(st, acc), val(st, x)
                self.s(st, fr, 'acc', padd(a, b) if a[0] == 'P' or b[0] == 'P' else eng.binop(st, 'Add', a, b))
            elif k in ('max', 'min'):
                if acc == NONE:
                    self.s(st, fr, 'acc', some(x))
                else:
                    gt = st.compare(st.deep(acc[3][0]), st.deep(x), '>' if k == 'max' else '<=')
                    self.s(st, fr, 'acc', acc if gt else some(x))
            elif k in ('max_by', 'min_by', 'max_by_key', 'min_by_key'):
                if acc == NONE or nd(st, k, ['keep', 'new']) == 'new':
                    self.s(st, fr, 'acc', some(x))
            elif k in ('collect', 'extend'):
                r = self.add(eng, st, fr, acc, x, self.c(st, fr, 't')[1])
                if r is not None:
                    return
            self.adv(st, fr, ni)
            fr.bb = 0
            st.mem.pop((fr.fs, 'r'), None)
            return
        r = self.c(st, fr, 'r')
        acc = self.c(st, fr, 'acc')
        if k == 'fold':
            self.s(st, fr, 'acc', r)
        elif k == 'reduce':
            self.s(st, fr, 'acc', some(r))
        elif k == 'any':
            if st.truth(r):
                return eng.ret(st, TRUE)
        elif k == 'all':
            if not st.truth(r):
                return eng.ret(st, FALSE)
        elif k == 'find':
            if st.truth(r):
                return eng.ret(st, some(self.c(st, fr, 'x')))
        elif k == 'find_map':
            v = val(st, r)
            if optvar(st, v) == 1:
                return eng.ret(st, some(proj(v, (1, 0))))
        elif k == 'partition':
            a = acc if acc != NONE else ('T', (('V', ()), ('V', ())))
            t = st.truth(r)
            l = list(a[1])
            j = 0 if t else 1
            l[j] = ('V', seq_push(st, l[j][1], self.c(st, fr, 'x')))
            self.s(st, fr, 'acc', ('T', tuple(l)))
        elif k == 'position':
            if st.truth(r):
                return eng.ret(st, some(acc))
            n = eng.binop(st, 'Add', acc, ('i', 1))
            if n[0] == 'i' and n[1] > 3 or n[0] == 't':
                n = T('lenge', 3, TOP)
            self.s(st, fr, 'acc', n)
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)
        st.mem.pop((fr.fs, 'x'), None)

    def adv(self, st, fr, ni):
        self.s(st, fr, 'it', ni)

    def finish(self, eng, st, fr, k):
        acc = self.c(st, fr, 'acc')
        if k in ('any',):
            return eng.ret(st, FALSE)
        if k == 'all':
            return eng.ret(st, TRUE)
        if k in ('find', 'find_map', 'position', 'nth'):
            return eng.ret(st, NONE)
        if k == 'for_each':
            return eng.ret(st, UNIT)
        if k == 'partition' and acc == NONE:
            acc = ('T', (('V', ()), ('V', ())))
        if k == 'extend':
            r = self.c(st, fr, 'p')
            st.write(r[1], r[2], acc)
            return eng.ret(st, UNIT)
        if k == 'collect':
            t = self.c(st, fr, 't')[1]
            if t.startswith('std::result::Result<'):
                acc = ok(acc)
            elif t.startswith('std::option::Option<'):
                acc = some(acc)
        eng.ret(st, acc)

    def add(self, eng, st, fr, acc, x, t):
        if t.startswith('std::result::Result<'):
            v = val(st, x)
            if optvar(st, v) == 1:
                eng.ret(st, err(proj(v, (1, 0))))
                return True
            return self.add(eng, st, fr, acc, proj(v, (0, 0)), t.split('<', 1)[1])
        if t.startswith('std::option::Option<'):
            v = val(st, x)
            if optvar(st, v) == 0:
                eng.ret(st, NONE)
                return True
            return self.add(eng, st, fr, acc, proj(v, (1, 0)), t.split('<', 1)[1])
        if acc[0] == 'V':
            self.s(st, fr, 'acc', ('V', seq_push(st, acc[1], x)))
        elif acc[0] == 'H':
            c = (fr.fs, 'acc')
            if acc[1] == 'map':
                kv = val(st, x)
                map_insert(st, ('R', c, ()), kv[1][0], kv[1][1])
            else:
                h = acc
                j = map_find(st, h, x)
                if j is None:
                    map_insert(st, ('R', c, ()), x, UNIT)
        else:
            self.s(st, fr, 'acc', cat(acc, st.deep(x)))
        return None


@model('std::vec::Vec::retain')
def m_retain(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    return push_nat(eng, st, fr, 'retain', {'it': I('seq', ('V', as_seq(v))), 'p': r, 'acc': ('V', ()),
                                            'f': call.args[1]}, call)


@native('retain', loop=True)
class Retain(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return sub(eng, st, fr, 'nextof', {'it': self.c(st, fr, 'it')})
        if fr.bb == 1:
            ni, o = self.c(st, fr, 'r')[1]
            if o == NONE:
                r = self.c(st, fr, 'p')
                st.write(r[1], r[2], self.c(st, fr, 'acc'))
                return eng.ret(st, UNIT)
            self.s(st, fr, 'it', ni)
            self.s(st, fr, 'x', o[3][0])
            fr.bb = 2
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [('R', (fr.fs, 'x'), ())])
        if st.truth(self.c(st, fr, 'r')):
            self.s(st, fr, 'acc', ('V', seq_push(st, self.c(st, fr, 'acc')[1], self.c(st, fr, 'x'))))
        fr.bb = 0
        st.mem.pop((fr.fs, 'r'), None)
        st.mem.pop((fr.fs, 'x'), None)


# ------------------------------------------------------------------ Option / Result
def otry(f):
    return f


@model('std::option::Option::is_some', 'std::option::Option::is_none', 'std::result::Result::is_ok',
       'std::result::Result::is_err')
def m_isvar(eng, st, fr, call):
    v = val(st, call.args[0])
    k = optvar(st, v)
    want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[call.key.rsplit('::', 1)[1]]
    return ('b', k == want)


@model('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::result::Result::as_ref')
def m_optref(eng, st, fr, call):
    v = val(st, call.args[0])
    k = optvar(st, v)
    if 'result' in call.key:
        r = vplace(st, call.args[0])
        return ('A', RES, k, (('R', r[1], r[2] + ((k, 0),)),))
    if k == 0:
        return NONE
    if v[0] == 't':
        return some(proj(v, (1, 0)))
    r = vplace(st, call.args[0])
    return some(('R', r[1], r[2] + ((1, 0),)))


@model('std::option::Option::as_deref', 'std::option::Option::as_deref_mut')
def m_asderef(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 0:
        return NONE
    x = proj(v, (1, 0))
    if x[0] == 'R' or x[0] in ('t', 's'):
        return some(x)
    r = vplace(st, call.args[0])
    return some(('R', r[1], r[2] + ((1, 0),)))


@model('std::option::Option::cloned', 'std::option::Option::copied')
def m_optcloned(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 0:
        return NONE
    return some(rd1(st, proj(v, (1, 0))))


@model('std::option::Option::unwrap', 'std::option::Option::expect')
def m_unwrap(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 0:
        raise Stop('panic', (call.key, call.span))
    return proj(v, (1, 0))


@model('std::result::Result::unwrap', 'std::result::Result::expect')
def m_runwrap(eng, st, fr, call):
    v = val(st, call.args[0])
    if optvar(st, v) == 1:
        raise Stop('panic', (call.key, call.span))
    return proj(v, (0, 0))


@model('std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
def m_unwrapor(eng, st, fr, call):
    v = val(st, call.args[0])
    g = 1 if 'option' in call.key else 0
    return proj(v, (g, 0)) if optvar(st, v) == g else call.args[1]


@model('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def m_unwrapdef(eng, st, fr, call):
    v = val(st, call.args[0])
    g = 1 if 'option' in call.key else 0
    if optvar(st, v) == g:
        return proj(v, (g, 0))
    d = default_of(tstr(eng, call))
    return NotImplemented if d is None else d


@model('std::result::Result::ok')
def m_resok(eng, st, fr, call):
    v = val(st, call.args[0])
    return some(proj(v, (0, 0))) if optvar(st, v) == 0 else NONE


@model('std::result::Result::err')
def m_reserr(eng, st, fr, call):
    v = val(st, call.args[0])
    return some(proj(v, (1, 0))) if optvar(st, v) == 1 else NONE


@model('std::option::Option::ok_or')
def m_okor(eng, st, fr, call):
    v = val(st, call.args[0])
    return ok(proj(v, (1, 0))) if optvar(st, v) == 1 else err(call.args[1])


@model('std::option::Option::take')
def m_opttake(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    st.write(r[1], r[2], NONE)
    return v


@model('std::option::Option::replace')
def m_optrepl(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    st.write(r[1], r[2], some(call.args[1]))
    return v


@model('std::option::Option::or')
def m_optor(eng, st, fr, call):
    v = val(st, call.args[0])
    return v if optvar(st, v) == 1 else call.args[1]


@model('std::option::Option::insert', 'std::option::Option::get_or_insert')
def m_optins(eng, st, fr, call):
    r, v = vget(st, call.args[0])
    if call.key.endswith('insert') and 'get_or' in call.key and optvar(st, v) == 1:
        pass
    else:
        st.write(r[1], r[2], some(call.args[1]))
    return ('R', r[1], r[2] + ((1, 0),))


@model('std::ops::Try::branch')
def m_branch(eng, st, fr, call):
    v = val(st, call.args[0])
    t = tstr(eng, call)
    k = optvar(st, v)
    CF = 'std::ops::ControlFlow'
    if t.startswith(OPT):
        return ('A', CF, 0, (proj(v, (1, 0)),)) if k == 1 else ('A', CF, 1, (NONE,))
    if t.startswith(RES):
        return ('A', CF, 0, (proj(v, (0, 0)),)) if k == 0 else ('A', CF, 1, (err(proj(v, (1, 0))),))
    return NotImplemented


@model('std::ops::FromResidual::from_residual')
def m_residual(eng, st, fr, call):
    t = tstr(eng, call)
    v = val(st, call.args[0])
    if t.startswith(OPT):
        return NONE
    if t.startswith(RES):
        e = proj(v, (1, 0))
        e1 = split_args(t)[1]
        e0 = split_args(tstr(eng, call, 1))
        e0 = e0[1] if len(e0) > 1 else e1
        if e0 == e1:
            return err(e)
        g = find_from(eng, call.crate, e0, e1)
        if g is not None:
            return push_nat(eng, st, fr, 'residual', {'g': ('fid', g.id), 'e': e}, call)
        return err(T('app', 'From<%s>' % e0, st.deep(e)))
    return NotImplemented


def split_args(t):
    """top-level generic arguments of a printed type"""
    i = t.index('<')
    out, d, cur = [], 0, ''
    for ch in t[i + 1:-1]:
        if ch == '<' or ch == '(' or ch == '[':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


@native('residual')
class Residual(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fn = eng.p.fns[self.c(st, fr, 'g')[1]]
            fr.bb = 1
            eng.push_fn(st, fr, fn, Call({"decl": fn.name}, [self.c(st, fr, 'e')], ((fr.fs, 'r'), ()), -1, '?',
                                         fn.crate, fn))
        else:
            eng.ret(st, err(self.c(st, fr, 'r')))


# higher-order Option/Result combinators: (method, which variant calls f, result builder)
class HO(Nat):
    def step(self, eng, st, fr):
        v = self.c(st, fr, 'v')
        m = self.c(st, fr, 'm')[1]
        if fr.bb == 0:
            o = m.startswith('o.')
            k = optvar(st, v)
            good = (k == 1) if o else (k == 0)
            x = proj(v, (k, 0)) if not (o and k == 0) else None
            n = m[2:]
            call_on_good = n in ('map', 'and_then', 'map_or', 'map_or_else', 'filter', 'is_some_and', 'is_ok_and',
                                 'inspect', 'is_none_or')
            if good and call_on_good:
                fr.bb = 1
                if n in ('filter', 'inspect'):
                    self.s(st, fr, 'x', x)
                    x = ('R', (fr.fs, 'x'), ())
                f = self.c(st, fr, 'f2') if n == 'map_or_else' else self.c(st, fr, 'f')
                return eng.nat_call(st, fr, f, [x])
            if good:
                r = {'map_err': v, 'or_else': v, 'unwrap_or_else': x, 'ok_or_else': ok(x) if x is not None else None,
                     'or': v}.get(n)
                return eng.ret(st, r)
            if n in ('map', 'and_then', 'filter', 'inspect'):
                return eng.ret(st, v)
            if n == 'map_or':
                return eng.ret(st, self.c(st, fr, 'd'))
            if n in ('is_some_and', 'is_ok_and'):
                return eng.ret(st, FALSE)
            if n == 'is_none_or':
                return eng.ret(st, TRUE)
            fr.bb = 2
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [] if o else [x])
        r = self.c(st, fr, 'r')
        o, n = m.startswith('o.'), m[2:]
        if fr.bb == 1:
            if n == 'map':
                return eng.ret(st, some(r) if o else ok(r))
            if n == 'filter':
                return eng.ret(st, v if st.truth(r) else NONE)
            if n == 'inspect':
                return eng.ret(st, v)
            return eng.ret(st, r)
        if n == 'map_err':
            return eng.ret(st, err(r))
        if n == 'ok_or_else':
            return eng.ret(st, err(r))
        eng.ret(st, r)


NATIVES['ho'] = HO()


def ho(m):
    def f(eng, st, fr, call):
        cells = {'v': val(st, call.args[0]), 'm': ('s', m)}
        if m.endswith('.map_or'):
            cells['d'], cells['f'] = call.args[1], call.args[2]
        elif m.endswith('.map_or_else'):
            cells['f'], cells['f2'] = call.args[1], call.args[2]
        else:
            cells['f'] = call.args[1]
        return push_nat(eng, st, fr, 'ho', cells, call)
    return f


for n in ('map', 'and_then', 'map_or', 'map_or_else', 'filter', 'is_some_and', 'or_else', 'unwrap_or_else',
          'ok_or_else', 'inspect', 'is_none_or'):
    M['std::option::Option::' + n] = ho('o.' + n)
for n in ('map', 'and_then', 'map_or', 'map_or_else', 'map_err', 'or_else', 'unwrap_or_else', 'is_ok_and', 'inspect'):
    M['std::result::Result::' + n] = ho('r.' + n)


@native('boolthen')
class BoolThen(Nat):
    def step(self, eng, st, fr):
        if fr.bb == 0:
            fr.bb = 1
            return eng.nat_call(st, fr, self.c(st, fr, 'f'), [])
        eng.ret(st, some(self.c(st, fr, 'r')))


@model('core::bool::then')
def m_boolthen(eng, st, fr, call):
    if not st.truth(val(st, call.args[0])):
        return NONE
    return push_nat(eng, st, fr, 'boolthen', {'f': call.args[1]}, call)


@model('core::bool::then_some')
def m_boolthensome(eng, st, fr, call):
    return some(call.args[1]) if st.truth(val(st, call.args[0])) else NONE


def fncall(eng, st, fr, call):
    a = call.args[1]
    args = list(a[1]) if a[0] == 'T' else [a]
    if isinstance(call.dst, tuple):
        d = call.dst
    else:
        c, p, _ = eng.place(st, fr, call.dst)
        d = (c, p)
    return eng.call_value(st, call.args[0], args, d, call.to, call.span, fr)


M['std::ops::FnOnce::call_once'] = M['std::ops::FnMut::call_mut'] = M['std::ops::Fn::call'] = fncall


# ------------------------------------------------------------------ formatting and output
def decode_template(bs):
    """new format_args template encoding -> list of literal strings and placeholders"""
    out, i, arg = [], 0, 0
    n = len(bs)
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + l]).decode('utf8', 'replace'))
            i += l
        else:
            spec = []
            if b & 1:
                spec.append(('fl', bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24))
                i += 4
            if b & 2:
                spec.append(('wi' if b & 16 else 'w', bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 4:
                spec.append(('pi' if b & 32 else 'p', bs[i] | bs[i + 1] << 8))
                i += 2
            if b & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append((arg, tuple(spec)))
            arg += 1
    return out


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug',
       'core::fmt::rt::Argument::from_usize', 'core::fmt::rt::Argument::new_lower_hex',
       'core::fmt::rt::Argument::new_lower_exp')
def m_arg(eng, st, fr, call):
    k = call.key.rsplit('_', 1)[1]
    ti = tinfo(eng, call)
    t = strip_ty(eng, call.crate, ti)["s"] if ti else 'usize'
    return T('arg', k, t, st.deep(call.args[0]))


def dispval(a):
    """piece of text for a formatted argument without options"""
    kind, t, v = a[2], a[3], a[4]
    if kind == 'display' and v[0] == 's':
        return v
    if kind == 'display' and v[0] == 'c':
        return ('s', v[1])
    if kind == 'display' and t in ('std::string::String', 'str') and isterm(v):
        return v
    if kind == 'display' and v[0] == 'i':
        return ('s', str(v[1]))
    if kind == 'display':
        return T('disp', v)
    return T('disp', kind, v)


@model('std::fmt::Arguments::new')
def m_args(eng, st, fr, call):
    tv = val(st, call.args[0])
    av = val(st, call.args[1])
    if tv[0] != 'V' or av[0] != 'V':
        raise Unsupported("format template")
    bs = [s[1][1] for s in tv[1]]
    args = [s[1] for s in av[1]]
    parts = []
    for p in decode_template(bs):
        if isinstance(p, str):
            parts.append(('s', p))
        else:
            i, spec = p
            a = val(st, args[i])
            d = dispval(a)
            if spec:
                sp = []
                for k, n in spec:
                    if k in ('wi', 'pi'):
                        w = val(st, args[n])
                        sp.append((k[0], w[4] if w[0] == 't' and w[1] == 'arg' else w))
                    else:
                        sp.append((k, ('i', n)))
                d = T('pad', tuple(sp), d)
            parts.append(d)
    return T('fmt', cat(*parts))


@model('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst')
def m_argsstr(eng, st, fr, call):
    return T('fmt', st.deep(call.args[0]))


@model('std::fmt::format', 'std::fmt::Arguments::to_string')
def m_format(eng, st, fr, call):
    v = val(st, call.args[0])
    return v[2] if v[0] == 't' and v[1] == 'fmt' else T('disp', v)


def printer(name):
    def f(eng, st, fr, call):
        v = val(st, call.args[0])
        eng.log(st, ('T', (('s', name), v[2] if v[0] == 't' and v[1] == 'fmt' else v)))
        return UNIT
    return f


M['std::io::_print'] = printer('print')
M['std::io::_eprint'] = lambda eng, st, fr, call: UNIT


@model('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str', 'std::fmt::Write::write_str',
       'std::fmt::Write::write_fmt')
def m_write(eng, st, fr, call):
    v = st.deep(call.args[1])
    eng.log(st, ('T', (('s', 'write'), v[2] if v[0] == 't' and v[1] == 'fmt' else v)))
    return ok(UNIT)


# colouring does not change the text that is reasoned about
def colour(eng, st, fr, call):
    return st.deep(call.args[0])


for n in ('blue', 'bold', 'bright_green', 'bright_red', 'cyan', 'normal', 'red', 'green', 'yellow', 'dimmed'):
    M['colored::Colorize::' + n] = colour

# deterministic functions kept uninterpreted on purpose
for k in ('regex::Regex::is_match', 'regex::Regex::new', 'regex::Regex::as_str', 'regex::Regex::captures',
          'regex::Captures::get', 'regex::Match::as_str', 'chrono::NaiveDate::from_ymd', 'core::str::parse',
          'std::str::FromStr::from_str', 'core::num::pow', 'num::rational::Ratio::fract', 'num::rational::Ratio::trunc',
          'num::rational::Ratio::numer', 'num::rational::Ratio::denom', 'num::rational::Ratio::round',
          'num::rational::Ratio::floor', 'num::rational::Ratio::ceil', 'num::rational::Ratio::to_integer',
          'std::any::type_name', 'terminal_size::terminal_size', 'chrono::Utc::now', 'chrono::DateTime::naive_local',
          'chrono::NaiveDateTime::date', 'lazy_static::lazy::Lazy::get', 'std::path::Path::parent',
          'std::path::Path::to_str', 'std::path::Path::exists', 'std::fs::read_to_string', 'glob::glob',
          'shellexpand::tilde', 'std::env::args', 'two_timer::parse', 'structopt::StructOpt::from_iter',
          'std::rc::Rc::ptr_eq', 'std::char::methods::is_alphabetic', 'std::char::methods::is_digit',
          'std::char::methods::is_ascii_digit', 'std::path::PathBuf::push', 'std::path::Path::join',
          'dinero::pest::iterators::Pair::as_rule', 'dinero::pest::iterators::Pair::as_str',
          'dinero::pest::iterators::Pair::into_inner', 'std::fs::canonicalize', 'std::path::Path::canonicalize',
          'chrono::NaiveDate::parse_from_str', 'chrono::NaiveDate::from_ymd_opt', 'chrono::Datelike::year',
          'chrono::Datelike::month', 'chrono::Datelike::day', 'num::traits::pow', 'num::pow', 'chrono::Local::now',
          'chrono::DateTime::date_naive', 'std::env::set_var', 'std::env::var', 'colored::control::set_override',
          'core::str::find', 'core::str::rfind', 'core::str::char_count', 'core::slice::binary_search',
          'std::string::String::truncate', 'dinero::pest::Parser::parse', 'std::error::Error::to_string'):
    PURE.add(k)
