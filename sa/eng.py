"""The interpreter proper: statements, calls, canonicalisation and the fixpoint exploration."""
import time
import re
from absint import *
from absint import Fork, Stop, Unsupported, Budget, Again

TRANSPARENT = ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique', 'core::ptr::NonNull',
               'std::mem::MaybeUninit', 'core::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::ManuallyDrop',
               'std::mem::maybe_dangling::MaybeDangling', 'core::mem::MaybeDangling')


def strip_generics(p):
    out, d, i = [], 0, 0
    # remove ::<...> groups (balanced), keep leading <T as Trait> forms
    while i < len(p):
        if d == 0 and p.startswith('::<', i):
            d = 1
            i += 3
            continue
        c = p[i]
        if d > 0:
            if c == '<':
                d += 1
            elif c == '>' and p[i - 1] != '-':
                d -= 1
        else:
            out.append(c)
        i += 1
    return ''.join(out)


_sg = {}


def key_of(p):
    r = _sg.get(p)
    if r is None:
        r = _sg[p] = strip_generics(p)
    return r


CALLS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')


class Call:
    __slots__ = ("f", "key", "defkey", "args", "dst", "to", "span", "crate", "fn", "tys")

    def __init__(self, f, args, dst, to, span, crate, fn, tys=()):
        self.f, self.args, self.dst, self.to, self.span, self.crate, self.fn, self.tys = \
            f, args, dst, to, span, crate, fn, tys
        self.key = key_of(f.get("decl", "?"))
        self.defkey = f.get("def", f.get("decl", "?"))


PUSHED = object()


BOOLT = ('ord', 'sgn', 'not', 'and', 'or', 'xor', 'pred')


class Engine:
    num_binop = None        # arithmetic on open machine integers (display.py)

    def __init__(self, prog, models, natives, overrides=None, max_states=60000, recursion=3):
        self.p = prog
        self.models = models
        self.natives = natives
        self.overrides = overrides or []
        self.max_states = max_states
        self.recursion = recursion
        self.outcomes = []
        self.nstates = 0
        self.nsteps = 0
        self.max_steps, self.probe, self.half, self.stuck, self.cut, self.nforks = None, None, None, None, None, 0
        self.fns_seen = set()
        self.opaque = {}
        self.unsupported = []
        self.unmodelled = set()
        self.pure = set()
        self.widen = None

    # ---------------------------------------------------------------- types
    anyorder = False
    hseed = None          # if set: hash collections are visited in the order this seed gives
    unordered = False     # an ordered map was iterated without knowing the order of its keys
    intmax = 40       # counters beyond this are abstracted to 'at least'

    def ty(self, fn, i):
        return self.p.types[fn.crate][i]

    def elem_ty(self, fn, ti):
        t = self.ty(fn, ti)
        if t["k"] in ("ref", "rawptr", "slice", "array"):
            return t["elem"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return None

    # ---------------------------------------------------------------- places
    def place(self, st, fr, p):
        """-> (cell, path, tyid)"""
        fn = fr.fn
        cell, path, ti = (fr.fs, p[0]), (), fn.locals[p[0]]
        dv = None
        for e in p[1:]:
            if e == '*':
                v = st.read(cell, path)
                if v is None:
                    raise Unsupported("deref of uninit")
                ti = self.elem_ty(fn, ti)
                if v[0] == 'R':
                    cell, path = v[1], v[2]
                elif v[0] == 'U':
                    pass
                else:
                    cell, path = ('X', v), ()
            elif e == 'oc':
                pass
            elif e[0] == 'f':
                t = self.ty(fn, ti) if ti is not None else None
                if t is not None and dv is None and t["k"] == "adt" and key_of(t["def"]) in TRANSPARENT:
                    ti = e[2]
                    continue
                step = e[1] if dv is None else (dv, e[1])
                dv = None
                path = path + (step,)
                ti = e[2]
            elif e[0] == 'd':
                dv = e[1]
            elif e[0] == 'i':
                v = st.read((fr.fs, e[1]))
                path = path + (('e', v[1] if v[0] == 'i' else None),)
                ti = self.elem_ty(fn, ti)
            elif e[0] == 'ci':
                v = st.read(cell, path)
                if e[2]:
                    if v[0] == 'V' and all(s[0] == '1' for s in v[1]):
                        path = path + (('e', len(v[1]) - e[1]),)
                    else:
                        path = path + (('e', None),)
                else:
                    path = path + (('e', e[1]),)
                ti = self.elem_ty(fn, ti)
            elif e[0] == 'ss':
                v = st.read(cell, path)
                if v is None or v[0] != 'V' or any(s[0] != '1' for s in v[1]):
                    raise Unsupported("subslice of an open sequence")
                hi = len(v[1]) - e[2] if e[3] else e[2]
                cell, path = st.alloc(('V', v[1][e[1]:hi])), ()
            else:
                raise Unsupported("place %r" % (e,))
        return cell, path, ti

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            c, p, _ = self.place(st, fr, o[1])
            v = st.read(c, p)
            if v is None:
                raise Unsupported("uninit operand in %s" % fr.fn.name)
            return v
        if o[0] == 'k':
            return self.const(st, fr.fn, o[1]["v"], o[1]["ty"])
        return ('b', False)   # runtime checks

    def const(self, st, fn, v, ti):
        k = v[0]
        t = self.ty(fn, ti)
        if k == 'bool':
            return ('b', v[1])
        if k == 'char':
            return ('c', v[1])
        if k == 'int':
            return ('i', int(v[1]))
        if k == 'str':
            return ('s', v[1])
        if k == 'zst':
            if t["k"] == "fndef":
                return ('F', fn.crate, ti)
            if t["k"] == "closure":
                return ('C', (fn.crate, t["inst"]), ())
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                return ('A', t["def"], 0, ())
            return UNIT
        if k == 'ref':
            inner = self.const(st, fn, v[1], t["elem"]) if v[1][0] != 'arr' else \
                ('V', tuple(('1', self.const(st, fn, x, self.elem_ty(fn, t["elem"]))) for x in v[1][1]))
            return ('R', ('X', inner), ())
        if k == 'arr':
            e = t.get("elem")
            return ('V', tuple(('1', self.const(st, fn, x, e)) for x in v[1]))
        if k == 'tuple':
            return ('T', tuple(self.const(st, fn, x, e) for x, e in zip(v[1], t["elems"])))
        if k == 'adt':
            fs = t["variants"][v[1]]["fields"]
            return ('A', t["def"], v[1], tuple(self.const(st, fn, x, f[1]) for x, f in zip(v[2], fs)))
        if k == 'fn':
            return ('C', (fn.crate, v[2]), ()) if v[2] is not None else T('fnptr', v[1])
        if k == 'static':
            return T('static', v[1])
        return T('const', str(v[1])[:200])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'addr'):
            pl = r[2] if k == 'ref' else r[1]
            c, p, _ = self.place(st, fr, pl)
            if c[0] == 'X' and not p and c not in st.mem and c[1][0] in ('s', 't', 'P') :
                return c[1]      # &*term is the term itself
            return ('R', c, p)
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'tuple':
                return ('T', tuple(ops))
            if kind[0] == 'array':
                return ('V', tuple(('1', o) for o in ops))
            if kind[0] == 'adt':
                t = self.ty(fr.fn, kind[1])
                return ('A', t["def"], kind[2], tuple(ops))
            if kind[0] == 'closure':
                t = self.ty(fr.fn, kind[1])
                return ('C', (fr.fn.crate, t["inst"]), tuple(ops))
            if kind[0] == 'rawptr':
                return ops[0]
            raise Unsupported("aggregate")
        if k == 'discr':
            c, p, ti = self.place(st, fr, r[1])
            v = st.read(c, p)
            return self.discr(st, fr.fn, v, ti)
        if k in ('bin', 'chk'):
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            v = self.binop(st, r[1], a, b)
            if k == 'chk':
                ov = FALSE
                if v[0] == 'i':
                    w = self.wrap(fr.fn, r[2], v[1])
                    ov = ('b', w != v[1])
                    v = ('i', w)
                return ('T', (v, ov))
            if v[0] == 'i' and r[1] != 'Offset':
                v = ('i', self.wrap(fr.fn, r[2], v[1]))
            return v
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if a[0] == 'i':
                    return ('i', self.wrap(fr.fn, r[2], ~a[1]))
                return self.bnot(a)
            if r[1] == 'Neg':
                return ('i', -a[1]) if a[0] == 'i' else T('neg', a)
            if r[1] == 'PtrMetadata':
                return self.seqlen(st, st.load(a))
            raise Unsupported("unop")
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            if r[1] == 'IntToInt':
                if v[0] == 'c':
                    if v[1] in OPENC:
                        raise Unsupported("code of an open character")
                    return ('i', ord(v[1]))
                if v[0] == 'b':
                    return ('i', int(v[1]))
                if v[0] == 'i':
                    t = self.ty(fr.fn, r[3])
                    if t["k"] == 'char' or t["s"] == 'char':
                        return ('c', chr(v[1]))
                    return ('i', wrapint(t["s"], v[1]))
                if v[0] == 't' and r[1] == 'IntToInt' and hastop(v):
                    return TOP
            if 'Float' in r[1]:
                return T('float', st.deep(v))
            return v
        if k == 'len':
            c, p, _ = self.place(st, fr, r[1])
            return self.seqlen(st, st.read(c, p))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 8:
                return ('V', tuple(('1', v) for _ in range(n)))
            return ('V', (('M', frozenset([generalise(st, v)])),))
        raise Unsupported("rvalue %s" % k)

    def wrap(self, fn, o, n):
        """n as a value of the operand's integer type"""
        return wrapint(self.oty(fn, o), n)

    def oty(self, fn, o):
        try:
            if o[0] in ('c', 'm'):
                ti = fn.locals[o[1][0]]
                for e in o[1][1:]:
                    if e == '*':
                        ti = self.elem_ty(fn, ti)
                    elif isinstance(e, list) and e[0] == 'f':
                        ti = e[2]
                    elif isinstance(e, list) and e[0] in ('i', 'ci'):
                        ti = self.elem_ty(fn, ti)
                return self.ty(fn, ti)["s"]
            return self.ty(fn, o[1]["ty"])["s"]
        except Exception:
            return ''

    def is_uint(self, fn, o):
        if o[0] in ('c', 'm'):
            try:
                ti = fn.locals[o[1][0]]
                for e in o[1][1:]:
                    if e == '*':
                        ti = self.elem_ty(fn, ti)
                    elif isinstance(e, list) and e[0] == 'f':
                        ti = e[2]
                return self.ty(fn, ti)["k"] == "uint"
            except Exception:
                return False
        return self.ty(fn, o[1]["ty"])["k"] == "uint"

    def bnot(self, a):
        if a[0] == 'b':
            return ('b', not a[1])
        if a[0] == 't' and a[1] == 'not':
            return a[2]
        return T('not', a)

    def seqlen(self, st, v):
        if v is None:
            return TOP
        if v[0] == 'V':
            if all(s[0] == '1' for s in v[1]):
                return ('i', len(v[1]))
            n = sum(1 for s in v[1] if s[0] == '1')
            return T('lenge', n, TOP)
        if v[0] == 'H':
            if not v[3]:
                return ('i', len(v[2]))
            return T('lenge', len(v[2]), TOP)
        if v[0] == 's':
            return ('i', len(v[1].encode()))
        return T('len', v)

    def discr(self, st, fn, v, ti):
        t = self.ty(fn, ti)
        vs = t.get("variants")
        if v is None:
            raise Unsupported("discriminant of uninit")
        if v[0] == 'A':
            if v[1] == 'Entry':
                import models2
                return ('i', models2.entry_variant(self, st, v, 'btree' in t["s"].lower()))
            return ('i', vs[v[2]]["discr"]) if vs else ('i', v[2])
        if isterm(v):
            if vs is None:
                raise Unsupported("variants of %s" % t["s"])
            return ('i', vs[st.variant(v, len(vs))]["discr"])
        raise Unsupported("discriminant of %r" % (v[0],))

    CMP = {'Eq': '=', 'Ne': '<>', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}

    def binop(self, st, op, a, b):
        if self.num_binop is not None:
            r = self.num_binop(self, st, op, a, b)
            if r is not None:
                return r
        if op in self.CMP:
            if a[0] == 'R' or b[0] == 'R':
                return TRUE if a == b else T('ptreq', st.deep(a), st.deep(b))
            for x, y, fl in ((a, b, False), (b, a, True)):
                if x[0] == 't' and x[1] == 'lenge' and y[0] == 'i':
                    r = self.lenge(op, x[2], y[1], fl)
                    if r is not None:
                        return ('b', r)
            if op not in ('Eq', 'Ne') and a[0] == 'c' and b[0] == 'c' and (a[1] in OPENC or b[1] in OPENC):
                return self.opencmp(op, a[1], b[1])
            truth = frozenset(self.CMP[op])
            if a[0] == 'b' and b[0] == 't':
                a, b = b, a
            if b[0] == 'b' and a[0] == 't' and op in ('Eq', 'Ne'):
                r = a if b[1] == (op == 'Eq') else self.bnot(a)
                return r
            pos = st.order(a, b)
            if not (hastop(a) or hastop(b)):
                if pos <= truth:
                    return TRUE
                if not (pos & truth):
                    return FALSE
            return T('ord', truth, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (a[0] == 'b' or b[0] == 'b' or a[0] == 't'):
            # conditions on one of many elements are decided at once, so that loops have finitely many states
            if a[0] == 't' and a[1] in BOOLT and osyms(a):
                a = ('b', st.truth(a))
            if b[0] == 't' and b[1] in BOOLT and osyms(b):
                b = ('b', st.truth(b))
            if a[0] == 'b' and b[0] == 'b':
                return ('b', {'BitAnd': a[1] and b[1], 'BitOr': a[1] or b[1], 'BitXor': a[1] != b[1]}[op])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'b':
                    if op == 'BitAnd':
                        return y if x[1] else FALSE
                    if op == 'BitOr':
                        return TRUE if x[1] else y
                    return self.bnot(y) if x[1] else y
            return T({'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            o = op.replace('Unchecked', '')
            if o == 'Add':
                return self.sat(x + y)
            if o == 'Sub':
                return ('i', x - y)
            if o == 'Mul':
                return ('i', x * y)
            if o == 'Div' and y:
                return ('i', x // y if x * y >= 0 else -(-x // y))
            if o == 'Rem' and y:
                return ('i', abs(x) % abs(y) * (-1 if x < 0 else 1))
            if o == 'BitAnd':
                return ('i', x & y)
            if o == 'BitOr':
                return ('i', x | y)
            if o == 'BitXor':
                return ('i', x ^ y)
            if o == 'Shr' and 0 <= y < 128:
                return ('i', x >> y)
            if o == 'Shl' and 0 <= y < 128:
                return ('i', x << y)
            if o == 'Cmp':
                return ('A', 'std::cmp::Ordering', 0 if x < y else 1 if x == y else 2, ())
            return T('bin', o, a, b)
        if op == 'Cmp':
            return T('cmp', st.deep(a), st.deep(b))
        if op == 'Offset':
            return a
        o = op.replace('Unchecked', '')
        if o == 'Add' and b == ('i', 0):
            return a
        if a[0] == 't' and a[1] == 'lenge' and b[0] == 'i' and o == 'Add':
            return T('lenge', min(a[2] + b[1], 9), TOP)
        if a[0] == 't' and a[1] == 'lenge' and b[0] == 'i' and o == 'Sub' and a[2] >= b[1]:
            return T('lenge', a[2] - b[1], TOP)
        if (a[0] == 't' and a[1] == 'lenge') or (b[0] == 't' and b[1] == 'lenge'):
            return TOP
        return T('bin', o, a, b)

    def opencmp(self, op, a, b):
        if b in OPENC:
            return self.opencmp({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op], b, a)
        lo, hi = ('0', '9') if a in DIGS else ('A', 'z') if a in LET1 else ('\u0080', '\u07ff') if a in LET2 else ('\u0800', '\uffff')
        if b in OPENC:
            raise Unsupported("ordering of open characters")
        t = {'Lt': (hi < b, lo >= b), 'Le': (hi <= b, lo > b), 'Gt': (lo > b, hi <= b), 'Ge': (lo >= b, hi < b)}[op]
        if not any(t):
            raise Unsupported("ordering of an open character")
        return ('b', t[0])

    def sat(self, n):
        return ('i', n) if n <= self.intmax or n > 1000 else T('lenge', self.intmax, TOP)

    def lenge(self, op, lo, n, flip):
        if flip:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        # value >= lo, compared with n
        if op == 'Gt' and lo > n or op == 'Ge' and lo >= n or op == 'Ne' and lo > n:
            return True
        if op == 'Lt' and lo >= n or op == 'Le' and lo > n or op == 'Eq' and lo > n:
            return False
        return None

    # ---------------------------------------------------------------- stepping
    def log(self, st, ev):
        """append an event to the state's event log"""
        v = st.mem.get(OUT, ('V', ()))
        st.mem[OUT] = ('V', seq_push(st, v[1], ev))

    def start(self, fn, args, st=None):
        st = st or St()
        fr = Frame(fn, 0, 0, ('l', st.fresh()), None, None)
        for i, a in enumerate(args):
            st.mem[(fr.fs, i + 1)] = a
        st.frames.append(fr)
        return st

    deadline = None

    def explore(self, init):
        seen = set()
        work = list(init)
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget("more than %d states" % self.max_states)
            if self.deadline and time.time() > self.deadline:
                raise Budget("out of time")
            while True:
                fr = st.frames[-1]
                self.nsteps += 1
                if self.max_steps and self.nsteps > self.max_steps:
                    if self.probe is None or self.nsteps > 2 * self.max_steps:
                        self.stuck = (self.where(st), self.probe and self.probe(st))
                        raise Budget("more than %d steps" % (self.max_steps * (2 if self.probe else 1)))
                    if self.half is None:
                        self.half = self.probe(st)
                bb0 = fr.bb
                try:
                    if fr.nat is not None:
                        if fr.bb == 0 and fr.idx == 0 and self.natives[fr.nat].loop:
                            if self.visited(st, seen):
                                self.cut = self.where(st)
                                break
                        self.natives[fr.nat].step(self, st, fr)
                    else:
                        if fr.idx == 0 and (fr.bb in fr.fn.heads or len(fr.fn.preds[fr.bb]) > 1):
                            if self.visited(st, seen):
                                self.cut = self.where(st)
                                break
                        self.step(st, fr)
                except Fork as f:
                    self.nforks += 1
                    if fr.nat is not None:
                        fr.bb = bb0
                    for a in f.alts:
                        s2 = st.copy()
                        s2.facts.update(a)
                        if any(k[0] == 'once' for k in a):
                            s2.steps = 1
                        work.append(s2)
                    break
                except Stop as e:
                    self.outcomes.append((e.kind, e.info, st))
                    break
                except Unsupported as e:
                    self.unsupported.append((str(e), self.where(st)))
                    break
                except Again:
                    pass
                if st.steps:
                    for k in [k for k in st.facts if k[0] == 'once']:
                        del st.facts[k]
                    st.steps = 0
        return self.outcomes

    def where(self, st):
        fr = st.frames[-1]
        for f in reversed(st.frames):
            if f.nat is None and f.fn.local:
                b = f.fn.blocks[f.bb]
                return "%s (%s)" % (b["t"].get("span"), f.fn.name)
        return "?"

    def step(self, st, fr):
        b = fr.fn.blocks[fr.bb]
        stmts = b["s"]
        while fr.idx < len(stmts):
            s = stmts[fr.idx]
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                c, p, _ = self.place(st, fr, s[1])
                st.write(c, p, v)
            elif s[0] == 'sd':
                c, p, ti = self.place(st, fr, s[1])
                t = self.ty(fr.fn, ti)
                nf = len(t["variants"][s[2]].get("fields", ()))
                st.write(c, p, ('A', t["def"], s[2], (None,) * nf))
            elif s[0] == 'copynonoverlapping':
                raise Unsupported("copy_nonoverlapping")
            fr.idx += 1
            if st.steps:
                for k in [k for k in st.facts if k[0] == 'once']:
                    del st.facts[k]
                st.steps = 0
        t = b["t"]
        k = t["t"]
        if k == 'goto' or k == 'drop':
            fr.bb, fr.idx = t["to"], 0
        elif k == 'switch':
            v = self.operand(st, fr, t["on"])
            fr.bb, fr.idx = self.switch(st, v, t), 0
        elif k == 'call':
            self.do_call(st, fr, t)
        elif k == 'return':
            v = st.get((fr.fs, 0))
            self.ret(st, UNIT if v is None else v)
        elif k == 'assert':
            v = self.operand(st, fr, t["on"])
            if v[0] == 'b' and v[1] != t["exp"]:
                raise Stop('panic', (t["msg"], t["span"]))
            fr.bb, fr.idx = t["to"], 0
        elif k == 'unreachable':
            raise Stop('unreachable')
        else:
            raise Stop('panic', (k, t.get("span")))

    def switch(self, st, v, t):
        if v[0] in ('i', 'b', 'c'):
            n = ord(v[1]) if v[0] == 'c' else int(v[1])
            if v[0] == 'c' and v[1] in OPENC:
                for bv, to in t["br"]:
                    tested(v[1], chr(int(bv)))
                return t["else"]
            for bv, to in t["br"]:
                bv = int(bv)
                if bv == n or (n < 0 and any(n & ((1 << w) - 1) == bv for w in (8, 16, 32, 64, 128))):
                    return to
            return t["else"]
        if v[0] == 't':
            if v[1] == 'lenge':
                alts = [(int(bv), to) for bv, to in t["br"] if int(bv) >= v[2]]
                o = st.facts.get(('once', 'sw'))
                if o is not None:
                    return o
                raise Fork([{('once', 'sw'): to} for _, to in alts] + [{('once', 'sw'): t["else"]}])
            isb = v[1] in ('not', 'and', 'or', 'ord', 'sgn', 'ptreq', 'xor', 'pred') or \
                (len(t["br"]) == 1 and t["br"][0][0] == "0")
            if isb:
                r = st.truth(v)
                for bv, to in t["br"]:
                    if int(bv) == int(r):
                        return to
                return t["else"]
            if hastop(v):
                o = st.facts.get(('once', 'sw'))
                if o is not None:
                    return o
                raise Fork([{('once', 'sw'): to} for to in sorted(set([x[1] for x in t["br"]] + [t["else"]]))])
            f = st.facts.get(('v', v))
            if f is not None:
                n = ord(f) if isinstance(f, str) and len(f) == 1 else int(f)
                for bv, to in t["br"]:
                    if int(bv) == n:
                        return to
                return t["else"]
            ex = st.facts.get(('nv', v), frozenset())
            alts = []
            vals = []
            ischar = None
            for bv, to in t["br"]:
                n = int(bv)
                vals.append(n)
                if n in ex or chr_(n) in ex:
                    continue
                alts.append({('v', v): n})
            if not alts:
                return t["else"]
            if set(vals) <= set(x if isinstance(x, int) else ord(x) for x in ex):
                return t["else"]
            if t["else"] is not None:
                alts.append({('nv', v): ex | frozenset(vals)})
            raise Fork(alts)
        raise Unsupported("switch on %r" % (v[0],))

    def ret(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            raise Stop('return', v)
        caller = st.frames[-1]
        if caller.nat is not None:
            st.mem[(caller.fs, 'r')] = v
        else:
            c, p = fr.dst
            st.write(c, p, v)
            if fr.tgt is None:
                raise Stop('diverge')
            caller.bb, caller.idx = fr.tgt, 0
        for k in [k for k in st.mem if k[0] == fr.fs]:
            pass   # collected by gc (references into it cannot outlive it)

    def assign(self, st, fr, call, v):
        c, p, _ = self.place(st, fr, call.dst) if not isinstance(call.dst, tuple) else (call.dst[0], call.dst[1], None)
        st.write(c, p, v)
        if call.to is None:
            raise Stop('diverge', call.key)
        fr.bb, fr.idx = call.to, 0

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, t):
        args = [self.operand(st, fr, o) for o in t["args"]]
        f = t["f"]
        if "ptr" in f:
            fv = self.operand(st, fr, f["ptr"])
            c, p, _ = self.place(st, fr, t["dst"])
            r = self.call_value(st, fv, args, (c, p), t["to"], t["span"], fr)
            if r is not PUSHED:
                self.assign(st, fr, Call({"decl": "fnptr"}, args, t["dst"], t["to"], t["span"], fr.fn.crate, fr.fn), r)
            return
        call = Call(f, args, t["dst"], t["to"], t["span"], fr.fn.crate, fr.fn, t["args"])
        r = self.dispatch(st, fr, call)
        if r is not PUSHED:
            self.assign(st, fr, call, r)

    def dispatch(self, st, fr, call):
        for pat, h in self.overrides:
            if pat(call):
                r = h(self, st, fr, call)
                if r is not NotImplemented:
                    return r
        m = self.models.get(call.key)
        f = call.f
        inst = f.get("inst")
        local = f.get("krate") == "dinero" and inst is not None
        if m is not None and (not local or call.key in CALLS):
            r = m(self, st, fr, call)
            if r is not NotImplemented:
                return r
        if m is not None and local and getattr(m, 'force', False):
            r = m(self, st, fr, call)
            if r is not NotImplemented:
                return r
        if inst is not None:
            fn = self.p.fns[(call.crate, inst)]
            if fn.blocks and (local or self.std_ok(fn)):
                if sum(1 for x in st.frames if x.nat is None and x.fn is fn) < self.recursion:
                    return self.push_fn(st, fr, fn, call)
        if inst is None and f.get("krate") == "dinero" and call.args and call.key.count('::') >= 2:
            # a call through a trait object: the value says which implementation
            v = st.load(call.args[0])
            if v is not None and v[0] == 'A':
                import models2
                tr, me = call.key.split('::')[-2:]
                g = models2.impl_of(self, v[1], tr, me) or self.default_method(call.key, v[1])
                if g is not None:
                    return self.push_fn(st, fr, g, call)
            self.unmodelled.add(call.key)
        if key_panics(call.key):
            raise Stop('panic', (call.key, call.span))
        return self.opaque_call(st, fr, call)

    def default_method(self, key, adt):
        c = [f for f in self.p.fns.values() if f.local and f.blocks and key_of(f.name) == key or f.local and f.blocks and strip_generics(f.name) == key]
        return c[0] if len(c) == 1 else None

    STD_OK = ('std::option::', 'std::result::', 'core::option::', 'core::result::', 'std::cmp::', 'std::convert::',
              'std::ops::', 'std::mem::', 'core::bool', 'std::borrow::')

    def std_ok(self, fn):
        d = fn.defn.lstrip('<&')
        if any(d.startswith(x) for x in self.STD_OK):
            return True
        return False

    fn_over = ()

    def fn_handler(self, fn):
        c = self.__dict__.setdefault('_fnh', {})
        if fn.id not in c:
            c[fn.id] = next((h for r, h in self.fn_over if r.search(fn.name)), None)
        return c[fn.id]

    def push_fn(self, st, fr, fn, call):
        h = self.fn_handler(fn)
        if h is not None:
            v = h(self, st, fr, call.args)
            if v is not NotImplemented:
                self.fns_seen.add(fn.name)
                if call.to == -1 and isinstance(call.dst, tuple):
                    st.write(call.dst[0], call.dst[1], v)
                return v
        if isinstance(call.dst, tuple):
            c, p = call.dst
        else:
            c, p, _ = self.place(st, fr, call.dst)
        nf = Frame(fn, 0, 0, ('l', st.fresh()), (c, p), call.to)
        self.fns_seen.add(fn.name)
        args = call.args
        if len(args) != fn.nargs:
            # rust-call ABI: last argument is a tuple to be spread
            if args and args[-1][0] == 'T' and len(args) - 1 + len(args[-1][1]) == fn.nargs:
                args = list(args[:-1]) + list(args[-1][1])
            else:
                raise Unsupported("arity of %s" % fn.name)
        for i, a in enumerate(args):
            st.mem[(nf.fs, i + 1)] = a
        st.frames.append(nf)
        return PUSHED

    def call_value(self, st, fv, args, dst, tgt, span, fr):
        """call a closure / fn item value with untupled args; result to dst (cell,path)"""
        fv0 = fv
        fl = st.load(fv)
        if fl[0] == 'C':
            fid = fl[1]
            if fid[1] is None:
                return T('app', 'closure?', *[st.deep(a) for a in args])
            fn = self.p.fns[fid]
            # closure bodies take self by value or by reference
            if fn.nargs == len(args) + 1:
                t1 = self.ty(fn, fn.locals[1])
                if t1["k"] == "ref":
                    selfv = fv if fv[0] == 'R' else ('R', st.alloc(fv), ())
                    # fv may be a reference to a reference
                    while selfv[0] == 'R':
                        inner = st.read(selfv[1], selfv[2])
                        if inner is not None and inner[0] == 'R':
                            selfv = inner
                        else:
                            break
                else:
                    selfv = fl
                args = [selfv] + list(args)
            c = Call({"decl": fn.name}, args, dst, tgt, span, fn.crate, fn)
            return self.push_fn(st, fr, fn, c)
        if fl[0] == 'F':
            t = self.p.types[fl[1]][fl[2]]
            c = Call(t["fn"], list(args), dst, tgt, span, fl[1], fr.fn)
            return self.dispatch(st, fr, c)
        if fl[0] == 't' and fl[1] == 'ctor':
            return ('A', fl[2], fl[3], tuple(args))
        return T('app', 'call', st.deep(fv), *[st.deep(a) for a in args])

    def push_native(self, st, fr, name, cells, call):
        if isinstance(call.dst, tuple):
            c, p = call.dst
        else:
            c, p, _ = self.place(st, fr, call.dst)
        nf = Frame(None, 0, 0, ('l', st.fresh()), (c, p), call.to, name)
        for k, v in cells.items():
            st.mem[(nf.fs, k)] = v
        st.frames.append(nf)
        return PUSHED

    def nat_call(self, st, fr, fv, args):
        """from a native frame: call fv; result goes to (fs,'r')"""
        r = self.call_value(st, fv, args, ((fr.fs, 'r'), ()), -1, "?", fr)
        if r is not PUSHED:
            st.mem[(fr.fs, 'r')] = r

    def opaque_call(self, st, fr, call):
        key = call.key if call.key.split('::')[0] != '?' else call.defkey
        if call.f.get("def") and call.f["def"].startswith('<') and call.f["def"] != call.f.get("decl"):
            key = call.key
        self.opaque[key] = self.opaque.get(key, 0) + 1
        if key not in self.pure and not (call.f.get("krate") == "dinero"):
            self.unmodelled.add(key)
        dargs = tuple(st.deep(a) for a in call.args)
        targ = tuple(self.p.types[call.crate][x]["s"] for x in call.f.get("targs", [])[:1]) \
            if key.endswith(('::parse', '::from_str', '::default', '::type_name')) else ()
        # mutable references may be changed by the callee
        for i, (a, o) in enumerate(zip(call.args, call.tys or ())):
            if a[0] == 'R' and o[0] in ('c', 'm') and len(o[1]) == 1:
                t = self.ty(call.fn, call.fn.locals[o[1][0]])
                if t["k"] == "ref" and t.get("mut"):
                    st.write(a[1], a[2], T('mut', key, i, *dargs))
        return T('app', key, *(targ + dargs))

    # ---------------------------------------------------------------- canonical states
    def visited(self, st, seen):
        k = self.canon(st)
        if k in seen:
            return True
        seen.add(k)
        return False

    def roots(self, st):
        out = []
        n = len(st.frames)
        for j, fr in enumerate(st.frames):
            if fr.nat is not None:
                ks = sorted((k for k in st.mem if k[0] == fr.fs), key=repr)
                if j < n - 1:
                    ks = [k for k in ks if k[1] != 'r']
                out.append((fr, ks))
                continue
            if j == n - 1:
                live = fr.fn.live[fr.bb]
            else:
                up = st.frames[j + 1]
                t = fr.fn.blocks[fr.bb]["t"]
                live = fr.fn.live[up.tgt] if up.tgt is not None and up.tgt >= 0 else frozenset()
                if up.dst and up.dst[0][0] == fr.fs and not up.dst[1]:
                    live = live - {up.dst[0][1]}
            out.append((fr, [(fr.fs, l) for l in sorted(live) if (fr.fs, l) in st.mem]))
        return out

    def canon(self, st):
        roots = self.roots(st)
        # 1. reachable cells
        reach = []
        rset = set()
        stack = [k for _, ks in roots for k in ks]
        for c in (k for k in st.mem if k[0] in ('g', 'X')):
            stack.append(c)
        order = list(stack)
        for c in order:
            rset.add(c)
        i = 0
        order = list(dict.fromkeys(order))
        while i < len(order):
            v = st.mem.get(order[i])
            i += 1
            if v is not None:
                for c in refs(v):
                    if c not in rset and (c in st.mem):
                        rset.add(c)
                        order.append(c)
        for c in [c for c in st.mem if c not in rset]:
            del st.mem[c]
        # 2. live other-individuals: those occurring outside polynomials/summaries
        live = set()
        for c in order:
            v = st.mem.get(c)
            if v is not None:
                live |= live_osyms(v)
        # 3. summarise contributions of dead individuals in polynomials and vectors
        for c in order:
            v = st.mem.get(c)
            if v is None:
                continue
            o = osyms(v)
            if o - live:
                st.mem[c] = summarise(v, frozenset(live))
        # 4. drop facts about dead individuals
        dead = []
        for k in st.facts:
            o = osyms(k)
            if o and not (o <= live):
                dead.append(k)
        for k in dead:
            del st.facts[k]
        if self.widen:
            self.widen(self, st)
        # 5. canonical key
        cellno, onum = {}, {}
        for j, fr in enumerate(st.frames):
            cellno[fr.fs] = j

        def cname(c):
            if c[0] in ('g',):
                return c
            if c[0] == 'X':
                return ('X', enc(c[1]))
            if isinstance(c[0], tuple) and c[0] in cellno:
                return (cellno[c[0]], c[1])
            if c not in cellno:
                cellno[c] = len(cellno)
            return cellno[c]

        def enc(v):
            if isinstance(v, tuple):
                if not v:
                    return v
                if v[0] == 'R':
                    return ('R', cname(v[1]), enc(v[2]))
                if len(v) == 3 and v[0] == 't' and v[1] == 'o':
                    if v[2] < 0:
                        return v
                    if v not in onum:
                        onum[v] = len(onum)
                    return ('o', onum[v])
                if v[0] == 'F' or len(v) == 2 and v[0] in ('i', 'b', 'c', 's'):
                    return v
                if v[0] == 'M':
                    return v
                if not needs_enc(v):
                    return v
                return tuple(enc(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
            if isinstance(v, frozenset):
                if not needs_enc(v):
                    return v
                return frozenset(enc(x) for x in sorted(v, key=repr))
            return v

        key = []
        for fr, ks in roots:
            key.append((fr.nat or fr.fn.id, fr.bb, fr.idx, tuple((k[1], enc(st.mem[k])) for k in ks if k in st.mem),
                        (cname(fr.dst[0]), enc(fr.dst[1]), fr.tgt) if fr.dst else None))
        rest = []
        done = set(k for _, ks in roots for k in ks)
        for c in order:
            if c not in done and c in st.mem:
                rest.append((cname(c), enc(st.mem[c])))
        facts = frozenset((enc(k), v) for k, v in st.facts.items())
        return (tuple(key), tuple(rest), facts)


def wrapint(t, n):
    m = re.fullmatch(r'([iu])(8|16|32|64|128|size)', t or '')
    if not m:
        return n
    w = 64 if m.group(2) == 'size' else int(m.group(2))
    n &= (1 << w) - 1
    if m.group(1) == 'i' and n >> (w - 1):
        n -= 1 << w
    return n


def chr_(n):
    try:
        return chr(n)
    except Exception:
        return None


def key_panics(key):
    return key in PANICS or key.startswith('core::panicking') or key.startswith('std::rt::') \
        or key.startswith('core::option::unwrap_failed') or key.endswith('::unwrap_failed') \
        or key.endswith('expect_failed') or key.startswith('std::process::exit')


PANICS = {'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_fmt',
          'std::process::abort'}


@lru_cache(maxsize=200000)
def needs_enc(v):
    if isinstance(v, tuple):
        if v and v[0] == 'R':
            return True
        if len(v) == 3 and v[0] == 't' and v[1] == 'o':
            return v[2] >= 0
        if v and v[0] == 'M':
            return False
        return any(needs_enc(x) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(needs_enc(x) for x in v if isinstance(x, (tuple, frozenset)))
    return False


@lru_cache(maxsize=200000)
def refs(v):
    if isinstance(v, tuple):
        if v and v[0] == 'R':
            return (v[1],) + (refs(v[1][1]) if v[1][0] == 'X' else ())
        if v and (v[0] in ('M', 'F') or len(v) == 2 and v[0] in ('i', 'b', 'c', 's')):
            return ()
        out = ()
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                out += refs(x)
        return out
    if isinstance(v, frozenset):
        out = ()
        for x in v:
            out += refs(x)
        return out
    return ()


@lru_cache(maxsize=200000)
def live_osyms(v):
    """individuals occurring outside sums"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 't' and v[1] == 'o':
            return frozenset((v,))
        if v and v[0] in ('P', 'M', 'L'):
            return frozenset()
        if v and v[0] == 'H':
            return live_osyms(v[2])
        r = frozenset()
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                r |= live_osyms(x)
        return r
    if isinstance(v, frozenset):
        r = frozenset()
        for x in v:
            r |= live_osyms(x)
        return r
    return frozenset()


REST = ('t', 'REST')


def summarise(v, live):
    """replace monomials / vector entries that mention dead individuals by REST"""
    if isinstance(v, tuple):
        if v and v[0] == 'P':
            keep, drop = {}, False
            for m, c in v[1]:
                if osyms(m) - live:
                    drop = True
                else:
                    keep[m] = c
            if drop:
                keep[((REST, 1),)] = Fraction(1)
                return unpoly(P(keep))
            return v
        if v and v[0] == 'L':
            keep, drop = [], False
            for u, c in v[1]:
                if osyms(u) - live or (isinstance(c, tuple) and osyms(c) - live):
                    drop = True
                elif u == REST:
                    drop = True
                else:
                    keep.append((u, c))
            if drop:
                keep.append((REST, PONE))
                return ('L', frozenset(keep))
            return v
        if v and (v[0] == 'M' or len(v) == 2 and v[0] in ('i', 'b', 'c', 's')):
            return v
        out, ch = [], False
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                y = summarise(x, live)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    if isinstance(v, frozenset):
        return frozenset(summarise(x, live) for x in v)
    return v
