"""Scenario helpers: symbolic inputs and running the interpreter."""
import re, time
from prog import Prog
from absint import *
from eng import Engine, PUSHED, Call
import models
import models2
from models import M, NATIVES, PURE, OPT, RES, some, NONE, ok, err, val, push_nat


def sym(n):
    return ('t', 'sym', n)


def X(v):
    """reference to an immutable value"""
    return ('R', ('X', v), ())


def f(t, i):
    return proj(t, i)


CASE_SECONDS = 240
DEADLINE = [None]       # end of the whole check, set by check.py


class Run:
    def __init__(self, prog, overrides=None, max_states=40000, recursion=3, extra_models=None, anyorder=False, fn_over=(), intmax=40, hseed=None):
        m = dict(M)
        if extra_models:
            m.update(extra_models)
        self.eng = Engine(prog, m, NATIVES, overrides or [], max_states, recursion)
        self.eng.pure = PURE
        self.eng.anyorder = anyorder
        self.eng.hseed = hseed
        self.eng.intmax = intmax
        self.eng.fn_over = [(re.compile(a), b) for a, b in fn_over]
        self.p = prog

    def go(self, fn, args, facts=None, setup=None):
        st = St()
        if facts:
            st.facts.update(facts)
        if setup:
            args = setup(st)
        self.eng.start(fn, args, st)
        t = time.time()
        if self.eng.deadline is None:
            self.eng.deadline = t + CASE_SECONDS if DEADLINE[0] is None else min(t + CASE_SECONDS, DEADLINE[0])
        try:
            self.eng.explore([st])
            self.budget = None
        except Budget as e:
            self.budget = str(e)
        self.wall = time.time() - t
        return self.eng.outcomes

    def trouble(self):
        """reasons why a verdict would not be conclusive"""
        e = self.eng
        return ([self.budget] if self.budget else []) + ["%s at %s" % x for x in e.unsupported[:5]] + \
            ["no model for " + k for k in sorted(e.unmodelled)]


def fnd(prog, *suffixes):
    for s in suffixes:
        r = [x for x in prog.fns.values() if x.local and (x.name.endswith(s) or x.defn.endswith(s)) and x.blocks]
        if r:
            return r[0]
    return None


def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    if k in 'ibcs' and len(v) == 2:
        return repr(v[1])
    if k == 'A':
        return "%s#%d(%s)" % (v[1].split('::')[-1], v[2], ", ".join(show(x) for x in v[3]))
    if k == 'T':
        return "(%s)" % ", ".join(show(x) for x in v[1])
    if k == 't':
        if v[1] == 'sym':
            return str(v[2])
        if v[1] == 'f':
            return "%s.%s" % (show(v[2]), v[3])
        if v[1] == 'vf':
            return "%s.%s.%s" % (show(v[2]), v[3], v[4])
        if v[1] == 'o':
            return "o%s" % v[2]
        return "%s(%s)" % (v[1], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if k == 'P':
        if not v[1]:
            return "0"
        return " + ".join("%s%s" % (c if c != 1 or not m else "", "*".join(show(a) + ("" if e == 1 else "^%d" % e) for a, e in m)) for m, c in sorted(v[1], key=repr))
    if k == 'V':
        return "[%s]" % ", ".join(show(s[1]) if s[0] == '1' else "many{%s}" % "|".join(sorted(show(t[0]) for t in s[1])) for s in v[1])
    if k == 'H':
        return "{%s%s}" % (", ".join("%s: %s" % (show(a), show(b)) for a, b in v[2]), (" +many{%s}" % "|".join(sorted(show(t[0]) if t[0] != 'base' else 'base ' + show(t[1]) for t in v[3]))) if v[3] else "")
    if k == 'L':
        return "L{%s}" % ", ".join(sorted("%s:%s" % (show(u), show(c)) for u, c in v[1]))
    if k == 'R':
        return "&%s%s" % (show(v[1][1]) if v[1][0] == 'X' else v[1], list(v[2]) or "")
    if k == 'O':
        return "%s{%s}" % (show(v[1]), ", ".join("%s=%s" % (s, show(x)) for s, x in v[2]))
    return repr(v)


def showfacts(st):
    return sorted("%s=%s" % (" ".join(show(x) if isinstance(x, tuple) else str(x) for x in k), v if not isinstance(v, frozenset) else "".join(sorted(map(str, v)))) for k, v in st.facts.items())
