"""Loads the exported MIR (see driver/) and provides indices, CFG, liveness and call-graph helpers."""
import json, os, re
from collections import defaultdict


def short(name):
    return name


class Fn:
    __slots__ = ("id", "name", "defn", "krate", "local", "nargs", "spread", "span", "locals", "names", "blocks",
                 "targs", "_live", "_heads", "_preds", "poly", "crate")

    def __init__(self, d, crate):
        self.id = (crate, d["id"])
        self.name = d["name"]
        self.defn = d.get("def", d["name"])
        self.krate = d.get("krate")
        self.local = d.get("local", False)
        self.nargs = d.get("nargs", 0)
        self.spread = d.get("spread")
        self.span = d.get("span", "?")
        self.locals = d.get("locals", [])
        self.names = d.get("names", [])
        self.blocks = d.get("blocks", [])
        self.targs = d.get("targs", [])
        self.poly = d.get("poly", False)
        self.crate = crate
        self._live = None
        self._heads = None
        self._preds = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        if k == "switch":
            return [x[1] for x in t["br"]] + [t["else"]]
        return []

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    @property
    def heads(self):
        """blocks that are targets of a back edge (DFS)"""
        if self._heads is None:
            heads, state = set(), {}
            stack = [(0, iter(self.succs(0)))] if self.blocks else []
            state[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if state.get(s, 0) == 1:
                        heads.add(s)
                    elif s not in state:
                        state[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    state[b] = 2
                    stack.pop()
            self._heads = heads
        return self._heads

    @property
    def live(self):
        if self._live is None:
            self._live = self._liveness()
        return self._live

    def _liveness(self):
        n = len(self.blocks)
        use = [None] * n
        kill = [None] * n

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("c", "m"):
                place_use(o[1], u, d)

        def rv_use(r, u, d):
            k = r[0]
            if k in ("addr", "discr", "len"):
                place_use(r[1], u, d)
            elif k == "ref":
                place_use(r[2], u, d)
            elif k == "agg":
                for o in r[2]:
                    op_use(o, u, d)
            elif k in ("bin", "chk"):
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k in ("un", "cast"):
                op_use(r[2], u, d)
            elif k in ("use", "repeat"):
                op_use(r[1], u, d)

        def write(p, u, d):
            if len(p) == 1:
                d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

        for b in range(n):
            u, d = set(), set()
            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    rv_use(s[2], u, d)
                    write(s[1], u, d)
                elif s[0] == "sd":
                    place_use(s[1], u, d)
                elif s[0] == "dead":
                    if s[1] not in u:
                        d.add(s[1])
            t = self.blocks[b]["t"]
            if t["t"] == "switch" or t["t"] == "assert":
                op_use(t["on"], u, d)
            elif t["t"] == "call":
                for a in t["args"]:
                    op_use(a, u, d)
                if "ptr" in t["f"]:
                    op_use(t["f"]["ptr"], u, d)
                if t["dst"][1:]:
                    write(t["dst"], u, d)
            elif t["t"] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], kill[b] = u, d
        live = [set() for _ in range(n)]
        work = list(range(n))
        preds = self.preds
        inq = set(work)
        while work:
            b = work.pop()
            inq.discard(b)
            out = set()
            for s in self.succs(b):
                out |= live[s]
            t = self.blocks[b]["t"]
            if t["t"] == "call" and len(t["dst"]) == 1:
                out.discard(t["dst"][0])
            new = use[b] | (out - kill[b])
            if new != live[b]:
                live[b] = new
                for p in preds[b]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        return [frozenset(x) for x in live]


class Prog:
    def __init__(self, outdir):
        self.fns = {}
        self.by_name = {}
        self.by_def = defaultdict(list)
        self.types = {}
        self.impls = []
        self.crates = []
        for crate in ("lib", "bin"):
            p = os.path.join(outdir, crate + ".json")
            d = json.load(open(p))
            self.crates.append(crate)
            self.types[crate] = d["types"]
            for f in d["fns"]:
                fn = Fn(f, crate)
                self.fns[fn.id] = fn
                self.by_name.setdefault(fn.name, fn)
                self.by_def[fn.defn].append(fn)
            if crate == "lib":
                self.impls = d["impls"]
                self.generic = d["generic"]
                self.items = d["items"]
        self.ty = self.types["lib"]

    def find(self, suffix, local=True):
        """functions whose (generic) def path ends with suffix"""
        return [f for f in self.fns.values() if f.defn.endswith(suffix) and (f.local or not local)]

    def local_fns(self):
        return [f for f in self.fns.values() if f.local]
