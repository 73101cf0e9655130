"""Syntactic/call-graph rules over the exported MIR: call sites, function references, reachability, types."""
import re
from collections import defaultdict


def where(fn, span=None):
    s = span or fn.span
    return "%s (%s)" % (s.replace("/repo/", ""), fn.name)


def call_target(t):
    f = t["f"]
    return f.get("inst") or f.get("def") or f.get("decl") or ""


def calls(fn):
    """(block, term, names) of every call of fn; names: declared path and resolved path"""
    for b, blk in enumerate(fn.blocks):
        t = blk["t"]
        if t["t"] == "call":
            f = t["f"]
            if "ptr" in f:
                continue
            ns = [x for x in (f.get("name"), f.get("def"), f.get("decl")) if x]
            yield b, t, ns


def walk_consts(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
            out.append(x[1])
            return
        for y in x:
            walk_consts(y, out)
    elif isinstance(x, dict):
        for k, y in x.items():
            if k != 'span':
                walk_consts(y, out)


def fn_refs(prog, fn):
    """names of function items mentioned as values (function pointers, callbacks) in fn"""
    out = []
    for b, blk in enumerate(fn.blocks):
        cs = []
        walk_consts(blk["s"], cs)
        walk_consts(blk["t"], cs)
        for c in cs:
            ty = c.get("ty")
            if ty is None:
                continue
            t = prog.types[fn.crate][ty]
            if t.get("k") == "fndef":
                n = t.get("def") or t.get("s")
                out.append((n, blk["t"].get("span") or fn.span))
    return out


def type_closure(prog, crate, ty, seen=None):
    """type ids reachable from ty through type arguments and fields as exported"""
    return prog.types[crate][ty]


def fndef_name(t):
    f = t.get("fn") or {}
    return f.get("def") or f.get("decl") or t.get("s")


def mentioned(prog, fn):
    """(path, span) of every function called or mentioned as a value in fn"""
    for b, t, ns in calls(fn):
        for n in dict.fromkeys(ns):
            yield n, t.get("span") or fn.span
        for ty in t["f"].get("targs", []):
            tt = prog.types[fn.crate][ty] if isinstance(ty, int) else {}
            if tt.get("k") == "fndef":
                yield fndef_name(tt), t.get("span") or fn.span
    for b, blk in enumerate(fn.blocks):
        cs = []
        walk_consts(blk["s"], cs)
        walk_consts(blk["t"].get("args", []), cs)
        for c in cs:
            ty = c.get("ty")
            if isinstance(ty, int):
                t = prog.types[fn.crate][ty]
                if t.get("k") == "fndef":
                    yield fndef_name(t), blk["t"].get("span") or fn.span


def callgraph(prog):
    """local function -> local functions it calls, mentions or whose closures it builds"""
    by = defaultdict(list)
    for f in prog.local_fns():
        by[f.defn].append(f)
        if f.name != f.defn:
            by[f.name].append(f)
    g = defaultdict(set)
    for f in prog.local_fns():
        for n, _ in mentioned(prog, f):
            for k in by.get(n, ()):
                g[f.id].add(k.id)
        for k in prog.local_fns():
            if k.crate == f.crate and k.defn.startswith(f.defn + "::{closure"):
                g[f.id].add(k.id)
    return g
