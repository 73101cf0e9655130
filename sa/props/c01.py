import re
from rules import *
from kern import *

LEVEL = "other"
TECH = "type and effect analysis plus abstract interpretation of MIR"
EXPLAIN = ("Type and effect analysis over all functions: no floating-point value, no rational over machine integers and no "
           "lossy numeric operation (rounding, truncation, integer division, narrowing conversion of big numbers) outside "
           "functions that only serve the Display/Debug text of a value. Abstract interpretation of the operations on amounts "
           "and balances with symbolic quantities (exact polynomials; balances with any number of commodities) against the "
           "algebraic specification, and of the two literal readers with symbolic digits.")
ASSUME = ["num::BigRational/BigInt arithmetic is exact", "literals are checked for up to 3 (thorough: 5) integer and fraction digits; the reader's loop treats further digits alike"]

LOSSY = [re.compile(x) for x in (
    r"ToPrimitive(>|)::to_(i|u|f)(8|16|32|64|128|size)\b",
    r"::to_(f32|f64)$",
    r"num::(rational::)?Ratio(::<.*?>)?::(round|trunc|floor|ceil|to_integer|fract|from_float|approximate_float)\b",
    r"FromPrimitive.*::from_f(32|64)\b",
    r"<(&('a |'_ )?)?num::BigInt as std::ops::(Div|Rem|Shr|DivAssign|RemAssign|ShrAssign)",
    r"num::Integer::(div_floor|mod_floor|div_rem|div_mod_floor|div_ceil)|num::integer::(div_floor|div_rem|mod_floor)",
    r"BigInt::(to_(u|i)\w+|iter_u32_digits|sqrt|cbrt|nth_root)",
)]


def display_only(prog):
    g = callgraph(prog)
    callers = defaultdict(set)
    for a, bs in g.items():
        for b in bs:
            if a != b:
                callers[b].add(a)
    fmt = {f.id for f in prog.local_fns() if re.search(r" as std::fmt::\w+>::fmt(::\{closure.*)?$", f.name)}
    disp = {f.id for f in prog.local_fns() if f.id in fmt or callers[f.id]}
    ch = True
    while ch:
        ch = False
        for i in list(disp):
            if i not in fmt and not callers[i] <= disp:
                disp.discard(i)
                ch = True
    return disp


def run(ctx):
    p = ctx.p
    for n in ("num::rational::Ratio::<T>::to_integer", "num::ToPrimitive::to_f64", "<num::BigInt as std::ops::Div>::div",
              "<num::BigInt as std::ops::Div<&num::BigInt>>::div"):
        assert any(r.search(n) for r in LOSSY), n
    disp = display_only(p)
    ctx.count("functions that only serve printed text", len(disp))
    for fn in p.local_fns():
        ctx.count("functions")
        if fn.id in disp:
            continue
        hit = False
        for li, l in enumerate(fn.locals):
            ty = l if isinstance(l, int) else l.get("ty") if isinstance(l, dict) else None
            if ty is None:
                continue
            t = p.types[fn.crate][ty]
            s = t.get("s", "")
            if t.get("k") == "float" or re.search(r"\bf(32|64)\b", s) and t.get("k") != "closure":
                hit = True
                ctx.bad("%s uses a floating-point value" % fn.defn, where(fn), "local of type %s" % s)
            m = re.search(r"Ratio<(?!num::BigInt|num::bigint|T\b)([^>]*)>", s)
            if m:
                hit = True
                ctx.bad("%s uses a bounded rational" % fn.defn, where(fn), "local of type %s" % s)
        for n, span in mentioned(p, fn):
            if any(r.search(n) for r in LOSSY):
                hit = True
                ctx.bad("%s loses digits with %s" % (fn.defn, n), where(fn, span), "%s outside the text of a printed value" % n)
        if not hit:
            ctx.ok("no lossy number", where(fn))
    money_kernels(ctx)
    balance_kernels(ctx)
    literals(ctx)
