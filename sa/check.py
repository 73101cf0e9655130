"""Runner:  check.py <property id>   (environment: VERIF_TIER, VERIF_SEED)

Exit 0: every rule instance holds (known findings are listed, undecided obligations are recorded in the evidence).
Exit 1: a rule instance is violated; one VIOLATION line per property and a replay file with every violated instance.
"""
import hashlib, importlib, inspect, json, os, resource, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import export
from prog import Prog


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid, self.p, self.tier = pid, prog, tier
        self.thorough = tier == "thorough"
        self.viol, self.good, self.und, self.notes = [], [], [], []
        self.stats = {}
        self.samples = []

    def ok(self, rule, what):
        self.good.append((rule, what))

    def bad(self, key, where, msg):
        """key: stable identity of the violated instance (no line numbers)"""
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, where, msg))

    def undecided(self, what, why):
        self.und.append((what, why))

    def note(self, s):
        self.notes.append(s)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def must(self, cond, key, where, msg, rule=None):
        if cond:
            self.ok(rule or key, where)
        else:
            self.bad(key, where, msg)
        return cond


def known(pid):
    out = {}
    p = os.path.join(export.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, d = rest[4:].partition(" :: ")
                    out[k] = d
    return out


MEMORY = 3 << 30       # address space of each process of the analysis


def guard(f):
    """a group of rules that cannot be applied leaves the others in force"""
    def g(ctx, *a, **k):
        try:
            return f(ctx, *a, **k)
        except Exception as e:
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            ctx.undecided(f.__name__, "internal error: %s" % tb.strip().splitlines()[-1])
    return g


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    out = export.export()
    prog = Prog(out)
    # a case that grows out of bounds ends undecided instead of taking the machine's memory
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    mod = importlib.import_module("props." + pid.lower())
    ctx = Ctx(pid, prog, tier)
    import scen
    scen.DEADLINE[0] = t0 + (5400 if tier == "thorough" else 600)
    for n, f in list(vars(mod).items()):
        if callable(f) and getattr(f, "__module__", "").split(".")[0] != "props" and inspect.isfunction(f) and list(inspect.signature(f).parameters)[:1] == ["ctx"]:
            setattr(mod, n, guard(f))
    try:
        mod.run(ctx)
    except Exception as e:
        # an internal failure of the analysis is never an alarm; it is recorded as undecided
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.undecided("analysis", "internal error: %s" % tb.strip().splitlines()[-1])
    kn = known(pid)
    new = [v for v in ctx.viol if v[0] not in kn]
    old = [v for v in ctx.viol if v[0] in kn]
    for k, w, m in old:
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (pid, k, kn[k], w))
    rdir = os.path.join(export.VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(export.VERIF, "evidence"), exist_ok=True)
    rules = {}
    for r, w in ctx.good:
        rules[r] = rules.get(r, 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.EXPLAIN,
            "functions_exported": len(prog.fns), "local_functions": len(prog.local_fns()),
            "obligations": len(ctx.good) + len(ctx.viol) + len(ctx.und), "discharged": len(ctx.good),
            "undecided": [list(x) for x in ctx.und][:40],
            "rule_instances": rules, "measured": ctx.stats,
            "samples": ["%s @ %s" % x for x in ctx.good[:12]] + ctx.samples[:8],
            "notes": ctx.notes[:40],
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(export.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations hold, %d violated (%d known), %d undecided, %.1fs" %
          (pid, len(ctx.good), len(ctx.viol), len(old), len(ctx.und), time.time() - t0))
    for w, y in ctx.und[:10]:
        print("  undecided: %s: %s" % (w, y))
    if new:
        txt = "".join("rule: %s\nat:   %s\n%s\n\n" % v for v in new)
        path = os.path.join(rdir, "%s-%s.txt" % (pid, hashlib.sha256(txt.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property %s violated in %s\n\n%s" % (pid, export.REPO, txt))
        for k, w, m in new[:10]:
            print("  %s\n    at %s\n    %s" % (k, w, m))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
