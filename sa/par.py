"""Groups of rules analysed side by side in child processes; results are merged in the order of the groups."""
import os, pickle, sys, tempfile, traceback


def par(ctx, *groups):
    jobs = []
    for f in groups:
        fd, path = tempfile.mkstemp(prefix="sa-par-")
        os.close(fd)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                ctx.viol, ctx.good, ctx.und, ctx.notes, ctx.stats, ctx.samples = [], [], [], [], {}, []
                try:
                    f(ctx)
                except Exception:
                    tb = traceback.format_exc()
                    sys.stderr.write(tb)
                    ctx.undecided(getattr(f, '__name__', 'group'), "internal error: %s" % tb.strip().splitlines()[-1])
                with open(path, "wb") as o:
                    pickle.dump((ctx.viol, ctx.good, ctx.und, ctx.notes, ctx.stats, ctx.samples), o)
            finally:
                sys.stderr.flush()
                os._exit(0)
        jobs.append((f, pid, path))
    for f, pid, path in jobs:
        os.waitpid(pid, 0)
        try:
            with open(path, "rb") as i:
                v, g, u, n, s, m = pickle.load(i)
        except Exception as e:
            ctx.undecided(getattr(f, '__name__', 'group'), "the analysis did not finish (%s)" % type(e).__name__)
            continue
        finally:
            os.unlink(path)
        for x in v:
            ctx.bad(*x)
        ctx.good += g
        ctx.und += u
        ctx.notes += n
        ctx.samples += m
        for k, c in s.items():
            ctx.count(k, c)
