"""The configuration file and the command line (C18)."""
import itertools
from kern import *
from scen import *
import text, peg, absint, export
from parsing import visible
from report import show_

# option: (short, takes a value)
OPTS = {'--file': ('-f', True), '--init-file': (None, True), '--depth': ('-d', True), '--begin': ('-b', True), '--end': ('-e', True), '--period': ('-p', True), '--now': (None, True),
        '--real': (None, False), '--no-balance-check': (None, False), '--date-format': (None, True), '--force-color': (None, False), '--strict': (None, False), '--effective': (None, False),
        '--unrealized-gains': (None, True), '--exchange': ('-X', True), '--flat': (None, False), '--no-total': (None, False)}
SHORT = {s: l for l, (s, _) in OPTS.items() if s}


def meaning(args):
    """what the command line parser makes of an argument list: (values by option, other words); None if it rejects the list"""
    opts, words, i = {}, [], 0
    while i < len(args):
        a = args[i]
        i += 1
        if a.startswith('--'):
            n, _, v = a.partition('=')
            has = '=' in a
        elif a.startswith('-') and a[:2] in SHORT:
            n, v = SHORT[a[:2]], a[2:]
            has = bool(v)
            if v.startswith('='):
                v = v[1:]
        elif a.startswith('-') and len(a) > 1:
            return None
        else:
            words.append(a)
            continue
        if n not in OPTS or n in opts:
            return None
        if OPTS[n][1]:
            if not has:
                if i >= len(args):
                    return None
                v = args[i]
                i += 1
            opts[n] = v
        else:
            if has:
                return None
            opts[n] = True
    return opts, words


def config_run(p, args, files, models):
    """-> outcomes of run_app, the argument list handed to the parser as the info of 'args'"""
    def exists(eng, st, fr, call):
        v = st.deep(call.args[0])
        if v[0] != 's':
            raise Unsupported("path %s" % show_(v))
        return ('b', v[1] in files)

    def read(eng, st, fr, call):
        v = st.deep(call.args[0])
        if v[0] != 's':
            raise Unsupported("path %s" % show_(v))
        return ok(('s', files[v[1]])) if v[1] in files else err(UNIT)

    def parse(eng, st, fr, call):
        raise Stop('args', items(call.args[0], st) or call.args[0])
    em = dict(models)
    for k in ('std::path::Path::exists', 'std::path::Path::is_file', 'std::path::Path::try_exists'):
        em[k] = exists if 'try' not in k else (lambda e, s, f, c: ok(exists(e, s, f, c)))
    em['std::fs::read_to_string'] = read
    for k in ('std::path::Path::new', 'std::path::PathBuf::from', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf'):
        em[k] = lambda e, s, f, c: s.deep(c.args[0])
    em['shellexpand::tilde'] = lambda e, s, f, c: ('s', s.deep(c.args[0])[1].replace('~', '/home/u')) if s.deep(c.args[0])[0] == 's' else NotImplemented
    for k in ('structopt::StructOpt::from_iter', 'structopt::StructOpt::from_iter_safe', 'structopt::StructOpt::from_args', 'clap::App::get_matches_from'):
        em[k] = parse
    fn = fnd(p, 'app::run_app')
    if fn is None:
        return None, [], ['run_app not found']
    r = Run(p, extra_models=em, intmax=5000, recursion=20)
    old = absint.SAME[0]
    absint.SAME[0] = 500
    try:
        out = r.go(fn, [('V', tuple(('1', ('s', a)) for a in args))], {})
    finally:
        absint.SAME[0] = old
    return fn, out, r.trouble()


def items(v, st):
    """the texts of a list, or of what an untouched iterator over one has left"""
    for _ in range(9):
        v = st.deep(v)
        if v[0] == 'I' and v[1] == 'ref' and v[2][1] == ('i', 0):
            v = v[2][0]
        elif v[0] == 'R':
            v = st.read(v)
        else:
            break
    if v[0] == 'I' and v[1] == 'seq':
        v = v[2][0]
    if v[0] == 'V' and all(s[0] == '1' for s in v[1]):
        xs = [st.deep(s[1]) for s in v[1]]
        if all(x[0] == 's' for x in xs):
            return [x[1] for x in xs]
    return None


def config_rules(ctx):
    p = ctx.p
    g = peg.load(export.REPO)
    models = text.text_models(p, g)
    w = LET1

    def go(rule, label, args, files, want):
        """want: function of the meaning of the final list -> complaint; or 'error'"""
        key = "%s: %s" % (rule, label)
        try:
            fn, out, tr = config_run(p, args, files, models)
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return
        ctx.count("paths", len(out))
        if tr or not out:
            ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
            return
        for kind, info, st in out:
            m = None
            if kind == 'args':
                if want == 'error':
                    m = "the bad line is accepted"
                else:
                    xs = info
                    if not isinstance(xs, list):
                        ctx.undecided(key, "argument list %s" % show_(st.deep(info))[:200])
                        return
                    got = meaning(xs[1:])
                    m = want(got, xs)
            elif kind == 'panic' or kind == 'return' and st.deep(info)[0] == 'A' and st.deep(info)[2] == 1:
                if want != 'error':
                    m = "ends with %s %s" % (kind, show_(info) if kind == 'return' else info)
            else:
                m = "ends with %s before the options are read" % kind
            if m:
                ctx.bad(key, where(fn), "%s\n  command line: %s\n  configuration: %s" % (m, visible(repr(args)), visible(repr(files))))
                return
        ctx.ok(rule, "%s [%s]" % (where(fn), label))

    def merged(cmd, lines):
        base = meaning(cmd[1:])
        for l in lines:
            ws = l.split()
            if not ws or ws[0][0] in ';#!%':
                continue
            o = [ws[0]] + ([' '.join(ws[1:])] if ws[1:] else [])
            c = meaning(o)
            for k, v in c[0].items():
                base[0].setdefault(k, v)
        return base

    def same(want):
        def f(got, xs):
            if got is None:
                return "the resulting options are rejected: %s" % visible(repr(xs))
            if got[0] != want[0]:
                return "the options are %s instead of %s" % (visible(repr(got[0])), visible(repr(want[0])))
            if got[1] != want[1]:
                return "the other words are %s instead of %s" % (visible(repr(got[1])), visible(repr(want[1])))
        return f
    CFG = '/home/u/.ledgerrc'

    def case(rule, label, cmd, lines, path=CFG, nl='\n', extra=None):
        files = {path: nl.join(lines) + nl}
        files.update(extra or {})
        go(rule, label, cmd, files, same(merged(cmd, lines)))
    base = ['dinero', 'bal']
    R1 = "an option only in the configuration file takes effect"
    R2 = "an option in both places keeps the value of the command line"
    for o, (s, val_) in OPTS.items():
        if o in ('--init-file', '--exchange'):
            continue
        vs = w[0] + w[1]
        lines = [[o + ' ' + vs], [o + '=' + vs], [o + '   ' + vs + '  '], [o + ' ' + vs + ' ' + w[2] + '%']] if val_ else [[o], [o + '  ']]
        for li in lines:
            for extra in ([], ['-f', 'j'], [w[3] + w[4]], ['--real'] if o != '--real' else ['--flat']):
                if extra and extra[0] == s:
                    continue
                case(R1, "%s with %s" % (visible(li[0]), visible(' '.join(extra))), base + extra, li)
            for given in ([[o, w[5] + w[6]], [o + '=' + w[5]]] + ([[s, w[5]], [s + w[5]], [s + '=' + w[5]]] if s else []) if val_ else [[o]]):
                for pre, post in (([], []), ([w[3]], []), ([], [w[3]]), (['--date-format', w[2]] if o != '--date-format' else ['--now', w[2]], ['--strict'] if o != '--strict' else [])):
                    case(R2, "%s against %s%s" % (visible(li[0]), visible(' '.join(pre + given + post)), ''), base + pre + given + post, li)
    R3 = "every line of the configuration file counts by itself"
    for lines in ([';' + w[0], '--depth ' + w[1]], ['# --real', '--depth ' + w[1], '', '--flat'], ['', '   ', '\t', '--real', '! --depth 3', '% x'], ['--depth ' + w[1], '--begin ' + w[2], '--real'],
                  ['; --real', '  ; --flat', '--strict'], [], [';'], ['--file ' + w[0] + ' ' + w[1], '', '--now ' + w[2]]):
        for cmd in (base, base + ['-d', w[4]], base + ['--real', w[5]]):
            for nl in ('\n', '\r\n'):
                case(R3, "%s with %s%s" % (visible(' / '.join(lines)), visible(' '.join(cmd)), ' CRLF' if nl != '\n' else ''), cmd, lines, nl=nl)
    R4 = "a malformed line is an error"
    for bad in ('depth ' + w[1], w[0] + w[1], '-d ' + w[1], '-', '-' + w[0], '= 3', '2', '"--depth 3"', '\u00e9'):
        for lines in ([bad], ['--depth 2', bad], ['; x', '', bad, '--real']):
            go(R4, visible(' / '.join(lines)), base + ['-f', 'j'], {CFG: '\n'.join(lines) + '\n'}, 'error')
            go(R4, visible(' / '.join(lines)) + ', option on the command line too', base + ['-f', 'j', '-d', '3'], {CFG: '\n'.join(lines) + '\n'}, 'error')
    R5 = "the configuration file is the one asked for, else the one of the home directory, else the local one"
    A, B, C = '--depth ' + w[0], '--depth ' + w[1], '--depth ' + w[2]
    for cmd, have in ((base + ['--init-file', 'Dir/Cfg.A'], 'Dir/Cfg.A'), (base + ['--init-file=Dir/Cfg.A'], 'Dir/Cfg.A'), (base + ['--init-file', '/home/u/Ledger RC'], '/home/u/Ledger RC'), (base + ['--init-file=a=b'], 'a=b')):
        go(R5, "%s with %s and others" % (visible(' '.join(cmd)), have), cmd, {have: A + '\n', '/home/u/.ledgerrc': B + '\n', '.ledgerrc': C + '\n', have.lower() if have.lower() != have else 'b': C + '\n'}, same(merged(cmd, [A])))
    for cmd in (base, base + ['--init-file', 'cfg'], base + ['--init-file=cfg'], ['dinero', '--init-file', 'cfg', 'reg', w[4]], base + ['-f', 'j', '--init-file', 'cfg', '--real']):
        for have in itertools.product((False, True), repeat=3):
            files = {n: t + '\n' for n, t, h in (('cfg', A, have[0]), ('/home/u/.ledgerrc', B, have[1]), ('.ledgerrc', C, have[2])) if h}
            asked = any('--init-file' in a for a in cmd)
            use = A if asked and have[0] else B if have[1] else C if have[2] else None
            if asked and not have[0]:
                continue            # what happens when the file asked for does not exist is not specified
            go(R5, "%s with %s" % (visible(' '.join(cmd)), ', '.join(sorted(files)) or 'no file'), cmd, files, same(merged(cmd, [use] if use else [])))
