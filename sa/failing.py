"""Errors end the run (C06): every fallible stage is made to fail, at every call, and the function above it must fail too."""
from report import *
from listing import stage_check, text as printed, fails
import parsing, text, peg, export, absint

# the stages that report errors; look-ups in lists, conversions and character matching are questions, not stages
STAGES = re.compile(r"^dinero::(commands::\w+::execute|filter::filter(_expression)?|models::transaction::Transaction::<.*Posting>::balance|models::<impl .*ParsedLedger>::\w*to_ledger"
                    r"|parser::include::parse|parser::tokenizers::\w+::parse\w*|parser::Tokenizer.*::tokenize)$")
ERRS = ('error::Error', 'error::ParserError', 'error::LedgerError')


def rtype(p, fn):
    l = fn.locals[0]
    return str(p.types[fn.crate][l if isinstance(l, int) else l['ty']].get('s') or '')


def fallible(p):
    """local functions that report errors of the journal or the query"""
    r = []
    for f in p.fns.values():
        if not f.local or f.crate != 'lib' or not f.blocks or '{closure' in f.name or '::tests' in f.name:
            continue
        t = rtype(p, f)
        if not t.startswith('std::result::Result<') or not t.rstrip('>').endswith(ERRS):
            continue
        if STAGES.match(f.name):
            r.append(f)
    return r


def inject(p, top, over=(), amounts=False):
    """every call of a stage below `top` fails or does its work (or what `over` says); at most one failure on a path"""
    names = {f.name for f in fallible(p)} - {top.name}
    if not amounts:
        # in an automated transaction an amount that is none is a multiplier or an expression
        names = {n for n in names if not n.endswith(('::parse_money', '::parse_amount'))}
    over = list(over)
    out = []
    for n in sorted(names):
        base = next((h for r, h in over if re.search(r, n)), None)

        def hn(eng, st, fr, args, n=n, base=base):
            if not events(st, 'fault'):
                if models.nd(st, 'fault', [0, 1]):
                    ev(eng, st, 'fault', ('s', n))
                    return err(sym('error'))
            return base(eng, st, fr, args) if base else NotImplemented
        out.append(("^" + re.escape(n) + "$", hn))
    out.append((r"<dinero::error::Error as std::convert::From<.*>>::from$", lambda e, st, fr, a: T('error', st.deep(a[0]))))
    out.append((r"Tokenizer.*::error$", lambda e, st, fr, a: T('error', st.deep(a[1]))))
    return out + over


def is_err(v):
    return v[0] == 'A' and v[1] == RES and v[2] == 1


def ends_badly(kind, v, st):
    return kind == 'panic' or kind == 'return' and is_err(v)


def judge(kind, v, st):
    fs = [e[0][1] for e in events(st, 'fault') if e]
    if fs and not ends_badly(kind, v, st):
        return "an error reported by %s is swallowed: the function ends with %s" % (fs[0], show_(v)[:80] if kind == 'return' else kind)
    return fs


# ------------------------------------------------------------------ the program
CMDS = ['Balance', 'Register', 'Accounts', 'Payees', 'Prices', 'Commodities', 'Check']


def dispatch_rules(ctx):
    """run_app hands the options to the command asked for; its error ends the program with a failure"""
    p = ctx.p
    fn = fnd(p, 'app::run_app')
    rule = 'the command asked for is run with the options given, and its error is printed and ends the program with a failure'
    CM = 'app::Command'
    try:
        names = [v['name'] for v in adt_info(p, CM)['variants']]
    except Exception:
        ctx.undecided(rule, "the type of the commands is not found")
        return
    known = [n for n in CMDS if n in names]
    if not known:
        ctx.undecided(rule, "no known command")
    for cmd in known:
        for fc in (True, False):
            o = mk(p, 'CommonOpts', _rest=lambda n: sym('opt.' + n), force_color=('b', fc))
            vi = vidx(p, CM, cmd)
            fs = [n for n, _ in adt_info(p, CM)['variants'][vi]['fields']]
            cv = ('A', adt_info(p, CM)['def'], vi, tuple(o if n in ('options', '0') else sym('opt.' + n) for n in fs))
            opt = mk(p, 'app::Opt', cmd=cv)

            def ex(name):
                def h(eng, st, fr, args):
                    r = models.nd(st, 'ex', [0, 1])
                    ev(eng, st, 'execute', ('s', name), ('T', tuple(st.deep(a) for a in args)), ('i', r))
                    return err(sym('problem')) if r else ok(UNIT)
                return h
            over = [(r"commands::%s::execute$" % c.lower(), ex(c)) for c in CMDS]
            em = {k: (lambda e, s, f, c: opt) for k in ('structopt::StructOpt::from_iter', 'structopt::StructOpt::from_args', 'structopt::StructOpt::from_clap')}
            em['structopt::StructOpt::from_iter_safe'] = lambda e, s, f, c: ok(opt)
            for k in ('std::path::Path::exists', 'std::path::Path::is_file'):
                em[k] = lambda e, s, f, c: ('b', False)
            em['std::env::set_var'] = lambda e, s, f, c: UNIT
            em['std::io::_eprint'] = lambda e, s, f, c: (ev(e, s, 'stderr', s.deep(c.args[0])), UNIT)[1]
            for k in ('std::path::Path::new', 'std::path::PathBuf::from', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf'):
                em[k] = lambda e, s, f, c: s.deep(c.args[0])
            em['shellexpand::tilde'] = lambda e, s, f, c: s.deep(c.args[0])

            def ck(kind, v, st):
                es = events(st, 'execute')
                if len(es) != 1 or es[0] is None:
                    return "%d commands are run" % len(es)
                name, args, r = es[0]
                if name[1] != cmd:
                    return "the command %s is run instead of %s" % (name[1], cmd)
                if r == ('i', 1):
                    if not ends_badly(kind, v, st):
                        return "the error of the command does not end the program with an error"
                    if kind == 'panic':
                        return None
                    seen = events(st, 'stderr') + [e for e in events(st, 'print')]
                    if not any('problem' in repr(e) for e in seen):
                        # nothing to print: the message is empty
                        if not any('problem' in repr(k) for k in st.facts):
                            return "the error is not printed"
                    return None
                if kind != 'return' or is_err(v):
                    return "a successful command ends the program with %s" % (show_(v) if kind == 'return' else kind)
                flat = list(args[1])
                if flat and flat[0] == o:
                    flat = flat[1:]
                    if cmd == 'Balance' and flat != [sym('opt.flat'), T('not', sym('opt.no_total'))] and len(flat) == 2:
                        if flat[0] != sym('opt.flat'):
                            return "the balance report is asked for with flat = %s" % show_(flat[0])
                        if st.truth(flat[1]) != (not st.truth(sym('opt.no_total'))):
                            return "the balance report is asked for with total = %s" % show_(flat[1])
                elif flat and cmd not in ('Balance', 'Register'):
                    if flat[0] != sym('opt.input_file'):
                        return "the command reads %s" % show_(flat[0])
                    if cmd != 'Check' and len(flat) == 2 and flat[1] != sym('opt.no_balance_check'):
                        return "the switch for balance checks is passed as %s" % show_(flat[1])
                else:
                    return "the command gets %s" % show_(args)
            c = Case(ctx, fn, rule, fn_over=over, extra_models=em, anyorder=False, intmax=5000)
            c.run('%s%s' % (cmd, ', forced colours' if fc else ''), [V(('s', 'dinero'), ('s', cmd.lower()))], {}, ck)
    # the exit status
    ms = [f for f in p.fns.values() if f.local and f.crate == 'bin' and f.name.endswith('main') and f.blocks and '{' not in f.name]
    rule = 'the status of the program is non-zero exactly when run_app fails'
    if not ms:
        ctx.undecided(rule, "main not found")
        return

    def app(eng, st, fr, call):
        r = models.nd(st, 'app', [0, 1])
        ev(eng, st, 'app', ('i', r))
        return err(UNIT) if r else ok(UNIT)

    def exit_(eng, st, fr, call):
        raise Stop('exit', st.deep(call.args[0]))

    def ck(kind, v, st):
        a = events(st, 'app')
        if len(a) != 1:
            return "run_app is called %d times" % len(a)
        bad = a[0][0] == ('i', 1)
        if kind == 'exit':
            z = v == ('i', 0)
        elif kind == 'panic':
            z = False
        elif kind == 'return' and v[0] == 'A' and v[1] == RES:
            z = v[2] == 0
        elif kind == 'return' and v in (UNIT, ('T', ())):
            z = True
        else:
            return 'skip'
        if z == bad:
            return "run_app %s, the program ends with status %s" % ('fails' if bad else 'succeeds', 'zero' if z else 'non-zero')
    ov = [(lambda c: c.key.endswith('run_app'), app), (lambda c: c.key == 'std::process::exit', exit_)]
    c = Case(ctx, ms[0], rule, overrides=ov, fn_over=[(r"app::run_app$", lambda e, st, fr, a: app(e, st, fr, None))],
             extra_models={'std::env::args': lambda e, s, f, c: I('seq', V(('s', 'dinero')))}, anyorder=False)
    c.run('main', [], {}, ck)


# ------------------------------------------------------------------ commands
def command_rules(ctx):
    p = ctx.p
    path = sym('path')
    fn = fnd(p, 'commands::check::execute')
    rule = 'check says OK exactly when the journal is accepted with balance checks on'

    def ck(kind, v, st):
        m = stage_check(st, kind, v, path, FALSE)
        ls = printed(st)
        ls = ' '.join(ls) if ls is not None else ''
        if m == 'error':
            return "says OK although there is an error" if 'OK' in ls else None
        if m:
            return m
        return None if 'OK' in ls else "does not say OK: %s" % ls
    Case(ctx, fn, rule, fn_over=fails(None, sym('ledger')), extra_models={'std::path::Path::to_str': lambda e, s, f, c: some(T('str', s.deep(c.args[0]))),
         'std::path::PathBuf::to_str': lambda e, s, f, c: some(T('str', s.deep(c.args[0])))}, anyorder=False, intmax=5000).run('check', [path], {}, ck)
    rule = 'an error of reading, of the ledger or of the query ends the report with an error'
    shapes = [[['R0U']], [['R0U', 'V1E']], [['R0U'], ['R1U', 'R2E']]]
    for cmd, extra in (('register', [[]]), ('balance', [[FALSE, FALSE], [TRUE, TRUE]])):
        fn = fnd(p, 'commands::%s::execute' % cmd)
        for shape in shapes:
            txs = [tx_(p, t, [posting_(p, x[1], x[0], 'Acc:%s' % x[1], {'U': 'USD', 'E': 'EUR'}[x[2]]) for x in xs]) for t, xs in enumerate(shape)]
            led = ledger_(p, txs)
            for q in ([], ['word']):
                for more in extra:
                    over = []
                    for r, h in cmd_over(led, sel=None):
                        if 'filter::filter$' in r or 'tokenize$' in r or 'to_ledger$' in r:
                            def hn(e, st, fr, a, h=h, r=r):
                                if not events(st, 'fault'):
                                    if models.nd(st, 'fault', [0, 1]):
                                        ev(e, st, 'fault', ('s', r.strip('$').split('::')[-1]))
                                        return err(sym('error'))
                                return h(e, st, fr, a)
                            over.append((r, hn))
                        else:
                            over.append((r, h))
                    n = [0]

                    def ck(kind, v, st):
                        j = judge(kind, v, st)
                        if isinstance(j, str):
                            return j
                        n[0] += bool(j)
                        if not j and kind == 'return' and is_err(v):
                            return "an accepted journal ends with an error"
                    c = Case(ctx, fn, rule, fn_over=over, overrides=OV, anyorder=False, intmax=5000)
                    c.run('%s of %s%s%s' % (cmd, shape, ' with a query' if q else '', ' flat' if more and more[0] == TRUE else ''),
                          [X(opts(p, query=V(*[('s', w) for w in q])))] + more, {}, ck)
                    ctx.count("injected failures", n[0])


# ------------------------------------------------------------------ the ledger
def ledger_fail(ctx):
    p = ctx.p
    fn = fnd(p, 'ParsedLedger>::to_ledger', '::to_ledger')
    rule = 'an error met while the ledger is built ends it with an error'
    shapes = [('one transaction', 'T'), ('two transactions', 'TT'), ('three transactions', 'TTT'), ('an automated transaction', 'TA'), ('an automated transaction first', 'ATT'), ('two automated transactions', 'TAA')]
    for label, shp in shapes:
        txs = []
        for i, s in enumerate(shp):
            ps = [raw(p, '%d%d' % (i, k), Shape('R', True), ('s', 'acc%d%d' % (i, k)), ('s', 'USD')) for k in range(2 if s == 'T' else 1)]
            txs.append(rawtx(p, i, ps, 'Real' if s == 'T' else 'Automated', query=NONE if s == 'T' else some(('s', 'q%d' % i))))
        n = [0]

        def ck(kind, v, st):
            j = judge(kind, v, st)
            if isinstance(j, str):
                return j
            n[0] += bool(j)
        over = inject(p, fn, [stub_balance(may_fail=False)] + LISTS + AUTO)
        c = Case(ctx, fn, rule, fn_over=over, anyorder=False, intmax=5000)
        reals = [i for i, s in enumerate(shp) if s == 'T']
        c.run(label, [parsed(p, txs), sym('nochecks')], facts(*[cc(sym('date%d' % a), sym('date%d' % b), '<') for a in reals for b in reals if a < b]), ck)
        ctx.count("injected failures", n[0])


# ------------------------------------------------------------------ the parser
KINDS_ = [('transaction', '2020-01-01 a\n  b  1 c\n  d\n'), ('transaction with cost and balance', '2020-01-01 a\n  b  1 c @ 2 d = 3 c\n  d\n'), ('automated transaction', '= e\n  f  2\n'),
          ('price', 'P 2020-01-01 a 2 b\n'), ('commodity', 'commodity a\n'), ('payee', 'payee a\n'), ('account', 'account a\n'), ('tag', 'tag a\n'), ('comment', '; a\n')]


def read_fail(ctx):
    """tokenize with each stage below failing at each call"""
    p = ctx.p
    rd = parsing.Reader(ctx)
    rule = 'an error met while a journal is read ends the reading with an error'
    texts = [(k, t) for k, t in KINDS_] + [(k + ' twice', t + '\n' + t) for k, t in KINDS_] + \
        [('%s, %s' % (k, l), t + '\n' + u) for k, t in KINDS_[:8] for l, u in KINDS_[:8] if k != l and (ctx.thorough or k[0] in 'tp')]
    if None in (rd.frm, rd.tok):
        ctx.undecided(rule, "function not found")
        return
    for label, txt in texts:
        key = "%s: %s" % (rule, label)
        try:
            out, tr = rd.stage(rd.frm, [('s', txt)])
            if not tr and len(out) == 1 and out[0][0] == 'return':
                v = out[0][2].deep(out[0][1])

                def setup(st):
                    st.mem[('g', 'tokenizer')] = v
                    return [('R', ('g', 'tokenizer'), ())]
                out, tr = rd.stage(rd.tok, None, inject(p, rd.tok, amounts='= e' not in txt), setup=setup)
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            continue
        if tr or not out:
            ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
            continue
        n = 0
        for kind, info, st in out:
            j = judge(kind, st.deep(info) if kind == 'return' else info, st)
            if isinstance(j, str):
                ctx.bad(key, where(rd.tok), "%s\n  text: %s" % (j, txt))
                break
            n += bool(j)
        else:
            ctx.ok(rule, "%s [%s: %d failures]" % (where(rd.tok), label, n))
            ctx.count("injected failures", n)


def malformed_rules(ctx):
    """malformed text anywhere in a journal"""
    R = parsing.Reader(ctx)
    rule = 'a journal with a malformed item is rejected wherever the item stands'
    good = '2020-01-01 a\n  b  1 c\n  d\n'
    for t in parsing.MALFORMED:
        for label, txt in (('after a transaction', good + '\n' + t), ('before a transaction', t + '\n' + good), ('after a directive', 'account e\n\n' + t), ('after a comment', '; x\n' + t)):
            if t[0] == ' ' and label.startswith('after a t'):
                continue        # indented lines belong to the transaction before, even after blank lines
            R.run(rule, "%r %s" % (parsing.visible(t), label), txt, None, fails=True, closure=False)


def filter_fail(ctx):
    """a query that gives no boolean is an error"""
    p = ctx.p
    rule = 'an error of the query ends the selection with an error'
    ER = 'value_expr::EvalResult'
    try:
        vs = [v['name'] for v in adt_info(p, ER)['variants']]
    except Exception:
        ctx.undecided(rule, "the type of results is not found")
        return
    po = posting_(p, 0, 'R', 'A', 'USD')
    tx = mk(p, TX, date=some(sym('date')), postings=V(po))
    for i, n in enumerate(vs):
        nf = len(adt_info(p, ER)['variants'][i]['fields'])
        r = ('A', adt_info(p, ER)['def'], i, tuple(sym('r%d' % k) for k in range(nf)))

        def ck(kind, v, st):
            bad = ends_badly(kind, v, st)
            if n == 'Boolean':
                return "a boolean answer is an error" if bad else None
            return None if bad else "the answer %s of a query counts as %s" % (n, show_(v))
        for f, args in (('filter::filter', [X(opts(p, real=FALSE, begin=NONE, end=NONE)), X(some(sym('node'))), X(tx), X(po), X(sym('commodities'))]),
                        ('filter::filter_expression', [X(sym('node')), X(po), X(tx), X(sym('commodities')), X(sym('regexes'))])):
            fn = fnd(p, f)
            c = Case(ctx, fn, rule, fn_over=[(r"value_expr::eval$", lambda e, st, fr, a: r), (r"fmt$", lambda e, st, fr, a: ok(UNIT))] + LISTS, anyorder=False)
            c.run("%s, answer %s" % (f, n), args, {}, ck)
