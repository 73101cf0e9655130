"""What each option of the command line does: from the argument list to the arguments of the command (C26)."""
import itertools
from kern import *
from scen import *
import text, peg, absint, export, models
from parsing import visible, date_v
from report import show_
from models import I
from ledger import ev, events
from models2 import seqv

SC = 'structopt::clap::'
MATCH = []
CMDS = ('Balance', 'Register', 'Accounts', 'Payees', 'Prices', 'Commodities', 'Check')


# ------------------------------------------------------------------ the declaration of the options
def builder_models():
    """the builder calls on applications and arguments are recorded in a term"""
    em = {}

    def new(kind):
        return lambda eng, st, fr, call: T(kind, st.deep(call.args[0]))

    def step(name):
        def f(eng, st, fr, call):
            xs = [st.deep(a) for a in call.args]
            if xs[0][0] != 't' or xs[0][1] not in ('capp', 'carg'):
                raise Unsupported("%s of %s" % (name, show_(xs[0])[:80]))
            if name in ('help', 'long_help', 'about', 'long_about', 'version', 'author', 'validator', 'validator_os', 'hidden', 'value_name', 'display_order', 'next_line_help', 'help_message',
                        'after_help', 'before_help', 'usage', 'bin_name', 'template', 'hide_default_value', 'hide_possible_values', 'short_about', 'set_term_width', 'max_term_width', 'help_heading', 'visible'):
                return xs[0]
            return T(xs[0][1], *(xs[0][2:] + (T('set', ('s', name), *xs[1:]),)))
        return f
    for k in ('App::new', 'SubCommand::with_name', 'App::with_name'):
        em[SC + k] = new('capp')
    for k in ('Arg::with_name', 'Arg::new'):
        em[SC + k] = new('carg')
    for n in ('about', 'long_about', 'alias', 'aliases', 'visible_alias', 'visible_aliases', 'setting', 'settings', 'global_setting', 'global_settings', 'arg', 'args', 'version', 'author', 'subcommand', 'subcommands',
              'group', 'unset_setting', 'after_help', 'before_help', 'help_message', 'usage', 'bin_name', 'template', 'name', 'display_order', 'set_term_width', 'max_term_width'):
        em[SC + 'App::' + n] = step(n)
    for n in ('takes_value', 'multiple', 'required', 'help', 'long_help', 'short', 'long', 'validator', 'validator_os', 'default_value', 'default_value_os', 'default_value_if', 'env', 'alias', 'aliases', 'visible_alias',
              'visible_aliases', 'hidden', 'value_name', 'display_order', 'next_line_help', 'conflicts_with', 'conflicts_with_all', 'requires', 'overrides_with', 'overrides_with_all', 'possible_value', 'possible_values',
              'case_insensitive', 'number_of_values', 'min_values', 'max_values', 'require_equals', 'allow_hyphen_values', 'use_delimiter', 'require_delimiter', 'value_delimiter', 'empty_values', 'last', 'raw', 'index',
              'global', 'set', 'unset', 'require_equals', 'required_unless', 'required_if', 'hide_default_value', 'group', 'setting'):
        em[SC + 'Arg::' + n] = step(n)
    return em


class Arg:
    def __init__(self, t):
        self.name, self.long, self.short, self.value, self.multiple, self.required = text_of(t[2]), [], [], False, False, False
        self.conflicts, self.needs, self.overrides, self.default, self.equals, self.only, self.split = [], [], [], None, False, None, None
        for s in t[3:]:
            n, a = s[2][1], s[3:]
            if n == 'long':
                self.long.append(text_of(a[0]).lstrip('-'))
                self.value = self.value
            elif n == 'short':
                self.short.append(text_of(a[0]).lstrip('-')[0])
            elif n in ('alias', 'visible_alias'):
                self.long.append(text_of(a[0]).lstrip('-'))
            elif n == 'takes_value':
                self.value = flag(a[0])
            elif n == 'multiple':
                self.multiple = flag(a[0])
            elif n == 'required':
                self.required = flag(a[0])
            elif n in ('conflicts_with', 'requires', 'overrides_with'):
                {'c': self.conflicts, 'r': self.needs, 'o': self.overrides}[n[0]].append(text_of(a[0]))
            elif n in ('conflicts_with_all', 'overrides_with_all', 'possible_values', 'aliases', 'visible_aliases') and a[0][0] == 'V' and all(x[0] == '1' for x in a[0][1]):
                xs = [text_of(x[1]) for x in a[0][1]]
                if n == 'possible_values':
                    self.only = xs
                elif 'alias' in n:
                    self.long += xs
                else:
                    {'c': self.conflicts, 'o': self.overrides}[n[0]].extend(xs)
            elif n == 'possible_value':
                self.only = (self.only or []) + [text_of(a[0])]
            elif n in ('default_value', 'default_value_os'):
                self.default = text_of(a[0])
            elif n == 'require_equals':
                self.equals = flag(a[0])
            elif n in ('use_delimiter', 'require_delimiter'):
                self.split = ',' if flag(a[0]) else None
            elif n == 'value_delimiter':
                self.split = text_of(a[0])[0]
            elif n in ('case_insensitive', 'empty_values', 'global', 'allow_hyphen_values'):
                pass
            else:
                raise Unsupported("the setting %s of the option %s" % (n, self.name))
        self.positional = not self.long and not self.short


def text_of(v):
    if v[0] != 's':
        raise Unsupported("name %s" % show_(v)[:60])
    return v[1]


def flag(v):
    if v[0] != 'b':
        raise Unsupported("switch %s" % show_(v)[:60])
    return v[1]


class App:
    def __init__(self, t):
        if t[0] != 't' or t[1] != 'capp':
            raise Unsupported("declaration %s" % show_(t)[:100])
        self.names, self.args, self.subs = [text_of(t[2])], [], []
        for s in t[3:]:
            n, a = s[2][1], s[3:]
            if n == 'arg':
                self.args.append(Arg(a[0]))
            elif n == 'subcommand':
                self.subs.append(App(a[0]))
            elif n in ('alias', 'visible_alias'):
                self.names.append(text_of(a[0]))
            elif n in ('aliases', 'visible_aliases') and a[0][0] == 'V':
                self.names += [text_of(x[1]) for x in a[0][1]]
            elif n in ('setting', 'global_setting'):
                pass
            else:
                raise Unsupported("the setting %s of the application" % n)


def parse(app, args):
    """the documented reading of an argument list; index into MATCH, or None where it is refused"""
    vals, i, pos = {}, 0, [a for a in app.args if a.positional]

    def put(a, v, words=False):
        for o in a.overrides:
            vals.pop(o, None)
        if a.name in vals and not a.multiple:
            return False
        if a.only is not None and v not in a.only:
            return False
        vals.setdefault(a.name, []).extend(v.split(a.split) if a.split and isinstance(v, str) else [v])
        return True
    sub = None
    while i < len(args):
        x = args[i]
        i += 1
        a, has, v = None, False, None
        if x.startswith('--') and len(x) > 2:
            n, e, v = x[2:].partition('=')
            a = [b for b in app.args if n in b.long]
            has = bool(e)
        elif x.startswith('-') and len(x) > 1:
            a = [b for b in app.args if x[1] in b.short]
            v = x[2:]
            has = bool(v)
            if v.startswith('='):
                v = v[1:]
            if a and not a[0].value and has:
                return None
        else:
            s = [b for b in app.subs if x in b.names]
            if s:
                r = parse(s[0], args[i:])
                if r is None:
                    return None
                sub = (s[0].names[0], r)
                break
            if not pos:
                return None
            if not put(pos[0], x):
                pos = pos[1:]
                if not pos or not put(pos[0], x):
                    return None
            continue
        if not a:
            return None
        a = a[0]
        if a.value and not has:
            if i >= len(args) or a.equals:
                return None
            v = args[i]
            i += 1
        if not a.value and has:
            return None
        if not put(a, v if a.value else True):
            return None
    for a in app.args:
        if a.name in vals and (any(c in vals for c in a.conflicts) or any(c not in vals for c in a.needs)):
            return None
    for a in app.args:
        if a.default is not None and a.name not in vals:
            vals[a.name] = [a.default]
    if any(a.required and a.name not in vals for a in app.args):
        return None
    if app.subs and sub is None:
        return None
    MATCH.append((vals, sub))
    return len(MATCH) - 1


def match_models():
    def at(st, v):
        v = st.deep(v)
        if v[0] != 't' or v[1] != 'matches':
            raise Unsupported("matches %s" % show_(v)[:80])
        return MATCH[v[2][1]]

    def vals(st, call):
        n = st.deep(call.args[1])
        return [('s', x) for x in at(st, call.args[0])[0].get(text_of(n), []) if x is not True]

    def value_of(eng, st, fr, call):
        x = vals(st, call)
        return some(x[0]) if x else NONE

    def values_of(eng, st, fr, call):
        x = vals(st, call)
        return some(I('seq', seqv(x))) if x else NONE

    def present(eng, st, fr, call):
        return ('b', text_of(st.deep(call.args[1])) in at(st, call.args[0])[0])

    def occ(eng, st, fr, call):
        return ('i', len(at(st, call.args[0])[0].get(text_of(st.deep(call.args[1])), [])))

    def sub(eng, st, fr, call):
        s = at(st, call.args[0])[1]
        return ('T', (('s', s[0]), some(T('matches', ('i', s[1]))))) if s else ('T', (('s', ''), NONE))

    def sub_name(eng, st, fr, call):
        s = at(st, call.args[0])[1]
        return some(('s', s[0])) if s else NONE

    def sub_m(eng, st, fr, call):
        s = at(st, call.args[0])[1]
        return some(T('matches', ('i', s[1]))) if s and s[0] == text_of(st.deep(call.args[1])) else NONE
    A = SC + 'ArgMatches::'
    return {A + 'value_of': value_of, A + 'value_of_os': value_of, A + 'value_of_lossy': value_of, A + 'values_of': values_of, A + 'values_of_os': values_of,
            A + 'is_present': present, A + 'occurrences_of': occ, A + 'subcommand': sub, A + 'subcommand_name': sub_name, A + 'subcommand_matches': sub_m}


def same_models(em):
    for k in ('std::path::Path::new', 'std::path::PathBuf::from', 'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf', 'std::path::PathBuf::new_from', 'std::ffi::OsStr::new', 'std::ffi::OsString::from',
              'std::ffi::OsStr::to_os_string', 'std::ffi::OsStr::to_owned', 'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string'):
        em[k] = lambda e, s, f, c: s.deep(c.args[0])
    old = em.get('std::convert::From::from') or models.M.get('std::convert::From::from')

    def conv(eng, st, fr, call):
        v = st.deep(call.args[0])
        return v if v[0] == 's' else old(eng, st, fr, call) if old else NotImplemented
    fs = em.get('std::str::FromStr::from_str')

    def from_str(eng, st, fr, call):
        v = st.deep(call.args[0])
        if models.tstr(eng, call, 0).endswith(('String', 'PathBuf', 'OsString')):
            return ok(v)
        return fs(eng, st, fr, call)
    em['std::str::FromStr::from_str'] = from_str
    em['std::convert::From::from'] = em['std::convert::Into::into'] = conv
    return em


def declared(p, em):
    fn = fnd(p, '<dinero::app::Opt as structopt::StructOptInternal>::augment_clap') or fnd(p, 'app::Opt as structopt::StructOptInternal>::augment_clap')
    if fn is None:
        return None, ['the declaration of the options is not found']
    m = dict(em)
    m.update(builder_models())
    r = Run(p, extra_models=m, intmax=5000, recursion=20)
    out = r.go(fn, [T('capp', ('s', 'dinero'))], {})
    if r.trouble() or len(out) != 1 or out[0][0] != 'return':
        return None, r.trouble() or ['%d outcomes of the declaration' % len(out)]
    try:
        return App(out[0][2].deep(out[0][1])), []
    except Unsupported as e:
        return None, [str(e)]


FIELD = {'--file': 'input_file', '--depth': 'depth', '--real': 'real', '--begin': 'begin', '--end': 'end', '--no-balance-check': 'no_balance_check', '-X': 'exchange'}


def option_rules(ctx):
    p = ctx.p
    em = same_models(text.text_models(p, peg.load(export.REPO)))
    fn = fnd(p, 'app::run_app')
    rule = "an option does what it says and nothing else"
    fc = fnd(p, 'app::Opt as structopt::StructOpt>::from_clap')
    app, why = declared(p, em)
    if app is None or fn is None or fc is None:
        ctx.undecided(rule, '; '.join(why[:3]) or 'run_app or from_clap is not found')
        return
    em.update(match_models())
    for k in ('std::path::Path::exists', 'std::path::Path::is_file'):
        em[k] = lambda e, s, f, c: ('b', False)
    em['std::env::set_var'] = lambda e, s, f, c: UNIT
    em['shellexpand::tilde'] = lambda e, s, f, c: s.deep(c.args[0])

    def ex(name):
        def h(eng, st, fr, args):
            ev(eng, st, 'execute', ('s', name), ('T', tuple(st.deep(a) for a in args)))
            return ok(UNIT)
        return h
    over = [(r"commands::%s::execute$" % c.lower(), ex(c)) for c in CMDS]

    def read(safe):
        def f(eng, st, fr, call):
            from config import items
            xs = items(call.args[0], st)
            if xs is None:
                raise Unsupported("argument list %s" % show_(st.deep(call.args[0]))[:100])
            i = parse(app, xs[1:])
            if i is None:
                raise Stop('refused', visible(repr(xs)))
            if isinstance(call.dst, tuple):
                d = call.dst
            else:
                c, q, _ = eng.place(st, fr, call.dst)
                d = (c, q)
            from eng import Call
            return eng.push_fn(st, fr, fc, Call({"decl": fc.name}, [('R', st.alloc(T('matches', ('i', i))), ())], d, call.to, call.span, fc.crate, fc))
        return f
    em['structopt::StructOpt::from_iter'] = read(False)
    OT = adt_info(p, 'CommonOpts')['def']

    def go(args, want, cmd):
        """want: field -> expected value; others have the value of an option not given"""
        label = visible(' '.join(args))
        key = "%s: %s" % (rule, label)
        try:
            r = Run(p, extra_models=em, fn_over=over, intmax=5000, recursion=30)
            out = r.go(fn, [('V', tuple(('1', ('s', a)) for a in args))], {})
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return
        ctx.count("paths", len(out))
        if r.trouble() or not out:
            ctx.undecided(key, "; ".join(r.trouble()[:3]) or "no outcome")
            return
        for kind, info, st in out:
            m = None
            if kind == 'refused':
                m = None if want == 'refused' else "the command line is refused"
            elif want == 'refused':
                m = "the command line is accepted"
            elif kind != 'return':
                m = "ends with %s %s" % (kind, info)
            else:
                es = events(st, 'execute')
                if len(es) != 1:
                    m = "%d commands are run" % len(es)
                elif es[0][0][1] != cmd:
                    m = "the command %s is run instead of %s" % (es[0][0][1], cmd)
                else:
                    m = compare(cmd, [st.deep(x) for x in es[0][1][1]], want, st)
            if m:
                ctx.bad(key, where(fn), "%s\n  command line: %s" % (m, label))
                return
        ctx.ok(rule, "%s [%s]" % (where(fn), label))

    def compare(cmd, args, want, st):
        for a in args:
            if a[0] == 'A' and a[1] == OT:
                for f, v in want.items():
                    if f in ('flat', 'no_total'):
                        continue
                    try:
                        g = st.deep(get(p, a, 'CommonOpts', f))
                    except Exception:
                        continue
                    if f == 'query':
                        g = tuple(st.deep(s[1]) for s in g[1]) if g[0] == 'V' and all(s[0] == '1' for s in g[1]) else g
                    if g != v:
                        return "%s is %s instead of %s" % (f, show_(g) if f != 'query' or g and isinstance(g[0], str) else [show_(x) for x in g], show_(v) if f != 'query' else [show_(x) for x in v])
                break
        else:
            if cmd not in ('Balance', 'Register') and args:
                if args[0] != want['input_file']:
                    return "the journal read is %s" % show_(args[0])
                if len(args) == 2 and args[1][0] == 'b' and cmd != 'Check' and args[1] != want['no_balance_check']:
                    return "the switch for balance checks is %s" % show_(args[1])
        if cmd == 'Balance' and len(args) == 3 and args[1][0] == args[2][0] == 'b':
            if args[1] != want['flat']:
                return "flat is %s" % show_(args[1])
            if args[2] != ('b', not want['no_total'][1]):
                return "the total is %s" % ('shown' if args[2][1] else 'left out')
    w = LET1
    Y = DIG[0] + DIG[1] + DIG[2] + DIG[3]
    day = Y + '-05-07'
    S = lambda t: ('s', t)
    none = dict(input_file=S('Dir/J 1'), depth=NONE, query=(), real=('b', False), begin=NONE, end=NONE, no_balance_check=('b', False), exchange=NONE, flat=('b', False), no_total=('b', False))
    forms = {'--depth': ([['--depth', '3'], ['--depth=3'], ['-d', '3'], ['-d3'], ['-d=3']], 'depth', some(('i', 3))),
             '--begin': ([['--begin', day], ['--begin=' + day], ['-b', day], ['-b' + day]], 'begin', some(date_v(Y, 5, 7))),
             '--end': ([['--end', day], ['--end=' + day], ['-e', day], ['-e' + day]], 'end', some(date_v(Y, 5, 7))),
             '--real': ([['--real']], 'real', ('b', True)),
             '--no-balance-check': ([['--no-balance-check']], 'no_balance_check', ('b', True)),
             '-X': ([['-X', w[0] + w[1]], ['-X' + w[0] + w[1]], ['-X', '"' + w[0] + ' ' + w[1] + '"']], 'exchange', None),
             'query': ([[w[0] + w[1]], [w[0], w[1] + ' ' + w[2]], [w[3], '@' + w[4], 'and', '%' + w[5]], [w[0] + ',' + w[1]]], 'query', None)}
    inert = [['--date-format', w[6]], ['--force-color'], ['--force-pager'], ['--effective'], ['--strict'], ['--unrealized-gains', w[6]], ['--unrealized-losses', w[6]], ['--now', day], ['--period', w[6]], ['-p', w[6]], ['--init-file', w[6]]]
    balonly = {'--flat': ('flat', ('b', True)), '--no-total': ('no_total', ('b', True))}
    names = {'Balance': ('balance', 'bal'), 'Register': ('register', 'reg'), 'Accounts': ('accounts',), 'Payees': ('payees',), 'Prices': ('prices',), 'Commodities': ('commodities', 'currencies'), 'Check': ('check',)}
    F = ['-f', 'Dir/J 1']

    def exp(o, f):
        _, field, v = forms[o]
        if o == '-X':
            v = some(S(f[-1] if len(f) == 2 else f[0][2:]))
        elif o == 'query':
            v = tuple(S(x) for x in f)
        return field, v
    for cmd, ns in names.items():
        for n in ns:
            for ff in ([F], [['--file', 'Dir/J 1']], [['--file=Dir/J 1']], [['-fDir/J 1']]):
                go(['dinero', n] + ff[0], dict(none), cmd)
            for x in inert:
                go(['dinero', n] + F + x, dict(none), cmd)
            for o, (fs, _, _) in forms.items():
                for f in fs:
                    k, v = exp(o, f)
                    go(['dinero', n] + F + f, dict(none, **{k: v}), cmd)
                    go(['dinero', n] + f + F, dict(none, **{k: v}), cmd)
    for o, (k, v) in balonly.items():
        go(['dinero', 'bal', o] + F, dict(none, **{k: v}), 'Balance')
        go(['dinero', 'balance'] + F + [o, w[0]], dict(none, query=(S(w[0]),), **{k: v}), 'Balance')
    pairs = [(a, b) for a in forms for b in forms if a != b]
    for a, b in pairs:
        for cmd, n in (('Balance', 'bal'), ('Register', 'reg')):
            f1, f2 = forms[a][0][0], forms[b][0][-1]
            k1, v1 = exp(a, f1)
            k2, v2 = exp(b, f2)
            go(['dinero', n] + f1 + F + f2, dict(none, **{k1: v1, k2: v2}), cmd)
    for x in inert:
        for b in forms:
            f2 = forms[b][0][0]
            k2, v2 = exp(b, f2)
            if x[0] != '--init-file':
                go(['dinero', 'bal'] + f2 + F + x, dict(none, **{k2: v2}), 'Balance')
                go(['dinero', 'reg'] + x + F + f2, dict(none, **{k2: v2}), 'Register')
    for o, (k, v) in balonly.items():
        for b in forms:
            f2 = forms[b][0][0]
            k2, v2 = exp(b, f2)
            go(['dinero', 'bal'] + f2 + F + [o], dict(none, **{k: v, k2: v2}), 'Balance')
    go(['dinero', 'bal'], 'refused', None)
    everything = ['--depth', '3', '-b', day, '-e', Y + '/12/31', '--real', '--no-balance-check', '-X', w[0], w[1], w[2]]
    ev_ = dict(none, depth=some(('i', 3)), begin=some(date_v(Y, 5, 7)), end=some(date_v(Y, 12, 31)), real=('b', True), no_balance_check=('b', True), exchange=some(S(w[0])), query=(S(w[1]), S(w[2])))
    for cmd, ns in names.items():
        go(['dinero', ns[-1]] + F + everything, ev_, cmd)
        go(['dinero', ns[0]] + everything + F, ev_, cmd)
