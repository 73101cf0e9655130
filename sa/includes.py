"""Include directives (C07): reading a tree of files is reading the text with the included files in place."""
import fnmatch, posixpath, itertools
from parsing import *
from parsing import Reader, visible
from ledger import ev, events
from report import show_
import models


class Files:
    """the file system as the parser sees it: files by absolute path, current directory /w"""
    def __init__(self, files):
        self.files = {posixpath.normpath(posixpath.join('/w', k)): v for k, v in files.items()}
        self.dirs = set()
        for f in self.files:
            while f != '/':
                f = posixpath.dirname(f)
                self.dirs.add(f)

    def abs(self, path):
        return posixpath.normpath(posixpath.join('/w', path))

    def real(self, path):
        """the file a path names; every directory on the way has to exist"""
        cur = '/' if path.startswith('/') else '/w'
        parts = [x for x in path.split('/') if x not in ('', '.')]
        for i, x in enumerate(parts):
            if cur not in self.dirs:
                return None
            cur = posixpath.dirname(cur) if x == '..' else posixpath.join(cur, x)
        return cur if cur in self.files or cur in self.dirs else None

    def glob(self, pat):
        """as the glob crate: matching paths in alphabetical order"""
        cur = ['/'] if pat.startswith('/') else ['.']
        parts = [x for x in pat.split('/') if x != '']
        for x in parts:
            nxt = []
            for c in cur:
                join = (lambda y: y) if c == '.' else (lambda y: posixpath.join(c, y))
                if x in ('.', '..'):
                    if self.real(c) in self.dirs:
                        nxt.append(join(x))
                elif not any(ch in x for ch in '*?['):
                    if self.real(join(x)) is not None:
                        nxt.append(join(x))
                else:
                    d = self.real(c)
                    if d in self.dirs:
                        names = sorted({posixpath.relpath(f, d).split('/')[0] for f in list(self.files) + list(self.dirs) if f.startswith(d.rstrip('/') + '/')})
                        nxt += [join(n) for n in names if fnmatch.fnmatchcase(n, x)]
            cur = nxt
        return cur


def path_models(fs, cyc=None):
    def s(st, v):
        v = st.deep(v)
        if v[0] == 'A' and v[1] == OPT:
            v = v[3][0] if v[3] else v
        if v[0] != 's':
            raise Unsupported("path %s" % show_(v))
        return v[1]

    def read(eng, st, fr, call):
        x = s(st, call.args[0])
        r = fs.real(x)
        n = sum(1 for e in events(st, 'read') if e and e[0] == ('s', r))
        if n >= 4:
            raise Stop('endless', ('s', x))
        ev(eng, st, 'read', ('s', r or x))
        return ok(('s', fs.files[r])) if r in fs.files else err(T('sym', 'io'))

    def canon(eng, st, fr, call):
        r = fs.real(s(st, call.args[0]))
        return ok(('s', r)) if r else err(T('sym', 'io'))

    def glob(eng, st, fr, call):
        return ok(models.I('seq', ('V', tuple(('1', ok(('s', x))) for x in fs.glob(s(st, call.args[0]))))))

    def parent(eng, st, fr, call):
        x = s(st, call.args[0])
        return some(('s', posixpath.dirname(x))) if x not in ('', '/') else NONE

    def exists(kind):
        def h(eng, st, fr, call):
            r = fs.real(s(st, call.args[0]))
            return ('b', r is not None and (kind is None or r in (fs.files if kind == 'f' else fs.dirs)))
        return h

    def ident(eng, st, fr, call):
        return ('s', s(st, call.args[0]))

    def join(eng, st, fr, call):
        return ('s', posixpath.join(s(st, call.args[0]), s(st, call.args[1])))
    em = {'std::fs::read_to_string': read, 'std::fs::canonicalize': canon, 'glob::glob': glob}
    for P in ('std::path::Path::', 'std::path::PathBuf::'):
        em.update({P + 'canonicalize': canon, P + 'parent': parent, P + 'exists': exists(None), P + 'is_file': exists('f'), P + 'is_dir': exists('d'), P + 'join': join,
                   P + 'to_str': lambda e, st, f, c: some(('s', s(st, c.args[0]))), P + 'to_string_lossy': ident, P + 'as_path': ident, P + 'to_path_buf': ident, P + 'new': ident,
                   P + 'display': ident, P + 'as_os_str': ident, P + 'is_absolute': lambda e, st, f, c: ('b', s(st, c.args[0]).startswith('/')),
                   P + 'is_relative': lambda e, st, f, c: ('b', not s(st, c.args[0]).startswith('/'))})
        def part(f_):
            def h(eng, st, fr, call):
                r_ = f_(s(st, call.args[0]))
                return some(('s', r_)) if r_ else NONE
            return h
        base_ = posixpath.basename
        stem = lambda x: posixpath.splitext(base_(x))
        em.update({P + 'file_name': part(lambda x: base_(posixpath.normpath(x)) if x and base_(x) != '..' else ''), P + 'file_stem': part(lambda x: stem(x)[0]), P + 'extension': part(lambda x: stem(x)[1][1:]),
                   P + 'starts_with': lambda e, st, f, c: ('b', _parts(s(st, c.args[0]))[:len(_parts(s(st, c.args[1])))] == _parts(s(st, c.args[1]))),
                   P + 'ends_with': lambda e, st, f, c: ('b', _parts(s(st, c.args[0]))[-len(_parts(s(st, c.args[1]))):] == _parts(s(st, c.args[1])))})
    for k in ('std::ffi::OsStr::to_str', 'std::ffi::OsString::to_str', 'std::ffi::os_str::OsStr::to_str'):
        em[k] = lambda e, st, f, c: some(('s', s(st, c.args[0])))
    for k in ('std::ffi::OsStr::to_string_lossy', 'std::ffi::os_str::OsStr::to_string_lossy', 'std::ffi::OsStr::to_os_string', 'std::ffi::OsStr::new'):
        em[k] = ident
    em['std::path::PathBuf::from'] = ident
    return em


def _parts(x):
    return (['/'] if x.startswith('/') else []) + [y for y in x.split('/') if y not in ('', '.')]


def flatten(fs, path):
    """the text with every included file in place"""
    out = []
    for l in fs.files[fs.real(path)].split('\n'):
        if l.startswith('include '):
            d = posixpath.dirname(path)
            for f in fs.glob((d or '.') + '/' + l[8:].strip()):
                out += flatten(fs, f)
        else:
            out.append(l)
    return out


def canon_(p, v):
    """content of a parsed journal"""
    def c(x):
        if isinstance(x, tuple):
            if x and x[0] == 'H':
                return ('H', x[1], frozenset((c(k), c(w)) for k, w in x[2]), x[3])
            return tuple(c(y) for y in x)
        return x
    return c(v)


def name(n):
    return chr(97 + n // 26 % 26) + chr(97 + n % 26)


def piece(kind, n):
    w = name(n)
    return {'t': '2020-01-%02d P%s\n  A%s  %d C%s\n  B%s\n' % (n % 28 + 1, w, w, n, w, w), 'p': 'P 2020-02-%02d Q%s %d R%s\n' % (n % 28 + 1, w, n, w), 'c': '; note %s\n' % w, 'g': 'tag T%s\n' % w,
            'a': 'account D%s\n  alias E%s\n' % (w, w), 'y': 'payee F%s\n  alias G%s\n' % (w, w), 'm': 'commodity H%s\n  alias I%s\n' % (w, w), '=': '= J%s\n  K%s  %d C\n' % (w, w, n)}[kind]


def include_rules(ctx, part=None):
    p = ctx.p
    R = Reader(ctx)
    fs_ = [f for f in p.fns.values() if f.local and f.crate == 'lib' and f.name.endswith('::from') and 'Tokenizer' in f.name and 'PathBuf' in f.name]
    frm = fs_[0] if fs_ else None
    cnt = itertools.count(1)

    def body(ks):
        return '\n'.join(piece(k, next(cnt)) for k in ks)

    def read(files, start):
        fs = Files(files)
        R.models = dict(base, **path_models(fs))
        out, tr = R.stage(frm, None, setup=lambda st: (st.mem.__setitem__(('g', 'path'), ('s', start)), [('R', ('g', 'path'), ())])[1])
        if tr or len(out) != 1 or out[0][0] != 'return':
            return [], tr or ["no tokenizer"]
        v = out[0][2].deep(out[0][1])
        raw_ = out[0][2].mem

        def setup(st):
            st.mem[('g', 'path')] = ('s', start)
            st.mem[('g', 'tokenizer')] = v
            return [('R', ('g', 'tokenizer'), ())]
        return R.stage(R.tok, None, setup=setup)
    base = R.models

    def go(rule, label, files, start, want='same', mess=''):
        key = "%s: %s" % (rule, label)
        shown = '\n'.join('  file %s:\n%s' % (n, '\n'.join('    ' + l for l in t.split('\n'))) for n, t in files.items())
        try:
            if None in (frm, R.tok):
                raise Unsupported("function not found")
            out, tr = read(files, start)
            if tr or not out:
                ctx.undecided(key, "; ".join(tr[:3]) or "no outcome")
                return
            exp = None
            if want == 'same':
                R.models = base
                fs = Files(files)
                o2, tr = R.parsed('\n'.join(flatten(fs, start)))
                if tr or len(o2) != 1 or o2[0][0] != 'return' or o2[0][2].deep(o2[0][1])[2] != 0:
                    ctx.undecided(key, "the text in place is not read: %s" % tr[:2])
                    return
                exp = canon_(p, o2[0][2].deep(o2[0][1])[3][0])
        except Exception as e:
            if ctx.pid == 'X':
                raise
            ctx.undecided(key, "internal error: %s %s" % (type(e).__name__, e))
            return
        for kind, info, st in out:
            m = None
            v = st.deep(info) if kind == 'return' else info
            bad = kind == 'panic' or kind == 'return' and v[0] == 'A' and v[1] == RES and v[2] == 1
            if want == 'error':
                m = None if bad else "reading does not end: %s is read again and again" % v[1] if kind == 'endless' else "accepted"
            elif kind == 'return' and not bad:
                got = canon_(p, v[3][0])
                if got != exp:
                    t = adt_info(p, PL)
                    for i, (n, _) in enumerate(t['variants'][0]['fields']):
                        if got[3][i] != exp[3][i]:
                            m = "the %s differ from those of the text with the files in place\n  read:     %s\n  in place: %s" % (n, show_(got[3][i])[:600], show_(exp[3][i])[:600])
                            break
            else:
                m = "rejected" if kind == 'return' else "ends with %s %s" % (kind, info)
            if m:
                ctx.bad(key, where(R.tok), "%s\n%s" % (m, shown))
                return
        ctx.ok(rule, "%s [%s]" % (where(R.tok), label))
    R1 = "an included file contributes everything it holds, as if written in place"
    if part in (None, 1):
        for k in 'tpcgaym=':
            go(R1, "a file with one %s" % piece(k, 0).split()[0], {'m': 'include b\n', 'b': piece(k, 1)}, 'm')
            go(R1, "%s before, in and after the file" % piece(k, 0).split()[0], {'m': piece(k, 1) + '\ninclude b\n\n' + piece(k, 2), 'b': piece(k, 3)}, 'm')
        every = 'tpcgaym='
        for end in ('', '\n', '\n\n'):
            go(R1, "everything, twice%s" % (', %d blank lines at the end' % len(end)), {'m': body(every) + '\ninclude b\n' + body(every), 'b': body(every).rstrip('\n') + end}, 'm')
        for a, b in itertools.product('tac=', repeat=2):
            go(R1, "%s, %s around two includes" % (a, b), {'m': body(a) + '\ninclude b\ninclude c\n' + body(b), 'b': body(b + a), 'c': body(a + b)}, 'm')
        go(R1, "an empty file", {'m': body('t') + '\ninclude b\n' + body('t'), 'b': ''}, 'm')
        go(R1, "the include is the last line without line end", {'m': body('t') + '\ninclude b', 'b': body('ta')}, 'm')
        go(R1, "CRLF", {'m': body('t') + '\ninclude b\r\n' + body('t'), 'b': body('ta')}, 'm')
        go(R1, "entity declared in both", {'m': 'account X\n  alias one\n\ninclude b\n', 'b': 'account Y\n  alias two\n'}, 'm')
    R2 = "an include names files relative to the including file"
    if part in (None, 2):
        for start in ('m', 'd/m', '/x/y/m', './m', 'd/e/../m', '../m'):
            d = posixpath.dirname(start)
            for inc in ('b', './b', 'sub/b', '../b', 'sub/deep/b', 'sub/../b', '../o/b'):
                t = posixpath.normpath(posixpath.join('/w', d, inc))
                files = {posixpath.normpath(posixpath.join('/w', d, 'm')): body('t') + '\ninclude %s\n' % inc, t: body('ta')}
                # decoys of the same name elsewhere
                for z in ('/w/b', '/w/sub/b', '/w/d/b', '/b', '/w/d/e/b', '/w/d/sub/b', '/x/y/sub/q', '/w/d/e/q', '/x/o/q', '/o/q', '/w/o/q', '/w/d/o/q', '/w/sub/q', '/x/y/q'):
                    files.setdefault(z, body('p'))
                go(R2, "%s includes %s" % (start, inc), files, start)
        for odd in ('a b', 'a;b', 'a ; b.j', ';b', 'a#b', "it's", '"q"', 'é.j', 'A:B', '2020-01.j', 'a=b', '(b)', 'x.y.z', 'B', 'include', 'my files/b c.j', 'a;b/c', '-b', '%b', 'a\tb', '.b', '~b', 'a,b', 'a&b', '@b'):
            t = posixpath.normpath(posixpath.join('/w/d', odd.strip()))
            files = {'/w/d/m': body('t') + '\ninclude %s\n' % odd + body('t'), t: body('ta')}
            for z in ('a', 'b', 'q', 'e', 'my', 'c', 'a ', ' b'):
                files.setdefault('/w/d/' + z, body('p'))
            go(R2, "a file named %r" % odd, files, 'd/m')
        for a, b in itertools.product(('b', 'sub/b', '../b', 'sub/deep/b'), ('c', 'sub/c', '../c')):
            tb = posixpath.normpath(posixpath.join('/w/d', a))
            tc = posixpath.normpath(posixpath.join(posixpath.dirname(tb), b))
            files = {'/w/d/m': body('t') + '\ninclude %s\n' % a + body('c'), tb: body('a') + '\ninclude %s\n' % b + body('t'), tc: body('tp')}
            for z in ('/w/c', '/w/d/c', '/w/d/sub/c', '/w/d/sub/sub/c', '/w/d/sub/deep/c', '/c', '/w/sub/c'):
                files.setdefault(z, body('p'))
            go(R2, "nested: %s includes %s" % (a, b), files, 'd/m')
        for pat in ('*', '*.j', 'b*', 'sub/*', 'sub/*.j', '*/b.j', '?.j', '[bc].j', 'none*', 'sub/none'):
            for start in ('m.l', 'd/m.l'):
                d = posixpath.dirname(start)
                pat_ = pat if pat != '*' else 'sub/*'
                fs = {start: body('t') + '\ninclude %s\n' % pat_ + body('t')}
                for n in ('b.j', 'c.j', 'bb.j', 'd1.k', 'sub/b.j', 'sub/a.j', 'sub/x.k', 'other/b.j', 'other/z.j'):
                    fs[posixpath.join(d, n)] = body('ta'[:1 + len(n) % 2])
                go(R2, "%s includes the pattern %s" % (start, pat_), fs, start)
    R3 = "a file that includes itself, directly or through others, is an error"
    if part in (None, 3):
        for label, fs, start in (
                ('itself', {'m': 'include m\n'}, 'm'), ('itself, after a transaction', {'m': body('t') + '\ninclude m\n'}, 'm'),
                ('itself under another path', {'m': 'include ./m\n'}, 'm'), ('itself through its directory', {'d/m': 'include ../d/m\n'}, 'd/m'), ('itself, absolute start', {'/x/m': 'include m\n'}, '/x/m'),
                ('itself by a pattern', {'m.j': 'include *.j\n', 'a.j': body('t')}, 'm.j'), ('itself by a pattern, last', {'m.j': 'include *.j\n', 'z.j': body('t')}, 'm.j'),
                ('itself, started as ./m', {'m': 'include m\n'}, './m'), ('itself, started with ..', {'d/m': 'include m\n', 'x/y': ''}, 'x/../d/m'),
                ('two files', {'m': 'include b\n', 'b': 'include m\n'}, 'm'), ('two files in directories', {'d/m': 'include e/b\n', 'd/e/b': body('t') + '\ninclude ../m\n'}, 'd/m'),
                ('three files', {'m': 'include b\n', 'b': 'include c\n', 'c': 'include m\n'}, 'm'), ('a cycle of the included files', {'m': 'include b\n', 'b': 'include c\n', 'c': 'include b\n'}, 'm'),
                ('an included file includes itself', {'m': 'include b\n', 'b': 'include b\n'}, 'm'), ('four files', {'m': 'include b\n', 'b': 'include c\n', 'c': 'include d\n', 'd': 'include b\n'}, 'm'),
                ('a file of the same name elsewhere', {'m': 'include d/m\n', 'd/m': body('t') + '\ninclude ../m\n'}, 'm'),
                ('a file of the same name elsewhere, starting below', {'m': 'include d/m\n', 'd/m': 'include ../m\n'}, 'd/m'),
                ('three files of the same name', {'m': 'include d/m\n', 'd/m': 'include e/m\n', 'd/e/m': 'include ../../m\n'}, 'm'),
                ('a cycle of files of the same name below another', {'r': 'include m\n', 'm': 'include d/m\n', 'd/m': 'include ../m\n'}, 'r'),
                ('after other includes', {'m': 'include a\ninclude b\n', 'a': body('t'), 'b': 'include a\ninclude m\n'}, 'm'),
                ('in the second file of a pattern', {'m': 'include s/*\n', 's/a': body('t'), 's/b': 'include ../m\n'}, 'm')):
            go(R3, label, fs, start, 'error')
    R4 = "the same file may be included more than once when there is no cycle"
    if part in (None, 3):
        go(R4, "twice", {'m': 'include b\ninclude b\n', 'b': body('t')}, 'm')
        go(R4, "files of the same name, no cycle", {'m': 'include d/m\ninclude e/m\n' + body('t'), 'd/m': body('ta') + '\ninclude e/m\n', 'd/e/m': body('t'), 'e/m': body('ta') + '\ninclude ../d/m\n'}, 'm')
        go(R4, "through two files", {'m': 'include b\ninclude c\n', 'b': 'include d\n' + body('t'), 'c': body('t') + '\ninclude d\n', 'd': body('ta')}, 'm')
        go(R4, "directly and through a file", {'m': 'include d\ninclude c\n', 'c': body('t') + '\ninclude d\n', 'd': body('tp')}, 'm')
        go(R4, "deep nesting", {'m': body('t') + '\ninclude b\n' + body('t'), 'b': body('t') + '\ninclude c\n' + body('t'), 'c': body('t') + '\ninclude d\n' + body('t'), 'd': body('t') + '\ninclude e\n' + body('t'), 'e': body('t')}, 'm')
    R5 = "an error in an included file is an error"
    if part in (None, 3, 4):
        for bad in ('x\n', '2020-13-01 x\n', '  y\n', 'account a\n  bad x\n', 'P 2021-01-05 X 3\n', '2021-01-05 x\n    A  1.2.3 X\n'):
            go(R5, visible(bad), {'m': body('t') + '\ninclude b\n' + body('t'), 'b': bad}, 'm', 'error')
            go(R5, visible(bad) + ' nested, after something', {'m': 'include b\n' + body('t'), 'b': 'include c\n', 'c': body('ta') + '\n' + bad}, 'm', 'error')
            go(R5, visible(bad) + ' in the second of three files', {'m': 'include s/*\n', 's/a': body('t'), 's/b': bad, 's/c': body('t')}, 'm', 'error')


def include1(ctx):
    include_rules(ctx, 1)


def include2(ctx):
    include_rules(ctx, 2)


def include3(ctx):
    include_rules(ctx, 3)


def include_errors(ctx):
    include_rules(ctx, 4)
