"""P11: every command line does what it says, and touches nothing else."""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import sys
import traceback
import build
import choice
import plib
import protoast as A
from p01 import fld
from p07 import forked
from schema import snake

LIMIT = {'sizes': 120, 'commands': 120, 'names': 60, 'wrong': 60}
IM = [(('package', 'im'), ('message', 'I', (fld(0, t),))) for t in ('int32', 'string')]
SRC = {'a.proto': (('package', 'pa'), ('message', 'A', (fld(0), fld(1, 'string', 'repeated'))), ('enum', 'E', (('const', 'e_x', '0', ()),))),
       'FooBar.proto': (('package', 'pb'), ('message', 'B', (fld(0, 'bytes'),))),
       'sub/c.proto': (('package', 'pc'), ('message', 'C', (fld(0, 'double'),))),
       'use.proto': (('import', '', 'd/im.proto'), ('package', 'pu'), ('message', 'U', (fld(0, 'im.I'),))),
       'bad.proto': (('package', 'px'), ('message', 'X', (fld(0, 'Nope'),)))}
# Files that happen to be where output goes: of other names, and of similar ones.
BYSTANDERS = ['other.proto', 'other.h', 'other.c', 'other.rs', 'other.mys', 'a.o', 'a.hh', 'a.h.orig', 'a.c~', '.a.h', 'a', 'A.h', 'a.tmp', 'a.h.tmp', 'foo_bar.o', 'FooBar.h', 'fooBar.c',
              'foo_bar', 'pbtools.h', 'im.h', 'im.c', 'old/a.h', 'use_.c', 'bad.h']
NAME = {'a.proto': 'a', 'FooBar.proto': 'foo_bar', 'sub/c.proto': 'c', 'use.proto': 'use', 'bad.proto': 'bad'}
EXT = {'generate_c_source': ('h', 'c'), 'generate_rust_source': ('rs',), 'generate_mys_source': ('mys',)}
SUBS = list(EXT)


def tree(top):
    """Everything below top."""
    out = {}
    for d, ds, fs in os.walk(top):
        for n in fs:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, top)] = f.read()
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), top) + '/'] = None
    return out


def run(args, cwd, process=False):
    """(status, stdout, stderr, escaped exception)"""
    if process:
        e = build.env()
        r = subprocess.run([sys.executable, '-B', '-m', 'pbtools', *args], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        return r.returncode, r.stdout, r.stderr, None
    import pbtools
    err, out = io.StringIO(), io.StringIO()
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ['pbtools', *args]
    status, exc = 0, None
    os.chdir(cwd)
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            try:
                pbtools._main()
            except SystemExit as x:
                if x.code is None or isinstance(x.code, int):
                    status = x.code or 0
                else:
                    err.write(str(x.code) + '\n')
                    status = 1
    except plib.Hang:
        raise
    except BaseException:
        status, exc = 1, traceback.format_exc()
        err.write(exc)
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return status, out.getvalue(), err.getvalue(), exc


def setup(w):
    top = w.path('top')
    shutil.rmtree(top, ignore_errors=True)
    for n, f in SRC.items():
        w.write('top/' + n, A.text(f))
    for i in (0, 1):
        w.write(f'top/inc{i}/d/im.proto', A.text(IM[i]))
    for d in ('', 'out/', 'sub/'):
        for n in BYSTANDERS:
            w.write(f'top/{d}{n}', 'kept ' + n)
    return top


def content(w, sub, name, inc, upper):
    """The code for a file, given by generate_files() in a process of its own."""
    key = (sub, name, inc, upper)
    if not hasattr(w, 'content'):
        w.content = {}
    if key not in w.content:
        top = setup(w)
        d = w.path('plain')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def go():
            m = __import__('pbtools.' + sub.replace('generate_', ''), fromlist=['x'])
            extra = [m.Options(upper)] if sub == SUBS[0] else []
            m.generate_files([os.path.join(top, name)], [os.path.join(top, f'inc{i}') for i in inc], d, *extra)
            return {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d)}
        w.content[key] = forked(go)
        if set(w.content[key]) != {f'{NAME[name]}.{x}' for x in EXT[sub]}:
            raise plib.Bad(f'generate_files() of {sub} for {name} gives the files {sorted(w.content[key])}')
    return w.content[key]


OUTS = ['out', None, 'new', 'new/deep/er', 'out/', './out', 'out/../out', '.', 'ABS', 'ABS/new', 'sub', 'new two/x']
FILES = [('a.proto',), ('FooBar.proto',), ('sub/c.proto',), ('use.proto',), ('a.proto', 'FooBar.proto'), ('use.proto', 'a.proto'), ('sub/c.proto', 'use.proto'),
         ('FooBar.proto', 'sub/c.proto', 'a.proto'), ('a.proto', 'a.proto'), ('bad.proto',), ('a.proto', 'bad.proto')]
INCS = [(0,), (), (1,), (0, 1), (1, 0), (9, 1), (0, 0)]
ORDERS = list(itertools.permutations(('out', 'inc', 'upper', 'files')))


def spell(form, short, long, value):
    return ([short, value], [short + value], [long, value], [f'{long}={value}'])[form]


def command(ch):
    return {'sub': ch.of(SUBS), 'files': ch.of(FILES), 'out': ch.of(OUTS), 'inc': ch.of(INCS), 'upper': ch.of((0, 1)), 'debug': ch.of(('', '-d', '--debug')),
            'oform': ch.pick(4), 'iform': ch.pick(4), 'order': ch.pick(len(ORDERS)), 'dashes': ch.pick(2), 'fform': ch.pick(4), 'iabs': ch.pick(3), 'process': ch.pick(2),
            'api': ch.pick(3), 'again': ch.pick(3)}


def cases_commands(tier):
    for c, _ in choice.runs(command, 3 if tier == 'thorough' else 2):
        yield c


def check_commands(w, case):
    c = command(choice.Ch(case))
    sub, upper = c['sub'], c['upper']
    if upper and sub != SUBS[0] or c['api'] and (c['debug'] or c['dashes'] or c['process'] or c['out'] is None and c['api'] == 2) or c['dashes'] and ORDERS[c['order']][-1] != 'files':
        w.out('no such command')
        return
    found = [i for i in c['inc'] if i < 9]
    ok, want = True, {}
    for f in c['files']:
        if f == 'bad.proto' or f == 'use.proto' and not found:
            ok = False
            break
        want.update(content(w, sub, f, tuple(found), upper))
    top = setup(w)
    odir = (c['out'] or '.').replace('ABS', top)
    opath = os.path.normpath(os.path.join(top, odir))
    if sub != SUBS[0] and not os.path.isdir(opath):
        w.out('no such command')
        return
    if c['again']:                              # over earlier output, which was complete or not
        os.makedirs(opath, exist_ok=True)
        for n, b in want.items():
            with open(os.path.join(opath, n), 'wb') as f:
                f.write(b if c['again'] == 1 else b'x' * (len(b) + 100))
    inc = [(os.path.join(top, f'inc{i}'), f'inc{i}', f'./inc{i}/')[(c['iabs'] + 1) % 3] for i in c['inc']]
    files = [(f, './' + f, os.path.join(top, f), 'out/../' + f)[c['fform']] for f in c['files']]
    units = {'out': [] if c['out'] is None else spell(c['oform'], '-o', '--output-directory', odir), 'inc': [x for i in inc for x in spell(c['iform'], '-I', '--import-path', i)],
             'upper': ['--enums-upper-case'] * upper, 'files': ['--'] * c['dashes'] + files}
    args = [c['debug']] * bool(c['debug']) + [sub] + [x for u in ORDERS[c['order']] for x in units[u]]
    before = tree(top)
    if c['api']:
        args = 'generate_files()'

        def call():
            m = __import__('pbtools.' + sub.replace('generate_', ''), fromlist=['x'])
            os.chdir(top)
            out = io.StringIO()
            kw = {'import_paths': inc or None, 'output_directory': odir}
            if sub == SUBS[0]:
                kw['options'] = m.Options(upper) if upper or c['api'] == 1 else None
            with contextlib.redirect_stderr(out), contextlib.redirect_stdout(out):
                try:
                    m.generate_files(files if c['api'] == 1 else tuple(files), **kw) if c['api'] == 1 else m.generate_files(tuple(files), *kw.values())
                    return 0, '', out.getvalue(), None
                except Exception as x:
                    return 1, '', f'{type(x).__name__}: {x}', None
        st, out, err, exc = forked(call)
    else:
        st, out, err, exc = run(args, top, c['process'])
    w.transitions += 1
    w.traces += 1
    after = tree(top)
    text = ' '.join(args) if isinstance(args, list) else f'generate_files({files}, {inc}, {odir!r}) of {sub}'
    if exc and not (c['debug'] and not ok):
        raise plib.Bad(f'{text}: {exc[-800:]}')
    if ok != (st == 0):
        raise plib.Bad(f'{text}: exit status {st}, {err!r}')
    if not ok and not err.strip() or ok and (out or err):
        raise plib.Bad(f'{text}: status {st}, writes {out!r} to stdout and {err!r} to stderr')
    rel = os.path.relpath(opath, top)
    put = lambda n: n if rel == '.' else f'{rel}/{n}'
    expect = dict(before)
    p = rel
    while p not in ('.', ''):
        expect[p + '/'] = None
        p = os.path.dirname(p)
    new = {put(n): b for n, b in want.items()}
    if ok:
        expect.update(new)
        if after != expect:
            d = sorted(n for n in {*after, *expect} if after.get(n, 0) != expect.get(n, 0))
            raise plib.Bad(f'{text}: differs from what it should write: ' + ', '.join(
                f'{n} {"is missing" if n not in after else "should not be there" if n not in expect else "has other content"}' for n in d[:6]))
    else:
        for n in {*after, *before}:
            if n.endswith('/') or n in new:
                continue
            if after.get(n) != before.get(n):
                # Files named later are none of our business; but not the rejected one, nor anything else.
                names = {f'{NAME[f]}.{x}' for f in c['files'] if f != 'bad.proto' for x in EXT[sub]}
                if os.path.dirname(n) != rel.replace('.', '') or os.path.basename(n) not in names:
                    raise plib.Bad(f'{text}: fails, and {n} is changed')
    w.out('generated' if ok else 'rejected')


# -- wrong command lines, help ------------------------------------------------------------

GOOD = [[s, *x] for s in SUBS for x in (['-o', 'out', 'a.proto'], ['a.proto', '-I', 'inc0', '-o', 'out'], ['-I', 'inc0', '-Iinc1', 'use.proto', 'a.proto', '-oout'])]
TOKENS = ['--nosuch', '-x', '--nosuch=1', '--enums', '-d=1', '--enums-upper-case=1', '--debug=1']
WRONG = [[], ['-d'], ['nosuch'], ['nosuch', 'a.proto'], ['-d', 'nosuch'], ['a.proto'], ['generate'], ['generate_c', 'a.proto'], [SUBS[1], '--enums-upper-case', '-o', 'out', 'a.proto'], [SUBS[2], '--enums-upper-case', '-o', 'out', 'a.proto']]
WRONG += [[s, *x] for s in SUBS for x in ([], ['-o', 'out'], ['-I', 'inc0'], ['-o'], ['a.proto', '-o'], ['a.proto', '-I'], ['a.proto', '--output-directory'], ['a.proto', '--import-path'])]
HELP = [['-h'], ['--help'], *[[s, h] for s in SUBS for h in ('-h', '--help')], *[['-h', s] for s in SUBS], *[[s, 'a.proto', '-h'] for s in SUBS]]


def cases_wrong(tier):
    for c in WRONG:
        yield 'wrong', tuple(c)
    for c in HELP:
        yield 'help', tuple(c)
    yield 'version', ('--version',)
    for g in GOOD:
        for t in TOKENS:
            if t == '--enums' and g[0] == SUBS[0]:
                continue                        # may be an abbreviation
            for i in range(len(g) + 1):
                yield 'wrong', (*g[:i], t, *g[i:])


def check_wrong(w, case):
    kind, args = case
    import pbtools
    for process in ((False, True) if kind != 'wrong' or len(args) < 4 else (False,)):
        top = setup(w)
        before = tree(top)
        st, out, err, exc = run(list(args), top, process)
        w.transitions += 1
        w.traces += 1
        text = 'pbtools ' + ' '.join(args)
        if exc:
            raise plib.Bad(f'{text}: {exc[-800:]}')
        if tree(top) != before:
            raise plib.Bad(f'{text}: files are changed: {sorted(set(tree(top)) ^ set(before))}')
        if kind == 'wrong':
            if st == 0 or not err.strip():
                raise plib.Bad(f'{text}: exit status {st}, {err!r}')
        elif st or err or not out.strip():
            raise plib.Bad(f'{text}: exit status {st}, writes {out!r} to stdout and {err!r} to stderr')
        if kind == 'version' and out.split() != [pbtools.__version__]:
            raise plib.Bad(f'{text}: prints {out!r}')
    w.out(kind)


# -- names of output files ---------------------------------------------------------------

CHARS = 'aB1_-. '


def cases_names(tier):
    for n in range(1, 6 if tier == 'thorough' else 5):
        for t in itertools.product(CHARS, repeat=n):
            yield ''.join(t), '.proto'
    for t in itertools.product('azAZ09_.-@[`{/:'.replace('/', ''), repeat=2):
        yield 'x' + ''.join(t) + 'y', '.proto'
    for e in ('', '.txt', '.proto3', '.PROTO', '.Proto', '.pb', '.c', '.h'):
        for b in ('a', 'FooBar', 'foo.bar', 'HTTPServer', 'a1B2', 'x' * 60):
            yield b, e
    for b in ('HTTPServerV2', 'fooBARBaz', 'ABC', 'aBC', 'Ab_Cd', '_ab', 'ab_', 'a__b', 'A_B', 'a.B.c', 'proto', 'a.proto', 'x' * 200, 'AbCdEfGhIj' * 10):
        yield b, '.proto'


def check_names(w, case):
    b, e = case
    f = b + e
    stem = os.path.splitext(f)[0]
    if stem.strip('.') == '' or f in ('.', '..'):
        w.out('no name')
        return
    top = w.path('names')
    shutil.rmtree(top, ignore_errors=True)
    w.write('names/in/' + f, A.text(SRC['a.proto']))
    st, out, err, exc = run([SUBS[0], '-o', 'out', './in/' + f], top)
    w.transitions += 1
    w.traces += 1
    if st or exc or out or err:
        raise plib.Bad(f'a file named {f!r}: exit status {st}, {err!r} {exc}')
    got = set(os.listdir(os.path.join(top, 'out')))
    s = snake(stem)
    if got != {s + '.h', s + '.c'}:
        raise plib.Bad(f'a file named {f!r} gives {sorted(got)}, not {s}.h and {s}.c')
    w.out('named')


# -- many files, import paths, directories ---------------------------------------------------

def cases_sizes(tier):
    for n in (*range(2, 20), 31, 32, 33, 63, 64, 65, *((100, 127, 128, 129, 257) if tier == 'thorough' else (129,))):
        for kind in ('files', 'paths', 'both', 'same', 'deep', 'long'):
            if n < 130 or kind not in ('deep', 'long'):
                for form in (0, 1, 2, 3) if n < 12 else (n % 4,):
                    yield kind, n, form


def check_sizes(w, case):
    kind, n, form = case
    top = w.path('top')
    shutil.rmtree(top, ignore_errors=True)
    out, inc = 'out', []
    os.makedirs(os.path.join(top, 'out'))
    if kind in ('paths', 'both', 'files'):
        files = [f'u{i}.proto' for i in range(n if kind != 'paths' else 1)]
        for i in range(n):
            w.write(f'top/inc{i}/i{i}.proto', A.text([('package', f'q{i}'), ('message', 'I', (fld(i % 3, f'int32', name=f'v{i}'),))]))
        for i, f in enumerate(files):
            to = range(n) if kind == 'paths' else [i] if kind == 'both' else []
            w.write('top/' + f, A.text([('import', '', f'i{j}.proto') for j in to] + [('package', f'p{i}'), ('message', 'U', tuple(fld(j, f'q{j}.I') for j in to) + (fld(n + 1),))]))
        inc = [f'inc{i}' for i in range(n)] if kind != 'files' else []
    elif kind == 'same':
        files = ['a.proto'] * n
        w.write('top/a.proto', A.text(SRC['a.proto']))
    elif kind == 'deep':
        out = '/'.join(['out'] + [f'o{i}' for i in range(n)])
        files = ['/'.join(f'd{i}' for i in range(n)) + '/a.proto']
        w.write('top/' + files[0], A.text(SRC['a.proto']))
    else:
        files = ['a' + 'bC' * n + '.proto' if n < 65 else 'x' * n + '.proto']
        w.write('top/' + files[0], A.text(SRC['a.proto']))
    sub = SUBS[0]
    want = {}
    for i, f in enumerate(dict.fromkeys(files)):
        d = w.path('plain')
        shutil.rmtree(d, ignore_errors=True)

        def alone():
            r = run([sub, *(x for j in (inc if kind == 'paths' else inc[i:i + 1]) for x in ('-I', os.path.join(top, j))), '-o', d, os.path.join(top, f)], top)
            return r, {x: open(os.path.join(d, x), 'rb').read() for x in (os.listdir(d) if os.path.isdir(d) else ())}
        (st, so, err, exc), o = forked(alone)
        s = snake(os.path.basename(f)[:-6])
        if st or set(o) != {s + '.h', s + '.c'}:
            raise plib.Bad(f'{case}: {f} alone: exit status {st}, {err!r}, files {sorted(o)}')
        want.update({f'{out}/{x}': b for x, b in o.items()})
    before = tree(top)
    st, so, err, exc = run([sub, *spell(form, '-o', '--output-directory', out), *(x for j in inc for x in spell(form, '-I', '--import-path', j)), *files], top, n in (9, 33))
    w.transitions += 1 + len(files)
    w.traces += 1
    if st or so or err or exc:
        raise plib.Bad(f'{case}: exit status {st}, {so!r} {err!r} {exc}')
    expect = {**before, **want}
    p = out
    while p:
        expect[p + '/'] = None
        p = os.path.dirname(p)
    after = tree(top)
    if after != expect:
        d = sorted(x for x in {*after, *expect} if after.get(x, 0) != expect.get(x, 0))
        raise plib.Bad(f'{case}: differs from what it should write: ' + ', '.join(f'{x} {"is missing" if x not in after else "should not be there" if x not in expect else "has other content"}' for x in d[:6]))
    w.out('generated')
