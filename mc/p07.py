"""P07: generation is deterministic and independent of history and environment."""
import itertools
import os
import shutil
import subprocess
import sys
import build
import choice
import plib
import protoast as A
from p01 import fld, ofld
from p02 import FILES as LFILES, IMP

LIMIT = {'names': 200, 'sizes': 300}
LANGS = {'c': ('generate_c_source', ('h', 'c')), 'u': ('generate_c_source', ('h', 'c')),
         'rust': ('generate_rust_source', ('rs',)), 'mys': ('generate_mys_source', ('mys',))}

# Messages in every relation, enums everywhere: what is sorted, collected or numbered.
GRAPH = (
    ('package', 'pkg'),
    ('message', 'A', (fld(0, 'B'), fld(1, 'C', 'repeated'), ('map', 'string', 'D', 'm', '9', ()), ('map', 'int32', 'E', 'n', '10', ()))),
    ('message', 'B', (fld(0, 'C'), ('oneof', 'o', (ofld(0, 'D'), ofld(1, 'bytes'), ofld(2, 'E'))), ('enum', 'F', (('const', 'X', '0', ()), ('const', 'Y', '5', ()))),
                      ('message', 'N', (fld(0, 'F'), fld(1, 'A', 'repeated'))), fld(3, 'N'))),
    ('enum', 'E', (('const', 'P', '0', ()), ('const', 'Qq', '-3', ()))),
    ('message', 'C', (fld(0, 'E', 'repeated'), fld(1, 'string', 'repeated'), fld(2, 'Z', 'repeated'))),
    ('message', 'D', (fld(0, 'bool', 'optional'), fld(1, 'Z'), ('oneof', 'o', (ofld(0, 'Z'),)), ('oneof', 'p', (ofld(1, 'C'),)))),
    ('message', 'Z', (fld(0, 'Z', 'repeated'), fld(1, 'sint32'))),
)
# The same package, type and member names as GRAPH with other meanings.
OTHER = (
    ('package', 'pkg'), ('message', 'E', (fld(0, 'string'),)), ('enum', 'A', (('const', 'P', '0', ()), ('const', 'Qq', '4', ()))),
    ('message', 'Z', (fld(0, 'A'), fld(1, 'E', 'repeated'), ('map', 'string', 'E', 'm', '9', ()))),
    ('message', 'B', (('message', 'N', (fld(0, 'A'),)), ('oneof', 'o', (ofld(0, 'N'), ofld(1, 'E'))), fld(3, 'N', 'repeated'))),
)
NOPKG = (('message', 'A', (fld(0, 'B'), ('message', 'B', (fld(0, 'double'),)))), ('message', 'B', (fld(0, 'A.B'),)), ('enum', 'E', (('const', 'P', '0', ()),)))
USER = (('import', '', 'd/im.proto'), ('package', 'pkg'), ('message', 'A', (fld(0, 'impkg.I'), fld(1, 'impkg.K', 'repeated'), ('map', 'string', '.impkg.I', 'm', '9', ()))))
# Two versions of the imported file, and of one file.
IM = ((('package', 'impkg'), ('message', 'I', (fld(0),)), ('enum', 'K', (('const', 'X', '0', ()),))),
      (('package', 'impkg'), ('message', 'K', (fld(0, 'string'),)), ('enum', 'I', (('const', 'X', '0', ()), ('const', 'Y', '1', ())))))
OWN = ((('package', 'own'), ('message', 'A', (fld(0), fld(1, 'E'))), ('enum', 'E', (('const', 'X', '0', ()),))),
       (('package', 'own'), ('message', 'A', (fld(0, 'E'), fld(5, 'bytes', 'repeated'))), ('message', 'E', (('map', 'int32', 'A', 'm', '9', ()),))))
ANY = LFILES['services']
# Many of everything: what is collected must keep its order.
_n = range(9)
MANY = (
    *[('import', '', f'd/m{i}.proto') for i in _n], ('package', 'many'),
    *[('enum', f'E{i}', tuple(('const', f'C{j}', str(j), ()) for j in _n)) for i in _n],
    *[('message', f'M{i}', (
        fld(0, f'M{(i + 1) % 9}', 'repeated'), fld(1, f'E{i}'), fld(2, f'm{i}.T'), fld(3, f'N{i}'),
        *[('message', f'N{j}', (fld(0, f'F{j}'), fld(1, f'M{j}'), fld(2, f'N{(j + 1) % 9}', 'repeated'))) for j in _n],
        *[('enum', f'F{j}', (('const', 'X', '0', ()), ('const', 'Y', '1', ()))) for j in _n],
        *[('map', 'int32', f'm{j}.T', f'mp{j}', str(100 + j), ()) for j in _n],
        *[('oneof', f'o{j}', tuple(ofld(3 * j + k, t, num=str(200 + 3 * j + k)) for k, t in enumerate((f'M{j}', f'E{j}', 'bytes')))) for j in _n])) for i in (4, 0, 8, 2, 6, 1, 5, 3, 7)],
)
FILES = {'many': MANY, 'graph': GRAPH, 'other': OTHER, 'no_pkg': NOPKG, 'user': USER, 'own': OWN[0], 'any': ANY, 'types': LFILES['types']}
BAD = {'syntax': A.text(GRAPH)[:-20], 'undefined': 'syntax = "proto3"; package pkg; message A { B b = 1; message C {} map<string, Nope> n = 2; }',
       'comment': 'syntax = "proto3"; /* ', 'notfound': 'syntax = "proto3"; package pkg; import "nosuch.proto"; message B {}'}


def setup(w, d):
    for n, f in FILES.items():
        w.write(f'{d}/{n}.proto', A.text(f))
    for n, t in BAD.items():
        w.write(f'{d}/{n}.proto', t)
    w.write(f'{d}/inc/d/im.proto', A.text(IM[0]))
    for i in _n:
        w.write(f'{d}/inc/d/m{i}.proto', A.text((('package', f'm{i}'), ('message', 'T', (fld(0),)))))


def argv(lang, out, files, inc=()):
    return [LANGS[lang][0], *(['--enums-upper-case'] if lang == 'u' else []), *[x for i in inc for x in ('-I', i)], '-o', out, *files]


def outputs(d):
    return {n: open(os.path.join(d, n), 'rb').read() for n in sorted(os.listdir(d))} if os.path.isdir(d) else {}


def forked(fn):
    """Runs fn in a child process, returns the result."""
    r, x = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            import pickle
            with os.fdopen(x, 'wb') as f:
                f.write(pickle.dumps(fn()))
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(code)
    os.close(x)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('child failed')
    import pickle
    return pickle.loads(data)


def wipe(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)


# -- histories ------------------------------------------------------------------------

GEN = [('g', l, f) for l, fs in (('c', ('graph', 'other', 'no_pkg', 'user', 'own', 'types')), ('u', ('graph', 'own')), ('rust', ('graph', 'other')), ('mys', ('graph', 'other')))
       for f in fs]
OPS = GEN + [('g', 'c', b) for b in BAD] + [('p', 'graph'), ('p', 'user'), ('p', 'own'), ('edit', 'im'), ('edit', 'own')]


def apply(w, op, state, out):
    """One operation; what it gives."""
    if op[0] == 'edit':
        i = {'im': 0, 'own': 1}[op[1]]
        state[i] ^= 1
        if i == 0:
            w.write('src/inc/d/im.proto', A.text(IM[state[0]]))
        else:
            w.write('src/own.proto', A.text(OWN[state[1]]))
        return None
    if op[0] == 'p':
        import pbtools
        try:
            return repr(A.actual(pbtools.parse_file(w.path('src', op[1] + '.proto'), [w.path('src/inc')])))
        except Exception as e:
            return f'{type(e).__name__}: {e}'
    wipe(out)
    st, err, exc = plib.cli(argv(op[1], out, [w.path('src', op[2] + '.proto')], [w.path('src/inc')]))
    return st, err, exc, outputs(out)


def baseline(w, op, state):
    key = (op, tuple(state))
    if key not in w.base:
        if key[1] not in w.base:
            w.base[key[1]] = 1
        w.base[key] = forked(lambda: (reset(w, state), apply(w, op, list(state), w.path('bout')))[1])
    return w.base[key]


def reset(w, state):
    w.write('src/inc/d/im.proto', A.text(IM[state[0]]))
    w.write('src/own.proto', A.text(OWN[state[1]]))


def cases_histories(tier):
    for n in range(1, 4 if tier == 'thorough' else 3):
        for s in itertools.product(OPS, repeat=n):
            if s[-1][0] != 'edit':
                yield s
    if tier != 'thorough':
        # Every pair of operations, then those that generate C code.
        for s in itertools.product(OPS, repeat=2):
            for last in (('g', 'c', 'graph'), ('g', 'c', 'user'), ('g', 'c', 'own')):
                yield s + (last,)


def check_histories(w, case):
    if not hasattr(w, 'base'):
        setup(w, 'src')
        w.base = {}
    state, want = [0, 0], []
    for op in case:
        if op[0] == 'edit':
            state[{'im': 0, 'own': 1}[op[1]]] ^= 1
            want.append(None)
        else:
            want.append(baseline(w, op, list(state)))
    reset(w, (0, 0))

    def history():
        state = [0, 0]
        return [apply(w, op, state, w.path('out')) for op in case]
    got = forked(history)
    w.transitions += len(case)
    w.traces += 1
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise plib.Bad(f'operation {i + 1} of {case} gives another result than in a process of its own: {differ(a, b)}')
    w.out(f'{len(case)} operations')


def differ(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:3] != b[:3]:
            return f'{a[:3]} instead of {b[:3]}'
        return diff(a[3], b[3])
    return f'{str(a)[:300]} instead of {str(b)[:300]}'


def diff(a, b):
    if sorted(a) != sorted(b):
        return f'files {sorted(a)} instead of {sorted(b)}'
    for n in a:
        if a[n] != b[n]:
            for i, (x, y) in enumerate(itertools.zip_longest(a[n].splitlines(True), b[n].splitlines(True))):
                if x != y:
                    return f'{n}:{i + 1}: {x!r} instead of {y!r}'
    return 'nothing'


# -- sizes ------------------------------------------------------------------------------


def cases_sizes(tier):
    t = tier == 'thorough'
    for n in (2, 5, 9, 17, 33, 65, *((129, 257) if t else ())):
        for lang in ('c', 'u', 'rust', 'mys') if n < 10 or t and n < 100 else ('c',):
            for mode in ('files', 'reversed', 'calls', 'calls twice', 'in turns') if n < 30 or t else ('files', 'reversed', 'calls'):
                for alike in (0, 1):
                    yield n, lang, mode, alike


def check_sizes(w, case):
    """n files in one invocation or process, which declare the same names or others: every one as when generated alone."""
    n, lang, mode, alike = case
    top = w.path('many')
    wipe(top)
    types = ['int32', 'string', 'E', 'N', 'bool', 'bytes', 'sint64']
    for i in range(n):
        k = '' if alike else str(i)
        f = lambda a, b: (('field', ['', 'repeated'][(a + i) % 2], types[(a + b + i) % 7] + ('', k)[types[(a + b + i) % 7] in 'EN'], f'f{a}', str(a + 1 + i % 3), ()))
        w.write(f'many/x{i}.proto', A.text([('package', f'p{k}'), ('enum', 'E' + k, (('const', f'A{i // 2}', str(i % 5), ()),)), ('message', 'N' + k, (f(0, 0),)), ('message', 'M' + k, (f(1, i // 7), f(2, 3)))]))
    name = lambda i: os.path.join(top, f'x{i}.proto')
    want = {}
    for i in range(n):
        def alone():
            wipe(w.path('bout'))
            r = plib.cli(argv(lang, w.path('bout'), [name(i)], []))
            return r[:2], outputs(w.path('bout'))
        st, o = forked(alone)
        if st != (0, ''):
            raise plib.Bad(f'{case}: x{i}.proto is rejected: {st}')
        want.update(o)

    def go():
        out = w.path('out')
        wipe(out)
        calls = {'files': [range(n)], 'reversed': [range(n)[::-1]], 'calls': [[i] for i in range(n)], 'calls twice': [[i] for _ in (0, 1) for i in range(n)],
                 'in turns': [[i] for j in range(n - 1) for i in (j, j + 1, j)]}[mode]
        for c in calls:
            if len(c) == 1:
                wipe(w.path('cout'))
            st, err, exc = plib.cli(argv(lang, out if len(c) > 1 else w.path('cout'), [name(i) for i in c], []))
            if st or err or exc:
                return f'status {st}, {err} {exc}'
            if len(c) == 1:
                o = outputs(w.path('cout'))
                bad = [x for x in o if o[x] != want.get(x)]
                if bad or not o:
                    return f'x{c[0]}.proto: {diff(o, {x: want.get(x) for x in o})}'
        if len(calls) == 1:
            o = outputs(out)
            return diff(o, want) if o != want else ''
        return ''
    d = forked(go)
    w.transitions += 2 * n
    w.traces += 1
    if d:
        raise plib.Bad(f'{n} files ({mode}, {lang}): {d}')
    w.out('as alone')


# -- invocations -----------------------------------------------------------------------

INV = ['graph', 'other', 'no_pkg', 'user', 'own', 'types', 'syntax', 'undefined', 'notfound']


def cases_invocations(tier):
    t = tier == 'thorough'
    for lang in ('c', 'u', 'rust', 'mys'):
        n = (4 if t else 3) if lang == 'c' else (3 if t else 2)
        for k in range(1, n + 1):
            for s in itertools.product(INV, repeat=k):
                if lang in ('rust', 'mys') and set(s) & {'no_pkg', 'types'}:
                    continue
                yield lang, s


def check_invocations(w, case):
    lang, names = case
    if not hasattr(w, 'base'):
        setup(w, 'src')
        w.base = {}
    want, ok = {}, True
    for n in names:
        st, err, exc, files = baseline(w, ('g', lang, n), (0, 0))
        if st:
            ok = False
            break
        want.update(files)
    out = w.path('out')
    wipe(out)
    st, err, exc, got = forked(lambda: (*plib.cli(argv(lang, out, [w.path('src', n + '.proto') for n in names], [w.path('src/inc')])), outputs(out)))
    w.transitions += 1
    w.traces += 1
    if exc:
        raise plib.Bad(exc[-1000:])
    if ok != (st == 0):
        raise plib.Bad(f'{names}: exit status {st}, {err!r}')
    if not ok:
        # Files before the invalid one may have been generated or not, later ones too.
        every = {}
        for n in names:
            every.update(baseline(w, ('g', lang, n), (0, 0))[3])
        want = {n: every.get(n, b'unexpected file') for n in got}
    if got != want:
        raise plib.Bad(f'{lang}, {names} in one invocation: {diff(got, want)}')
    w.out('generated' if ok else 'rejected')


# -- the same names again -------------------------------------------------------------------

EDGES = ('none', 'single', 'repeated', 'oneof', 'map')


def edge(kind, t, n):
    return {'none': (), 'single': (fld(n, t),), 'repeated': (fld(n, t, 'repeated'),), 'oneof': (('oneof', f'o{n}', (ofld(n, t),)),),
            'map': (('map', 'string', t, f'm{n}', str(40 + n), ()),)}[kind]


def same_names(tier):
    """Files with messages p.A and p.B, which declare and use p.T, p.A.T, p.B.T and each other in every way."""
    for ab, ba in itertools.product(EDGES, repeat=2):
        for t in (('top enum', 'none'), ('A message', 'enum'), ('B enum', 'top message'), *((('A enum', 'none'), ('top message', 'B enum')) if tier == 'thorough' else ())):
            body = {'A': edge(ab, 'B', 1), 'B': edge(ba, 'A', 2), 'top': ()}
            for x in t:
                where, _, kind = x.rpartition(' ')
                if where:
                    decl = ('enum', 'T', (('const', 'X', '0', ()), ('const', where, '7', ()))) if kind == 'enum' else ('message', 'T', (fld(0, 'bytes'), *edge('repeated', 'A', 3)))
                    body[where] = (decl,) + body[where]
            for m in 'AB':
                if any(x.startswith(('top ', m + ' ')) for x in t):
                    body[m] += (fld(8, 'T'), fld(9, 'T', 'repeated'))
            yield (('package', 'p'), *body['top'], ('message', 'A', body['A'] or (fld(5),)), ('message', 'B', body['B'] or (fld(5, 'string'),)))


def cases_names(tier):
    return range(len(list(same_names(tier))))


def check_names(w, x):
    """This file, and every other one after it, in one process."""
    if not hasattr(w, 'names'):
        w.names = list(same_names(w.tier))
        for i, f in enumerate(w.names):
            w.write(f'n{i}/m.proto', A.text(f))

        def gen(i):
            wipe(w.path('out'))
            st, err, exc = plib.cli(argv('c', w.path('out'), [w.path(f'n{i}/m.proto')]))
            return st, err, exc, outputs(w.path('out'))
        w.gen = gen
        w.alone = [forked(lambda: gen(i)) for i in range(len(w.names))]
        for i, r in enumerate(w.alone):
            if r[0]:
                raise plib.Bad(f'{r[1]} {r[2]}\n{A.text(w.names[i])}')

    def history():
        for y in range(len(w.names)):
            for i in (x, y):
                got = w.gen(i)
                if got != w.alone[i]:
                    return i, y, got
    bad = forked(history)
    w.transitions += 2 * len(w.names)
    w.traces += len(w.names)
    if bad:
        i, y, got = bad
        raise plib.Bad(f'a file gives other code than in a process of its own when {A.text(w.names[x])} and files up to {A.text(w.names[y])} are generated before: {differ(got, w.alone[i])}\n{A.text(w.names[i])}')
    w.out('the same after every other file')


# -- inputs in several directories ---------------------------------------------------------

DIRS = ['d1', 'd2', 'work', 'inc']
INPUTS = {'a': 'd1', 'b': 'd2', 'c': 'work', 'e': 'd1/sub'}


def im_in(k):
    t = ('message', 'T', (fld(0),)) if k % 2 else ('enum', 'T', (('const', 'X', '0', ()),))
    return (('package', 'pp' if k < 2 else 'pp.qq'), t)


def cases_directories(tier):
    t = tier == 'thorough'
    incs = [(), ('inc',), ('d1',), ('inc', 'd2'), ('d2', 'd1')] + ([('d1', 'inc'), ('d2', 'inc'), ('inc', 'd1', 'd2'), ('d1/sub', 'inc')] if t else [])
    for have in itertools.product((0, 1), repeat=4):
        for inc in incs:
            for spell in (0, 1):
                for n in (2, 3):
                    for s in itertools.product(INPUTS, repeat=n):
                        if n == 3 and not t and (spell or len(set(s)) < 3):
                            continue
                        yield have, inc, spell, s


def check_directories(w, case):
    """Every input in an invocation gives what it gives alone."""
    have, inc, spell, names = case
    top = w.path('dirs')
    key = ('dirs', have)
    if getattr(w, 'dirs', None) != key:
        wipe(top)
        w.dirs, w.alone = key, {}
        for k, (d, h) in enumerate(zip(DIRS, have)):
            os.makedirs(os.path.join(top, d), exist_ok=True)
            if h:
                open(os.path.join(top, d, 'im.proto'), 'w').write(A.text(im_in(k)))
        for n, d in INPUTS.items():
            os.makedirs(os.path.join(top, d), exist_ok=True)
            m = ('message', 'M', (fld(0, 'T'), fld(1, 'T', 'repeated'), ('oneof', 'o', (ofld(0, 'T'),)), ('map', 'int32', 'T', 'm', '77', ())))
            open(os.path.join(top, d, n + '.proto'), 'w').write(A.text((('import', '', 'im.proto'), ('package', 'pp.qq'), m)))
    cwd = os.path.join(top, 'work')
    path = lambda d: os.path.join('..', d) if spell else os.path.join(top, d)

    def run(ns):
        out = w.path('out')
        wipe(out)
        st, err, exc = plib.cli(argv('c', out, [path(os.path.join(INPUTS[n], n + '.proto')) for n in ns], [path(d) for d in inc]), cwd)
        return st, err, exc, outputs(out)
    want, ok = {}, True
    for n in names:
        if (inc, spell, n) not in w.alone:
            w.alone[inc, spell, n] = forked(lambda: run([n]))
        st, err, exc, files = w.alone[inc, spell, n]
        want.update(files)
        ok = ok and st == 0
    st, err, exc, got = forked(lambda: run(names))
    w.transitions += 1
    w.traces += 1
    what = f'im.proto in {[d for d, h in zip(DIRS, have) if h]}, import paths {inc}, inputs {[INPUTS[n] + "/" + n + ".proto" for n in names]} in one invocation'
    if exc:
        raise plib.Bad(what + exc[-1000:])
    if ok != (st == 0):
        raise plib.Bad(f'{what}: exit status {st}, {err!r}')
    if not ok:
        want = {n: want.get(n, b'unexpected file') for n in got}
    if got != want:
        raise plib.Bad(f'{what}: {diff(got, want)}')
    w.out('generated' if ok else 'rejected')


# -- environment -----------------------------------------------------------------------

def program(seeds):
    def run(ch):
        return dict(
            file=ch.of(['graph', 'user', 'own', 'no_pkg', 'types', 'other', ('user', 'graph', 'own'), 'many']),
            lang=ch.of(['c', 'u', 'rust', 'mys']),
            seed=ch.of(seeds),
            cwd=ch.of(['work', 'src', 'out', '/', 'inc/d', 'deep/er/dir']),
            spell=ch.of(['abs', 'rel', './rel', 'x/../rel', 'double', 'link', 'dirlink', 'absdots']),
            inc=ch.of(['abs', 'rel', 'slash', 'twice', 'missing first', 'empty first', 'own directory first', 'attached']),
            out=ch.of(['absent', 'empty', 'same', 'larger', 'same size', 'same size newer', 'same start', 'truncated', 'others', 'nested', 'links', 'slash', 'rel', 'default', 'read only others']),
            env=ch.of(['utf8', 'C', 'POSIX no utf8', 'de', 'tz+', 'tz-', 'columns', 'none', 'source date', 'debug']),
            umask=ch.of(['022', '077', '000']),
            py=ch.of(['', '-O', '-OO', '-bb', '-X dev']),
            debug=ch.of(['', '-d']),
            stamp=ch.of(['', '0', '4000000000']))
    return run


def cases_environment(tier):
    t = tier == 'thorough'
    seeds = ['0', *map(str, range(1, 64 if t else 12)), '4294967295', 'random']
    for choices, c in choice.runs(program(seeds), 2):
        if c['lang'] in ('rust', 'mys') and c['file'] in ('no_pkg', 'types', 'many'):
            continue
        if sum(v != 0 for v in choices) == 2 and not t:
            # One of the two deviations is the seed, the directory, or the spelling.
            if not (c['cwd'] != 'work' or c['spell'] != 'abs' or c['out'] != 'absent'):
                continue
            if c['seed'] not in ('0', '1', '2'):
                continue
        yield tuple(sorted(c.items()))


def relpath(p, cwd):
    return os.path.relpath(p, cwd)


def check_environment(w, case):
    c = dict(case)
    if not hasattr(w, 'base'):
        w.base = {}
        setup(w, 'src')
        os.makedirs(w.path('work'))
    names = [c['file']] if isinstance(c['file'], str) else list(c['file'])
    top = w.path('run')
    wipe(top)
    want = {}
    for n in names:
        st, err, exc, files = baseline(w, ('g', c['lang'], n), (0, 0))
        if st or exc:
            raise plib.Bad(f'{n}: {err} {exc}')
        want.update(files)
    reset(w, (0, 0))
    # A tree of its own, as pbtools may write anywhere.
    src, out = os.path.join(top, 'src'), os.path.join(top, 'out')
    shutil.copytree(w.path('src'), src)
    for d in ('work', 'deep/er/dir', 'x', 'empty'):
        os.makedirs(os.path.join(top, d))
    if c['stamp']:
        for d, _, fs in os.walk(src):
            for f in fs:
                os.utime(os.path.join(d, f), (int(c['stamp']),) * 2)
    cwd = {'/': '/', 'src': src, 'out': out, 'inc/d': os.path.join(src, 'inc/d')}.get(c['cwd'], os.path.join(top, c['cwd']))
    if c['out'] == 'default':
        cwd = out if c['cwd'] == '/' else cwd     # never writes into /
    if cwd == out:
        os.makedirs(out)
    if c['out'] == 'nested':
        out = os.path.join(out, 'a/b.c/d')
    extra = {}
    if c['out'] not in ('absent', 'nested', 'rel', 'slash', 'default'):
        os.makedirs(out, exist_ok=True)
        for n, data in want.items():
            p = os.path.join(out, n)
            if c['out'] == 'same':
                open(p, 'wb').write(data)
            elif c['out'] == 'larger':
                open(p, 'wb').write(b'x' * 3 + data * 3)
            elif c['out'].startswith('same size'):
                open(p, 'wb').write(data[::-1])
                if c['out'].endswith('newer'):
                    os.utime(p, (4102444800,) * 2)
            elif c['out'] == 'same start':
                open(p, 'wb').write(data[:-40] + b'/' * 40)
            elif c['out'] == 'truncated':
                open(p, 'wb').write(data[:len(data) // 2])
            elif c['out'] == 'links':
                os.makedirs(os.path.join(top, 'real'), exist_ok=True)
                open(os.path.join(top, 'real', n), 'wb').write(b'\xff\xfe')
                os.symlink(os.path.join(top, 'real', n), p)
            elif c['out'] in ('others', 'read only others'):
                for m in (n + '~', 'x' + n, n[:-1] + 'proto', n.replace('.', '_')):
                    if m not in want:
                        extra[m] = b'{ "not" proto'
                        open(os.path.join(out, m), 'wb').write(extra[m])
                        if c['out'] != 'others':
                            os.chmod(os.path.join(out, m), 0o444)
    if c['out'] == 'default':
        out = cwd
        extra = {n: d for n, d in outputs2(cwd).items()}
    files = []
    for n in names:
        p = os.path.join(src, n + '.proto')
        s = c['spell']
        r = relpath(p, cwd)
        if s == 'link':
            d = os.path.join(top, 'links')
            os.makedirs(d, exist_ok=True)
            os.symlink(p, os.path.join(d, n + '.proto'))
            f = os.path.join(d, n + '.proto')
        elif s == 'dirlink':
            d = os.path.join(top, 'dl')
            if not os.path.lexists(d):
                os.symlink(src, d)
            f = os.path.join(d, n + '.proto')
        else:
            f = {'abs': p, 'rel': r, './rel': './' + r, 'x/../rel': os.path.join(relpath(os.path.join(top, 'x'), cwd), '..', 'src', n + '.proto'),
                 'double': p.replace('/src/', '//src//./'), 'absdots': os.path.join(top, 'x/../src/inc/..', n + '.proto')}[s]
        files.append(f)
    inc = os.path.join(src, 'inc')
    i = c['inc']
    incs = {'abs': [inc], 'rel': [relpath(inc, cwd)], 'slash': [inc + '//'], 'twice': [inc, inc], 'missing first': [os.path.join(top, 'nosuch'), inc],
            'empty first': [os.path.join(top, 'empty'), inc], 'own directory first': [src, inc], 'attached': None}[i]
    o = {'rel': relpath(out, cwd), 'slash': out + '//'}.get(c['out'], out)
    cmd = [build.PY, '-B', *c['py'].split(), '-m', 'pbtools', *c['debug'].split(), LANGS[c['lang']][0]]
    if c['lang'] == 'u':
        cmd.append('--enums-upper-case')
    if incs is None:
        cmd.append('-I' + inc)
    else:
        cmd += [x for y in incs for x in ('-I', y)]
    if c['out'] != 'default':
        cmd += ['-o', o]
    elif c['lang'] in ('rust', 'mys'):
        pass
    if c['lang'] in ('rust', 'mys') and not os.path.isdir(out):
        os.makedirs(out)
    e = {'PATH': os.environ['PATH'], 'PYTHONPATH': build.REPO, 'PYTHONHASHSEED': c['seed'], 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent'}
    e.update({'C': {'LC_ALL': 'C'}, 'POSIX no utf8': {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
              'de': {'LC_ALL': 'de_DE.ISO-8859-1', 'LANG': 'tr_TR', 'PYTHONUTF8': '0'}, 'tz+': {'TZ': 'XXX-14'}, 'tz-': {'TZ': 'XXX12'},
              'columns': {'COLUMNS': '3', 'LINES': '1', 'TERM': 'dumb'}, 'source date': {'SOURCE_DATE_EPOCH': '1', 'USER': 'u', 'HOSTNAME': 'h'},
              'debug': {'PYTHONDEVMODE': '1', 'PYTHONUNBUFFERED': '1'}}.get(c['env'], {}))
    if c['env'] == 'none':
        e = {'PYTHONPATH': build.REPO, 'PYTHONHASHSEED': c['seed']}
    um = int(c['umask'], 8)
    r = subprocess.run(cmd + files, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=120, umask=um)
    w.transitions += 1
    w.traces += 1
    what = f'{c}: {" ".join(cmd[2:] + files)} in {cwd}'
    if r.returncode:
        raise plib.Bad(f'{what}: {r.stderr.strip()[-800:]}')
    got = outputs2(out)
    if c['out'] == 'default' or cwd == out:
        extra.update({k: v for k, v in outputs2(cwd).items() if k.endswith('.proto')})
    want = {**want, **extra}
    if got != want:
        raise plib.Bad(f'{what}: {diff(got, want)}')
    if c['out'] == 'links' and not all(os.path.islink(os.path.join(out, n)) for n in want):
        w.out('links replaced')
    w.out('same')


def outputs2(d):
    return {n: open(os.path.join(d, n), 'rb').read() for n in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, n))}
