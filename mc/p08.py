"""P08: imports are found in import-path order and link up across files."""
import itertools
import os
import re
import shutil
import build
import plib
import protoast as A
import schema
from schema import Enum, Field, Oneof, Message, File

# -- which file is taken -------------------------------------------------------------

# A file with the imported name in each of these gives T another meaning.
PLACES = ['d1', 'd2', 'd3', 'work', 'src', 'd1/d2']
PACKAGES = ['p.q.r', 'p.q', 'p', '']
IMPORTS = ['b.proto', 'd2/b.proto', 'x.y/b-c_D.v1.proto']


def meaning(k):
    """(package, kind) of T in the file in the k-th place"""
    return PACKAGES[k % 4], 'message' if k // 4 else 'enum'


def imported(k):
    pkg, kind = meaning(k)
    t = ('message', 'T', (('field', '', 'int32', 'v', '1', ()),)) if kind == 'message' else ('enum', 'T', (('const', 'C', '0', ()),))
    return ([('package', pkg)] if pkg else []) + [t]


def importing(name, first=0):
    return [('import', '', name), ('package', 'p.q.r'), ('message', 'M', (('field', '', 'T', 'a', '1', ()), ('field', 'repeated', 'T', 'b', '2', ()),
                                                                      ('map', 'int32', 'T', 'm', '3', ()), ('oneof', 'o', (('ofield', 'T', 'c', '4', ()),))))]


def paths(tier):
    dirs = ['d1', 'd2', 'd3', 'src', '.', 'nosuch', 'd1/d2']
    for n in range(0, 4):
        for p in itertools.product(dirs, repeat=n):
            if n == 3 and tier != 'thorough' and (len(set(p)) < 3 or len(set(p) & {'src', '.', 'nosuch', 'd1/d2'}) > 1):
                continue
            yield p


def cases_placement(tier):
    for name in IMPORTS:
        for p in paths(tier):
            yield name, p


def check_placement(w, case):
    name, inc = case
    top = w.path('tree')
    shutil.rmtree(top, ignore_errors=True)
    where = [os.path.join(top, 'work', name) if d == 'work' else os.path.join(top, d, name) for d in PLACES]
    for d in PLACES:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        # An infile is opened where it is, never looked for.
        open(os.path.join(top, d, 'a.proto'), 'w').write('this is not the file')
    os.makedirs(os.path.join(top, 'work/src2'))
    texts = [A.text(imported(k)) for k in range(len(PLACES))]
    main = A.text(importing(name))
    args = [x for d in inc for x in ('-I', '.' if d == '.' else os.path.join(top, d) if hash_(inc) % 2 else os.path.join('..', d))]
    real = {d: os.path.normpath(os.path.join(top, 'work' if d == '.' else d, name)) for d in set(inc) | {'.'}}
    w.states -= 1
    for subset in itertools.product((0, 1), repeat=len(PLACES)):
        w.states += 1
        for k, s in enumerate(subset):
            if s:
                os.makedirs(os.path.dirname(where[k]), exist_ok=True)
                open(where[k], 'w').write(texts[k])
            elif os.path.exists(where[k]):
                os.unlink(where[k])
        have = {os.path.normpath(p): k for k, p in enumerate(where) if subset[k]}
        # d1 and the name d2/b.proto is the same file as d1/d2 and the name b.proto, which another case has.
        want = next((have[real[d]] for d in (*inc, '.') if real[d] in have), None)
        infile = [os.path.join(top, 'src', 'a.proto'), '../src/a.proto', 'a.proto'][(sum(subset) + subset[0] + len(inc)) % 3]
        opened = os.path.normpath(os.path.join(top, 'work', infile))
        for d in ('src', 'work'):
            f = os.path.join(top, d, 'a.proto')
            open(f, 'w').write(main if f == opened else 'this is not the file')
        out = os.path.join(top, 'out')
        shutil.rmtree(out, ignore_errors=True)
        w.transitions += 2
        st, err, exc = plib.cli(['generate_c_source', *args, '-o', out, infile], cwd=os.path.join(top, 'work'))
        old = os.getcwd()
        os.chdir(os.path.join(top, 'work'))
        try:
            import pbtools
            try:
                got = pbtools.parse_file(infile, [x for x in args if x != '-I'])
                files = got.abspath, [i.abspath for i in got.imports]
                got = A.actual(got)
            except Exception as e:
                got = str(e)
        finally:
            os.chdir(old)
        desc = f'import "{name}" with {args}, in {[d for d, s in zip(PLACES, subset) if s]}, current directory work'
        if exc:
            raise plib.Bad(f'{desc}: {exc[-600:]}')
        if want is None:
            if st == 0 or not isinstance(got, str) or not err.strip():
                raise plib.Bad(f'{desc}: not an error: {st} {err!r} {got}')
            w.out('not found')
            continue
        if st or isinstance(got, str):
            raise plib.Bad(f'{desc}: the file in {PLACES[want]} should be used, but: {err} {got}')
        exp = A.expected(importing(name), [imported(want)])
        if got != exp:
            raise plib.Bad(f'{desc}: the file in {PLACES[want]} should be used; ' + str(A.difference(exp, got)))
        if files != (opened, [os.path.normpath(where[want])]):
            raise plib.Bad(f'{desc}: the files that were read are {opened} and {where[want]}, the parse result says {files}')
        head = open(os.path.join(out, 'a.h')).read()
        pkg, kind = meaning(want)
        c = schema.snake((pkg + '.' if pkg else '') + 'T')
        if f'#include "{schema.snake(os.path.basename(name)[:-6])}.h"' not in head:
            raise plib.Bad(f'{desc}: the generated header is not included: ' + str(re.findall('#include.*', head)))
        if not re.search((r'enum %s_e\s+a;' if kind == 'enum' else r'struct %s_t\s*\*\s*a_p;') % c, head):
            raise plib.Bad(f'{desc}: {kind} {c} of {PLACES[want]} is not used in the header')
        w.traces += 1
        w.out('found in ' + PLACES[want])


def hash_(x):
    return sum(map(len, x)) + len(x)


# -- what is found ----------------------------------------------------------------------

# What has the imported name in a place.
STATES = ['nothing', 'file', 'link', 'hard', 'broken', 'empty', 'undefined']


def cases_states(tier):
    for name in IMPORTS[:2]:
        for inc in ((), ('d1',), ('d1', 'd3'), ('d3', 'd1'), ('link', 'd3'), ('d3', 'link'), *((('.', 'd1'), ('d1', 'd3', '.')) if tier == 'thorough' else ())):
            for states in itertools.product(STATES, repeat=3):
                if states[1] != 'nothing' and len(inc) < 2 or states[0] != 'nothing' and not inc:
                    continue
                yield name, inc, states


def check_states(w, case):
    """The first thing that has the imported name is used, even when it is a link or not a valid file."""
    name, inc, states = case
    top = w.path('states')
    shutil.rmtree(top, ignore_errors=True)
    places = ['d1', 'd3', 'work']
    for d in (*places, 'src', 'other'):
        os.makedirs(os.path.join(top, d))
    os.symlink('d1', os.path.join(top, 'link'))
    for k, (d, s) in enumerate(zip(places, states)):
        p = os.path.join(top, d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        target = os.path.join(top, 'other', f'Target{k}.proto')
        if s in ('link', 'hard'):
            open(target, 'w').write(A.text(imported(k)))
            (os.symlink if s == 'link' else os.link)(target, p)
        elif s != 'nothing':
            open(p, 'w').write({'file': A.text(imported(k)), 'broken': A.text(imported(k)) + '\nmessage', 'empty': '',
                                'undefined': A.text([('package', 'else'), ('message', 'U', ())])}[s])
    main = importing(name)
    infile = os.path.join(top, 'src', 'a.proto')
    open(infile, 'w').write(A.text(main))
    order = ['d1' if d == 'link' else 'work' if d == '.' else d for d in (*inc, '.')]
    want = next((places.index(d) for d in order if states[places.index(d)] != 'nothing'), None)
    args = [x for d in inc for x in ('-I', os.path.join(top, 'work' if d == '.' else d))]
    out = os.path.join(top, 'out')
    w.transitions += 1
    st, err, exc = plib.cli(['generate_c_source', *args, '-o', out, infile], cwd=os.path.join(top, 'work'))
    desc = f'import "{name}" with {args}, {dict(zip(places, states))}'
    if exc:
        raise plib.Bad(f'{desc}: {exc[-600:]}')
    w.traces += 1
    if want is None or states[want] in ('broken', 'empty', 'undefined'):
        if st == 0 or not err.strip():
            raise plib.Bad(f'{desc}: not an error: {st} {err!r}')
        w.out('not found' if want is None else f'found {states[want]}')
        return
    if st:
        raise plib.Bad(f'{desc}: the {states[want]} in {places[want]} should be used, but: {err}')
    head = open(os.path.join(out, 'a.h')).read()
    pkg, kind = meaning(want)
    c = schema.snake((pkg + '.' if pkg else '') + 'T')
    if f'#include "{schema.snake(os.path.basename(name)[:-6])}.h"' not in head:
        raise plib.Bad(f'{desc}: the generated header is not included: ' + str(re.findall('#include.*', head)))
    if not re.search((r'enum %s_e\s+a;' if kind == 'enum' else r'struct %s_t\s*\*\s*a_p;') % c, head):
        raise plib.Bad(f'{desc}: {kind} {c} of {places[want]} is not used in the header')
    w.out('found ' + states[want])


# -- sizes ------------------------------------------------------------------------------

LIMIT = {'sizes': 120}


def cases_sizes(tier):
    ns = sorted(set(range(1, 24)) | {31, 32, 33, 63, 64, 65, *((127, 128, 129, 255, 256, 257) if tier == 'thorough' else (100,))})
    for n in ns:
        for k in range(n) if n < 24 else sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
            yield 'paths', n, k
        yield 'paths', n, n
        for style in ('shorter', 'longer', 'backwards', 'relative'):
            for k in {0, n // 2, n - 1}:
                yield 'paths ' + style, n, k
        yield 'imports', n, 0
        yield 'imports', n, 1
        yield 'chain', n, 0
        yield 'chain', n, 1
        yield 'depth', n, n
        yield 'names', n, n


def check_sizes(w, case):
    """n import paths with the file in the k-th and every later one (k = n: in the current directory); n imports; a chain of n imports; names of n
    directories or characters."""
    kind, n, k = case
    top = w.path('sizes')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, 'work'))

    def put(name, items):
        p = os.path.join(top, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(A.text(items))
        return p
    use = lambda i, ref: (('field', '', ref, f'a{i}', str(2 * i + 1), ()), ('map', 'int32', ref, f'm{i}', str(2 * i + 2), ()))
    inc, want = [], {}
    if kind.startswith('paths'):
        name = {'shorter': lambda i: 'd' + 'x' * (n - i), 'longer': lambda i: 'd' + 'x' * i, 'backwards': lambda i: f'd{n - i:03}'}.get(kind[6:], lambda i: f'd{i}')
        inc = [os.path.join(top, name(i)) if kind[6:] != 'relative' or i % 2 else f'../d{i}' for i in range(n)]
        for i in range(n):
            os.makedirs(os.path.join(top, name(i)))
            if i > k:
                put(f'{name(i)}/b.proto', [('package', 'p')])
        b = [('package', 'p'), ('message', 'T', (('field', '', 'int32', f'v{k}', str(k + 1), ()),))]
        at = put(f'{name(k)}/b.proto' if k < n else 'work/b.proto', b)
        if k < n:
            put('work/b.proto', [('package', 'p')])
        a = [('import', '', 'b.proto'), ('package', 'p'), ('message', 'M', use(0, 'T'))]
        want[put('src/a.proto', a)] = (a, [b], [at])
    elif kind in ('imports', 'chain'):
        inc = [os.path.join(top, 'd')]
        f = lambda i: [('package', f'p{i}')] + ([('import', '', f'b{i + 1}.proto')] if kind == 'chain' and i + 1 < n else []) + [
            ('enum', 'E', (('const', f'C{i}', str(i), ()),)), ('message', 'T', (('field', '', 'E', f'v{i}', str(i + 1), ()),) + (use(i + 1, f'p{i + 1}.T') if kind == 'chain' and i + 1 < n else ()))]
        fs = [f(i) for i in range(n)]
        ps = [put(f'd/b{i}.proto', x) for i, x in enumerate(fs)]
        if kind == 'chain':
            for i, x in enumerate(fs):
                want[ps[i]] = (x, fs[i + 1:i + 2], ps[i + 1:i + 2])
            a = [('import', '', 'b0.proto'), ('package', 'q'), ('message', 'M', use(0, 'p0.T') + use(1, '.p0.E'))]
            want[put('src/a.proto', a)] = (a, fs[:1], ps[:1])
        else:
            order = range(n) if k else range(n)[::-1]
            a = [('import', '', f'b{i}.proto') for i in order] + [('package', 'q'), ('message', 'M', tuple(x for i in range(n) for x in use(i, f'p{i}.{"TE"[i % 2]}')))]
            want[put('src/a.proto', a)] = (a, [fs[i] for i in order], [ps[i] for i in order])
    else:
        name = '/'.join(f'e{i}' for i in range(n)) + '/b.proto' if kind == 'depth' else 'b' * n + '.proto'
        inc = [os.path.join(top, 'd')]
        b = [('package', 'p'), ('message', 'T', (('field', '', 'int32', 'v', '1', ()),))]
        at = put('d/' + name, b)
        a = [('import', '', name), ('package', 'p'), ('message', 'M', use(0, 'T'))]
        want[put('src/a.proto', a)] = (a, [b], [at])
    import pbtools
    old = os.getcwd()
    os.chdir(os.path.join(top, 'work'))
    try:
        for p, (items, imps, files) in want.items():
            w.transitions += 1
            try:
                got = pbtools.parse_file(p, inc)
            except Exception as e:
                raise plib.Bad(f'{case}: {os.path.relpath(p, top)} is rejected: {type(e).__name__}: {e}')
            d = A.difference(A.expected(items, imps), A.actual(got))
            if d:
                raise plib.Bad(f'{case}: {os.path.relpath(p, top)}: {d}')
            if [got.abspath] + [i.abspath for i in got.imports] != [p] + files:
                raise plib.Bad(f'{case}: {os.path.relpath(p, top)} with its imports is read from {[got.abspath] + [i.abspath for i in got.imports]}')
        st, err, exc = plib.cli(['generate_c_source', *(x for d in inc for x in ('-I', d)), '-o', os.path.join(top, 'out'), *want])
        w.transitions += 1
        if st or exc:
            raise plib.Bad(f'{case}: the generator fails: {exc or err}')
        for p, (items, imps, files) in want.items():
            head = open(os.path.join(top, 'out', schema.snake(os.path.basename(p)[:-6]) + '.h')).read()
            inc_ = [x for x in re.findall(r'#include "(.*)"', head) if x != 'pbtools.h']
            if sorted(inc_) != sorted(schema.snake(os.path.basename(f)[:-6]) + '.h' for f in files):
                raise plib.Bad(f'{case}: the header of {os.path.relpath(p, top)} includes {inc_}')
    finally:
        os.chdir(old)
    w.traces += 1
    w.out('found')


# -- one use of one imported type -----------------------------------------------------------

USES = ['', 'repeated', 'optional', 'map', 'oneof']
HOLDERS = ['top', 'nested', 'deep', 'second', 'only nested']


def use(code, tag):
    """A file that uses its imported file in one place only."""
    import p05
    pk, shape, target, holder = code
    files = p05.imports((pk, ((shape, target),), 'no'), tag)
    name, items, imp = files[0]
    head, (_, n, mem) = items[:-1], items[-1]
    inner = ('message', 'Holder', mem)
    last = {'top': [('message', n, mem)], 'nested': [('message', n, (p05.fld(7), inner, p05.fld(9, 'Holder')))],
            'deep': [('message', n, (('message', 'Mid', (inner,)),))], 'second': [('message', n + 'First', (p05.fld(3),)), ('message', n, mem)],
            'only nested': [('message', n, (inner,))]}[holder]
    return [(name, head + last, imp)] + files[1:]


def cases_uses(tier):
    import p05

    def codes():
        for pk in ('none', 'same', 'other', 'inner', 'outer', 'noti', 'nott'):
            for shape in USES:
                for target in ('I', 'N', 'E', 'NE'):
                    if shape == 'optional' and target in ('I', 'N'):
                        continue
                    for holder in HOLDERS:
                        yield pk, shape, target, holder
    yield from p05.batches(codes(), 6)


def check_uses(w, case):
    import p05
    w.upper = False
    p05.compile_units(w, [use(c, f'v{i}') for i, c in enumerate(case)])


# -- import graphs ---------------------------------------------------------------------------

DAGS = []
for e in itertools.product((0, 1, 2), repeat=3):
    # 0: no edge, 1: forward, 2: backward; between (0, 1), (0, 2), (1, 2)
    edges = [(a, b) if k == 1 else (b, a) for k, (a, b) in zip(e, ((0, 1), (0, 2), (1, 2))) if k]
    if sorted(edges) not in ([(0, 1), (1, 2), (2, 0)], [(0, 2), (1, 0), (2, 1)]):
        DAGS.append(edges)
RELATIONS = [('{t}', '{t}', '{t}'), ('{t}a', '{t}b', '{t}c'), ('{t}', '{t}.in', '{t}.in.er'), ('{t}.in.er', '{t}', '{t}.in'), ('{t}.a', '{t}.b', '{t}.c'), ('{t}.x', '', '{t}.x')]
# Where each file is, and by what name it is imported.
SPOTS = [('d1', ''), ('d2', 'd/'), ('work', 'd/e/'), ('d2', ''), ('d1', 'd/'), ('work', '')]


def unit(edges, rel, spots, i):
    tag = f'g{i}'
    fs = []
    for k in range(3):
        n = f'{tag}{"abc"[k]}'
        N = n.title()
        e = Enum(N + 'E', [(f'{n}Z', 0), (f'{n}X', k + 2), (f'{n}N', -5)])
        ne = Enum('NE', [('Q0', 0), ('Q7', 7 + k)])
        nm = Message('N', [Field(['sint32', 'string', 'fixed64'][k], 'v', k + 1)])
        m = Message(N, [nm, ne, Field(ne, 'ne', 1), Field(nm, 'nm', 2), Field(e, 'e', 3, 'repeated')])
        f = File(n, RELATIONS[rel][k].format(t=tag) or None, [e, m])
        f.main, f.types = m, (e, ne, nm, m)
        f.place, f.prefix = SPOTS[spots[k]]
        fs.append(f)
    for a, b in edges:
        x, y = fs[a], fs[b]
        x.imports.append(y.prefix + y.name + '.proto')
        e, ne, nm, m = y.types
        q = (lambda s: '.' + (y.package + '.' if y.package else '') + s) if (a + b) % 2 or not y.package else (lambda s: y.package + '.' + s)
        if y.package == x.package:
            q = lambda s: s
        r = {id(e): q(e.name), id(ne): q(m.name + '.NE'), id(nm): q(m.name + '.N'), id(m): q(m.name)}
        num = 10 * (b + 1)
        items = []
        for j, t in enumerate((e, ne, nm, m)):
            z = f'{"abc"[b]}{j}'
            items += [Field(t, 's' + z, num, ref=r[id(t)]), Field(t, 'r' + z, num + 1, 'repeated', ref=r[id(t)])] if (i + j) % 2 else \
                [Field(t, 'm' + z, num, 'map', key='int32', ref=r[id(t)]), Oneof('o' + z, [Field(t, 'x' + z, num + 1, ref=r[id(t)]), Field('bool', 'y' + z, num + 2)])]
            num += 100
        x.main.items += items
    return fs


def units(t):
    i = 0
    for edges in DAGS:
        for rel in range(len(RELATIONS)):
            for s in range(len(SPOTS) if t else 1):
                spots = [(s + i + k * (1 + i % 5)) % len(SPOTS) for k in range(3)]
                yield unit(edges, rel, spots, i)
                i += 1


def prepare(dir, files, order):
    """Writes the files and generates all of them."""
    for d in ('d1', 'd2', 'work'):
        os.makedirs(os.path.join(dir, 'in', d), exist_ok=True)
    seq = ['d1', 'd2', 'work'] if order == 0 else ['d2', 'd1', 'work']
    names = []
    for f in files:
        f.link()
    for f in files:
        for d in ('d1', 'd2', 'work'):
            p = os.path.join(dir, 'in', d, f.prefix + f.name + '.proto')
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if d == f.place:
                open(p, 'w').write(schema.proto(f))
                names.append(p)
            elif seq.index(d) > seq.index(f.place):
                open(p, 'w').write('syntax = "proto3"; message NotThis {}')
            elif os.path.exists(p):
                os.unlink(p)
    work = os.path.join(dir, 'in/work')
    r = build.pbtools(['generate_c_source', '-I', '../' + seq[0], '-I', os.path.join(dir, 'in', seq[1]), '-o', dir, *names], work)
    if r.returncode:
        raise build.Violation(f'the generator fails on files that import each other: {r.stderr.strip()[:600]}')
