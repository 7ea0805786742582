"""P05: the generated C compiles cleanly, whatever the declaration order."""
import itertools
import os
import re
import subprocess
import build
import cmap
import p01
import plib
import protoast as A
from p01 import OPT, fld, ofld
from schema import snake

LIMIT = {'graphs': 240, 'enums': 240, 'members': 240, 'bodies': 240, 'imports': 240, 'names': 240, 'spellings': 240, 'counts': 240, 'siblings': 240, 'optimized': 240}
CXX = ['-Wall', '-Wextra', '-Wpedantic', '-Werror', '-Wno-variadic-macros']


# -- compiling --------------------------------------------------------------------

def cc(w, source, flags=('-O0',), cxx=False):
    out = w.path('out')
    cmd = ['g++', '-std=c++17', '-x', 'c++', *CXX, '-fsyntax-only'] if cxx else \
        ['gcc', '-std=gnu11', '-x', 'c', *cmap.FLAGS, *flags, '-S', '-o', '/dev/null']
    r = subprocess.run(cmd + ['-I', out, '-I', build.REPO + '/lib/include', '-'], input=source, cwd=out, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    w.transitions += 1
    if r.returncode < 0 or 'internal compiler error' in r.stdout or 'Killed' in r.stdout:
        raise RuntimeError('the compiler died: ' + r.stdout[-500:])
    return r.stdout if r.returncode or r.stdout.strip() else ''


def clean(w):
    out = w.path('out')
    os.makedirs(out, exist_ok=True)
    for n in os.listdir(out):
        os.unlink(os.path.join(out, n))


def generate(w, files):
    """files: (name, items). The diagnostics, '' if none."""
    names = [w.write('in/' + n + '.proto', A.text(items)) for n, items in files]
    status, err, exc = plib.cli(['generate_c_source', '-I', w.path('in'), '-o', w.path('out')] + (['--enums-upper-case'] if w.upper else []) + names)
    return (exc or err or 'no message') if status or exc else ''


def problem(w, files, alone, flags=('-O0',)):
    """What is wrong with the code of the files (one unit), or ''. files:
    (name, items, imported items)."""
    d = generate(w, [f[:2] for f in files])
    if d:
        return 'the generator fails: ' + d
    names = [snake(f[0]) for f in files]
    exp = ''.join(cmap.asserts(A.expected(f[1], f[2]), w.upper) for f in files)
    for n in names if alone else []:
        d = cc(w, f'#include "{n}.c"\n', flags)
        if d:
            return f'{n}.c: {d}'
    for order in ([names, names[::-1]] if len(names) > 1 and alone else [names]):
        d = cc(w, ''.join(f'#include "{n}.h"\n' for n in order) + ''.join(f'#include "{n}.c"\n' for n in order if not alone) + cmap.HEAD + exp, flags)
        if d:
            return 'C: ' + d
    d = cc(w, ''.join(f'#include "{n}.h"\n' for n in names) + cmap.HEAD + exp, cxx=True)
    if d:
        return 'C++: ' + d
    return ''


def compile_units(w, units):
    """units: lists of files whose names and packages are unique."""
    clean(w)
    w.states += len(units) - 1
    d = problem(w, [f for u in units for f in u], False)
    if d:
        for u in units:
            clean(w)
            e = problem(w, u, True)
            if e:
                raise plib.Bad(f'{e[:1500]}\n' + '\n'.join(f'-- {f[0]}.proto\n{A.text(f[1])}' for f in u))
        raise plib.Bad('only together: ' + d[:1500] + '\n' + '\n'.join(A.text(f[1]) for f in units[0]))
    w.traces += len(units)
    w.out('compiles')
    w.outcomes['compiles'] += len(units) - 1


def batches(it, n):
    it = iter(it)
    while True:
        b = tuple(itertools.islice(it, n))
        if not b:
            return
        yield b


# -- reference graphs ---------------------------------------------------------------

NODES = 'ABC'
# parent of each message, -1: top level
NESTINGS = [(-1, -1, -1), (-1, 0, -1), (-1, 0, 1), (-1, 0, 0), (-1, -1, 0), (-1, -1, 1)]
KINDS = ['', 'repeated', 'oneof', 'map']


def member(kind, ref, i):
    if kind == 'map':
        return ('map', 'string', ref, f'f{i}', str(i), ())
    if kind == 'oneof':
        return ('oneof', f'o{i}', (('ofield', ref, f'f{i}', str(i), ()),))
    return ('field', kind, ref, f'f{i}', str(i), ())


def graph(code, tag):
    edges, nest, order, full = code
    par = NESTINGS[nest]

    def path(j):
        return (path(par[j]) + '.' if par[j] >= 0 else '') + NODES[j]

    def message(j):
        kids = [message(k) for k in range(3) if par[k] == j]
        mem = [member(k, f'{tag}.{path(b)}' if full else path(b), i + 1) for i, (a, b, k) in enumerate(edges) if a == j]
        return ('message', NODES[j], tuple(kids + mem if order == 0 else mem + kids))
    top = [message(j) for j in range(3) if par[j] < 0]
    if order == 2:
        top.reverse()
    return [(tag, [('package', tag), *top], [])]


def graph_edges(n, kinds):
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for ps in itertools.combinations(pairs, n):
        for ks in itertools.product(kinds, repeat=n):
            yield tuple((a, b, k) for (a, b), k in zip(ps, ks))


def cases_graphs(tier):
    t = tier == 'thorough'

    def codes():
        for n in range(3):
            for e in graph_edges(n, KINDS):
                for nest in range(len(NESTINGS)):
                    for order in range(3 if t else 2):
                        yield (e, nest, order, 0)
                        if n < 2:
                            yield (e, nest, order, 1)
        for e in graph_edges(3, KINDS if t else ['map']):
            for nest in range(len(NESTINGS)):
                yield (e, nest, 1 if len(e) % 2 else 0, 0)
        if not t:
            for e in graph_edges(3, ['repeated']):
                yield (e, 0, 0, 0)
        if t:
            for n in range(4, 10):
                for e in graph_edges(n, ['']):
                    for nest in range(len(NESTINGS)):
                        yield (e, nest, 0, 0)
    yield from batches(codes(), 40)


def check_graphs(w, case):
    compile_units(w, [graph(c, f'g{i}') for i, c in enumerate(case)])


# -- chains of more messages ----------------------------------------------------------

def chain(code, tag):
    """Messages in an order of declaration, one refers to the next."""
    perm, kinds, ring = code
    n = len(perm)
    mem = {}
    for i in range(n if ring else n - 1):
        mem[i] = member(kinds[i % len(kinds)], f'X{(i + 1) % n}', 1)
    return [(tag, [('package', tag)] + [('message', f'X{i}', (mem[i],) if i in mem else (fld(0),)) for i in perm], [])]


def cases_chains(tier):
    def codes():
        for n in (4, 5) if tier == 'thorough' else (4,):
            for perm in itertools.permutations(range(n)):
                for kinds in [('',), ('repeated',), ('oneof', 'map'), ('map', '')]:
                    for ring in (0, 1):
                        yield perm, kinds, ring
    yield from batches(codes(), 40)


LIMIT['chains'] = 240


def check_chains(w, case):
    compile_units(w, [chain(c, f'h{i}') for i, c in enumerate(case)])


# -- enums at every level ---------------------------------------------------------------

def enums(code, tag):
    where, refs, label = code
    e = lambda n: ('enum', n, (('const', f'{n}_Z', '0', ()), ('const', f'{n}_N', '-1', ()), ('const', f'{n}_B', '0x7fffffff', ()), ('const', f'{n}_M', '-2147483648', ())))
    body = {k: [] for k in ('first', 'last', 'A', 'AB', 'C')}
    names = {'first': 'EF', 'last': 'EL', 'A': 'A.EA', 'AB': 'A.B.EB', 'C': 'C.EC'}
    for x in where:
        body[x].append(e(names[x].split('.')[-1]))
    n = 0
    mem = {k: [] for k in ('A', 'AB', 'C')}
    for r in refs:
        for x in where:
            n += 1
            ref = names[x]
            if label == 'map':
                mem[r].append(('map', 'int32', ref, f'f{n}', str(n), ()))
            elif label == 'oneof':
                mem[r].append(('oneof', f'o{n}', (('ofield', ref, f'f{n}', str(n), ()), ('ofield', 'A', f'g{n}', str(100 + n), ()))))
            else:
                mem[r].append(('field', label, ref, f'f{n}', str(n), ()))
    return [(tag, [('package', tag), *body['first'],
                   ('message', 'A', (*mem['A'], *body['A'], ('message', 'B', (*body['AB'], *mem['AB'])))),
                   ('message', 'C', (*mem['C'], *body['C'])), *body['last']], [])]


def cases_enums(tier):
    def codes():
        places = ['first', 'last', 'A', 'AB', 'C']
        for k in range(1, 6 if tier == 'thorough' else 3):
            for where in itertools.combinations(places, k):
                for j in range(1, 4):
                    for refs in itertools.combinations(['A', 'AB', 'C'], j):
                        for label in ('', 'repeated', 'optional', 'oneof', 'map'):
                            yield where, refs, label
    yield from batches(codes(), 30)


def check_enums(w, case):
    compile_units(w, [enums(c, f'e{i}') for i, c in enumerate(case)])


# -- every member, pairs of members -------------------------------------------------------

def one_member(code, i):
    shape, typ = code
    n = f'f{i}'
    if shape == 'map':
        k, v = typ.split(',')
        return ('map', k, v, n, str(i), ())
    if shape == 'oneof':
        return ('oneof', f'o{i}', (('ofield', typ, n, str(i), ()),))
    return ('field', shape, typ, n, str(i), ())


def members(code, tag):
    return [(tag, [('package', tag), ('message', 'O', (fld(0),)), ('message', 'D', ()), ('enum', 'E', (('const', 'X', '0', ()), ('const', 'Y', '5', ()))),
                   ('message', 'M', tuple(one_member(c, i + 1) for i, c in enumerate(code)))], [])]


TYPES = A.SCALARS + ['O', 'D', 'E']


def all_members():
    for t in TYPES:
        for s in ('', 'repeated', 'optional', 'oneof'):
            if s == 'optional' and t in 'OD':
                continue
            yield s, t
    for k in A.MAP_KEYS:
        for t in TYPES:
            yield 'map', f'{k},{t}'


def cases_members(tier):
    def codes():
        ms = list(all_members())
        for m in ms:
            yield (m,)
        few = [m for m in ms if m[1] in ('int32', 'string', 'O', 'E', 'bytes', 'double', 'bool,O', 'string,string', 'int64,E') or tier == 'thorough' and m[0] != 'map']
        for a in few:
            for b in few:
                yield (a, b)
        yield tuple(ms)
    yield from batches(codes(), 30)


def check_members(w, case):
    compile_units(w, [members(c, f'm{i}') for i, c in enumerate(case)])


# -- everything the parser takes ------------------------------------------------------------

def rename(items, tag):
    """Package pkg becomes the tag."""
    def ren(x):
        if isinstance(x, tuple):
            return tuple(ren(i) for i in x)
        return re.sub(r'\bpkg\b', tag, x) if isinstance(x, str) else x
    return list(ren(tuple(items)))


def c_clean(items):
    """Only what the C mapping covers: no empty enums or oneofs."""
    for x in items:
        if x[0] == 'enum' and not any(i[0] == 'const' for i in x[2]):
            return False
        if x[0] == 'oneof' and not any(i[0] == 'ofield' for i in x[2]):
            return False
        if x[0] == 'message' and not c_clean(x[2]):
            return False
    return True


def bodies(items, tag):
    items = rename(items, tag)
    imp = rename(p01.IMPORTED['imp.proto'], tag)
    return [(tag, [x if x[0] != 'import' else ('import', x[1], 'imp.proto') for x in items], [p01.IMPORTED['imp.proto']] * sum(x[0] == 'import' for x in items))]


def cases_bodies(tier):
    def codes():
        t = tier == 'thorough'
        for s in p01.seqs(p01.MSG_ITEMS, 3 if t else 2):
            yield p01.BASE + (('message', 'M', s), p01.OTHER, p01.OE)
        for s in p01.seqs(p01.ENUM_ITEMS, 3 if t else 2):
            yield p01.BASE + (('enum', 'E', s), ('message', 'M', (('enum', 'E', s), fld(0, 'E'))))
        for s in p01.seqs(p01.ONEOF_ITEMS, 3 if t else 2):
            yield p01.BASE + (p01.OE, ('message', 'M', (('oneof', 'o', s), fld(9))), p01.OTHER)
        for n in range(1, 7 if t else 5):
            for f in p01.forests(n):
                yield p01.BASE + p01.nest(f, itertools.count())
        if t:
            for _, items in p01.runs(p01.program, 2):
                if any(x == ('package', 'pkg') for x in items):
                    try:
                        A.expected(items, [p01.IMPORTED[x[2]] for x in items if x[0] == 'import'])
                    except (A.Undefined, A.KnownName):
                        continue
                    yield items
    yield from batches((c for c in codes() if c_clean(c)), 30)


def check_bodies(w, case):
    clean(w)
    w.write('in/imp.proto', A.text(p01.IMPORTED['imp.proto']))
    units = [bodies(c, f'b{i}') for i, c in enumerate(case)]
    units.append([('imp', p01.IMPORTED['imp.proto'], [])])
    compile_units(w, units)


# -- several files ----------------------------------------------------------------------------

def imports(code, tag):
    """Files t, i and j (t imports i, maybe j; i may import j), references
    from t (and i) to what is declared in i (and j)."""
    pk, refs, second = code
    pt, pi = {'none': ('', ''), 'same': (tag, tag), 'other': (tag, tag + 'x'), 'inner': (tag, tag + '.x'), 'outer': (tag + '.x', tag),
              'noti': (tag, ''), 'nott': ('', tag)}[pk]
    I, J = tag.title() + 'I', tag.title() + 'J'
    ie = ('enum', I + 'E', (('const', f'{tag}Z', '0', ()),))
    im = [('message', I, (fld(0), ('enum', 'NE', (('const', 'Q', '0', ()),)), ('message', 'N', (fld(0, 'NE'),)))), ie]
    jm = [('message', J, (fld(0),))]
    ji = {'no': [], 'i': [('import', '', f'{tag}j.proto')], 'both': [('import', '', f'{tag}j.proto')], 't': []}[second]
    i = ji + ([('package', pi)] if pi else []) + im
    if second in ('i', 'both'):
        i.append(('message', I + 'User', (('field', 'repeated', J, 'f', '1', ()), ('map', 'bool', J, 'g', '2', ()))))
    j = ([('package', pi)] if pi else []) + jm
    q = lambda n: '.' + (pi + '.' if pi else '') + n
    mem = []
    names = {'I': q(I), 'N': q(I + '.N'), 'E': q(I + 'E'), 'NE': q(I + '.NE'), 'J': q(J)}
    for k, (shape, r) in enumerate(refs):
        mem.append(one_member(('map', 'int32,' + names[r]) if shape == 'map' else (shape, names[r]), k + 1))
    t = [('import', '', f'{tag}i.proto')] + ([('import', '', f'{tag}j.proto')] if second in ('t', 'both') else [])
    t += ([('package', pt)] if pt else []) + [('message', tag.title() + 'M', tuple(mem))]
    files = [(f'{tag}t', t, [i, j] if second in ('t', 'both') else [i]), (f'{tag}i', i, [j] if ji else [])]
    if second != 'no':
        files.append((f'{tag}j', j, []))
    return files


def cases_imports(tier):
    shapes = ['', 'repeated', 'optional', 'oneof', 'map']
    single = [(s, r) for s in shapes for r in ('I', 'N', 'E', 'NE') if s != 'optional' or r in ('E', 'NE')]

    def codes():
        for pk in ('none', 'same', 'other', 'inner', 'outer', 'noti', 'nott'):
            yield pk, (), 'no'
            for x in single:
                yield pk, (x,), 'no'
            for second in ('i', 't', 'both'):
                for s in ('', 'map', 'repeated', 'oneof'):
                    yield pk, ((s, 'J' if second != 'i' else 'N'), ('', 'I')), second
                yield pk, (), second
            for a, b in itertools.combinations(single, 2) if tier == 'thorough' else ():
                yield pk, (a, b), 'no'
    yield from batches(codes(), 4 if tier != 'thorough' else 12)


def check_imports(w, case):
    units = [imports(c, f'k{i}') for i, c in enumerate(case)]
    clean(w)
    w.states += len(units) - 1
    # Imported files must exist before the importing ones are generated.
    for u in units:
        for n, items, _ in u:
            w.write('in/' + n + '.proto', A.text(items))
    for u in units:
        d = problem(w, u, True)
        if d:
            raise plib.Bad(f'{d[:1500]}\n' + '\n'.join(f'-- {f[0]}.proto\n{A.text(f[1])}' for f in u))
        w.traces += 1
        w.out('compiles')


# -- names ------------------------------------------------------------------------------------

C_KEYWORDS = ['auto', 'break', 'case', 'char', 'const', 'continue', 'default', 'do', 'double', 'else', 'enum', 'extern', 'float', 'for', 'goto', 'if',
              'inline', 'int', 'long', 'register', 'restrict', 'return', 'short', 'signed', 'sizeof', 'static', 'struct', 'switch', 'typedef', 'union',
              'unsigned', 'void', 'volatile', 'while', 'asm', 'typeof', 'bool', 'true', 'false']
CXX_KEYWORDS = ['class', 'new', 'delete', 'this', 'template', 'private', 'public', 'protected', 'virtual', 'operator', 'namespace', 'using', 'try',
                'catch', 'throw', 'friend', 'explicit', 'export', 'and', 'or', 'not', 'xor', 'mutable', 'typename', 'constexpr', 'nullptr', 'wchar_t',
                'static_cast', 'alignof', 'decltype', 'noexcept', 'thread_local', 'typeid', 'bitand', 'compl', 'and_eq', 'alignas', 'static_assert']
NAMES = ['a', 'A', 'z9', 'a_b', 'aB', 'AB', 'ABC', 'ABCd', 'aBC', 'a1B2', 'x__y', 'x_', 'X__', 'FooBar', 'fooBar', 'FOO_BAR', 'foo_Bar', 'fooBAR', 'HTTPServer',
         'self', 'self_p', 'decoder', 'decoder_p', 'encoder', 'encoder_p', 'heap', 'heap_p', 'res', 'i', 'length', 'items', 'items_p', 'size', 'value',
         'value_p', 'key', 'wire_type', 'tag', 'pos', 'data', 'begin', 'end', 'buf', 'buf_p', 'encoded_p', 'workspace_p', 'repeated', 'message', 'init',
         'new', 'encode', 'decode', 'alloc', 'inner', 'is_present', 'choice', 'type', 'index', 'time', 'main', 'printf', 'abs', 'e', 't', 'pbtools', 'PbtoolsMap',
         'uint32', 'int32', 'bytes', 'string', 'stream', 'option', 'import', 'package', 'syntax', 'to', 'max', 'rpc', 'y1', 'j0', 'errno', 'stdin']
NAME_PLACES = ['field', 'repeated', 'optional', 'message field', 'repeated message', 'map', 'ofield', 'ofield message', 'oneof', 'message', 'nested', 'enum',
               'nested enum', 'const', 'package', 'entry']


def named(code, tag):
    place, n = code
    O = ('message', 'O', (fld(0, name='b'),))
    E = ('enum', 'Q', (('const', 'QZ', '0', ()),))
    M = lambda *b: [('package', tag), O, E, ('message', 'M', b)]
    if place in ('field', 'repeated', 'optional'):
        return M(fld(0, 'int32', '' if place == 'field' else place, name=n))
    if place == 'entry':
        return M(fld(0, 'string', name=n), fld(1, 'bytes', name=n + '2'))
    if place in ('message field', 'repeated message'):
        return M(fld(0, 'O', 'repeated' if place[0] == 'r' else '', name=n))
    if place == 'map':
        return M(('map', 'int32', 'O', n, '1', ()))
    if place == 'ofield':
        return M(('oneof', 'oo', (ofld(0, name=n), ofld(1, 'string', name='other'))))
    if place == 'ofield message':
        return M(('oneof', 'oo', (ofld(0, 'O', name=n), ofld(1, 'Q', name='other'))))
    if place == 'oneof':
        return M(('oneof', n, (ofld(0, name='xx'),)))
    if place in ('message', 'enum'):
        d = ('message', n, (fld(0, name='b'), ('oneof', 'oo', (ofld(1),)))) if place == 'message' else ('enum', n, (('const', 'Z9', '0', ()),))
        return [('package', tag), d, ('message', 'Mm', (fld(0, n, name='f1'), fld(1, n, 'repeated', name='f2'), ('map', 'bool', n, 'f3', '3', ())))]
    if place in ('nested', 'nested enum'):
        d = ('message', n, (fld(0, name='b'),)) if place == 'nested' else ('enum', n, (('const', 'Z9', '0', ()),))
        return M(d, fld(0, n, name='f1'), fld(1, n, 'repeated', name='f2'), ('oneof', 'oo', (ofld(1, n),)))
    if place == 'const':
        return [('package', tag), ('enum', 'En', (('const', n, '0', ()), ('const', 'other', '1', ())))] + M(('enum', 'En', (('const', n, '0', ()),)), fld(0, 'En', name='f1'))[1:]
    if place == 'package':
        return [('package', f'{tag}.{n}'), O, ('message', 'M', (fld(0, 'O', name='f1'),))]
    raise ValueError(place)


def expect_known(place, n):
    """The listed findings: names that are no member names in C."""
    s = snake(n)
    members = ('field', 'repeated', 'optional', 'map', 'ofield', 'oneof', 'repeated message')
    if place in members and (s in C_KEYWORDS or s in CXX_KEYWORDS):
        return 'keyword-member'
    if place in members + () and s == 'base':
        return 'member-base'
    if place in ('ofield', 'ofield message') and s == 'none':
        return 'oneof-field-none'
    return None


def spellings(tier):
    """Every name of up to four characters, one of each class, and every pair of characters at the edges of the classes."""
    out = {a + ''.join(t) for a in 'aB' for k in range(4 if tier != 'thorough' else 5) for t in itertools.product('aB9_', repeat=k)}
    out |= {a + ''.join(t) for a in 'azAZ' for k in range(1, 3) for t in itertools.product('azAZ09_', repeat=k)}
    return sorted(out - set(C_KEYWORDS) - set(CXX_KEYWORDS))


def cases_spellings(tier):
    places = ['field', 'message', 'nested enum', 'const', 'ofield', 'package'] if tier != 'thorough' else NAME_PLACES
    yield from batches(((p, n) for p in places for n in spellings(tier)), 30)


def check_spellings(w, case):
    compile_units(w, [[(f'n{i}', named(c, f'n{i}'), [])] for i, c in enumerate(case)])


def cases_names(tier):
    plain = [(p, n) for p in NAME_PLACES for n in NAMES + C_KEYWORDS + CXX_KEYWORDS + ['base', 'none', 'other_name']
             if not (p in ('message', 'nested', 'enum', 'nested enum') and (n in A.SCALARS or n in ('repeated', 'optional', 'option', 'map', 'stream', 'to_')))]
    for b in batches((c for c in plain if not expect_known(*c)), 30):
        yield b
    for c in plain:
        if expect_known(*c):
            yield (c,)


def check_names(w, case):
    if len(case) == 1 and expect_known(*case[0]):
        clean(w)
        items = named(case[0], 'n0')
        d = problem(w, [('n0', items, [])], True)
        w.traces += 1
        if d:
            if d.startswith('the generator'):
                raise plib.Bad(d + A.text(items))
            w.known(expect_known(*case[0]), f'{case[0][0]} {case[0][1]!r}: {d[:200]}')
            w.out('known finding')
        else:
            w.out('compiles')
        return
    compile_units(w, [[(f'n{i}', named(c, f'n{i}'), [])] for i, c in enumerate(case)])


# -- many things of one kind ------------------------------------------------------------------------

FILES = {'star': 66, 'fan': 34, 'files': 34, 'back files': 34, 'all': 18}


def cases_counts(tier):
    for k, m in FILES.items():
        for n in sorted(set(range(1, 8)) | set(p01.numbers(8, m)), reverse=True):
            yield k, n
    for n in sorted(set(range(1, 12)) | set(p01.numbers(12, 1025 if tier == 'thorough' else 257)), reverse=True):
        for k in p01.COUNTED:
            if n < 66 or k not in ('deep', 'package', 'names', 'ring', 'chain', 'back chain') or tier == 'thorough' and k != 'deep':
                yield k, n


def many_files(shape, n):
    """n files: one imports all others, all import one, or each imports the next one."""
    def one(i, imports):
        body = [('package', f'k{i}')] + [('import', '', f'k{j}.proto') for j in imports]
        ref = tuple(x for a, j in enumerate(imports) for x in (fld(2 * a + 1, f'k{j}.M', ['', 'repeated'][a % 2]), ('oneof', f'u{a}', (ofld(0, f'k{j}.E', name=f'e{a}', num=str(5000 + a)),))))
        return body + [('enum', 'E', (('const', f'C{i}', '0', ()),)), ('message', 'M', (fld(0, 'E'), *ref))]
    to = {'star': lambda i: range(1, n) if i == 0 else (), 'fan': lambda i: (0,) if i else (), 'files': lambda i: (i + 1,) if i + 1 < n else (),
          'back files': lambda i: (i - 1,) if i else (), 'all': lambda i: range(i)}[shape]
    items = [one(i, to(i)) for i in range(n)]
    return [(f'k{i}', items[i], [items[j] for j in to(i)]) for i in range(n)]


def check_counts(w, case):
    clean(w)
    files = many_files(*case) if case[0] in FILES else [('n0', p01.counts(*case, 'n0'), [])]
    d = problem(w, files, case[1] < 12)
    if d:
        raise plib.Bad(f'{case[1]} {case[0]}: {d[:1500]}')
    w.traces += 1
    w.out('compiles')


# -- equal names of different things --------------------------------------------------------------

def siblings(code, tag):
    """Things named x, X, Xx and x_x next to each other in a message."""
    a, b = code
    body = []
    for k, c in enumerate((a, b)):
        what, n = c
        num = str(10 * (k + 1))
        if what == 'message':
            body.append(('message', n, (fld(0, name='b'), ('oneof', 'oo', (ofld(5), ofld(6, 'string'))))))
        elif what == 'enum':
            body.append(('enum', n, (('const', f'Z{k}', '0', ()),)))
        elif what == 'const':
            body.append(('enum', f'Zz{k}', (('const', n, '0', ()),)))
        elif what == 'oneof':
            body.append(('oneof', n, (ofld(k, 'Oo', name=f'w{k}', num=num),)))
        elif what == 'map':
            body.append(('map', 'string', 'Oo', n, num, ()))
        elif what == 'ofield':
            body.append(('oneof', f'vv{k}', (ofld(0, 'int32', name=n, num=num), ofld(1, 'Oo', name=f'u{k}', num=num[:1] + '1'))))
        elif what == 'ofield message':
            body.append(('oneof', f'vv{k}', (ofld(0, 'Oo', name=n, num=num),)))
        else:
            body.append(('field', 'repeated' if what[0] == 'r' else '', 'Oo' if 'message' in what else 'int32', n, num, ()))
    return [(tag, [('package', tag), ('message', 'Oo', (fld(0, name='b'),)), ('message', 'M', tuple(body))], [])]


THINGS = ['message', 'enum', 'const', 'oneof', 'map', 'ofield', 'ofield message', 'field', 'field message', 'repeated', 'repeated message']
SNAMES = ['x', 'X', 'xY', 'XY', 'x_y', 'XYz']


def proto_name(n):
    return n.lower().replace('_', '')


def collide(a, b):
    """None: no collision; 'invalid': not a pair for the same scope;
    otherwise the listed finding."""
    if a[1] == b[1]:
        return 'invalid'        # one scope, one name
    sa, sb = snake(a[1]), snake(b[1])
    member = ('oneof', 'map', 'ofield', 'ofield message', 'field', 'field message', 'repeated', 'repeated message')
    if sa != sb:
        if {a[0], b[0]} == {'map'} and a[1].title() == b[1].title():
            return 'map-title'
        return None
    if a[0] == b[0]:
        return 'same-c-name'
    if a[0] in member and b[0] in member:
        return 'same-c-name'
    if {a[0], b[0]} == {'enum', 'oneof'}:
        return 'enum-oneof'
    if 'message' in (a[0], b[0]) and 'ofield' in (a[0], b[0]):
        return 'message-oneof-field'
    return None


def cases_siblings(tier):
    pairs = [(a, b) for a in itertools.product(THINGS, SNAMES) for b in itertools.product(THINGS, SNAMES)]
    yield from batches([c for c in pairs if collide(*c) is None], 40)
    for c in pairs:
        if collide(*c) in ('enum-oneof', 'message-oneof-field', 'map-title'):
            yield (c,)


def check_siblings(w, case):
    if len(case) == 1 and collide(*case[0]):
        clean(w)
        u = siblings(case[0], 's0')
        d = problem(w, u, True)
        w.traces += 1
        if d:
            if d.startswith('the generator'):
                raise plib.Bad(d + A.text(u[0][1]))
            w.known(collide(*case[0]), f'{case[0]}: {d[:200]}')
            w.out('known finding')
        else:
            w.out('compiles')
        return
    compile_units(w, [siblings(c, f's{i}') for i, c in enumerate(case)])


# -- file names, long common prefixes ------------------------------------------------------------

SHARED = ['file', 'package', 'message', 'enum', 'nested', 'field', 'const', 'oneof', 'ofield']
TAILS = [('a', 'b'), ('', 'a'), ('a', 'aa'), ('_a', '_b'), ('A', 'b'), ('1', '2'), ('a_b_c', 'a_b_d'), ('.a', '.b'), ('x.y', 'x.y.z'), ('-a', '-b'), ('a-b.c', 'b'),
         ('a_h', 'a'), ('.h', ''), ('C', 'd'), ('_c', ''), ('i', 'I2')]


def filenames(code):
    """Two files (one may import the other) where names share a prefix."""
    n, what, tail, imp = code
    base = ('abcdefghij_' * 30)[:n]
    if base.endswith('_'):
        base = base[:-1] + 'z'
    ta, tb = TAILS[tail]
    a, b = base + ta, base + tb
    f = {k: ('q' + k + '1', 'q' + k + '2') for k in SHARED}
    f[what] = (a, b)
    if what == 'file':
        f['package'] = ('p', 'p') if tail % 2 else ('', '')
    files = []
    for k in (0, 1):
        v = {x: f[x][k] for x in SHARED}
        if what not in ('file', 'package'):
            v['package'] = 'pp'
            v['file'] = f'fi{k}'
        up = lambda s: s if what in ('file', 'package') else s[0].upper() + s[1:]
        M, E, N = (v['message'] + 'M').title() if what != 'message' else up(v['message']), up(v['enum']) + ('En' if what != 'enum' else ''), up(v['nested'])
        items = (fld(0, name=v['field']), ('enum', 'Ine', (('const', 'IZ' + v['const'], '0', ()),)), ('message', N, (fld(0),)),
                 fld(1, N, 'repeated'), fld(2, E), ('oneof', v['oneof'], (ofld(0, 'Ine', name=v['ofield'], num='200'), ofld(1, N, num='201'))))
        if what in ('field', 'nested', 'oneof'):
            # both in one message
            w = f[what][1 - k]
            items += {'field': (fld(7, name=w),), 'nested': (('message', up(w), ()), fld(7, up(w))), 'oneof': (('oneof', w, (ofld(7, num='300'),)),)}[what]
        if k == 1:
            items = tuple(x for x in items)
        it = ([('import', '', f['file'][1] + '.proto')] if imp and k == 0 and what == 'file' else [('import', '', 'fi1.proto')] if imp and k == 0 and what != 'package' else
              [('import', '', f['file'][1] + '.proto')] if imp and k == 0 else [])
        it += [('package', v['package'])] if v['package'] else []
        it += [('enum', E, (('const', 'Z' + v['const'], '0', ()),)), ('message', M, items)]
        files.append([v['file'], it])
    if imp:
        pk = f['package'][1] if what in ('file', 'package') else 'pp'
        files[0][1][-1] = (*files[0][1][-1][:2], files[0][1][-1][2] + (fld(9, '.' + (pk + '.' if pk else '') + files[1][1][-1][1], name='far'),))
    return [(files[0][0], files[0][1], [files[1][1]] if imp else []), (files[1][0], files[1][1], [])]


def cases_filenames(tier):
    t = tier == 'thorough'
    for n in (range(1, 90) if t else (1, 2, 3, 7, 15, 16, *range(20, 33), 40, 62, 63, 64, 80)):
        for what in SHARED if t or n in (1, 15, 29, 31, 62, 63) else ('file',):
            for tail in range(len(TAILS)) if what == 'file' and (t or n in (1, 15, 29)) else (0,):
                if tail and (n + tail) % 3 and t and n > 32:
                    continue
                for imp in (False, True):
                    yield n, what, tail, imp


def check_filenames(w, case):
    u = filenames(case)
    if snake(u[0][0]) == snake(u[1][0]):
        w.out('one name')
        return
    clean(w)
    for n, items, _ in u:
        w.write('in/' + n + '.proto', A.text(items))
    d = problem(w, u, True)
    if d:
        raise plib.Bad(f'{d[:1500]}\n' + '\n'.join(f'-- {f[0]}.proto\n{A.text(f[1])}' for f in u))
    w.traces += 1
    w.out('compiles')


# -- separate compilation, optimized ----------------------------------------------------------

def cases_optimized(tier):
    for items in list(p01.IMPORTED.values()):
        yield ('m', tuple(all_members()), '-O2')
    ms = list(all_members())
    for o in ('-O1', '-O2', '-O3', '-Os'):
        for m in ms[:60]:
            yield ('m', (m,), o)
        yield ('m', tuple(ms), o)
    for e in graph_edges(1, KINDS):
        for nest in range(len(NESTINGS)):
            yield ('g', (e, nest, 0, 0), '-O2')


def check_optimized(w, case):
    fam, code, o = case
    clean(w)
    u = members(code, 'opt') if fam == 'm' else graph(code, 'opt')
    d = problem(w, u, True, (o,))
    if d:
        raise plib.Bad(f'{o}: {d[:1500]}\n{A.text(u[0][1])}')
    w.traces += 1
    w.out('compiles')
