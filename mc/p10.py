"""P10: --enums-upper-case changes the names of enum constants and nothing else."""
import itertools
import os
import re
import cmap
import p01
import p05
import plib
import protoast as A
from schema import snake

LIMIT = {n: 240 for n in ('compiled', 'compared')}
TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\w\s]')
FAMILIES = {'enums': p05.enums, 'graphs': p05.graph, 'members': p05.members, 'imports': p05.imports, 'names': p05.named, 'siblings': p05.siblings,
            'bodies': p05.bodies, 'values': None, 'counts': lambda c, tag: [(tag, p01.counts(*c, tag), [])]}


def toks(text):
    return TOKEN.findall(re.sub(r'/\*.*?\*/|//[^\n]*', ' ', text, flags=re.S))


# Constants: names in every style, numbers at every boundary.
VALUES = [(0,), (0, 1, 2), (0, -1), (0, 2147483647, -2147483648), (5, 0), (0, 16, 0x10000)]
STYLES = ['A', 'a', 'aB', 'Ab', 'ABc', 'A_B', 'a_b_c', 'fooBarBaz', 'FOO', 'FooBar2', 'x1', 'X_1', 'e', 'E', 'eE', 'none', 'e_', 'Z__Z', 'value', 'HTTPServer']


def values(code, tag):
    name, vals, place, pkg = code
    consts = tuple(('const', name if i == 0 else f'{name}{"xyz"[i]}', str(v), ()) for i, v in enumerate(vals))
    e = ('enum', 'Kind', consts)
    use = [p05.member(k, 'Kind', i + 1) for i, k in enumerate(['', 'repeated', 'oneof', 'map'])] + [p01.fld(9, 'Kind', 'optional')]
    if place == 'top':
        body = [e, ('message', 'Msg', tuple(use))]
    elif place == 'nested':
        body = [('message', 'Msg', (e, *use))]
    else:
        body = [('message', 'Msg', (('message', 'In', (e, *use)), *[tuple('In.Kind' if x == 'Kind' else x for x in u) if u[0] != 'oneof' else u[:2] + ((('ofield', 'In.Kind', *u[2][0][2:]),),)
                                                                     for u in use]))]
    return [(tag, ([('package', {'plain': tag, 'camel': tag + '.fooBar', 'upper': tag.upper() + '.BAZ_q'}[pkg])] if pkg else []) + body, [])]


def units(case):
    fam, codes = case
    out = []
    for i, c in enumerate(codes):
        tag = f'u{i}'
        if fam == 'values':
            out.append(values(c, tag))
        elif fam in ('names',):
            out.append([(tag, p05.named(c, tag), [])])
        else:
            out.append(FAMILIES[fam](c, tag))
    return out


def generate(w, us, upper):
    p05.clean(w)
    w.upper = upper
    for u in us:
        for n, items, _ in u:
            w.write('in/' + n + '.proto', A.text(items))
    d = p05.generate(w, [f[:2] for u in us for f in u])
    if d:
        raise plib.Bad('the generator fails: ' + d[-1000:])
    return {n: open(w.path('out', n)).read() for n in sorted(os.listdir(w.path('out')))}


def compare(w, us):
    for u in us:
        if any(x[0] == 'import' for f in u for x in f[1]):
            w.write('in/imp.proto', A.text(p01.IMPORTED['imp.proto']))
    low, up = generate(w, us, False), generate(w, us, True)
    if sorted(low) != sorted(up):
        raise plib.Bad(f'other files: {sorted(low)} {sorted(up)}')
    exps = {snake(f[0]): A.expected(f[1], f[2]) for u in us for f in u}
    imported = {snake(f[0]): [A.expected(i, []) if not any(x[0] == 'import' for x in i) else None for i in f[2]] for u in us for f in u}
    for n in low:
        a, b = toks(low[n]), toks(up[n])
        base = n.rsplit('.', 1)[0]
        consts = set(cmap.constants(exps[base]))
        for i in imported[base]:
            consts |= set(cmap.constants(i)) if i else set()
        seen = set()
        if len(a) != len(b):
            raise plib.Bad(f'{n}: {len(a)} tokens without the option, {len(b)} with it')
        for prev, x, y in zip([''] + a, a, b):
            if x in consts and prev != 'enum':
                seen.add(x)
                if y != x.upper():
                    raise plib.Bad(f'{n}: the constant {x} is {y}, not {x.upper()}')
            elif x != y:
                raise plib.Bad(f'{n}: {x} becomes {y}, which is no enum constant')
        if n.endswith('.h') and set(cmap.constants(exps[base])) - seen:
            raise plib.Bad(f'{n}: constants {sorted(set(cmap.constants(exps[base])) - seen)} are missing')
    w.transitions += 2
    w.traces += len(us)
    w.states += len(us) - 1


def cases_compared(tier):
    t = tier == 'thorough'
    pick = {'enums': p05.cases_enums, 'members': p05.cases_members, 'imports': p05.cases_imports, 'bodies': p05.cases_bodies, 'graphs': p05.cases_graphs}
    for fam, f in pick.items():
        for b in f(tier if fam != 'graphs' else 'quick'):
            yield fam, b
    for n in sorted(set(range(1, 40 if t else 12)) | set(p01.numbers(12, 1025 if t else 257))):
        for k in p01.COUNTED:
            if n < 66 or k != 'deep':
                yield 'counts', ((k, n),)
    for b in p05.cases_names(tier):
        b = tuple(c for c in b if not p05.expect_known(*c))
        if b:
            yield 'names', b
    for b in p05.batches((('const', n) for n in p05.spellings(tier)), 30):
        yield 'names', b
    for b in p05.cases_siblings(tier):
        b = tuple(c for c in b if p05.collide(*c) is None)
        if b:
            yield 'siblings', b


def check_compared(w, case):
    fam, codes = case
    us = units(case)
    compare(w, us)
    w.out('compared')


def cases_compiled(tier):
    t = tier == 'thorough'
    codes = list(itertools.product(STYLES, VALUES, ['top', 'nested', 'inner'], ['plain', 'camel', 'upper']))
    for b in p05.batches(codes if t else [c for i, c in enumerate(codes) if c[1] in (VALUES[1], VALUES[3]) or i % 3 == 0], 30):
        yield 'values', b
    for b in p05.cases_enums('quick'):
        yield 'enums', b
    for b in p05.cases_imports('quick'):
        yield 'imports', b
    for b in p05.cases_names('quick'):
        b = tuple(c for c in b if not p05.expect_known(*c) and (t or c[0] in ('const', 'enum', 'nested enum', 'package', 'oneof')))
        if b:
            yield 'names', b
    if t:
        for b in p05.cases_siblings('quick'):
            b = tuple(c for c in b if p05.collide(*c) is None)
            if b:
                yield 'siblings', b
        for b in p05.cases_graphs('quick'):
            yield 'graphs', b
        for b in p05.cases_members('quick'):
            yield 'members', b


def check_compiled(w, case):
    us = units(case)
    compare(w, us)
    w.upper = True
    # Several files in a unit: each on its own.
    if case[0] == 'imports':
        for u in us:
            p05.clean(w)
            d = p05.problem(w, u, True)
            if d:
                raise plib.Bad(d[:1500])
    else:
        w.states -= len(us) - 1
        p05.compile_units(w, us)
    w.out('compiled')
