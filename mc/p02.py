"""P02: comments and white space never change the result."""
import itertools
import os
import re
import p01
import plib
import protoast as A
from p01 import OPT, OTHER, OE, BASE, fld, ofld

IMP = [('package', 'impkg'), ('message', 'I', (fld(0),))]
FILES = {
    'small': BASE + (('message', 'M', (fld(0, 'string', 'repeated'),)),),
    'strings': (
        ('import', '', 'http://imp.proto'), ('package', 'pkg'), ('import', 'weak', 'd/*/imp2.proto'),
        ('option', ('a',), 'string', '"// x"'), ('option', ('b',), 'string', '"/* x"'), ('option', ('c',), 'string', '"*/"'),
        ('option', ('d',), 'string', '"a\\"/*"'), ('option', ('e',), 'string', '"\\\\"'), ('option', ('f',), 'string', '"//"'),
        ('message', 'M', (fld(0, opts=((('(', 'x', '.', 'y', ')', '.', 'z'), 'string', '"/**/"'),)), ('reserved', 'names', ('"/*"', '"//"'))))),
    'types': BASE + (
        OE, OTHER, ('message', 'M', (
            fld(0, 'OE', 'optional'), fld(1, 'Other.In', 'repeated', opts=(OPT,)), ('map', 'string', '.pkg.Other', 'm', '7', ()),
            ('oneof', 'o', (ofld(0, 'pkg.Other'), ofld(1, 'bytes'), (';',))), ('enum', 'E', (('const', 'A', '0', (OPT,)), ('const', 'B', '-0x1', ()))),
            ('reserved', 'ranges', (('2', ''), ('4', '6'), ('900', 'max'))), ('message', 'N', ()), ('option',) + OPT, (';',)))),
    'services': BASE + (
        ('option', ('(', 'a', ')', '.', 'b'), 'ident', 'x.y'), OTHER, (';',),
        ('service', 'S', (('rpc', 'A', True, 'Other', False, 'pkg.Other.In', None), ('option',) + OPT,
                          ('rpc', 'B', False, '.pkg.Other', True, 'Other', (('option',) + OPT,)))), ('enum', 'E', (('const', 'A', '0', ()),))),
}
FILLERS = ['', ' ', '\t', '\n', '\r\n', '\n\n \t', '/**/', '/* x */', '/*\n*/', '/* a\r\n b\n */', '// c\n', '//\n', '// c\r\n', '/* // */',
           '// /*\n', '// */\n', '/* " */', '// "\n', "/* ' */", "// '\n", '/***/', '/****/', '/* * / */', '//*\n', '//**/\n', '/*/ */',
           '/*;}*/', '// }\n', '//\\\n', '/* é € */', '/**//**/', '// a\n// b\n', '/* \\" */', '/* a *//* b */// c\n', '// " /*\n', '/* \\*/',
           '//////\n', '/*"*/', '/* "/*"'.replace('/*"', '" */') + '']


# Fillers of any size.
SIZED = {'line': lambda n: '//' + 'c' * n + '\n', 'block': lambda n: '/*' + 'x' * n + '*/', 'lines': lambda n: '/*' + '\n' * n + '*/',
         'text lines': lambda n: '/*' + ' a;\n' * n + '*/', 'stars': lambda n: '/*' + '*' * n + '*/', 'slashes': lambda n: '//' + '/' * n + '\n',
         'quotes': lambda n: '/*' + '"' * n + '*/', 'blanks': lambda n: ' ' * n, 'tabs': lambda n: '\t' * n, 'newlines': lambda n: '\n' * n,
         'crlf': lambda n: '\r\n' * n, 'comments': lambda n: '/**/' * n, 'quoted comments': lambda n: '/* " */' * n, 'line comments': lambda n: '// a"\n' * n,
         'mixed': lambda n: '/* // */// /*\n' * n, 'blank lines': lambda n: ' \t\n' * n}


def fill(f):
    return FILLERS[f] if isinstance(f, int) else SIZED[f[0]](f[1])


def items_of(name):
    """A file by name, or (kind, n): a file with n things of a kind."""
    return FILES[name] if isinstance(name, str) else p01.counts(*name)


def word(t):
    return re.match(r'[\w"-]', t) is not None


def need_space(a, b):
    """The two tokens would become another token (or none) when joined."""
    return (re.match(r'[\w-]', a[-1]) is not None and re.match(r'\w', b[0]) is not None)


def compact(toks):
    gaps = ['']
    for a, b in zip(toks, toks[1:]):
        gaps.append(' ' if need_space(a, b) else '')
    return gaps + ['']


def roomy(toks):
    gaps = ['']
    for a in toks:
        gaps.append('\n' if a in (';', '{', '}') else ' ')
    return gaps


def join(toks, gaps):
    out = [gaps[0]]
    for t, g in zip(toks, gaps[1:]):
        out += [t, g]
    return ''.join(out)


def positions(toks, gaps):
    """(line, column) of each token and of the end."""
    pos, line, col = [], 1, 1

    def move(s):
        nonlocal line, col
        for c in s:
            if c == '\n':
                line, col = line + 1, 1
            else:
                col += 1
    move(gaps[0])
    for t, g in zip(toks, gaps[1:]):
        pos.append((line, col))
        move(t)
        move(g)
    return pos + [(line, col)]


def filled(toks, base, ins):
    gaps = list(BASES[base](toks))
    for i, f in ins:
        filler = fill(f)
        if filler == '' and 0 < i < len(toks) and need_space(toks[i - 1], toks[i]):
            filler = ' '
        # A filler replaces the gap (removal of the old white space too); a
        # line comment after the last token needs no newline.
        gaps[i] = filler
        if i == len(toks) and filler.endswith('\n') and base == 'compact':
            gaps[i] = filler.rstrip('\r\n')
    return gaps


BASES = {'compact': compact, 'roomy': roomy}


def setup(w):
    if not hasattr(w, 'ready'):
        w.write('http:/imp.proto', A.text(IMP))
        w.write('d/*/imp2.proto', A.text(IMP).replace('impkg', 'impkg2'))
        w.ready = {}


def generated(w, txt):
    p = w.write('t.proto', txt)
    out = w.path('out')
    for n in ('t.h', 't.c'):
        if os.path.exists(os.path.join(out, n)):
            os.unlink(os.path.join(out, n))
    w.transitions += 1
    status, err, exc = plib.cli(['generate_c_source', '-I', w.dir, '-o', out, p])
    if status or exc:
        raise plib.Bad(f'a supported file is rejected: {err or exc}\n{txt!r}')
    return [open(os.path.join(out, n), newline='').read() for n in ('t.h', 't.c')]


def check_layout(w, case):
    import pbtools
    name, base, ins, gen = case
    setup(w)
    items = items_of(name)
    toks = A.tokens(items)
    txt = join(toks, filled(toks, base, ins))
    if name not in w.ready:
        imported = [IMP] * sum(x[0] == 'import' for x in items)
        w.ready[name] = (A.expected(items, imported), generated(w, A.text(items)))
    exp, code = w.ready[name]
    if gen and generated(w, txt) != code:
        raise plib.Bad(f'the generated code depends on the layout:\n{txt!r}')
    p = w.write('t.proto', txt)
    w.transitions += 1
    try:
        act = A.actual(pbtools.parse_file(p, [w.dir]))
    except Exception as e:
        raise plib.Bad(f'the layout makes a supported file fail: {type(e).__name__}: {e}\n{txt!r}')
    d = A.difference(exp, act)
    if d:
        raise plib.Bad(f'the layout changes the parse result: {d}\n{txt!r}')
    w.traces += 1
    w.out('as declared')


def cases_layout(tier):
    t = tier == 'thorough'
    nf = len(FILLERS)
    for name, items in FILES.items():
        toks = A.tokens(items)
        n = len(toks) + 1
        for b in BASES:
            for f in range(nf):
                yield (name, b, tuple((i, f) for i in range(n)), True)
                for i in range(n):
                    yield (name, b, ((i, f),), True)
        # Two insertions.
        key = [FILLERS.index(x) for x in ('/**/', '// "\n', '/* " */', '/*\n*/', '// /*\n', '//*\n', '/*/ */', '// */\n')]
        fs = range(nf) if t and name in ('small', 'strings') else key
        for i, j in itertools.combinations(range(n), 2):
            if not t and name not in ('small',) and j - i > 3:
                continue
            for a in fs:
                for b in fs:
                    yield (name, 'compact', ((i, a), (j, b)), False)
        if t:
            for i in range(n - 2):
                for a, b, c in itertools.product(key, repeat=3):
                    yield (name, 'compact', ((i, a), (i + 1, b), (i + 2, c)), False)


# -- sizes --------------------------------------------------------------------------

LIMIT = {'sizes': 120, 'places': 120}


def sized(tier):
    return [(k, n) for k in SIZED for n in p01.numbers(2, 65537 if tier == 'thorough' else 4097)]


def cases_sizes(tier):
    t = tier == 'thorough'
    for name in FILES:
        n = len(A.tokens(FILES[name])) + 1
        for f in sized(tier):
            for at in range(n) if t and f[1] < 300 and name != 'types' else (0, n // 2, n - 1):
                yield (name, 'compact', ((at, f),), f[1] < 300)
            yield (name, 'roomy', ((1, f), (n // 3, f), (n - 2, f)), False)
        for f in sized('quick'):
            if f[1] < (70 if t else 20):
                yield (name, 'compact', tuple((i, f) for i in range(n)), True)
    for kind in ('fields', 'constants', 'messages', 'rpcs', 'strings'):
        for c in p01.numbers(3, 513 if t else 129):
            toks = A.tokens(p01.counts(kind, c))
            for f in (2, 5, 10, 16, 17, ('comments', 3), ('lines', 2)):
                yield ((kind, c), 'compact', tuple((i, f) for i in range(len(toks) + 1)), c < 20)


check_sizes = check_layout


# -- imported files ----------------------------------------------------------------


def names_in(items, prefix=''):
    for x in items:
        if x[0] in ('message', 'enum'):
            yield prefix + x[1]
            if x[0] == 'message':
                yield from names_in(x[2], prefix + x[1] + '.')


def importer(name):
    items = FILES[name]
    pkg = next((x[1] for x in items if x[0] == 'package'), None)
    return [('package', 'user'), ('import', '', 't_imp.proto'),
            ('message', 'User', tuple(fld(i, '.' + pkg + '.' + n, ('', 'repeated')[i % 2]) for i, n in enumerate(names_in(items))))]


def check_imported(w, case):
    """The imported file in every layout."""
    import pbtools
    name, base, ins = case
    setup(w)
    toks = A.tokens(FILES[name])
    txt = join(toks, filled(toks, base, ins))
    w.write('t_imp.proto', txt)
    user = importer(name)
    if ('user', name) not in w.ready:
        w.ready['user', name] = A.expected(user, [FILES[name]])
    p = w.write('u.proto', A.text(user))
    w.transitions += 1
    try:
        act = A.actual(pbtools.parse_file(p, [w.dir]))
    except Exception as e:
        raise plib.Bad(f'the layout of an imported file makes it fail: {type(e).__name__}: {e}\n{txt!r}')
    d = A.difference(w.ready['user', name], act)
    if d:
        raise plib.Bad(f'the layout of an imported file changes the result: {d}\n{txt!r}')
    w.traces += 1
    w.out('as declared')


def cases_imported(tier):
    t = tier == 'thorough'
    nf = len(FILLERS)
    for name, items in FILES.items():
        n = len(A.tokens(items)) + 1
        for b in BASES:
            for f in range(nf):
                yield (name, b, tuple((i, f) for i in range(n)))
                for i in range(n):
                    yield (name, b, ((i, f),))
        key = [FILLERS.index(x) for x in ('/**/', '// "\n', '/* " */', '/*\n*/', '// /*\n')]
        for i, j in itertools.combinations(range(n), 2):
            if not t and (name != 'small' or j - i > 2):
                continue
            for a in key:
                for c in key:
                    yield (name, 'compact', ((i, a), (j, c)))


# -- error positions ----------------------------------------------------------

BREAK = ['@', ';', '}', '{', '=', 'x', '7', '"s"', ')', None, '"open', '/* open', '/* a /* b */', "'s'"]


def check_errors(w, case):
    """One token is broken; the error must be reported there in every layout."""
    import pbtools
    name, base, k, b, ins, *imp = case
    setup(w)
    toks = list(A.tokens(items_of(name)))
    br = BREAK[b]
    if br is None:
        del toks[k]
    else:
        toks[k] = br
    if br is not None and (br[0] in '@\'' or br in ('"open', '/* open', '/* a /* b */')):
        at = k
    else:
        ps, at = A.parses(toks, 1, True)
        if ps or A.parses(toks, 1)[0]:
            w.out('still in the language')
            return
    gaps = filled(toks, base, [(min(i, len(toks)), f) for i, f in ins])
    if br == '"open':
        # The rest of the line is part of the string.
        if not re.match(r'[^"]*\n', gaps[k + 1]):
            gaps[k + 1] = '\n' + gaps[k + 1]
    elif br == '/* open':
        rest = join(toks[k + 1:], [''] + gaps[k + 2:])
        if '*/' in gaps[k + 1] or '*/' in rest:
            w.out('closed later')
            return
    for i in range(1, len(toks)):
        if gaps[i] == '' and need_space(toks[i - 1], toks[i]):
            gaps[i] = ' '
    txt = join(toks, gaps)
    pos = positions(toks, gaps)
    line, col = pos[at]
    if imp:
        w.write('t_imp.proto', txt)
        p = w.write('u.proto', A.text(importer(name)))
    else:
        p = w.write('t.proto', txt)
    w.transitions += 1
    status, err, exc = plib.cli(['generate_c_source', '-I', w.dir, '-o', w.path('eout'), p])
    if exc:
        raise plib.Bad(f'traceback: {exc[-500:]}\n{txt!r}')
    if status == 0:
        raise plib.Bad(f'a file with a syntax error is accepted:\n{txt!r}')
    mo = re.search(r'line (\d+), column (\d+)', err)
    if not mo:
        raise plib.Bad(f'the error {err.strip()!r} does not tell where it is:\n{txt!r}')
    got = (int(mo.group(1)), int(mo.group(2)))
    ok = got == (line, col)
    if not ok and 0 < at < len(toks) and toks[at - 1] in ('.', ',') and got == pos[at - 1]:
        # A delimiter without anything after it may be reported instead.
        ok = True
    if at == len(toks):
        # At the end: anywhere after the last token.
        lt = len(toks) - 1
        ok = pos[lt] < got <= pos[at]
    if not ok:
        raise plib.Bad(f'the error is at line {line}, column {col} but reported as {err.strip()!r}:\n{txt!r}')
    w.traces += 1
    w.out('reported where it is')


def cases_errors(tier):
    t = tier == 'thorough'
    key = [FILLERS.index(x) for x in ('/*\n*/', '// "\n', '/* a\r\n b\n */', '/* " */', '// /*\n', '\n\n \t')]
    for name, items in FILES.items():
        n = len(A.tokens(items))
        for k in range(n):
            for b in range(len(BREAK)):
                yield (name, 'roomy', k, b, ())
                yield (name, 'compact', k, b, ())
                yield (name, 'roomy', k, b, ((0, 4),), 'imported')
                for f in (range(len(FILLERS)) if t else key):
                    for i in ({0, k, k + 1} if not t else {0, k // 3, k // 2, max(k - 1, 0), k, k + 1}):
                        yield (name, 'roomy' if f % 2 else 'compact', k, b, ((i, f),))
                    if t:
                        yield (name, 'compact', k, b, tuple((i, f) for i in range(k)))


def cases_places(tier):
    t = tier == 'thorough'
    for name in FILES:
        n = len(A.tokens(FILES[name]))
        for f in sized(tier):
            for k in (0, n // 2, n - 1):
                for at in {0, k // 2, k}:
                    yield (name, 'compact', k, 0, ((at, f),))
            yield (name, 'roomy', n // 2, 5, ((n // 3, f),))
            yield (name, 'roomy', n // 2, 0, ((0, f),), 'imported')
    for kind in ('fields', 'constants', 'messages', 'rpcs', 'strings'):
        for c in p01.numbers(3, 257 if t else 65):
            n = len(A.tokens(p01.counts(kind, c)))
            for k in (n // 3, n - 2):
                yield ((kind, c), 'roomy', k, 0, ())
                for f in (5, 9, 17):
                    yield ((kind, c), 'compact', k, 0, tuple((i, f) for i in range(k)))


check_places = check_errors
