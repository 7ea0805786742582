"""P04: invalid files are rejected, and nothing is written for them."""
import itertools
import os
import re
import subprocess
import build
import plib
import protoast as A
from p01 import COUNTED, OPT, OTHER, OE, BASE, counts, fld, ofld
from p02 import FILES as LFILES, IMP, compact, join, need_space, roomy

FILES = dict(LFILES)
FILES['nested'] = (
    ('package', 'a.b'), ('message', 'M', (
        ('message', 'N', (('enum', 'E', (('const', 'X', '0', ()),)), fld(0, 'E'), fld(1, 'K', 'repeated'))), ('message', 'K', ()),
        fld(0, 'N.E'), ('map', 'bool', 'b.M.N', 'm', '9', ()), ('oneof', 'o', (ofld(0, 'K'), ofld(1, '.a.b.M.N', num='8'))))))
FILES['imports'] = (
    ('import', '', 'http://imp.proto'), ('import', 'public', 'd/*/imp2.proto'), ('message', 'M', (
        fld(0, 'impkg.I'), fld(1, '.impkg2.I', 'repeated'), ('map', 'int32', 'impkg.I', 'm', '9', ()))))
IMPORTED = {'http://imp.proto': IMP, 'd/*/imp2.proto': [('package', 'impkg2'), *IMP[1:]]}
SENTINEL = '/* not written by pbtools */\n'

ALPHABET = [*A.KEYWORDS, 'x', 'int32', 'T', 'Other', '7', '-7', '0', '536870912', '0x1f', '"s"', '"proto3"', '"proto2"', '.', ',', '=', ';', '{', '}',
            '(', ')', '[', ']', '<', '>']
BROKEN = ['@', "'", '-', '"open', '/* open', '"a\nb"', '*/', '#', '\\', '/* /* */', '/', '0x']
BASES = {'compact': compact, 'roomy': roomy}


def verdict(toks):
    """None if the file may be accepted, otherwise why it is invalid."""
    ps, _ = A.parses(toks)
    if not ps:
        return 'not in the language'
    why = None
    for items in ps:
        try:
            imps = [IMPORTED[x[2]] for x in items if x[0] == 'import']
            A.expected(items, imps)
            return None
        except A.KnownName:
            return None
        except KeyError:
            why = 'the imported file does not exist'
        except A.Undefined as e:
            why = f'{e} is not defined'
    return why


def setup(w):
    if not hasattr(w, 'ready'):
        for n, f in IMPORTED.items():
            w.write(n, A.text(f))
        w.ready = True
        sentinels(w)


def sentinels(w):
    for n in ('t.h', 't.c'):
        w.write('out/' + n, SENTINEL)


def untouched(w):
    out = w.path('out')
    return sorted(os.listdir(out)) == ['t.c', 't.h'] and all(open(os.path.join(out, n)).read() == SENTINEL for n in ('t.h', 't.c'))


def judge(w, txt, why):
    setup(w)
    p = w.write('t.proto', txt)
    w.transitions += 1
    status, err, exc = plib.cli(['generate_c_source', '-I', w.dir, '-o', w.path('out'), p])
    w.traces += 1
    if exc or 'Traceback (most recent' in err:
        raise plib.Bad(f'a traceback instead of an error:\n{(exc or err)[-800:]}\n{txt!r}')
    if why is not None:
        if status == 0:
            raise plib.Bad(f'accepted, but {why}:\n{txt!r}')
        if not err.strip():
            raise plib.Bad(f'no error message; {why}:\n{txt!r}')
        if not untouched(w):
            raise plib.Bad(f'rejected with {err.strip()!r}, but something is written:\n{txt!r}')
        w.out('rejected: ' + ('undefined' if 'defined' in why else why))
        return
    if status:
        # Other checks decide what must be accepted.
        if not err.strip():
            raise plib.Bad(f'rejected without error message:\n{txt!r}')
        if not untouched(w):
            raise plib.Bad(f'rejected with {err.strip()!r}, but something is written:\n{txt!r}')
        w.out('rejected: other')
        return
    if any(open(w.path('out', n)).read() == SENTINEL for n in ('t.h', 't.c')):
        raise plib.Bad(f'accepted, but nothing is generated:\n{txt!r}')
    sentinels(w)
    w.out('accepted')


def mutate(toks, m):
    toks = list(toks)
    op, k = m[0], m[1]
    if op == 'del':
        del toks[k]
    elif op == 'dup':
        toks.insert(k, toks[k])
    elif op == 'swap':
        toks[k], toks[k + 1] = toks[k + 1], toks[k]
    elif op == 'ins':
        toks.insert(k, m[2])
    elif op == 'rep':
        toks[k] = m[2]
    elif op == 'cut':
        del toks[k:]
    elif op == 'drop':
        del toks[k:m[2]]
    return toks


def check_tokens(w, case):
    name, base, ms = case
    toks = A.tokens(FILES[name])
    for m in ms:
        toks = mutate(toks, m)
    broken = any(t in BROKEN for t in toks)
    if any(a == '-' and re.match(r'\d', b) for a, b in zip(toks, toks[1:])):
        w.out('white space after a sign: not decided')
        return
    gaps = BASES[base](toks)
    for i in range(1, len(toks)):
        if any(t in BROKEN for t in toks[i - 1:i + 1]):
            gaps[i] = '\n'
    txt = join(toks, gaps)
    if broken:
        why = 'not in the language'
    else:
        why = verdict(toks)
    judge(w, txt, why)


def mutations(n, alphabet):
    for k in range(n):
        yield ('del', k)
        yield ('dup', k)
        yield ('cut', k)
        if k + 1 < n:
            yield ('swap', k)
        for a in alphabet:
            yield ('ins', k, a)
            yield ('rep', k, a)
    for a in alphabet:
        yield ('ins', n, a)


def cases_tokens(tier):
    t = tier == 'thorough'
    for name, items in FILES.items():
        toks = A.tokens(items)
        n = len(toks)
        for m in mutations(n, ALPHABET + BROKEN):
            yield (name, 'compact', (m,))
            if t:
                yield (name, 'roomy', (m,))
        for i, j in itertools.combinations(range(n + 1), 2):
            if j - i > 1:
                yield (name, 'compact', (('drop', i, j),))
    if t:
        # Two mutations of small files.
        for name in ('small', 'nested'):
            toks = A.tokens(FILES[name])
            few = [';', '}', '{', 'x', '=', '"s"', 'message', '.', '[', ')'] if name != 'small' else \
                [';', '}', '{', 'x', '7', '=', '"s"', 'message', '.', '[', ']', ')', 'repeated', 'map', '<', ',', 'oneof', '-']
            for m in mutations(len(toks), few):
                l2 = len(mutate(toks, m))
                for m2 in mutations(l2, few):
                    if m2[1] >= m[1]:
                        yield (name, 'compact', (m, m2))


# -- cut off ------------------------------------------------------------------

def check_cut(w, case):
    """A file that ends in the middle."""
    name, base, k, part, tail = case
    toks = list(A.tokens(FILES[name]))
    gaps = BASES[base](toks)
    txt = join(toks[:k], gaps[:k + 1])
    head = toks[:k]
    why = None
    if part:
        p = toks[k][:part]
        txt += p
        head.append(p)
        if p[0] == '"' or p == '-' or re.fullmatch(r'-?0[xX]', p):
            why = 'not in the language'
    tail = TAILS[tail]
    txt += tail
    if not why:
        why = 'not in the language' if '/*' in tail and '*/' not in tail else verdict(head)
    judge(w, txt, why)


TAILS = ['', '\n', '//', ' // end', '/* end', '\n/*', '/* a */', '/*/']


def cases_cut(tier):
    for name, items in FILES.items():
        toks = A.tokens(items)
        for base in BASES:
            for k in range(len(toks) + 1):
                for part in range(len(toks[k])) if k < len(toks) else [0]:
                    for tail in range(len(TAILS)):
                        if part and tail and toks[k][0] == '"':
                            continue
                        yield (name, base, k, part, tail)


# -- sizes ------------------------------------------------------------------------

# A file with one bracket too many or one missing is in no place valid, neither is one of these tokens.
INSERTED = ['@', '#', '}', '{', ')', ']', '= =', '; ; =', '"open', '/* open', '0x', "'"]
FIELDS = {'field': (2, 4), 'ofield': (1, 3), 'map': (2, 4)}


def members(items, path=()):
    """The path of every field."""
    for i, x in enumerate(items):
        if isinstance(x, tuple) and x:
            if x[0] in FIELDS and len(x) > 4:
                yield path + (i,)
            elif x[0] in ('message', 'oneof') and isinstance(x[-1], tuple):
                yield from members(x[-1], path + (i, len(x) - 1))


def replaced(items, path, f):
    if not path:
        return f(items)
    out = list(items)
    out[path[0]] = replaced(out[path[0]], path[1:], f)
    return out if isinstance(items, list) else tuple(out)


def some(n, k):
    """At most about k of n positions: the first and last ones and some between."""
    if n <= k:
        return list(range(n))
    return sorted({0, 1, n - 1, n - 2} | {n * i // (k - 3) for i in range(k - 3)})


def check_sizes(w, case):
    """One thing is wrong in a large file."""
    kind, n, op, k = case
    items = counts(kind, n)
    if op in ('type', 'number', 'large'):
        paths = list(members(items))
        ks = some(len(paths), 12)
        if k >= len(ks) or not ks:
            w.out('nothing to break')
            return
        path = paths[ks[k]]
        def broken(x):
            x = list(x)
            t, num = FIELDS[x[0]]
            x[t if x[0] != 'map' or op != 'type' else 2] = 'Nope' if op == 'type' else x[t]
            if op != 'type':
                x[num] = '0' if op == 'number' else '536870912'
            return tuple(x)
        toks = A.tokens(replaced(items, path, broken))
        why = 'Nope is not defined' if op == 'type' else 'the field number is not valid'
    else:
        toks = list(A.tokens(items))
        ks = some(len(toks) + (op != 'delete'), 12)
        if op == 'delete':
            ks = [i for i, x in enumerate(toks) if x in '{}()[]=' and (x != '=' or toks[i - 1] != 'syntax')]
            ks = [ks[i] for i in some(len(ks), 12)]
        if k >= len(ks) or not ks:
            w.out('nothing to break')
            return
        if op == 'delete':
            del toks[ks[k]]
        else:
            toks.insert(ks[k], op)
        why = 'not in the language'
    judge(w, join(toks, ['', *('\n' if not need_space(a, b) and a in '{};' else ' ' for a, b in zip(toks, toks[1:])), '\n']), why)


def cases_sizes(tier):
    t = tier == 'thorough'
    for n in (1, 2, 5, 9, 17, 33, 65, *((129, 257, 513, 1025) if t else (130,))):
        for kind in COUNTED:
            if n > (65 if not t else 300) and kind in ('deep', 'strings', 'names', 'integers') or kind == 'deep' and n > 33:
                continue
            for op in ('delete', 'type', 'number', 'large', *INSERTED):
                for k in range(12) if n < 100 and op in ('delete', 'type', 'number', '@', '}') or t else (0, 3, -1):
                    yield kind, n, op, k


# -- references -----------------------------------------------------------------

MISSING = ['Nope', 'M.Nope', '.Nope', 'pkg.Nope', 'nopkg.M', '.pkg.M.Nope', 'N.Nope', 'E.Nope', 'impkg.Nope', 'Int32', 'I', 'impkg', 'pkg', 'A', 'f',
           'M.f', 'S', 'o', '.int32', 'pkg.int32', 'other.M', 'imp.I', 'group', 'double64', 'Message']
# Every type as the key of a map. Only integers, bool and string are keys.
KEYS = A.SCALARS + ['E', 'pkg.E', '.pkg.E', 'M', 'N', 'pkg.M.N', 'Nope', 'impkg.I', 'Int32', 'map', 'message', '7', '"string"', 'string.', '.string']
PLACES = ['field', 'repeated', 'map', 'oneof', 'inner', 'innermap', 'inneroneof', 'second', 'optional']


def check_references(w, case):
    place, ref, key = case
    f = ('field', 'repeated' if place == 'repeated' else 'optional' if place == 'optional' else '', ref, 'bad', '20', ())
    if place.endswith('map'):
        f = ('map', key or 'string', ref, 'bad', '20', ())
    if place.endswith('oneof'):
        f = ('oneof', 'u', (ofld(0), ('ofield', ref, 'bad', '20', ())))
    inner = place.startswith('inner')
    items = [('import', '', 'http://imp.proto'), ('package', 'pkg'), ('enum', 'E', (('const', 'A', '0', ()),)),
             ('message', 'M', (fld(0, name='f'), ('message', 'N', (fld(0),) + ((f,) if inner else ())), ('oneof', 'o', (ofld(0),)),
                               *([f] if not inner and not place.startswith('second') else []))),
             ('message', 'Z', ((f,) if place.startswith('second') else ())), ('service', 'S', ())]
    toks = A.tokens(items)
    ok = verdict(A.tokens([('message', 'M', (fld(0),))]))
    assert ok is None
    why = verdict(toks)
    if why is None:
        w.out('defined')
        return
    judge(w, A.layout(toks), why)


def cases_references(tier):
    for place in PLACES:
        for ref in MISSING:
            yield (place, ref, 0)
    for place in ('map', 'innermap', 'second map'):
        for key in KEYS:
            for value in A.SCALARS + ['E', 'pkg.E', 'M', '.pkg.M.N', 'N', 'Nope']:
                yield (place, value, key)


# -- files ----------------------------------------------------------------------

GOOD = A.text([('message', 'G', (fld(0),))])
INPUTS = {
    'syntax error': 'syntax = "proto3";\nmessage {}\n',
    'proto2': 'syntax = "proto2";\nmessage M {}\n',
    'no syntax line': 'message M { int32 a = 1; }\n',
    'empty': '',
    'comment only': '// nothing\n',
    'unterminated comment': 'syntax = "proto3";\n/* message M {}\n',
    'nested comment': 'syntax = "proto3";\n/* /* */ */ message M {}\n',
    'unterminated string': 'syntax = "proto3";\noption a = "x;\nmessage M {}\n',
    'missing import': 'syntax = "proto3";\nimport "nothere.proto";\nmessage M {}\n',
    'missing second import': 'syntax = "proto3";\nimport "http://imp.proto";\nimport "d/nothere.proto";\nmessage M {}\n',
    'invalid import': 'syntax = "proto3";\nimport "broken.proto";\nmessage M {}\n',
    'import not utf-8': 'syntax = "proto3";\nimport "latin.proto";\nmessage M {}\n',
    'empty import': 'syntax = "proto3";\nimport "nothing.proto";\nmessage M {}\n',
    'import of a directory': 'syntax = "proto3";\nimport "dir.proto";\nmessage M {}\n',
    'import of another syntax': 'syntax = "proto3";\nimport "two.proto";\nmessage M {}\n',
    'import without syntax': 'syntax = "proto3";\nimport "bare.proto";\nmessage M {}\n',
    'public import': 'syntax = "proto3";\nimport public "broken.proto";\nmessage M {}\n',
    'weak import': 'syntax = "proto3";\nimport weak "nothere.proto";\nmessage M {}\n',
    'empty import name': 'syntax = "proto3";\nimport "";\nmessage M {}\n',
    'cut off import': 'syntax = "proto3";\nimport "cutoff.proto";\nmessage M {}\n',
    'undefined type': 'syntax = "proto3";\nmessage M { Nope a = 1; }\n',
    'undefined map value': 'syntax = "proto3";\nmessage M { map<string, Nope> a = 1; }\n',
    'undefined in second message': 'syntax = "proto3";\nmessage M { int32 a = 1; }\nmessage N { oneof o { Nope a = 1; } }\n',
    'map key': 'syntax = "proto3";\nmessage M { map<double, int32> a = 1; }\n',
    'field number': 'syntax = "proto3";\nmessage M { int32 a = 0; }\n',
    'big field number': 'syntax = "proto3";\nmessage M { int32 a = 536870912; }\n',
    'cut off': 'syntax = "proto3";\nmessage M { int32 a = 1;',
    'not utf-8': b'syntax = "proto3";\nmessage M { int32 a\xff\xfe = 1; }\n',
    'does not exist': None,
    'a directory': 'DIR',
}


def place_input(w, name, what):
    c = INPUTS[what]
    p = w.path(name)
    if os.path.isdir(p):
        os.rmdir(p)
    elif os.path.exists(p):
        os.unlink(p)
    if c == 'DIR':
        os.makedirs(p)
    elif c is not None:
        with open(p, 'wb') as f:
            f.write(c if isinstance(c, bytes) else c.encode())
    return p


def check_inputs(w, case):
    """Invalid files among valid ones; in this process and as a command."""
    what, where, real, prepared = case
    setup(w)
    w.write('broken.proto', 'syntax = "proto3";\nmessage M { int32 a 1; }\n')
    w.write('cutoff.proto', 'syntax = "proto3";\nmessage M { int32 a = 1;')
    with open(w.path('latin.proto'), 'wb') as f:
        f.write(b'syntax = "proto3";\nmessage X { int32 a\xff\xfe = 1; }\n')
    w.write('nothing.proto', '')
    w.write('two.proto', 'syntax = "proto2";\nmessage X {}\n')
    w.write('bare.proto', 'message X {}\n')
    os.makedirs(w.path('dir.proto'), exist_ok=True)
    bad = place_input(w, 't.proto', what)
    good = [w.write(f'g{i}.proto', GOOD.replace('G', f'G{i}')) for i in range(2)]
    names = {'alone': [bad], 'first': [bad, good[0]], 'last': [good[0], bad], 'middle': [good[0], bad, good[1]]}[where]
    out = w.path('o', str(prepared))
    for d in (out,):
        if os.path.isdir(d):
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))
            os.rmdir(d)
    if prepared:
        for n in ('t.h', 't.c'):
            w.write(f'o/{prepared}/{n}', SENTINEL)
    args = ['generate_c_source', '-I', w.dir, '-o', out] + names
    w.transitions += 1
    if real:
        r = subprocess.run([build.PY, '-m', 'pbtools'] + args, cwd=w.dir, env=build.env(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        status, err, exc = r.returncode, r.stderr, None
    else:
        status, err, exc = plib.cli(args)
    w.traces += 1
    place_input(w, 't.proto', 'does not exist')
    if exc or 'Traceback (most recent' in err:
        raise plib.Bad(f'{case}: a traceback instead of an error:\n{(exc or err)[-800:]}')
    if status == 0:
        raise plib.Bad(f'{case}: exit status 0')
    if not err.strip():
        raise plib.Bad(f'{case}: no error message')
    left = {n: open(os.path.join(out, n)).read() for n in os.listdir(out)} if os.path.isdir(out) else {}
    for n in ('t.h', 't.c'):
        if prepared and left.get(n) != SENTINEL or not prepared and n in left:
            raise plib.Bad(f'{case}: {n} is written for the invalid file')
    extra = [n for n in left if n not in ('t.h', 't.c', 'g0.h', 'g0.c', 'g1.h', 'g1.c')]
    if extra:
        raise plib.Bad(f'{case}: {extra} is left behind')
    for i in range(2):
        if (f'g{i}.h' in left) != (f'g{i}.c' in left):
            raise plib.Bad(f'{case}: only one of the two generated files of g{i}.proto')
    w.out('rejected')


def cases_inputs(tier):
    for what in INPUTS:
        for where in ('alone', 'first', 'last', 'middle'):
            for prepared in (0, 1):
                for real in (True, False):
                    yield (what, where, real, prepared)
