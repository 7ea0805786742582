"""P01: the parser returns exactly what the file declares."""
import itertools
import plib
import protoast as A
from choice import runs

IMPORTED = {'imp.proto': [('package', 'impkg'), ('message', 'I', (('field', '', 'int32', 'a', '1', ()),)), ('enum', 'IE', (('const', 'IZ', '0', ()),))]}
OPT = (('deprecated',), 'bool', 'true')


def parse(w, items, toks=None):
    """The normalised result of pbtools, or a violation."""
    import pbtools
    txt = A.layout(toks or A.tokens(items))
    for n in {x[2] for x in items if x[0] == 'import'}:
        if n in IMPORTED and not w.__dict__.setdefault('wrote', set()).__contains__(n):
            w.write(n, A.text(IMPORTED[n]))
            w.wrote.add(n)
    p = w.write('t.proto', txt)
    w.transitions += 1
    try:
        proto = pbtools.parse_file(p, [w.dir])
    except Exception as e:
        raise plib.Bad(f'a supported file is not parsed: {type(e).__name__}: {e}\n{txt}')
    try:
        return A.actual(proto), txt
    except Exception as e:
        raise plib.Bad(f'the parse result is not as declared: {type(e).__name__}: {e}\n{txt}')


def check(w, items):
    exp = A.expected(items, [IMPORTED[x[2]] for x in items if x[0] == 'import'])
    act, txt = parse(w, items)
    d = A.difference(exp, act)
    if d:
        raise plib.Bad(f'{d}\n{txt}')
    w.traces += 1
    w.out('as declared')


LIMIT = {'counts': 120}
check_bodies = check_attributes = check_deviations = check_counts = check


# Items; i makes names and numbers unique.
def fld(i, t='int32', label='', name=None, num=None, opts=()):
    return ('field', label, t, name or f'f{i}', num or str(10 + 4 * i), opts)


def ofld(i, t='int32', name=None, num=None, opts=()):
    return ('ofield', t, name or f'o{i}', num or str(10 + i), opts)


MSG_ITEMS = [
    lambda i: fld(i),
    lambda i: fld(i, 'string', 'repeated'),
    lambda i: fld(i, 'bool', 'optional'),
    lambda i: fld(i, 'Other', 'repeated'),
    lambda i: ('map', 'string', 'Other', f'm{i}', str(10 + 4 * i), ()),
    lambda i: ('oneof', f'u{i}', (ofld(0, num=str(11 + 4 * i), name=f'x{i}'), ofld(1, 'OE', num=str(12 + 4 * i), name=f'y{i}'))),
    lambda i: ('message', f'N{i}', (fld(0, 'bytes'), fld(1, 'OE', 'optional'))),
    lambda i: ('enum', f'E{i}', (('const', f'A{i}', '0', ()), ('const', f'B{i}', '-1', ()))),
    lambda i: ('reserved', 'ranges', (('2', ''), ('4', '6'), ('900', 'max'))),
    lambda i: ('reserved', 'names', ('"foo"', '"bar"')),
    lambda i: ('option',) + OPT,
    lambda i: (';',),
    lambda i: fld(i, 'double', '', opts=(OPT, (('(', 'a', '.', 'b', ')'), 'string', '"x;"'))),
]
ENUM_ITEMS = [
    lambda i: ('const', f'C{i}', str(i), ()),
    lambda i: ('const', f'C{i}', f'-{i + 1}', ()),
    lambda i: ('const', f'C{i}', hex(i + 16), (OPT,)),
    lambda i: ('option', ('allow_alias',), 'bool', 'true'),
    lambda i: ('reserved', 'ranges', (('100', '110'), ('-5', ''))),
    lambda i: ('reserved', 'names', ('"Q"',)),
    lambda i: (';',),
]
ONEOF_ITEMS = [
    lambda i: ofld(i),
    lambda i: ofld(i, 'string', opts=(OPT,)),
    lambda i: ofld(i, 'Other'),
    lambda i: ofld(i, 'OE'),
    lambda i: ofld(i, 'Other.In'),
    lambda i: ('option',) + OPT,
    lambda i: (';',),
]
RPC_ITEMS = [lambda i: ('option',) + OPT, lambda i: (';',),
             lambda i: ('option', ('(', 'google', '.', 'api', ')', '.', 'get'), 'string', '"/v1 {x} // y"')]
SERVICE_ITEMS = [
    lambda i: ('rpc', f'R{i}', False, 'Other', False, 'Other', None),
    lambda i: ('rpc', f'R{i}', True, 'Other', False, 'pkg.Other.In', ()),
    lambda i: ('rpc', f'R{i}', False, '.pkg.Other', True, 'Other', (RPC_ITEMS[0](0), (';',))),
    lambda i: ('rpc', f'R{i}', True, 'a.b.c.D', True, 'Other.In', None),
    lambda i: ('option',) + OPT,
    lambda i: (';',),
]
TOP_ITEMS = [
    lambda i: ('message', f'T{i}', (fld(0), fld(1, 'Other'))),
    lambda i: ('enum', f'TE{i}', (('const', f'TC{i}', '0', ()),)),
    lambda i: ('service', f'S{i}', (('rpc', 'A', False, 'Other', True, 'Other', None),)),
    lambda i: ('option', ('java_package',), 'string', f'"a.b{i}"'),
    lambda i: ('import', ['', 'public', 'weak'][i % 3], 'imp.proto'),
    lambda i: (';',),
    lambda i: ('package', 'pkg'),
]
OTHER = ('message', 'Other', (fld(0), ('message', 'In', (fld(0),))))
OE = ('enum', 'OE', (('const', 'OEA', '0', ()),))
BASE = (('package', 'pkg'),)


def forests(n):
    """Ordered forests of n nodes as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for a in forests(k):
            for b in forests(n - 1 - k):
                yield (a,) + b


def nest(forest, c):
    out = ()
    for t in forest:
        i = next(c)
        body = [fld(0), *nest(t, c)]
        if i % 2:
            body.append(('enum', f'E{i}', (('const', f'Z{i}', '0', ()),)))
            body.append(fld(1, f'E{i}'))
        if t:
            body.append(('oneof', 'o', (ofld(5), ofld(6, 'string'))))
        out += (('message', f'M{i}', tuple(body)),)
    return out


def seqs(alpha, n):
    for l in range(n + 1):
        for s in itertools.product(alpha, repeat=l):
            yield tuple(f(i) for i, f in enumerate(s))


def cases_bodies(tier):
    t = tier == 'thorough'
    for s in seqs(MSG_ITEMS, 4 if t else 3):
        yield BASE + (('message', 'M', s), OTHER, OE)
    for s in seqs(ENUM_ITEMS, 5 if t else 4):
        yield BASE + (('enum', 'E', s), ('message', 'M', (('enum', 'E', s), fld(0, 'E'))))
    for s in seqs(ONEOF_ITEMS, 5 if t else 4):
        yield BASE + (OE, ('message', 'M', (('oneof', 'o', s), fld(9))), OTHER)
    for s in seqs(SERVICE_ITEMS, 5 if t else 4):
        yield BASE + (OTHER, ('service', 'S', s))
    for s in seqs(RPC_ITEMS, 4):
        yield BASE + (OTHER, ('service', 'S', (('rpc', 'A', False, 'Other', False, 'Other', s), SERVICE_ITEMS[0](1))))
    for s in seqs(TOP_ITEMS, 5 if t else 4):
        if sum(x[0] == 'package' for x in s) <= 1:
            for p in range(3):      # where the used types are declared
                r = list(s)
                r.insert(len(r) * p // 2, OTHER)
                yield tuple(r)
    for n in range(1, 9 if t else 7):
        for f in forests(n):
            yield BASE + nest(f, itertools.count())
            yield nest(f, itertools.count())


NAMES = A.KEYWORDS + ['a', 'A', 'a1', 'a_b', 'aB', 'ABC', 'x__y', 'Z9_', 'a_', 'int32', 'string', 'bytes', 'group', 'extend', 'X']
TYPE_NAMES = ['to', 'max', 'weak', 'public', 'returns', 'rpc', 'service', 'import', 'syntax', 'package', 'true', 'false',
              'a', 'A', 'a_b', 'aB', 'x__y', 'Z9_', 'toto', 'messages', 'Map', 'Reserved']
FIELD_NUMS = ['1', '01', '0x1', '0X1F', '0x1f', '017', '19', '2048', '536870911', '0x1FFFFFFF', '03777777777']
INTS = ['0', '1', '-1', '00', '0x0', '017', '-017', '0x7fffffff', '0XaBc', '-0x80000000', '2147483647', '-2147483648', '123456789']
STRINGS = ['""', '"a b"', '"// x"', '"/* x */"', '"*/"', '"proto3"', '"a\\"b"', '"\\\\"', '"a\\\\\\""', '";"', '"}"', '"\'"', '"{"', '"é"']
OPT_NAMES = [('foo',), ('(', 'foo', ')'), ('(', 'a', '.', 'b', ')'), ('(', 'a', ')', '.', 'b'), ('(', 'a', '.', 'b', ')', '.', 'c', '.', 'd'),
             ('option',), ('(', 'message', ')'), ('syntax', '.', 'to')]
CONSTS = [('bool', 'true'), ('bool', 'false'), ('ident', 'A'), ('ident', 'a.b.c'), ('ident', 'max'), ('ident', 'trueish')] \
    + [('string', s) for s in STRINGS] + [('integer', s) for s in INTS]


def named(place, n):
    """A file with the name at a place."""
    f = [fld(0)]
    if place == 'package':
        return (('package', n), ('message', 'M', (fld(0), fld(1, 'M'))))
    if place == 'package2':
        return (('package', f'pk.{n}.b'), ('message', 'M', (fld(0), fld(1, f'pk.{n}.b.M'))))
    if place == 'message':
        return BASE + (('message', n, (fld(0),)),)
    if place == 'nested':
        return BASE + (('message', 'M', (('message', n, (fld(0),)),)),)
    if place == 'enum':
        return BASE + (('enum', n, (('const', 'A', '0', ()),)),)
    if place == 'const':
        return BASE + (('enum', 'E', (('const', 'Z9', '0', ()), ('const', n, '1', (OPT,)))),)
    if place == 'field':
        return BASE + (OTHER, ('message', 'M', (fld(0, name=n), fld(1, 'Other', 'repeated', name=n + '1'))),)
    if place == 'ofield':
        return BASE + (OTHER, ('message', 'M', (('oneof', 'o', (ofld(0, name=n), ofld(1, 'Other', name=n + '1'))),)),)
    if place == 'oneof':
        return BASE + (('message', 'M', (('oneof', n, (ofld(0),)),)),)
    if place == 'map':
        return BASE + (('message', 'M', (('map', 'int32', 'string', n, '1', ()),)),)
    if place == 'service':
        return BASE + (('service', n, ()),)
    if place == 'rpc':
        return BASE + (OTHER, ('service', 'S', (('rpc', n, True, 'Other', False, 'Other', None),)))
    if place == 'option':
        return BASE + (('option', (n,), 'ident', n if n not in ('true', 'false') else 'x'), ('option', ('(', n, '.', n, ')', '.', n), 'bool', 'true'))
    if place == 'optval':
        return BASE + (('message', 'M', (fld(0, opts=(((n,), 'ident', n if n not in ('true', 'false') else 'x'),)),)),)
    if place == 'reserved':
        return BASE + (('message', 'M', (('reserved', 'names', (f'"{n}"',)), fld(0))),)
    raise ValueError(place)


PLACES = ['package', 'package2', 'message', 'nested', 'enum', 'const', 'field', 'ofield', 'oneof', 'map', 'service', 'rpc',
          'option', 'optval', 'reserved']


def cases_attributes(tier):
    for p in PLACES:
        for n in NAMES:
            if p in ('message', 'nested', 'enum') and n in A.SCALARS:
                continue
            yield named(p, n)
    for n in TYPE_NAMES:
        d = ('message', n, (fld(0),))
        m = ('message', 'M', (fld(0, n), fld(1, n, 'repeated'), ('oneof', 'o', (ofld(15, n),)), ('map', 'int32', n, 'm', '9', ()), fld(7, 'pkg.' + n, 'optional' if False else '')))
        yield BASE + (d, m, ('service', 'S', (('rpc', 'A', False, n, True, n, None),)))
        yield BASE + (('message', 'M', (d,) + m[2][:4]),)
        yield BASE + (('enum', n, (('const', 'Z', '0', ()),)), ('message', 'M', (fld(0, n, 'optional'), fld(1, n, 'repeated'), fld(2, n))))
    for v in FIELD_NUMS:
        yield BASE + (('message', 'M', (fld(0, num=v),)), ('message', 'N', (('map', 'string', 'bool', 'm', v, ()),)),
                      ('message', 'O', (('oneof', 'o', (ofld(0, num=v),)),)), ('message', 'P', (fld(0, 'bytes', 'repeated', num=v, opts=(OPT,)),)))
    for v in INTS:
        yield BASE + (('enum', 'E', (('const', 'A', v, ()), ('const', 'B', v, (OPT,)))), ('message', 'M', (('enum', 'E', (('const', 'A', v, ()),)),)))
    for n in OPT_NAMES:
        for k, v in CONSTS:
            o = (n, k, v)
            io = ('option',) + o
            yield BASE + (io, ('message', 'M', (fld(0),)))
            yield BASE + (OTHER, io, ('message', 'M', (
                fld(0, opts=(o,)), io, ('map', 'int32', 'int32', 'm', '2', (o, OPT)), ('oneof', 'o', (io, ofld(0, 'string', num='99', opts=(OPT, o)), io)),
                ('enum', 'E', (io, ('const', 'A', '0', (o,)), io)), fld(1))), io,
                ('service', 'S', (io, ('rpc', 'A', False, 'Other', False, 'Other', (io, io)), io)))
    for s in STRINGS:
        yield BASE + (('message', 'M', (('reserved', 'names', (s, '"x"', s)), fld(0))), ('enum', 'E', (('const', 'A', '0', ()), ('reserved', 'names', (s,)))))
    for s in A.SCALARS:
        for l in ('', 'repeated', 'optional'):
            yield BASE + (('message', 'M', (fld(0, s, l),)),)
        yield BASE + (('message', 'M', (('oneof', 'o', (ofld(0, s), ofld(1, s))),)),)
        for k in A.MAP_KEYS:
            yield BASE + (('message', 'M', (('map', k, s, 'm', '1', ()),)),)
    for a in FIELD_NUMS:
        for b in FIELD_NUMS + ['max', '']:
            yield BASE + (('message', 'M', (('reserved', 'ranges', ((a, b), (b if b not in ('max', '') else '7', 'max'))), fld(0))),)


def counts(kind, n, pkg='pkg'):
    """n things of one kind."""
    R = range(n)
    top = [('package', pkg)]
    if kind == 'fields':
        return top + [OTHER, OE, ('message', 'M', tuple(fld(i, ['int32', 'string', 'Other', 'OE', 'bool'][i % 5], ['', 'repeated'][i % 7 == 3], num=str(i + 1)) for i in R))]
    if kind == 'oneof fields':
        return top + [OTHER, OE, ('message', 'M', (('oneof', 'o', tuple(ofld(i, ['int32', 'string', 'Other', 'OE'][i % 4], num=str(i + 1)) for i in R)), fld(n, num=str(n + 9))))]
    if kind == 'oneofs':
        return top + [OTHER, ('message', 'M', tuple(('oneof', f'u{i}', (ofld(0, ['int32', 'Other'][i % 2], num=str(2 * i + 1), name=f'x{i}'), ofld(0, num=str(2 * i + 2), name=f'y{i}'))) for i in R))]
    if kind == 'maps':
        return top + [OTHER, ('message', 'M', tuple(('map', ['string', 'int32'][i % 2], ['Other', 'bytes', 'bool'][i % 3], f'm{i}', str(i + 1), ()) for i in R))]
    if kind == 'messages':
        return top + [('message', f'M{i}', (fld(0), fld(1, f'M{i * 7 % n}'))) for i in R]
    if kind == 'nested messages':
        return top + [('message', 'M', tuple(('message', f'N{i}', (fld(0), fld(1, f'N{i * 5 % n}'))) for i in R) + tuple(fld(i, f'N{i}', num=str(i + 1)) for i in R))]
    if kind == 'deep':
        m = ()
        for i in R:
            m = (('message', f'M{n - i}', (fld(0), fld(1, f'M{n - i}')) + m + (fld(2, f'M{n - i + 1}' if i else 'M1'), fld(3, f'M{(n - i) // 2 or 1}')),),)
        return top + list(m) + [('message', 'Z', (fld(0, '.'.join(f'M{i + 1}' for i in R)),))] if n else top
    if kind in ('chain', 'back chain', 'ring'):
        nx = (lambda i: i + 1) if kind == 'chain' else (lambda i: i - 1) if kind == 'back chain' else (lambda i: (i + 1) % n)
        return top + [('message', f'M{i}', (fld(0),) + ((fld(1, f'M{nx(i)}'),) if 0 <= nx(i) < n else ())) for i in R]
    if kind == 'enums':
        return top + [('enum', f'E{i}', (('const', f'A{i}', '0', ()), ('const', f'B{i}', str(i), ()))) for i in R] + [('message', 'M', tuple(fld(i, f'E{n - 1 - i}', num=str(i + 1)) for i in R))]
    if kind == 'nested enums':
        return top + [('message', 'M', tuple(('enum', f'E{i}', (('const', f'A{i}', str(i), ()),)) for i in R) + tuple(fld(i, f'E{n - 1 - i}', num=str(i + 1)) for i in R))]
    if kind == 'constants':
        return top + [('enum', 'E', tuple(('const', f'C{i}', str(i * (-1) ** i), ()) for i in R))]
    if kind == 'options':
        o = tuple(('option', (f'o{i}',), 'integer', str(i)) for i in R)
        return top + list(o) + [('message', 'M', o + (fld(0),))]
    if kind == 'field options':
        o = tuple(((f'o{i}',), 'string', f'"{i}"') for i in R)
        return top + [('message', 'M', (fld(0, opts=o), ('map', 'int32', 'int32', 'm', '2', o), ('oneof', 'o', (ofld(0, num='99', opts=o),))))]
    if kind == 'services':
        return top + [OTHER] + [('service', f'S{i}', (('rpc', 'A', False, 'Other', bool(i % 2), 'Other', None),)) for i in R]
    if kind == 'rpcs':
        return top + [OTHER, ('service', 'S', tuple(('rpc', f'R{i}', bool(i & 2), 'Other', bool(i & 1), 'Other', [None, ()][i % 5 == 0]) for i in R))]
    if kind == 'reserved':
        return top + [('message', 'M', (('reserved', 'ranges', tuple((str(5 + 3 * i), str(6 + 3 * i)) for i in range(n or 1))), ('reserved', 'names', tuple(f'"n{i}"' for i in range(n or 1))), fld(0, num='1')))]
    if kind == 'empty':
        return top + [(';',)] * n + [('message', 'M', (fld(0),) + ((';',),) * n), ('enum', 'E', ((';',),) * n + (('const', 'A', '0', ()),))]
    if kind == 'package':
        q = '.'.join([pkg] + [f'p{i}' for i in R])
        return [('package', q), OTHER, ('message', 'M', (fld(0, 'Other'), fld(1, q + '.Other', 'repeated')))]
    if kind == 'names':
        a = 'a' * (n or 1)
        return top + [('message', 'M' + a, (fld(0, name='f' + a), fld(1, 'N' + a, name='g' + a), ('oneof', 'o' + a, (ofld(20, name='x' + a), ofld(21, 'E' + a, name='y' + a))),
                                           ('message', 'N' + a, (fld(0, 'bytes', 'repeated', name='f' + a),)))), ('enum', 'E' + a, (('const', 'C' + a, '0', ()),))]
    if kind == 'strings':
        s = ['"' + 'x' * n + e + '"' for e in ('', '// y', '/* y', '*/', '\\"', '\\\\', ' ', '\t', '.', ',;')]
        s += ['"' + e + x[1:] for x, e in zip(s[6:], (' ', '\t', ',', '.'))]
        o = tuple(('option', (f'o{i}',), 'string', x) for i, x in enumerate(s))
        return top + list(o) + [('message', 'M', o + (fld(0, opts=tuple(x[1:] for x in o)), ('reserved', 'names', tuple(s[:3])))), ('enum', 'E', o + (('const', 'A', '0', ()),))]
    if kind == 'option names':
        d = tuple(x for i in R for x in ('.', f'p{i}'))
        q = tuple(x for i in R for x in (f'q{i}', '.'))[:-1] or ('q',)
        o = [('option', ('a',) + d, 'bool', 'true'), ('option', ('(',) + q + (')',) + d, 'integer', '-7'), ('option', ('b',), 'ident', '.'.join(f'c{i}' for i in R) or 'c')]
        return top + o + [('message', 'M', (*o, fld(0, opts=tuple(x[1:] for x in o))))]
    if kind == 'integers':
        return top + [('option', ('a',), 'integer', '1' * (n or 1)), ('option', ('b',), 'integer', '-0x' + 'f' * (n or 1)), ('option', ('c',), 'integer', '0' * n + '17'),
                      ('enum', 'E', (('const', 'A', '0' * (n + 1), ()), ('const', 'B', '-0x' + '0' * n + '1F', ()))), ('message', 'M', (fld(0, num='0x' + '0' * n + '1f'), fld(1, num='0' * n + '17')))]
    if kind == 'rpc types':
        q = '.'.join(f'p{i}' for i in R) or 'p'
        return top + [('service', 'S', (('rpc', 'A', True, q, False, '.' + q + '.M', None), ('rpc', 'B', False, 'M', True, q, ())))]
    raise ValueError(kind)


COUNTED = ['fields', 'oneof fields', 'oneofs', 'maps', 'messages', 'nested messages', 'deep', 'chain', 'back chain', 'ring', 'enums', 'nested enums', 'constants', 'options',
           'field options', 'services', 'rpcs', 'reserved', 'empty', 'package', 'names', 'strings', 'option names', 'integers', 'rpc types']


def numbers(lo, hi):
    return sorted(x for k in range(20) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1) if lo <= x <= hi)


def cases_counts(tier):
    for n in sorted(set(range(40)) | set(numbers(40, 4097 if tier == 'thorough' else 1025))):
        for k in COUNTED:
            if n < 70 or k not in ('deep',):
                yield counts(k, n)


def program(ch):
    """A file; every pick is a deviation from a small default file."""
    items = []
    names = itertools.count()

    def ftype():
        return ch.of(['int32', 'Other', 'OE', 'string', 'Other.In', 'pkg.Other', 'Mo', '.pkg.OE', 'impkg.I', 'impkg.IE'])

    def opts():
        return ch.of([(), (OPT,), (OPT, (('(', 'x', ')', '.', 'y'), 'integer', '7'))])

    def num(i):
        return ch.of([str(i), hex(i), '0' + oct(i)[2:]])

    def enum(i):
        return ('enum', ch.of([f'E{i}', f'max{i}']), tuple(ENUM_ITEMS[ch.pick(7)](j) for j in range(1 + ch.pick(3))))

    def message(i, depth):
        body = []
        for j in range(1 + ch.pick(4)):
            n = next(names)
            k = ch.pick(10 if depth < 3 else 8)
            if k == 0:
                body.append(('field', ch.of(['', 'repeated']), ftype(), ch.of([f'f{n}', f'Ab_c{n}']), num(100 + n), opts()))
            elif k == 1:
                body.append(('map', ch.of(['int32', 'string', 'bool']), ftype(), f'f{n}', num(100 + n), opts()))
            elif k == 2:
                body.append(('oneof', f'u{n}', tuple(('ofield', ftype(), f'o{n}x{x}', num(10000 + 8 * n + x), opts()) for x in range(1 + ch.pick(3)))))
            elif k == 3:
                body.append(enum(n))
            elif k == 4:
                body.append(('field', 'optional', ch.of(['int32', 'bytes', 'OE']), f'f{n}', num(100 + n), opts()))
            elif k == 5:
                body.append(MSG_ITEMS[8 + ch.pick(2)](n))
            elif k == 6:
                body.append((';',))
            elif k == 7:
                body.append(('option', ch.of(OPT_NAMES[:4]), *ch.of(CONSTS[:8])))
            else:
                body.append(message(f'{n}', depth + 1))
        return ('message', f'M{i}', tuple(body))

    pkg = ch.of(['pkg', 'pkg.sub', ''])
    if pkg:
        items.append(('package', pkg))
    for j in range(1 + ch.pick(3)):
        n = next(names)
        k = ch.pick(6)
        if k == 0:
            items.append(message('o' if j == 0 else n, 0))
        elif k == 1:
            items.append(enum(n))
        elif k == 2:
            items.append(('service', f'S{n}', tuple(SERVICE_ITEMS[ch.pick(6)](x) for x in range(1 + ch.pick(3)))))
        elif k == 3:
            items.append(('option', ch.of(OPT_NAMES), *ch.of(CONSTS)))
        elif k == 4:
            items.append(('import', ch.of(['', 'public', 'weak']), 'imp.proto'))
        else:
            items.append((';',))
    where = ch.pick(3)
    items[where:where] = [OTHER, OE]
    if not any(x[0] == 'import' for x in items):
        items.insert(0, ('import', '', 'imp.proto'))
    return tuple(items)


def cases_deviations(tier):
    for _, items in runs(program, 4 if tier == 'thorough' else 3):
        try:
            A.expected(items, [IMPORTED[x[2]] for x in items if x[0] == 'import'])
        except (A.Undefined, A.KnownName):
            continue
        yield items
