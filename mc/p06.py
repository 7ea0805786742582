"""P06: schemas that are enumerated, each compiled and explored by h_encode.c."""
import itertools
from schema import SCALARS, MAP_KEYS, Enum, Field, Oneof, Message, File

NUMBERS = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]
CARDS = ['', 'optional', 'repeated', 'oneof', 'map']


class Pack:
    """Distributes messages over files; every file has its own E and L."""

    def __init__(self, tag, per=60):
        self.tag, self.per, self.files, self.n = tag, per, [], 0

    def slot(self):
        if self.n % self.per == 0:
            i = len(self.files)
            self.e = Enum('E', [('E0', 0), ('E1', 1), ('ENEG', -1), ('EMAX', 2147483647)])
            self.l = Message('L', [Field('int32', 'v', 1), Field('string', 's', 2)])
            self.f = File(f'{self.tag}{i}', f'{self.tag}{i}', [self.e, self.l])
            self.files.append(self.f)
        self.n += 1
        return f'M{self.n}'

    def add(self, make):
        name = self.slot()
        self.f.items.append(Message(name, make(self.e, self.l)))


def typ(t, e, l):
    return e if t == 'E' else l if t == 'L' else t


def item(kind, name, number, e, l, oneof=None):
    """kind: (card, type[, key])"""
    c, t = kind[0], typ(kind[1], e, l)
    if c == 'oneof':
        return Oneof(oneof or 'o' + name, [Field(t, name, number)])
    if c == 'map':
        return Field(t, name, number, 'map', key=kind[2])
    return Field(t, name, number, c)


def kinds(types, keys):
    for c in CARDS[:4]:
        for t in types:
            if c == 'optional' and t == 'L':
                continue
            yield (c, t)
    for k in keys:
        for t in types:
            yield ('map', t, k)


ALL = SCALARS + ['E', 'L']
FEW = ['int32', 'sint64', 'fixed32', 'double', 'bool', 'string', 'bytes', 'E', 'L']


def singles(t):
    """Every kind of field with every class of field number."""
    p = Pack('s')
    for k in kinds(ALL, MAP_KEYS):
        for n in (NUMBERS if t or k[0] != 'map' else [1, 2048]) if k[0] != 'map' or k[1] in FEW[::3] or t else [16]:
            p.add(lambda e, l: [item(k, 'a', n, e, l)])
    return p.files


def pairs(t):
    """Every ordered pair of kinds of fields."""
    p = Pack('p')
    ks = list(kinds(ALL if t else ['int32', 'sint64', 'fixed32', 'bool', 'string', 'bytes', 'E', 'L'], ['string'] if not t else ['int32', 'string']))
    ks = [k for k in ks if k[0] != 'map' or k[1] in ('int32', 'L', 'bytes', 'E')]
    if t:
        ks = [k for k in ks if k[0] in ('', 'repeated') or k[1] in FEW]
    for a, b in itertools.product(ks, repeat=2):
        na, nb = (1, 2) if (ks.index(a) + ks.index(b)) % 2 else (17, 3)
        p.add(lambda e, l: [item(a, 'a', na, e, l), item(b, 'b', nb, e, l)])
    return p.files


def oneofs(t):
    """Two and three fields in one oneof, two oneofs, oneofs between fields."""
    p = Pack('o')
    for a, b in itertools.product(ALL if t else FEW, repeat=2):
        p.add(lambda e, l: [Oneof('o', [Field(typ(a, e, l), 'a', 2), Field(typ(b, e, l), 'b', 1)])])
        p.add(lambda e, l: [Oneof('o', [Field(typ(a, e, l), 'a', 1)]), Oneof('p', [Field(typ(b, e, l), 'b', 2)])])
        p.add(lambda e, l: [Field(typ(a, e, l), 'a', 4), Oneof('o', [Field(typ(b, e, l), 'b', 3), Field(typ(a, e, l), 'c', 2)]), Field(typ(b, e, l), 'd', 1, 'repeated')])
    for a, b, c in itertools.product(['int32', 'string', 'L', 'E'], repeat=3):
        p.add(lambda e, l: [Oneof('o', [Field(typ(a, e, l), 'a', 3), Field(typ(b, e, l), 'b', 19), Field(typ(c, e, l), 'c', 2)])])
    return p.files


def orders(t):
    """Declaration order against number order."""
    p = Pack('r')
    kk = [('', 'int32'), ('repeated', 'L'), ('oneof', 'string'), ('optional', 'bool'), ('map', 'int32', 'string'), ('', 'L'), ('repeated', 'sint32')]
    n = 4 if t else 3
    for ks in itertools.combinations(kk, n):
        for nums in itertools.permutations([1, 2, 16, 2048][:n]):
            p.add(lambda e, l: [item(k, 'f' + 'abcd'[i], nums[i], e, l) for i, k in enumerate(ks)])
    return p.files


NAMES = ['a', 'ab', 'a_b', 'a1', 'a_1', 'aB', 'Ab', 'AB', 'aBc', 'ABc', 'value', 'key', 'length', 'items', 'is_present', 'o', 'x_', 'x__y', 'fooBar', 'FooBaz', 'foo_bar_1',
         'HTTPServer', 'res', 'self_p', 'encoder_p', 'decoder_p', 'size', 'i', 'data', 'repeated', 'message', 'init', 'encode']


def names(t):
    """Similar names next to each other, in every kind of member."""
    from schema import snake
    p = Pack('n')
    pairs_ = [(a, b) for a, b in itertools.combinations(NAMES, 2) if snake(a) != snake(b)]
    if not t:
        pairs_ = [x for i, x in enumerate(pairs_) if abs(NAMES.index(x[0]) - NAMES.index(x[1])) < 5]
    for i, (a, b) in enumerate(pairs_):
        k = [('', 'int32'), ('repeated', 'string'), ('oneof', 'L'), ('optional', 'bool'), ('', 'L'), ('map', 'int32', 'int32'), ('repeated', 'L'), ('oneof', 'uint32')]
        ka, kb = k[i % 8], k[i // 8 % 8]
        if ka[0] == kb[0] == 'map' and snake('Map' + a.title()) == snake('Map' + b.title()):
            continue
        p.add(lambda e, l: [item(ka, a, 1, e, l, 'zz'), item(kb, b, 2, e, l, 'yy')])
    return p.files


def nesting(t):
    """Equally named types in several scopes, used from all of them."""
    files = []
    for i, (mk, up) in enumerate(itertools.product(range(8), range(4))):
        items = []

        def t_(k, n, scope):
            """type T of a scope, distinguishable by its contents"""
            return Enum('T', [(f'TZ{n}', 0), (f'TX{n}', n + 2)]) if k else Message('T', [Field(['int32', 'string', 'bool', 'bytes'][n], f'v{n}', n + 1)])
        T0 = t_(mk & 1, 0, '')
        T1 = t_(mk & 2, 1, 'A')
        T2 = t_(mk & 4, 2, 'A.B')
        B = Message('B', [T2, Field(T2, 'b', 1), Field(T2, 'bs', 2, 'repeated'), Oneof('o', [Field(T2, 'bo', 3), Field('int32', 'z', 9)]),
                          Field(T2, 'bm', 4, 'map', key='int32')])
        A = Message('A', [B, T1, Field(T1, 'a', 1), Field(T1, 'az', 2, 'repeated'), Oneof('o', [Field(T1, 'ao', 3), Field(B, 'ab', 4)]),
                          Field(T1, 'am', 5, 'map', key='string'), Field(T2, 'at', 6, ref='B.T')])
        C = Message('C', [Field(T0, 'c', 1), Field(T0, 'cs', 2, 'repeated'), Oneof('o', [Field(T0, 'co', 3), Field(T1, 'ca', 4, ref='A.T')]),
                          Field(T0, 'cm', 5, 'map', key='bool'), Field(T2, 'cb', 6, 'repeated', ref=f'w{i}.A.B.T'), Field(B, 'cc', 7, ref='A.B'),
                          Field(A, 'cd', 8), Field(T1, 'ce', 9, 'map', key='int32', ref=f'.w{i}.A.T')])
        order = [[T0, A, C], [C, A, T0], [A, T0, C], [C, T0, A]][up]
        items += order
        files.append(File(f'w{i}', f'w{i}', items))
    return files


def enumerations(t):
    """Enum numberings; the constants are asserted in the glue."""
    p = Pack('e', 40)
    sets = [[0], [0, 1], [0, -1], [0, 5, 3], [0, 2147483647], [0, -2147483648], [0, 1, 2, 3, 127, 128, 255, 256], [0, 16384, -16384], [0, 10, 9, 8], [5, 0], [-1, 0, 1], [1, 2]]
    for i, s in enumerate(sets):
        for c in ('', 'optional', 'repeated', 'oneof', 'map'):
            def make(e, l, s=s, c=c):
                x = Enum('K', [(f'c{j}' if v >= 0 else f'Neg{j}', v) for j, v in enumerate(s)])
                return [x, item((c, 'E', 'int32'), 'a', 3, x, l)]
            p.add(make)
    return p.files


def wide(t):
    """Many fields."""
    p = Pack('z', 20)
    for n in (10, 33, 64, 130, 260, 520) if t else (10, 33, 64, 130, 260):
        for ks in ([('', 'int32')], [('', 'string'), ('repeated', 'int32'), ('', 'bool')], [('', 'L'), ('oneof', 'E'), ('map', 'int32', 'int32')]):
            p.add(lambda e, l: [item(ks[i % len(ks)], f'f{i}', i + 1 + (i // 3) * 5, e, l) for i in range(n)])
    # oneofs with many fields
    for n in (5, 20, 70, 140, 260):
        p.add(lambda e, l: [Oneof('o', [Field(typ(ALL[i % 17], e, l), f'f{i}', 2 * n - i) for i in range(n)])])
    return p.files


def files(t):
    """Types from imported files, all relations of the packages."""
    out = []
    for i, (pa, pb) in enumerate([('x0', 'x0'), ('x1', 'y1'), ('x2', 'x2.in'), ('x3.in', 'x3'), ('x4.in.a', 'x4.in.b')]):
        E = Enum('Ye' + str(i), [('Y0', 0), ('Y7', 7)])
        In = Message('In', [Field('sint32', 'u', 2)])
        NE = Enum('Ne', [('N0', 0), ('N9', 9)])
        Y = Message('Y' + str(i), [In, NE, Field(In, 'in', 5), Field(NE, 'ne', 1, 'repeated')])
        b = File(f'fb{i}', pb, [E, Y])
        q = lambda n: f'.{pb}.{n}'
        M = Message('X' + str(i), [Field(E, 'a', 1, ref=q(E.name)), Field(Y, 'b', 2, ref=q(Y.name)), Field(Y, 'c', 3, 'repeated', ref=q(Y.name)),
                                   Field(In, 'd', 4, 'repeated', ref=q(Y.name + '.In')), Field(NE, 'e', 5, 'optional', ref=q(Y.name + '.Ne')),
                                   Oneof('o', [Field(In, 'f', 6, ref=q(Y.name + '.In')), Field(NE, 'g', 7, ref=q(Y.name + '.Ne'))]),
                                   Field(Y, 'h', 8, 'map', key='int32', ref=q(Y.name)), Field(E, 'i', 9, 'map', key='bool', ref=q(E.name))])
        a = File(f'fa{i}', pa, [M], imports=[f'fb{i}.proto'])
        out += [b, a]
    return out


def nopackage(t):
    E = Enum('NpE', [('NP0', 0), ('NP4', 4)])
    L = Message('NpL', [Field('int32', 'v', 1)])
    ms = [Message(f'Np{i}', [item(k, 'a', 1 + i, E, L), item(('repeated', 'uint64'), 'bB', 200 + i, E, L)]) for i, k in enumerate(kinds(['int32', 'string', 'E', 'L'], ['bool']))]
    return [File('np', None, [E, L, *ms])]


def sizes(t):
    """Many constants, types, oneofs, maps and repeated fields; deep nesting; long names."""
    p = Pack('y', 12)
    for n in (3, 6, 12, 24, 33, 48, 65, 100, 129, 257, *((513, 1025) if t else ())):
        for c in ('', 'repeated', 'oneof', 'map'):
            def make(e, l):
                x = Enum('K', [(f'c{j}', j) for j in range(n)] if c else [(f'c{j}', j * (-1) ** j) for j in range(n)])
                return [x, item((c, 'E', 'int32'), 'a', 3, x, l)]
            p.add(make)
    for n in (3, 6, 9, 12, 17, 24, 33, 65, *((129, 257) if t else ())):
        for k in (('oneof', 'E'), ('oneof', 'L'), ('map', 'L', 'string'), ('map', 'E', 'int32'), ('repeated', 'L'), ('repeated', 'E'), ('repeated', 'bytes'), ('optional', 'E'), ('', 'L')):
            if k[0] != '' and k[0] != 'optional' and n > (33 if not t else 129):
                continue
            if n > 24 and not t and k[0] in ('map', 'oneof') and k[1] == 'L':
                continue
            p.add(lambda e, l: [item(k, f'f{i}', i + 1, e, l) for i in range(n)])
        # Many types in one message; the fields use the last ones first.
        def types(e, l):
            ms = [Message(f'N{i}', [Field('int32', 'v', i + 1)]) if i % 2 else Enum(f'N{i}', [(f'z{i}', 0), (f'o{i}', i + 1)]) for i in range(n)]
            return [*ms, *(Field(m, f'f{n - i}', i + 1, ['', 'repeated'][i % 3 == 1]) for i, m in enumerate(reversed(ms)))]
        p.add(types)
    for n in (3, 5, 8, 10, 12, 16, *((24, 32) if t else ())):
        def deep(e, l):
            m, last = [Field('int32', 'v', 1), Field(e, 'e', 2, 'repeated')], None
            for i in range(n):
                last = Message('D', [*m, Field('string', 's', 39)])
                m = [last, Field(last, f'd{i}', i + 1, ['', 'repeated'][i % 3 == 2]), Field('uint32', 'u', 40)]
            return m
        p.add(deep)
    for n in (8, 16, 31, 32, 33, 40, 63, 64, 65, 80):
        a = 'a' * n
        for b, c in (('b', 'c'), ('1', '2'), ('_b', '_c'), ('', 'x')):
            def long(e, l):
                x, y = Enum('K' + a + b, [('kx' + a + b, 0), ('kx' + a + c, 2)]), Message('K' + a + c, [Field('int32', a, 1)])
                return [x, y, Field('int32', a + b, 1), Field('string', a + c, 2), Field(x, 'e' + a + b, 3), Field(y, 'e' + a + c, 4, 'repeated'),
                        Oneof('o' + a + b, [Field('int32', 'p' + a + b, 5), Field(x, 'p' + a + c, 6)]), Oneof('o' + a + c, [Field('int32', 'q' + a, 7)])]
            p.add(long)
    return p.files


FAMILIES = [singles, pairs, oneofs, orders, names, nesting, enumerations, wide, files, nopackage, sizes]
