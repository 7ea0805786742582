"""The schema corpus that the C harnesses explore: every field type in every
cardinality, plus combinations."""
from schema import SCALARS, MAP_KEYS, Enum, Field, Oneof, Message, File


def corpus(floats=True):
    E = Enum('E', [('E0', 0), ('E1', 1), ('E2', 2), ('ENEG', -1), ('EMAX', 2147483647), ('EMIN', -2147483648)])
    sc = [s for s in SCALARS if floats or s not in ('float', 'double')]
    Leaf = Message('Leaf', [Field('int32', 'v', 1), Field('string', 's', 2)])
    kinds = sc + [E, Leaf]
    items = [E, Leaf]

    def nm(t):
        return t if isinstance(t, str) else t.name.lower()
    for t in kinds:
        fs = [Field(t, 'a', 1)]
        if t is not Leaf:
            fs.append(Field(t, 'b', 2, 'optional'))
        fs += [Field(t, 'c', 3, 'repeated'), Oneof('d', [Field(t, 'e', 4), Field(t, 'f', 5)])]
        items.append(Message('X' + nm(t), fs))
    n = [0]

    def num():
        n[0] += 1
        return n[0]
    items.append(Message('All', [Field(t, 'f' + nm(t), num()) for t in kinds]))
    n[0] = 14
    items.append(Message('Opt', [Field(t, 'f' + nm(t), num(), 'optional') for t in kinds if t is not Leaf]))
    n[0] = 0
    items.append(Message('Rep', [Field(t, 'f' + nm(t), num(), 'repeated') for t in kinds]))
    n[0] = 2040
    items.append(Message('One', [Oneof('o', [Field(t, 'f' + nm(t), num()) for t in kinds])]))
    Rec = Message('Rec')
    Rec.items = [Field('int32', 'v', 1), Field(Rec, 'child', 2), Field(Rec, 'kids', 3, 'repeated'),
                 Oneof('o', [Field(Rec, 'alt', 4), Field('string', 's', 5)])]
    items.append(Rec)
    items.append(Message('Empty', []))
    items.append(Message('Two', [
        Field('int32', 'a', 3), Oneof('x', [Field('bool', 'b', 1), Field('bytes', 'c', 9)]),
        Field('string', 'd', 2), Oneof('y', [Field('int64', 'e', 8), Field(Leaf, 'f', 4), Field('uint32', 'g', 7)]),
        Field('sint32', 'h', 6, 'repeated'), Field('fixed32', 'i', 5, 'optional')]))
    items.append(Message('Mp', [
        Field('int32', 'ma', 1, 'map', key='int32'), Field('string', 'mb', 2, 'map', key='string'),
        Field(Leaf, 'mc', 3, 'map', key='bool'), Field(E, 'md', 4, 'map', key='sint64'),
        Field('bytes', 'me', 5, 'map', key='fixed64')]))
    nums = [1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]
    items.append(Message('Tags', [Field('int32' if i % 2 else 'string', f't{k}', k) for i, k in enumerate(nums)]))
    items.append(Message('Tagr', [Field('fixed32' if i % 2 else Leaf, f't{k}', k, 'repeated')
                                  for i, k in enumerate(nums)]))
    # nested declarations, declaration order not ascending
    Inner = Message('Inner', [Field('uint64', 'u', 7), Field('bytes', 'b', 1)])
    Kind = Enum('Kind', [('NONE', 0), ('SOME', 5)])
    Outer = Message('Outer', [Kind, Inner, Field(Inner, 'many', 4, 'repeated'), Field(Kind, 'kind', 3),
                              Field(Inner, 'one', 2), Field(Kind, 'kinds', 1, 'repeated'),
                              Field(Kind, 'ok', 6, 'optional')])
    items.append(Outer)
    # several of everything
    Pair = Message('Pair', [Field('uint64', 'u', 7), Field('bytes', 'b', 1)])
    items.append(Pair)
    items.append(Message('Ones', [
        Oneof('p', [Field('int32', 'a', 1), Field(Leaf, 'b', 2)]), Oneof('q', [Field('string', 'c', 3), Field('bool', 'd', 4)]),
        Oneof('r', [Field(Leaf, 'e', 5), Field('fixed32', 'f', 6)]), Oneof('s', [Field(E, 'g', 7), Field('bytes', 'h', 8)])]))
    items.append(Message('Subs', [
        Field(Leaf, 'a', 1), Field(Pair, 'b', 2), Field(Leaf, 'c', 3), Field(Leaf, 'd', 4, 'repeated'), Field(Pair, 'e', 5, 'repeated'),
        Field('string', 'f', 6, 'repeated'), Field('sint64', 'g', 7, 'repeated')]))
    # declarations nested in each other
    deep = Message('Deep6', [Field('int32', 'x', 2, 'repeated'), Field('bytes', 's', 1)])
    for i in range(5, 0, -1):
        deep = Message(f'Deep{i}', [deep, Field('int32', 'x', 2, 'repeated'), Field('bytes', 's', 1), Field(deep, 'below', 3, 'repeated' if i in (2, 5) else '')])
    items.append(deep)
    return [File('vc', 'v', items)]


def evolution():
    """Families of versions of one message; each family is a file and a package.
    Every ordered pair (writer, reader) within a package is explored."""
    out = []

    def cards(kinds, extra, sub=()):
        """Field 1 of each kind in each cardinality, between fixed neighbours."""
        items = list(sub)
        for t in kinds:
            n = (t if isinstance(t, str) else t.name).title()
            for c in ('S', 'O', 'R', 'N'):
                if c == 'O' and isinstance(t, Message):
                    continue
                if c == 'N':
                    f = Oneof('w', [Field('bool', 'y', 7), Field(t, 'a', 1)])
                else:
                    f = Field(t, 'a', 1, {'S': '', 'O': 'optional', 'R': 'repeated'}[c])
                items.append(Message('M' + n + c, [Field('sint32', 'x', 3), f] + [Field(*e) for e in extra]))
        return items
    EA = Enum('Ea', [('A0', 0), ('A1', 1)])
    EB = Enum('Eb', [('B0', 0), ('B1', 1), ('B2', 2), ('B3', -1), ('B4', 2147483647)])
    out.append(File('ea', 'ea', cards(['int32', 'int64', 'uint32', 'uint64', 'bool', EA, EB], [('int32', 'z', 2)], [EA, EB])))
    out.append(File('eb', 'eb', cards(['sint32', 'sint64'], [('string', 'z', 2)])))
    out.append(File('ec', 'ec', cards(['fixed32', 'sfixed32'], [('bytes', 'z', 2)])))
    out.append(File('ed', 'ed', cards(['fixed64', 'sfixed64'], [('bool', 'z', 2)])))
    out.append(File('ee', 'ee', cards(['string', 'bytes'], [('int32', 'z', 2)])))
    out.append(File('ef', 'ef', cards(['float'], [('int32', 'z', 2)])))
    out.append(File('eg', 'eg', cards(['double'], [('int32', 'z', 2)])))
    # sub-messages: two versions of the inner message, bytes in place of it
    In1 = Message('In1', [Field('int32', 'v', 1)])
    In2 = Message('In2', [Field('string', 's', 2), Field('int64', 'v', 1)])
    In3 = Message('In3', [])
    out.append(File('eh', 'eh', cards([In1, In2, In3], [('int32', 'z', 2)], [In1, In2, In3])))
    out.append(File('ei', 'ei', cards([In1b(), 'bytes'], [('int32', 'z', 2)], [IN1B])))

    # every subset of five fields, in two declaration orders
    leaf = Message('Leaf', [Field('int32', 'v', 1), Field('bytes', 'u', 19)])

    def base():
        return [Field('int32', 'a', 1), Field('string', 'b', 2), Field('uint32', 'c', 3, 'repeated'),
                Field(leaf, 'd', 4), Field('fixed64', 'e', 5, 'optional')]
    items = [leaf]
    for m in range(32):
        f = [x for i, x in enumerate(base()) if m >> i & 1]
        items.append(Message(f'Sub{m}', f))
        if len(f) > 1:
            f = [x for i, x in enumerate(base()) if m >> i & 1]
            items.append(Message(f'Rev{m}', f[::-1]))
    out.append(File('ej', 'ej', items))
    leaf2 = Message('Leaf', [Field('bytes', 'u', 19), Field('int32', 'v', 1)])
    base2 = [('float', 2047, ''), ('fixed32', 16, 'repeated'), (leaf2, 262144, 'repeated'), ('bytes', 536870911, ''),
             ('sint64', 33554432, 'optional')]
    items = [leaf2]
    for m in range(32):
        items.append(Message(f'Hi{m}', [Field(t, f'f{n}', n, c) for i, (t, n, c) in enumerate(base2) if m >> i & 1]))
    out.append(File('ek', 'ek', items))
    # every way to put four fields outside or into one of two oneofs
    leaf3 = Message('Leaf', [Field('int32', 'v', 1)])
    items = [leaf3]
    kinds = [('int32', 'a', 1), ('string', 'b', 2), (leaf3, 'c', 3), ('fixed32', 'd', 4)]
    seen = set()
    for k in range(81):
        where = [k // 3 ** i % 3 for i in range(4)]
        if 2 in where and (1 not in where or where.index(2) < where.index(1)):
            continue
        one, two = Oneof('one', []), Oneof('two', [])
        fs = []
        for (t, n, num), w in zip(kinds, where):
            f = Field(t, n, num)
            if w == 0:
                fs.append(f)
            else:
                o = (one, two)[w - 1]
                if not o.fields:
                    fs.append(o)
                o.fields.append(f)
        items.append(Message('Mv' + ''.join(map(str, where)), fs))
    out.append(File('el', 'el', items))
    # fields whose numbers differ from those of the reader in one bit
    leaf4 = Message('Leaf', [Field('int32', 'v', 1)])
    base4 = [('int32', 'a', 3, 'repeated'), ('string', 'b', 6, 'repeated'), (leaf4, 'c', 9, 'repeated'), ('uint32', 'd', 5, '')]
    items = [leaf4, Message('Base', [Field(*x) for x in base4])]
    for k in range(4, 29):
        for j, x in enumerate(base4[:4]):
            al = Field(x[0], 'x', x[2] ^ 1 << k, x[3])
            items.append(Message(f'Al{k}b{j}', [Field(*base4[j]), al] + [Field(*base4[(j + 1) % 4])]))
    out.append(File('em', 'em', items))
    return out


IN1B = Message('In1', [Field('int32', 'v', 1)])


def In1b():
    return IN1B


def wide():
    """Messages whose structs are large, in repeated fields and maps."""
    items = []
    for size in (4096, 2048, 72):
        w = Message(f'W{size}', [Field('double', f'f{i}', i + 1) for i in range((size - 8) // 8)])
        v = Message(f'V{size}', [Field('fixed64', f'f{i}', i + 1) for i in range((size - 24) // 8)])
        items += [w, v, Message(f'Box{size}', [Field(w, 'a', 1, 'repeated'), Field(w, 'b', 2, 'repeated'), Field(v, 'c', 3, 'map', key='int32')])]
    return [File('w', 'w', items)]


def maps(floats=True):
    """For each key type a file with, for each value type, a message with a map
    field (M...) and one with the entry message spelled out (R...)."""
    out = []
    for ki, k in enumerate(MAP_KEYS):
        E = Enum('E', [('E0', 0), ('E1', 1), ('ENEG', -1)])
        L = Message('Leaf', [Field('int32', 'v', 1), Field('bytes', 'b', 2)])
        items = [E, L]
        for t in SCALARS + [E, L]:
            n = (t if isinstance(t, str) else t.name).title()
            num = 1 if n < 'F' else 15 if n < 'M' else 2048
            items.append(Message('M' + n, [Field(t, 'mp', num, 'map', key=k), Field('int32', 'z', 2)]))
            ent = Message('Entry', [Field(k, 'key', 1), Field(t, 'value', 2)])
            items.append(Message('R' + n, [ent, Field(ent, 'mp', num, 'repeated'), Field('int32', 'z', 2)]))
        out.append(File('m' + 'abcdefghijkl'[ki], 'm' + 'abcdefghijkl'[ki], items))
    return out
