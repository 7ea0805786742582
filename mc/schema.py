"""A tiny schema language: ASTs that are printed as .proto files and, for the
C harnesses, turned into C glue (descriptor tables) for mc/model.h."""
import re

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32', 'fixed64',
           'sfixed32', 'sfixed64', 'float', 'double', 'bool', 'string', 'bytes']
KIND = {s: 'K_' + s.upper() for s in SCALARS}
CTYPE = {'int32': 'int32_t', 'int64': 'int64_t', 'sint32': 'int32_t', 'sint64': 'int64_t',
         'uint32': 'uint32_t', 'uint64': 'uint64_t', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t',
         'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'float': 'float', 'double': 'double',
         'bool': 'bool', 'string': 'char *', 'bytes': 'struct pbtools_bytes_t'}
MAP_KEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64',
            'sfixed32', 'sfixed64', 'bool', 'string']


def snake(name):
    """The documented naming rule of the generator, for the names used here."""
    name = re.sub(r'[^a-zA-Z0-9]', '_', name)
    name = re.sub(r'(.)([A-Z][a-z]+)', r'\1_\2', name)
    name = re.sub(r'_+', '_', name)
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', name).lower()


class Enum:
    def __init__(self, name, values):
        self.name, self.values = name, values


class Field:
    """type: scalar name, Enum or Message object (same or other file)."""

    def __init__(self, type, name, number, card='', key=None, ref=None, opts=''):
        self.type, self.name, self.number, self.card = type, name, number, card
        self.key = key            # map key type
        self.ref = ref            # how the type is written; None: full or simple name
        self.opts = opts


class Oneof:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Message:
    def __init__(self, name, items=()):
        self.name, self.items = name, list(items)
        self.parent = None
        self.file = None

    def of(self, cls):
        return [i for i in self.items if isinstance(i, cls)]


class File:
    def __init__(self, name, package, items=(), imports=()):
        self.name, self.package, self.items, self.imports = name, package, list(items), list(imports)

    def link(self):
        """Sets parent/file and full C names; map entries get Message objects."""
        for i in self.items:
            self._link(i, None)
        return self

    def _link(self, item, parent):
        item.parent, item.file = parent, self
        if isinstance(item, Message):
            entries = []
            for f in item.items:
                if isinstance(f, Field) and f.card == 'map':
                    f.entry = Message('PbtoolsMap' + f.name.title(),
                                      [Field(f.key, 'key', 1), Field(f.type, 'value', 2)])
                    f.entry.is_entry = True
                    entries.append(f.entry)
                elif isinstance(f, (Message, Enum)):
                    self._link(f, item)
            item.entries = entries
            for e in entries:
                self._link(e, item)

    def messages(self):
        """All messages with nested ones and map entries, depth first."""
        out = []

        def walk(m):
            for n in m.of(Message):
                walk(n)
            for e in m.entries:
                walk(e)
            out.append(m)
        for i in self.items:
            if isinstance(i, Message):
                walk(i)
        return out


def path(x):
    p = []
    while x is not None:
        p.insert(0, x.name)
        x = x.parent
    return p


def full(x):
    f = x.parent
    top = x
    while f is not None:
        top, f = f, f.parent
    pkg = x.file.package
    return '.'.join(([pkg] if pkg else []) + path(x))


def cname(x):
    return snake(full(x))


# -- printing ---------------------------------------------------------------

def tname(t, ref=None):
    if ref:
        return ref
    return t if isinstance(t, str) else t.name


def p_field(f):
    o = f' [{f.opts}]' if f.opts else ''
    if f.card == 'map':
        return f'map<{f.key}, {tname(f.type, f.ref)}> {f.name} = {f.number}{o};'
    c = f.card + ' ' if f.card else ''
    return f'{c}{tname(f.type, f.ref)} {f.name} = {f.number}{o};'


def p_item(i, ind=''):
    n = ind + '    '
    if isinstance(i, Enum):
        return f'{ind}enum {i.name} {{\n' + ''.join(f'{n}{k} = {v};\n' for k, v in i.values) + f'{ind}}}\n'
    if isinstance(i, Field):
        return ind + p_field(i) + '\n'
    if isinstance(i, Oneof):
        return f'{ind}oneof {i.name} {{\n' + ''.join(n + p_field(f) + '\n' for f in i.fields) + f'{ind}}}\n'
    if isinstance(i, Message):
        return f'{ind}message {i.name} {{\n' + ''.join(p_item(j, n) for j in i.items) + f'{ind}}}\n'
    return ind + i + '\n'


def proto(file):
    s = 'syntax = "proto3";\n\n'
    for i in file.imports:
        s += f'import "{i}";\n'
    if file.package:
        s += f'package {file.package};\n\n'
    return s + '\n'.join(p_item(i) for i in file.items)


# -- C glue -------------------------------------------------------------------

def kind_of(t):
    if isinstance(t, str):
        return KIND[t]
    return 'K_ENUM' if isinstance(t, Enum) else 'K_MSG'


def ctype_of(t):
    if isinstance(t, str):
        return CTYPE[t]
    return f'enum {cname(t)}_e' if isinstance(t, Enum) else f'struct {cname(t)}_t *'


def member(t, name):
    if isinstance(t, str):
        return name + '_p' if t == 'string' else name
    return name if isinstance(t, Enum) else name + '_p'


def rep_ctype(t):
    if isinstance(t, str):
        c = CTYPE[t]
        n = {'char *': 'string', 'struct pbtools_bytes_t': 'bytes'}.get(c, c.replace('_t', ''))
        return f'struct pbtools_repeated_{n}_t'
    if isinstance(t, Enum):
        return 'struct pbtools_repeated_int32_t'
    return f'struct {cname(t)}_repeated_t'


def glue(files, strict_types=True):
    """C source with the descriptors of all messages in the files."""
    o = ['#include "model.h"']
    for f in files:
        o.append(f'#include "{snake(f.name)}.h"')
    o.append('''#ifdef __cplusplus
#define SA static_assert
#define ALIGNOF alignof
#define SAME(T, e) static_assert(__is_same(T, __typeof__(e)), #e)
extern "C" {
#else
#define SA _Static_assert
#define ALIGNOF _Alignof
#define SAME(T, e) _Static_assert(__builtin_types_compatible_p(T, __typeof__(e)), #e)
#endif''')
    msgs = [m for f in files for m in f.messages()]
    for m in msgs:
        o.append(f'extern const mdesc D_{cname(m)};')
    for m in msgs:
        c = cname(m)
        S = f'struct {c}_t'
        top = m.parent is None
        fds = []
        oneofs = m.of(Oneof)
        rows = []
        for i in m.items:
            if isinstance(i, Field):
                rows.append((i, None, -1, 0))
            elif isinstance(i, Oneof):
                for k, f in enumerate(i.fields):
                    rows.append((f, i, oneofs.index(i), k + 1))
        for f, oo, oi, k in rows:
            n = snake(f.name)
            t = f.type
            sub = 'NULL'
            alloc = alloc_n = init = 'NULL'
            off2 = '0'
            choice = '0'
            if f.card in ('repeated', 'map'):
                if f.card == 'map':
                    t = f.entry
                card = 'C_REPEATED'
                off = f'offsetof({S}, {n})'
                alloc_n = f'an_{c}_{n}'
                o.append(f'SAME({rep_ctype(t)}, (({S} *)0)->{n});')
                o.append(f'static int {alloc_n}(void *p, int l) {{ return {c}_{n}_alloc(({S} *)p, l); }}')
            elif f.card == 'optional':
                card = 'C_OPTIONAL'
                off = f'offsetof({S}, {n}.{member(t, "value")})'
                off2 = f'offsetof({S}, {n}.is_present)'
                o.append(f'SAME({ctype_of(t)}, (({S} *)0)->{n}.{member(t, "value")});')
                o.append(f'SAME(bool, (({S} *)0)->{n}.is_present);')
            else:
                off = f'offsetof({S}, {member(t, n)})'
                o.append(f'SAME({ctype_of(t)}, (({S} *)0)->{member(t, n)});')
                if oo is not None:
                    card = 'C_ONEOF'
                    ocn = f'{c}_{snake(oo.name)}'
                    choice = f'{ocn}_{n}_e'
                    off2 = f'offsetof({S}, {snake(oo.name)})'
                    o.append(f'SA({ocn}_none_e == 0 && (int){choice} == {k}, "choice");')
                    if kind_of(t) == 'K_MSG':
                        alloc = f'al_{c}_{n}'
                    else:
                        init = f'in_{c}_{n}'
                        o.append(f'static void {init}(void *p) {{ {c}_{n}_init(({S} *)p); }}')
                else:
                    card = 'C_SINGLE'
                    if kind_of(t) == 'K_MSG':
                        alloc = f'al_{c}_{n}'
                if alloc != 'NULL':
                    o.append(f'static int {alloc}(void *p) {{ return {c}_{n}_alloc(({S} *)p); }}')
            if kind_of(t) == 'K_MSG':
                sub = f'&D_{cname(t)}'
            fds.append(f'  {{"{f.name}", {f.number}u, {kind_of(t)}, {card}, {off}, {off2}, {oi}, (int){choice}, '
                       f'{sub}, {alloc}, {alloc_n}, {init}}},')
            if isinstance(t, Enum) and strict_types:
                for vn, vv in t.values:
                    ns = snake('.'.join(full(t).split('.')[:-1]))
                    cn = f'{ns + "_" if ns else "_"}{snake(vn)}_e'
                    o.append(f'SA((long long){cn} == {vv}LL, "enum value");')
        o.append(f'static const fdesc F_{c}[] = {{')
        o += fds or ['  {0}']
        o.append('};')
        o.append(f'static const size_t O_{c}[] = {{' +
                 ', '.join(f'offsetof({S}, {snake(x.name)})' for x in oneofs) + (' };' if oneofs else '0 };'))
        if top:
            o.append(f'static void *nw_{c}(void *w, size_t n) {{ return {c}_new(w, n); }}')
            o.append(f'static int en_{c}(void *m, uint8_t *b, size_t n) {{ return {c}_encode(({S} *)m, b, n); }}')
            o.append(f'static int de_{c}(void *m, const uint8_t *b, size_t n) {{ return {c}_decode(({S} *)m, b, n); }}')
        fn = f'nw_{c}, en_{c}, de_{c}' if top else 'NULL, NULL, NULL'
        o.append(f'const mdesc D_{c} = {{"{full(m)}", sizeof({S}), ALIGNOF({S}), {len(fds)}, {len(oneofs)}, '
                 f'F_{c}, O_{c}, {fn}}};')
    o.append('const mdesc *const all_msgs[] = {')
    o += [f'  &D_{cname(m)},' for m in msgs if m.parent is None]
    o.append('};')
    o.append('extern const int n_all_msgs;')
    o.append(f'const int n_all_msgs = {len([m for m in msgs if m.parent is None])};')
    o.append('#ifdef __cplusplus\n}\n#endif')
    return '\n'.join(o) + '\n'
