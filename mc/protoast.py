"""The reference for the P-checks: a proto3 AST, its printer, a reference
recogniser, scope resolver and expected parse result, all independent of
pbtools, and a normaliser for the Proto objects of pbtools.

A file is a list of top level items (after the syntax line):
  ('import', modifier, path)           modifier: '', 'weak', 'public'
  ('package', full_ident)
  ('option', name_tokens, kind, text)  kind: bool, ident, string, integer
  ('message', name, items)  ('enum', name, items)  ('service', name, items)
  (';',)
Message items: message, enum, option, ';' and
  ('field', label, type, name, number, options)   label: '', 'repeated', 'optional'
  ('map', key, type, name, number, options)
  ('oneof', name, items)               ('ofield', type, name, number, options)
  ('reserved', 'ranges', ((from, to or ''), ...))   ('reserved', 'names', (string, ...))
Enum items: ('const', name, number, options)
Service items: ('rpc', name, stream, type, stream, type, body)  body: None or items
Options in brackets: tuple of (name_tokens, kind, text). Numbers are texts,
types are written as in the file ('.a.B')."""
import re

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32', 'fixed64',
           'sfixed32', 'sfixed64', 'float', 'double', 'bool', 'string', 'bytes']
MAP_KEYS = [s for s in SCALARS if s not in ('float', 'double', 'bytes')]
KEYWORDS = ['syntax', 'package', 'message', 'repeated', 'enum', 'service', 'rpc', 'returns', 'stream',
            'import', 'oneof', 'option', 'true', 'false', 'map', 'reserved', 'max', 'to', 'weak',
            'public', 'optional']


# -- printer ----------------------------------------------------------------

def t_dotted(s):
    return re.findall(r'\.|\w+', s)


def t_opts(o):
    if not o:
        return []
    out = ['[']
    for i, (n, k, v) in enumerate(o):
        out += ([','] if i else []) + list(n) + ['='] + t_const(k, v)
    return out + [']']


def t_const(kind, text):
    return t_dotted(text) if kind == 'ident' else [text]


def t_item(x):
    k = x[0]
    if k == ';':
        return [';']
    if k == 'import':
        return ['import'] + ([x[1]] if x[1] else []) + ['"' + x[2] + '"', ';']
    if k == 'package':
        return ['package'] + t_dotted(x[1]) + [';']
    if k == 'option':
        return ['option'] + list(x[1]) + ['='] + t_const(x[2], x[3]) + [';']
    if k in ('message', 'enum', 'service', 'oneof'):
        return [k, x[1], '{'] + [t for i in x[2] for t in t_item(i)] + ['}']
    if k == 'field':
        return ([x[1]] if x[1] else []) + t_dotted(x[2]) + [x[3], '=', x[4]] + t_opts(x[5]) + [';']
    if k == 'ofield':
        return t_dotted(x[1]) + [x[2], '=', x[3]] + t_opts(x[4]) + [';']
    if k == 'map':
        return ['map', '<', x[1], ','] + t_dotted(x[2]) + ['>', x[3], '=', x[4]] + t_opts(x[5]) + [';']
    if k == 'reserved':
        out = ['reserved']
        for i, r in enumerate(x[2]):
            out += [','] if i else []
            if x[1] == 'names':
                out.append(r)
            else:
                out += [r[0]] + (['to', r[1]] if r[1] else [])
        return out + [';']
    if k == 'const':
        return [x[1], '=', x[2]] + t_opts(x[3]) + [';']
    if k == 'rpc':
        out = ['rpc', x[1], '('] + (['stream'] if x[2] else []) + t_dotted(x[3]) + [')', 'returns', '(']
        out += (['stream'] if x[4] else []) + t_dotted(x[5]) + [')']
        return out + ([';'] if x[6] is None else ['{'] + [t for i in x[6] for t in t_item(i)] + ['}'])
    raise ValueError(k)


def tokens(items):
    out = ['syntax', '=', '"proto3"', ';']
    for i in items:
        out += t_item(i)
    return out


def layout(toks):
    """A compact but readable default layout."""
    out = []
    for t in toks:
        out.append(t)
        out.append('\n' if t in (';', '{', '}') else ' ')
    return ''.join(out)


def text(items):
    return layout(tokens(items))


# -- numbers ----------------------------------------------------------------

def integer(s):
    neg = s.startswith('-')
    d = s[1:] if neg else s
    if d[:2] in ('0x', '0X'):
        v = int(d[2:], 16)
    elif len(d) > 1 and d[0] == '0':
        v = int(d, 8)
    else:
        v = int(d, 10)
    return -v if neg else v


def is_int(s):
    return re.fullmatch(r'-?(0[xX][0-9a-fA-F]+|[0-9]+)', s) is not None


def valid_int(s):
    try:
        integer(s)
        return True
    except ValueError:
        return False


# -- reference recogniser -----------------------------------------------------
# All parses are enumerated (keywords may be names), so the language is that of
# the grammar in the proto3 specification, cut down to the constructs above.

class Ref:
    def __init__(self, toks, commit=False):
        self.t = toks + ['\0']
        self.far = 0
        self.commit = commit      # labels and 'stream' are never type names

    def at(self, i):
        if i > self.far:
            self.far = i
        return self.t[i]

    def tok(self, i, s):
        if self.at(i) == s:
            yield s, i + 1

    def ident(self, i):
        if re.fullmatch(r'[A-Za-z]\w*', self.at(i)):
            yield self.t[i], i + 1

    def num(self, i, signed=False):
        s = self.at(i)
        if is_int(s) and (signed or not s.startswith('-')):
            yield s, i + 1

    def string(self, i):
        if self.at(i).startswith('"'):
            yield self.t[i], i + 1

    def opt(self, i, p):
        yield None, i
        yield from p(i)

    def seq(self, i, *ps):
        """Every way to match the parsers one after the other."""
        if not ps:
            yield (), i
            return
        for a, j in ps[0](i):
            for b, k in self.seq(j, *ps[1:]):
                yield (a,) + b, k

    def T(self, s):
        return lambda i: self.tok(i, s)

    def alt(self, i, *ps):
        for p in ps:
            yield from p(i)

    def full_ident(self, i):
        for a, j in self.ident(i):
            # Longest only: an identifier is never followed by a dot.
            while self.at(j) == '.':
                n = next(iter(self.ident(j + 1)), None)
                if n is None:
                    return
                a, j = a + '.' + n[0], n[1]
            yield a, j

    def mtype(self, i):
        if self.at(i) == '.':
            for a, j in self.full_ident(i + 1):
                yield '.' + a, j
        else:
            yield from self.full_ident(i)

    def oname(self, i):
        def braced(i):
            for (a, b, c), j in self.seq(i, self.T('('), lambda i: self.mtype(i), self.T(')')):
                yield ('(',) + tuple(t_dotted(b)) + (')',), j

        def part(i):
            for a, j in self.ident(i):
                yield (a,), j
            yield from braced(i)
        for a, j in part(i):
            while self.at(j) == '.':
                n = next(iter(part(j + 1)), None)
                if n is None:
                    return
                a, j = a + ('.',) + n[0], n[1]
            yield a, j

    def const(self, i):
        s = self.at(i)
        if s in ('true', 'false') and self.t[i + 1] != '.':
            yield ('bool', s), i + 1
        else:
            for a, j in self.full_ident(i):
                yield ('ident', a), j
        for a, j in self.num(i, True):
            yield ('integer', a), j
        for a, j in self.string(i):
            yield ('string', a), j

    def options(self, i):
        yield (), i
        if self.at(i) != '[':
            return
        out = ()
        j = i
        while True:
            r = next(iter(self.seq(j + 1, self.oname, self.T('='), self.const)), None)
            if r is None:
                return
            (n, _, (k, v)), j = r
            out += ((n, k, v),)
            if self.at(j) == ',':
                continue
            if self.at(j) == ']':
                yield out, j + 1
            return

    def option(self, i):
        for (_, n, _, (k, v), _), j in self.seq(i, self.T('option'), self.oname, self.T('='), self.const, self.T(';')):
            yield ('option', n, k, v), j

    def empty(self, i):
        for _, j in self.tok(i, ';'):
            yield (';',), j

    def block(self, *ps):
        """'{' items '}' with every parse of the items."""
        def items(i):
            if self.at(i) == '}':
                yield (), i + 1
            for a, j in self.alt(i, *ps):
                for b, k in items(j):
                    yield (a,) + b, k

        def f(i):
            for _, j in self.tok(i, '{'):
                yield from items(j)
        return f

    def named(self, kw, *ps):
        def f(i):
            for (_, n, b), j in self.seq(i, self.T(kw), self.ident, self.block(*ps)):
                yield (kw, n, b), j
        return f

    def field(self, i):
        def rest(i, label):
            for (t, n, _, v, o, _), j in self.seq(i, self.mtype, self.ident, self.T('='), self.num, self.options, self.T(';')):
                yield ('field', label, t, n, v, o), j
        if self.at(i) in ('repeated', 'optional'):
            yield from rest(i + 1, self.t[i])
            if self.commit:
                return
        yield from rest(i, '')

    def mapf(self, i):
        for x, j in self.seq(i, self.T('map'), self.T('<'), self.ident, self.T(','), self.mtype, self.T('>'), self.ident,
                             self.T('='), self.num, self.options, self.T(';')):
            yield ('map', x[2], x[4], x[6], x[8], x[9]), j

    def ofield(self, i):
        for (t, n, _, v, o, _), j in self.seq(i, self.mtype, self.ident, self.T('='), self.num, self.options, self.T(';')):
            yield ('ofield', t, n, v, o), j

    def reserved(self, i):
        for _, j in self.tok(i, 'reserved'):
            names, ranges = (), ()
            if self.at(j).startswith('"'):
                while True:
                    r = next(iter(self.string(j)), None)
                    if r is None:
                        return
                    names, j = names + (r[0],), r[1]
                    if self.at(j) != ',':
                        break
                    j += 1
                if self.at(j) == ';':
                    yield ('reserved', 'names', names), j + 1
                return
            while True:
                r = next(iter(self.num(j, True)), None)
                if r is None:
                    return
                a, j = r
                b = ''
                if self.at(j) == 'to':
                    if self.at(j + 1) == 'max' or is_int(self.t[j + 1]):
                        b, j = self.t[j + 1], j + 2
                    else:
                        return
                ranges += ((a, b),)
                if self.at(j) != ',':
                    break
                j += 1
            if self.at(j) == ';':
                yield ('reserved', 'ranges', ranges), j + 1

    def econst(self, i):
        for (n, _, v, o, _), j in self.seq(i, self.ident, self.T('='), lambda i: self.num(i, True), self.options, self.T(';')):
            yield ('const', n, v, o), j

    def rpc(self, i):
        def typ(i):
            if self.at(i) == 'stream':
                for a, j in self.mtype(i + 1):
                    yield (True, a), j
                if self.commit:
                    return
            for a, j in self.mtype(i):
                yield (False, a), j

        def body(i):
            for _, j in self.tok(i, ';'):
                yield None, j
            yield from self.block(self.option, self.empty)(i)
        for x, j in self.seq(i, self.T('rpc'), self.ident, self.T('('), typ, self.T(')'), self.T('returns'), self.T('('), typ,
                             self.T(')'), body):
            yield ('rpc', x[1], *x[3], *x[7], x[9]), j

    def enum(self, i):
        yield from self.named('enum', self.econst, self.option, self.reserved, self.empty)(i)

    def oneof(self, i):
        yield from self.named('oneof', self.ofield, self.option, self.empty)(i)

    def message(self, i):
        yield from self.named('message', self.field, self.enum, self.message, self.oneof, self.mapf, self.option,
                              self.reserved, self.empty)(i)

    def service(self, i):
        yield from self.named('service', self.option, self.rpc, self.empty)(i)

    def import_(self, i):
        for _, j in self.tok(i, 'import'):
            mod = ''
            if self.at(j) in ('weak', 'public'):
                mod, j = self.t[j], j + 1
            for (s, _), k in self.seq(j, self.string, self.T(';')):
                yield ('import', mod, s[1:-1]), k

    def package(self, i):
        for (_, n, _), j in self.seq(i, self.T('package'), self.full_ident, self.T(';')):
            yield ('package', n), j

    def files(self):
        """Yields every parse."""
        def items(i):
            if self.at(i) == '\0':
                yield ()
            for a, j in self.alt(i, self.import_, self.package, self.option, self.message, self.enum, self.service, self.empty):
                for b in items(j):
                    yield (a,) + b
        for _, i in self.seq(0, self.T('syntax'), self.T('='), self.T('"proto3"'), self.T(';')):
            yield from items(i)


def parses(toks, limit=4, commit=False):
    """(list of parses, index of the first token that cannot continue a file)"""
    r = Ref(list(toks), commit)
    out = []
    for p in r.files():
        out.append(p)
        if len(out) >= limit:
            break
    return out, r.far


# -- resolver -----------------------------------------------------------------

class Undefined(Exception):
    pass


def declared(items, package):
    """{full name: 'message' | 'enum'} of a file."""
    out = {}

    def walk(items, scope):
        for x in items:
            if x[0] in ('message', 'enum'):
                out['.'.join(scope + [x[1]])] = x[0]
                if x[0] == 'message':
                    walk(x[2], scope + [x[1]])
    walk(items, [package] if package else [])
    return out


def package_of(items):
    return next((x[1] for x in items if x[0] == 'package'), None)


class Symbols:
    def __init__(self, items, imported=()):
        """imported: the items of the imported files."""
        self.types = {}
        self.packages = set()
        for f in [*imported, items]:
            p = package_of(f)
            self.types.update(declared(f, p))
            if p:
                parts = p.split('.')
                self.packages |= {'.'.join(parts[:i + 1]) for i in range(len(parts))}

    def find(self, scope, ref):
        """(full name, the alternative that the listed known finding gives or None)"""
        if ref.startswith('.'):
            if ref[1:] in self.types:
                return ref[1:], None
            raise Undefined(ref)
        head, compound = ref.split('.')[0], '.' in ref
        parts = scope.split('.') if scope else []
        while True:
            first = '.'.join(parts + [head])
            full = '.'.join(parts + [ref])
            if compound:
                if first in self.types or first in self.packages:
                    by_package = first not in self.types and parts and ref in self.types and full != ref
                    known = ref if by_package else None
                    if full in self.types:
                        return full, known
                    if known:
                        return None, known
                    raise Undefined(ref)
            elif full in self.types:
                return full, None
            if not parts:
                raise Undefined(ref)
            parts.pop()


# -- expected result ------------------------------------------------------------

class Unsupported(Exception):
    """Grammatical, but outside of what the checks decide."""


class KnownName(Exception):
    pass


def expected(items, imported=(), on_known=None):
    """The normalised parse result. imported: items by import statement."""
    sym = Symbols(items, imported)
    pkg = package_of(items)

    def ftype(t, scope):
        if t in SCALARS:
            return t, 'scalar-value-type'
        full, known = sym.find(scope, t)
        if known is not None and known != full:
            if on_known is None:
                raise KnownName(t)
            full = on_known(full, known)
        if full is None:
            raise Undefined(t)
        return full, sym.types[full]

    def number(s):
        n = integer(s)
        if not 1 <= n <= 536870911:
            raise Undefined('number ' + s)
        return n

    def enum(x, scope):
        return ('.'.join(scope + [x[1]]), tuple((c[1], integer(c[2])) for c in x[2] if c[0] == 'const'))

    def message(x, scope):
        me = scope + [x[1]]
        s = '.'.join(me)
        fields, enums, messages, oneofs = [], [], [], []
        for i in x[2]:
            if i[0] == 'field':
                fields.append((i[1], *ftype(i[2], s), i[3], number(i[4])))
            elif i[0] == 'map':
                if i[1] not in MAP_KEYS:
                    raise Undefined('map key ' + i[1])
                fields.append(('map', i[1], *ftype(i[2], s), i[3], number(i[4])))
            elif i[0] == 'enum':
                enums.append(enum(i, me))
            elif i[0] == 'message':
                messages.append(message(i, me))
            elif i[0] == 'oneof':
                oneofs.append((i[1], tuple((*ftype(f[1], s), f[2], number(f[3])) for f in i[2] if f[0] == 'ofield')))
        return (s, tuple(fields), tuple(enums), tuple(oneofs), tuple(sorted(messages)))

    def option(x):
        name = ''.join(x[1])
        k, v = x[2], x[3]
        v = {'bool': lambda: v == 'true', 'string': lambda: v[1:-1], 'ident': lambda: v, 'integer': lambda: integer(v)}[k]()
        return (name, k, v)

    base = [pkg] if pkg else []
    return {
        'package': pkg,
        'imports': tuple(x[2] for x in items if x[0] == 'import'),
        'options': tuple(option(x) for x in items if x[0] == 'option'),
        'enums': tuple(enum(x, base) for x in items if x[0] == 'enum'),
        'messages': tuple(sorted(message(x, base) for x in items if x[0] == 'message')),
        'services': tuple((x[1], tuple((r[1], r[3], r[2], r[5], r[4]) for r in x[2] if r[0] == 'rpc'))
                          for x in items if x[0] == 'service'),
    }


def actual(proto):
    """The same view of a pbtools Proto object."""
    def enum(e):
        return (e.full_name, tuple((f.name, f.field_number) for f in e.fields))

    def message(m):
        nested = {n.full_name: n for n in m.messages}
        entries = set()
        fields = []
        for f in m.fields:
            n = nested.get(f.full_type)
            if n is not None and n.name.startswith('PbtoolsMap'):
                entries.add(n.full_name)
                assert f.repeated and not f.optional and f.type_kind == 'message', 'map field'
                assert not (n.enums or n.oneofs or n.messages), 'map entry'
                k, v = n.fields
                assert (k.name, k.field_number, k.repeated, k.optional) == ('key', 1, False, False), 'map key'
                assert (v.name, v.field_number, v.repeated, v.optional) == ('value', 2, False, False), 'map value'
                assert k.type_kind == 'scalar-value-type', 'map key kind'
                fields.append(('map', k.full_type, v.full_type, v.type_kind, f.name, f.field_number))
            else:
                assert not (f.repeated and f.optional), 'label'
                fields.append(('repeated' if f.repeated else 'optional' if f.optional else '',
                               f.full_type, f.type_kind, f.name, f.field_number))
        return (m.full_name, tuple(fields), tuple(enum(e) for e in m.enums),
                tuple((o.name, tuple((f.full_type, f.type_kind, f.name, f.field_number) for f in o.fields)) for o in m.oneofs),
                tuple(sorted(message(n) for n in m.messages if n.full_name not in entries)))
    return {
        'package': proto.package,
        'imports': tuple(i.path for i in proto.imports),
        'options': tuple((o.name, o.kind, o.value) for o in proto.options),
        'enums': tuple(enum(e) for e in proto.enums),
        'messages': tuple(sorted(message(m) for m in proto.messages)),
        'services': tuple((s.name, tuple((r.name, r.request_type, r.request_stream, r.response_type, r.response_stream)
                                         for r in s.rpcs)) for s in proto.services),
    }


def difference(a, b):
    for k in a:
        if a[k] != b[k]:
            return f'{k}: declared {str(a[k])[:700]}, parsed {str(b[k])[:700]}'
    return None
