"""The C side of a parsed file: compile-time assertions on the generated types
(from the documented mapping), for the result of protoast.expected()."""
import subprocess
import build
from schema import CTYPE, snake

HEAD = '''#ifdef __cplusplus
#define SA static_assert
#define SAME(T, S, m) static_assert(__is_same(T, decltype(((S *)0)->m)), #S "." #m)
#else
#define SA _Static_assert
#define SAME(T, S, m) _Static_assert(__builtin_types_compatible_p(T, __typeof__(((S *)0)->m)), #S "." #m)
#endif
'''
FLAGS = ['-Wdouble-promotion', '-Wfloat-equal', '-Wformat=2', '-Wshadow', '-Werror', '-Wconversion', '-Wno-sign-conversion',
         '-Wall', '-Wextra', '-Wpedantic']


def ctype(t, kind):
    if kind == 'scalar-value-type':
        return CTYPE[t]
    return f'enum {snake(t)}_e' if kind == 'enum' else f'struct {snake(t)}_t *'


def member(t, kind, name):
    return snake(name) + ('_p' if kind == 'message' or t == 'string' else '')


def repeated(t, kind):
    if kind == 'scalar-value-type':
        c = CTYPE[t]
        n = {'char *': 'string', 'struct pbtools_bytes_t': 'bytes'}.get(c, c.replace('_t', ''))
        return f'struct pbtools_repeated_{n}_t'
    return 'struct pbtools_repeated_int32_t' if kind == 'enum' else f'struct {snake(t)}_repeated_t'


def constants(exp):
    """The names of the constants of all enums."""
    def message(m):
        return [c for e in m[2] for c in enum(e)] + [c for n in m[4] for c in message(n)]

    def enum(e):
        ns = snake('.'.join(e[0].split('.')[:-1]))
        return [f'{ns + "_" if ns else "_"}{snake(n)}_e' for n, v in e[1]]
    return [c for e in exp['enums'] for c in enum(e)] + [c for m in exp['messages'] for c in message(m)]


def asserts(exp, upper=False):
    out = []

    def enum(e):
        ns = snake('.'.join(e[0].split('.')[:-1]))
        for n, v in e[1]:
            c = f'{ns + "_" if ns else "_"}{snake(n)}_e'
            out.append(f'SA((long long){c.upper() if upper else c} == {v}LL, "{e[0]}.{n}");')

    def same(T, S, m):
        out.append(f'SAME({T}, {S}, {m});')

    def message(m):
        full, fields, enums, oneofs, nested = m
        c = snake(full)
        S = f'struct {c}_t'
        for f in fields:
            n = snake(f[4] if f[0] == 'map' else f[3])
            if f[0] == 'map':
                _, k, t, kind, name, num = f
                same('int', S, n + '.length')
                same(CTYPE[k], S, n + '.items_p->' + member(k, 'scalar-value-type', 'key'))
                same(ctype(t, kind), S, n + '.items_p->' + member(t, kind, 'value'))
            elif f[0] == 'repeated':
                if f[2] == 'message':
                    same('int', S, n + '.length')
                    same(ctype(f[1], f[2]), S, n + '.items_p')
                else:
                    same(repeated(f[1], f[2]), S, n)
            elif f[0] == 'optional':
                same(ctype(f[1], f[2]), S, n + '.' + member(f[1], f[2], 'value'))
                same('bool', S, n + '.is_present')
            else:
                same(ctype(f[1], f[2]), S, member(f[1], f[2], f[3]))
        for name, of in oneofs:
            o = snake(f'{full}.{name}')
            same(f'enum {o}_e', S, snake(name))
            out.append(f'SA({o}_none_e == 0, "none");')
            for i, (t, kind, n, num) in enumerate(of):
                same(ctype(t, kind), S, member(t, kind, n))
                out.append(f'SA({o}_{snake(n)}_e == {i + 1}, "choice");')
        for e in enums:
            enum(e)
        for n in nested:
            message(n)
    for e in exp['enums']:
        enum(e)
    for m in exp['messages']:
        message(m)
    return '\n'.join(out) + '\n'


def syntax(dir, source, cc='gcc', flags=(), std='-std=gnu11', lang='c', include=()):
    """Diagnostics of compiling a text (no code generated), '' if none."""
    r = subprocess.run([cc, std, '-x', lang, '-fsyntax-only', *flags, *[x for i in include or [dir] for x in ('-I', i)],
                        '-I', build.REPO + '/lib/include', '-I', build.REPO + '/lib/src', '-'], input=source, cwd=dir, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode < 0:
        raise RuntimeError(f'{cc} died: {r.returncode} {r.stdout[-500:]}')
    return r.stdout if r.returncode or r.stdout.strip() else ''
