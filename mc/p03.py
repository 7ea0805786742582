"""P03: type names resolve as proto3 scoping designates."""
import itertools
import re
import cmap
import plib
import protoast as A

# Where a type T may be declared. imp: first imported file, imp2: second.
SITES = ['top', 'M', 'N', 'S', 'O', 'imp', 'impI', 'imp2']
SHADOWS = ['', 'Mp', 'MO', 'NM', 'NT.T']
FORMS = ['T', '.T', 'N.T', 'M.T', '.M.T', 'M.N.T', 'S.T', 'M.S.T', 'O.T', 'I.T', '.I.T', 'p.T', '.p.T', 'q.T', 'r.T', 'p.q.T', 'p.r.T',
         '.p.q.T', '.r.T', 'p.M.T', 'q.M.T', 'p.q.M.N.T', 'p.I.T', 'q.I.T', 'r.I.T', '.p.q.I.T', 's.T', 'r.s.T', 'T.T', 'M', 'N', 'M.N',
         'S', 'I', 'p.M', 'p', 'O', 'U', 'M.U', 'p.U', '.int32', 'M.string']
SCOPES = ['N', 'M', 'O']
SHAPES = ['', 'repeated', 'optional', 'oneof', 'map']


def T(kind, inner=()):
    if kind == 'e':
        return ('enum', 'T', (('const', 'A', '0', ()),))
    return ('message', 'T', tuple(inner))


def member(shape, ref, n):
    name = f'f{n}'
    if shape == 'map':
        return ('map', 'int32', ref, name, str(n), ())
    if shape == 'oneof':
        return ('oneof', f'o{n}', (('ofield', ref, name, str(n), ()),))
    return ('field', shape, ref, name, str(n), ())


def oneofs(scope, refs):
    """Two oneofs that refer to all the names, in both orders."""
    names = [(s, r) for s, r in dict.fromkeys((s, r) for s, _, r in refs) if s == scope]
    return [('oneof', o, tuple(('ofield', r, f'{o}f{i}', str(k + i), ()) for i, (_, r) in enumerate(ns)))
            for o, k, ns in (('all', 1000, names), ('rev', 2000, names[::-1])) if ns]


def build(config, refs):
    """refs: (scope, shape, ref). Returns the file and its imports, or None
    if the arrangement is not a valid set of files."""
    pkg, ipkg, ipkg2, sites, shadow = config
    body = {s: [] for s in SITES + ['p']}
    for s, k in sites:
        body[s].append(T(k, [T('m')] if shadow == 'NT.T' and s == 'N' else ()))
    n = {s: [] for s in SCOPES}
    for scope, shape, ref in refs:
        n[scope].append(member(shape, ref, len(n[scope]) + 1))
    if len(refs) > 1:
        for scope in SCOPES:
            n[scope] += oneofs(scope, refs)
    N = body['N'] + n['N']
    M = []
    if shadow == 'Mp':
        M.append(('message', 'p', (T('m'),)))
    if shadow == 'MO':
        M.append(('message', 'O', ()))
    if shadow == 'NM':
        N = [('message', 'M', (T('e'),))] + N
    M += body['M'] + [('message', 'N', tuple(N)), ('message', 'S', tuple(body['S']))] + n['M']
    items = ([('import', '', 'i.proto')] if ipkg != '-' else []) + ([('import', '', 'j.proto')] if ipkg2 != '-' else [])
    items += ([('package', pkg)] if pkg else []) + body['top']
    items += [('message', 'M', tuple(M)), ('message', 'O', tuple(body['O'] + n['O']))]
    imps = []
    if ipkg != '-':
        imps.append(([('package', ipkg)] if ipkg else []) + body['imp'] + [('message', 'I', tuple(body['impI']))])
    if ipkg2 != '-':
        imps.append(([('package', ipkg2)] if ipkg2 else []) + body['imp2'])
    return items, imps


def valid(items, imps):
    seen, pk = set(), set()
    for f in [items, *imps]:
        p = A.package_of(f)
        d = names(f, p)
        if len(d) != len(set(d)) or seen & set(d):
            return False
        seen |= set(d)
        if p:
            parts = p.split('.')
            pk |= {'.'.join(parts[:i + 1]) for i in range(len(parts))}
    return not seen & pk


def names(items, pkg):
    out = []

    def walk(items, scope):
        for x in items:
            if x[0] in ('message', 'enum'):
                out.append('.'.join(scope + [x[1]]))
                if x[0] == 'message':
                    walk(x[2], scope + [x[1]])
    walk(items, [pkg] if pkg else [])
    return out


def run(w, items, imps):
    import pbtools
    for n, f in zip([x[2] for x in items if x[0] == 'import'], imps):
        w.write(n, A.text(f))
    txt = A.text(items)
    p = w.write('t.proto', txt)
    w.transitions += 1
    try:
        parsed = pbtools.parse_file(p, [w.dir])
    except Exception as e:
        return None, e, txt
    try:
        return A.actual(parsed), None, txt
    except Exception as e:
        raise plib.Bad(f'the parse result is malformed: {type(e).__name__} {e}:\n{txt}')


def describe(txt, imps):
    return txt + ''.join('\n-- imported --\n' + A.text(f) for f in imps)


UNDEF = ['T', '.T', 'M.T', 'N.T', 'O.T', 'I.T', 'p.T', 'r.T']


def check_scopes(w, case):
    config, shapes, few = case
    pkg = config[0]
    base = ([pkg] if pkg else [])
    items, imps = build(config, [])
    if not valid(items, imps):
        w.out('not a valid arrangement')
        return
    sym = A.Symbols(items, imps)
    path = {'N': '.'.join(base + ['M', 'N']), 'M': '.'.join(base + ['M']), 'O': '.'.join(base + ['O'])}
    good = []
    for scope in SCOPES:
        for ref in FORMS:
            try:
                full, known = sym.find(path[scope], ref)
            except A.Undefined:
                full, known = None, None
            if known is not None and known != full:
                # The listed known finding: this or the right type.
                items, imps = build(config, [(scope, '', ref)])
                got, e, txt = run(w, items, imps)
                pick = []
                if full is not None:
                    pick.append(A.difference(A.expected(items, imps, lambda f, k: f), got) if got else repr(e))
                elif got is None:
                    named(ref, e, txt, imps)
                    pick.append(None)
                if None in pick:
                    w.out('resolved')
                    continue
                d = A.difference(A.expected(items, imps, lambda f, k: k), got) if got else repr(e)
                if d is None:
                    w.known('relative-package-name', f'{ref} in scope {path[scope]} gives {known}, not {full}')
                    w.out('known finding')
                    continue
                raise plib.Bad(f'{ref} in {path[scope]} must be {full}: {pick} {d}\n{describe(txt, imps)}')
            if full is None:
                if few and (ref not in UNDEF or scope == 'M'):
                    continue
                for shape in shapes:
                    if shape == 'optional':
                        continue
                    items, imps = build(config, [(scope, shape, ref)])
                    got, e, txt = run(w, items, imps)
                    if got is not None:
                        raise plib.Bad(f'{ref} in {path[scope]} designates nothing but is accepted:\n{describe(txt, imps)}')
                    named(ref, e, txt, imps)
                    w.out('undefined')
            else:
                good += [(scope, s, ref) for s in SHAPES if s != 'optional' or sym.types[full] == 'enum']
    items, imps = build(config, good)
    got, e, txt = run(w, items, imps)
    if got is None:
        raise plib.Bad(f'a defined type is rejected: {e!r}\n{describe(txt, imps)}')
    d = A.difference(A.expected(items, imps), got)
    if d:
        raise plib.Bad(f'{d}\n{describe(txt, imps)}')
    w.traces += 1
    w.outcomes['resolved'] = w.outcomes.get('resolved', 0) + len(good)


def named(ref, e, txt, imps):
    import pbtools
    from pbtools.errors import Error
    if not isinstance(e, Error):
        raise plib.Bad(f'the undefined type {ref} gives {e!r}:\n{describe(txt, imps)}')
    if not re.search(r'(?<![\w])' + re.escape(ref.lstrip('.')) + r'(?![\w.])', str(e)):
        raise plib.Bad(f'the error {e} does not name {ref}:\n{describe(txt, imps)}')


PKGS = [None, 'p', 'p.q']
IPKGS = ['-', None, 'p', 'p.q', 'r', 'p.r', 'q']
IPKGS2 = ['p', 'r.s', None]


def site_sets(n, sites=SITES):
    for k in range(n + 1):
        for ss in itertools.combinations(sites, k):
            for kinds in itertools.product('me', repeat=k):
                yield tuple(zip(ss, kinds))


def configs(sets, shadows):
    for ss in sets:
        used = {s for s, _ in ss}
        for pkg in PKGS:
            for ipkg in IPKGS:
                if ipkg == '-' and used & {'imp', 'impI'}:
                    continue
                for ipkg2 in IPKGS2 if 'imp2' in used else ['-']:
                    for sh in shadows:
                        yield (pkg, ipkg, ipkg2, ss, sh)


def cases_scopes(tier):
    if tier == 'thorough':
        for c in configs(site_sets(1), SHADOWS):
            yield c, SHAPES, False
        for c in configs([s for s in site_sets(2) if len(s) == 2], SHADOWS):
            yield c, [''], False
        for c in configs([s for s in site_sets(3) if len(s) == 3], ['']):
            yield c, ['map'], True
    else:
        for c in configs(site_sets(1), ['']):
            yield c, [SHAPES[len(str(c)) % 5] if len(c[3]) else ''], False
            yield c, SHAPES, True
        for c in configs(site_sets(1), SHADOWS[1:]):
            yield c, ['oneof'], True
        for c in configs([s for s in site_sets(2) if len(s) == 2], ['']):
            if c[1] != 'q':
                yield c, [''], True


# -- the generated members ------------------------------------------------------

def check_members(w, case):
    """All resolvable names in all scopes: the types of the C members."""
    config = case
    items, imps = build(config, [])
    if not valid(items, imps):
        w.out('not a valid arrangement')
        return
    sym = A.Symbols(items, imps)
    base = [config[0]] if config[0] else []
    path = {'N': '.'.join(base + ['M', 'N']), 'M': '.'.join(base + ['M']), 'O': '.'.join(base + ['O'])}
    good = []
    for scope in SCOPES:
        for ref in FORMS:
            try:
                full, known = sym.find(path[scope], ref)
            except A.Undefined:
                continue
            if known is not None and known != full:
                continue
            # Types that contain the message by value are fine: members are pointers.
            good += [(scope, s, ref) for s in SHAPES if s != 'optional' or sym.types[full] == 'enum']
    items, imps = build(config, good)
    got, e, txt = run(w, items, imps)
    files = ['t.proto'] + [x[2] for x in items if x[0] == 'import']
    status, err, exc = plib.cli(['generate_c_source', '-I', w.dir, '-o', w.path('out')] + [w.path(f) for f in files])
    if status or exc:
        raise plib.Bad(f'a supported file is rejected: {err or exc}\n{describe(txt, imps)}')
    src = '#include "t.h"\n' + cmap.HEAD + cmap.asserts(A.expected(items, imps))
    w.transitions += 1
    d = cmap.syntax(w.path('out'), src)
    if d:
        raise plib.Bad(f'the generated types are not as declared: {d[:1200]}\n{describe(txt, imps)}')
    w.traces += 1
    w.out('as declared')


def cases_members(tier):
    if tier == 'thorough':
        yield from configs(site_sets(2), SHADOWS)
    else:
        yield from configs(site_sets(1), [''])
        pairs = [s for s in site_sets(2) if len(s) == 2]
        for c in configs(pairs, ['']):
            if c[0] != 'p' and c[1] in ('-', None, 'p') and c[2] in ('-', 'p'):
                yield c


# -- deep scopes, long names, many types --------------------------------------------------

LIMIT = {'depths': 120}


def deep(where, d, ks, kind, rev):
    """T declared at the levels ks (0 is the top) of d nested messages and used from all levels, by every name that reaches it. where: pkg, the
    package has d parts instead and ks are the packages of imported files; imp: the nested messages are imported."""
    order = (lambda x: x[::-1]) if rev else (lambda x: x)
    t = lambda k: ('message', 'T', (('field', '', 'int32', f'v{k}', '1', ()),)) if kind[k % 2] == 'm' else ('enum', 'T', (('const', 'A', str(k), ()),))
    levels = [f'M{i}' for i in range(1, d + 1)]
    refs = ['T'] + [f'M{k}.T' for k in ks if k] + ['.'.join(levels[a:k]) + '.T' for k in ks for a in sorted({0, 1, k // 2}) if a < k - 1]
    refs += [r + '.'.join(['p'] + levels[:k] + ['T']) for k in ks for r in ('', '.')] + [f'M{j}' for j in (1, d // 2, d) if j]
    imps = []
    if where == 'pkg':
        parts = ['p'] + [f'q{i}' for i in range(1, d + 1)]
        for k in ks:
            imps.append([('package', '.'.join(parts[:k + 1])), t(k)])
        refs = ['T'] + [f'{parts[k]}.T' for k in ks] + [r + '.'.join(parts[:k + 1]) + '.T' for k in ks for r in ('', '.')]
        items = [('import', '', f'i{j}.proto') for j in range(len(ks))] + [('package', '.'.join(parts))]
        sym = A.Symbols(items, imps)
        return items + [('message', 'U', uses(sym, '.'.join(parts) + '.U', refs, rev)), ('message', 'V', (('message', 'W', uses(sym, '.'.join(parts) + '.V.W', refs, rev)),))], imps

    def nest(i, sym):
        body = [t(i)] if i in ks else []
        if i < d:
            body.append(('message', f'M{i + 1}', tuple(nest(i + 1, sym))))
        if i and sym:
            body += uses(sym, '.'.join(['p'] + levels[:i]), refs, rev)
        return order(body)
    if where == 'imp':
        imps = [[('package', 'p')] + nest(0, None)]
        items = [('import', '', 'i.proto'), ('package', 'p' if rev else 'p.z')]
        sym = A.Symbols(items, imps)
        me = 'p' if rev else 'p.z'
        return items + [('message', 'U', uses(sym, me + '.U', refs, rev)), ('message', 'V', (('message', 'W', uses(sym, me + '.V.W', refs, rev)),))], imps
    items = [('package', 'p')] + nest(0, None)
    sym = A.Symbols(items)
    return [('package', 'p')] + nest(0, sym), []


def uses(sym, scope, refs, maps=1):
    out = []
    for ref in dict.fromkeys(refs):
        try:
            full, known = sym.find(scope, ref)
        except A.Undefined:
            continue
        if full is None or known is not None and known != full:
            continue
        out.append(member(['', 'repeated', 'oneof', 'map'][len(out) % (3 + maps)], ref, len(out) + 1))
    return tuple(out)


def check_depths(w, case):
    where, d, ks, kind, rev = case
    if where == 'many':
        # d types; each message refers to some of them and to one in another message.
        R = range(d)
        decl = lambda i: ('message', f'T{i}', (('enum', 'T', (('const', 'A', str(i), ()),)), ('field', '', 'int32', 'v', '1', ()))) if kind[i % 2] == 'm' else ('enum', f'T{i}', (('const', 'A', str(i), ()),))
        user = lambda i: ('message', f'U{i}', (decl(i), ('field', '', f'T{i}', 'a', '1', ()), ('field', '', f'T{(i * 7 + 1) % d}', 'b', '2', ()), ('field', '', f'U{(i * 5 + 2) % d}.T{(i * 5 + 2) % d}', 'c', '3', ())))
        items, imps = [('package', 'p')] + [user(i) for i in R] + [decl(i) for i in R], []
        if rev:
            items, imps = [('import', '', 'i.proto'), ('package', 'p')] + [user(i) for i in R], [[('package', 'p')] + [decl(i) for i in R]]
    else:
        items, imps = deep(*case)
    if not valid(items, imps):
        w.out('not a valid arrangement')
        return
    got, e, txt = run(w, items, imps)
    if got is None:
        raise plib.Bad(f'a defined type is rejected: {e!r}\n{describe(txt, imps)[:3000]}')
    diff = A.difference(A.expected(items, imps), got)
    if diff:
        raise plib.Bad(f'{diff}\n{describe(txt, imps)[:3000]}')
    w.traces += 1
    w.out('resolved')


def cases_depths(tier):
    t = tier == 'thorough'
    for d in range(1, 33 if t else 21):
        for where in ('nest', 'imp', 'pkg'):
            for n in (1, 2, 3) if d < (11 if t else 7) else (1, 2):
                for ks in itertools.combinations(range(d + 1), n):
                    if n == 2 and d > 12 and not t and ks[0] not in (0, 1, d - 1) and ks[1] not in (d, d - 1):
                        continue
                    for kind in ('mm', 'ee') if n == 1 else ('me', 'em') if d < 9 else (('me', 'em', 'mm', 'ee')[(d + sum(ks)) % 4],):
                        for rev in (0, 1) if n == 1 or d < 5 else ((d + len(ks) + ks[0]) % 2,):
                            yield where, d, ks, kind, rev
    for d in (3, 5, 9, 17, 33, 65, 100, 129, 257) if t else (3, 5, 9, 17, 33, 65, 129):
        for kind in ('me', 'em', 'mm', 'ee'):
            for rev in (0, 1):
                yield 'many', d, (), kind, rev
