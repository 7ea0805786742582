"""C01-C14: the C library together with generated code."""
import json
import os
import subprocess
import build
import schema
from build import Violation, run_harness, env
from corpus import corpus, evolution, maps, wide


def std(ctx, harness, mode, known=None, hang=40, what=None, files=None, sub='', **kw):
    d = os.path.join(ctx.dir, sub) if sub else ctx.dir
    os.makedirs(d, exist_ok=True)
    exe = build.build_harness(d, files or corpus(), harness, out=harness.replace('.c', ''), **kw)
    st = run_harness(exe, d, ctx.tier, mode, hang=hang)
    if st['fail'] and not st['fail']['msg'].startswith('HARNESS'):
        f = st['fail']
        r = subprocess.run([exe, exe + '.replay.json', ctx.tier, '1', str(hang), mode, str(f['root']), *map(str, f['choices'])],
                           cwd=ctx.dir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        f['msg'] += '\n  [replayed alone: ' + ('reproduced' if r.returncode == 1 else 'not reproduced, depends on earlier executions') + ']'
    ctx.harness(st, known, what)
    return st


def C01(ctx):
    std(ctx, 'h_encode.c', 'C01')
    std(ctx, 'h_mag.c', 'C01', sub='mag', what='payload sizes and numbers of items of every order of magnitude')


def C02(ctx):
    std(ctx, 'h_encode.c', 'C02')
    std(ctx, 'h_mag.c', 'C02', sub='mag', what='payload sizes and numbers of items of every order of magnitude')


def C03(ctx):
    std(ctx, 'h_decode.c', 'C03', known={0: 'dup-submessage'})
    std(ctx, 'h_mag.c', 'C03', sub='mag', what='payload sizes, numbers of items and of records of every order of magnitude')
    std(ctx, 'h_big.c', 'C03', sub='big', what='inputs of about INT_MAX bytes')


def C04(ctx):
    std(ctx, 'h_decode.c', 'C04')
    std(ctx, 'h_mag.c', 'C04', sub='mag', what='numbers of records of every order of magnitude, and then a malformed one')
    std(ctx, 'h_big.c', 'C04', sub='big', what='malformed inputs of INT_MAX bytes and more')


def C05(ctx):
    std(ctx, 'h_decode.c', 'C05')
    std(ctx, 'h_wide.c', 'C05', files=wide(), sub='wide', what='numbers of items whose total size is around 2^31 and 2^32')
    std(ctx, 'h_big.c', 'C05', sub='big', what='inputs of INT_MAX bytes and more')


def C06(ctx):
    std(ctx, 'h_decode.c', 'C06')
    std(ctx, 'h_wide.c', 'C06', files=wide(), sub='wide', what='numbers of items whose total size is around 2^31 and 2^32')
    std(ctx, 'h_big.c', 'C06', sub='big', what='inputs of INT_MAX bytes and more, workspaces of every order of magnitude')


def C07(ctx):
    std(ctx, 'h_encode.c', 'C07')
    std(ctx, 'h_mag.c', 'C07', sub='mag', what='payload sizes and numbers of items of every order of magnitude')
    std(ctx, 'h_big.c', 'C07', sub='big', what='values and buffers of INT_MAX bytes and more')


def C08(ctx):
    std(ctx, 'h_hist.c', 'C08', known={1: 'oneof-alloc-failure'})
    std(ctx, 'h_mag.c', 'C08', sub='mag', what='numbers of items of every order of magnitude')
    std(ctx, 'h_wide.c', 'C08', files=wide(), sub='wide', what='numbers of items whose total size is around 2^31 and 2^32')
    std(ctx, 'h_big.c', 'C08', sub='big', what='workspaces of INT_MAX bytes and more')


def C09(ctx):
    std(ctx, 'h_hist.c', 'C09')


def C13(ctx):
    exe = build.compile_all(ctx.dir, [build.HERE + '/h_err.c', build.HERE + '/engine.c', build.REPO + '/lib/src/pbtools.c'],
                            os.path.join(ctx.dir, 'h_err'), cflags=['-O1', '-g', '-fsanitize=undefined', '-fno-sanitize-recover=all'])
    ctx.harness(run_harness(exe, ctx.dir, ctx.tier, 'C13', hang=60))


def build_split(ctx, files, harness, out, cflags_ut, cflags, ldflags=(), cc='gcc', defs_ut=(), gen=True, extra=(), glue=False, globals_=False):
    """Like build_harness, with other flags for the code under test."""
    d = ctx.dir
    if gen:
        for f in files:
            f.link()
        for f in files:
            with open(os.path.join(d, f.name + '.proto'), 'w') as fo:
                fo.write(schema.proto(f))
        build.generate(d, [f.name + '.proto' for f in files], ['-I', d])
    if gen or glue:
        with open(os.path.join(d, 'glue.c'), 'w') as fo:
            fo.write(schema.glue(files))
    ut = [os.path.join(d, schema.snake(f.name) + '.c') for f in files] + [build.REPO + '/lib/src/pbtools.c']
    hs = [os.path.join(d, 'glue.c')] + [os.path.join(build.HERE, x) for x in ('model.c', 'engine.c', harness)] + list(extra)
    objs = []
    for srcs, cf, df in ((ut, cflags_ut, defs_ut), (hs, cflags, ())):
        objs += build.compile_objs(d, srcs, out, cc, cf, df)
    if globals_:
        # All variables of the code under test in one section, so that the harness can reset them.
        for o in objs[:len(ut)]:
            subprocess.run(['objcopy', *[x for n in ('.data', '.bss', '.data.rel', '.data.rel.local')
                                         for x in ('--set-section-flags', n + '=alloc,load,contents,data', '--rename-section', n + '=ut_globals')], o], check=True)
    return build.link(d, objs, os.path.join(d, out), cc, [*cflags, *ldflags])


def C10(ctx):
    wrap = [f'-D{x}=ut_{x}' for x in ('memcpy', 'memmove', 'memset', 'strlen')]
    hdr = os.path.join(ctx.dir, 'ut.h')
    with open(hdr, 'w') as f:
        f.write('#include <stddef.h>\n#include <string.h>\nvoid *ut_memcpy(void *, const void *, size_t);\n'
                'void *ut_memmove(void *, const void *, size_t);\nvoid *ut_memset(void *, int, size_t);\n'
                'size_t ut_strlen(const char *);\n')
    exe = build_split(ctx, corpus(), 'h_thread.c', 'h_thread',
                      ['-O1', '-g', '-fsanitize=thread', '-fno-builtin', '-include', hdr, *wrap], ['-O1', '-g', '-pthread'], globals_=True)
    ctx.harness(run_harness(exe, ctx.dir, ctx.tier, 'C10', hang=40))


def C11(ctx):
    std(ctx, 'h_evolve.c', 'C11', files=evolution())


def C12(ctx):
    std(ctx, 'h_map.c', 'C12', files=maps())


def C14(ctx):
    """All variants of the build must give the same digest for every root."""
    from concurrent.futures import ThreadPoolExecutor
    d = ctx.dir
    variants = 0
    for fl, files in (('', corpus()), ('nofloat', corpus(floats=False))):
        sub = os.path.join(d, 'v' + fl)
        os.mkdir(sub)
        for f in files:
            f.link()
        for f in files:
            with open(os.path.join(sub, f.name + '.proto'), 'w') as fo:
                fo.write(schema.proto(f))
        build.generate(sub, [f.name + '.proto' for f in files], ['-I', sub])
        with open(os.path.join(sub, 'glue.c'), 'w') as fo:
            fo.write(schema.glue(files))
        ut = [os.path.join(sub, schema.snake(f.name) + '.c') for f in files] + [build.REPO + '/lib/src/pbtools.c']
        hs = [os.path.join(build.HERE, x) for x in ('model.c', 'engine.c', 'h_digest.c')]
        glue = os.path.join(sub, 'glue.c')
        gcc, clang = 'gcc', ('/usr/bin/clang' if os.path.exists('/usr/bin/clang') else 'clang')
        # name, compiler of the code under test, flags, defines, glue language
        vs = []
        if not fl:
            for cc in (gcc, clang):
                for opt in ('-O0', '-O1', '-O2', '-O3', '-Os'):
                    for c in ('-fsigned-char', '-funsigned-char'):
                        vs.append((cc, [opt, c], [], 'c'))
            for cc in (gcc, clang):
                vs.append((cc, ['-O2', '-fshort-wchar', '-fno-strict-aliasing', '-fwrapv'], [], 'c'))
                vs.append((cc, ['-O3', '-march=native', '-funroll-loops'], [], 'c'))
                vs.append((cc, ['-O2'], [], 'c++'))
            vs.append((gcc, ['-O2', '-D_FORTIFY_SOURCE=2', '-fstack-protector-all'], [], 'c'))
        else:
            for cc in (gcc, clang):
                for opt in ('-O0', '-O2') if not ctx.thorough else ('-O0', '-O1', '-O2', '-O3', '-Os'):
                    for df in ([], ['-DPBTOOLS_CONFIG_FLOAT=0']):
                        vs.append((cc, [opt], df, 'c'))
            vs.append((gcc, ['-O2'], ['-DPBTOOLS_CONFIG_FLOAT=0'], 'c++'))
        base = build.compile_objs(sub, hs, 'h', 'gcc', ['-O1', '-g', '-I', sub])

        def make(iv):
            i, (cc, flags, defs, lang) = iv
            objs = []
            for s in ut:
                o = os.path.join(sub, f'ut{i}_{os.path.basename(s)}.o')
                r = build.run_cc([cc, '-std=gnu11', '-I', sub, '-I', build.REPO + '/lib/include', *flags, *defs, '-c', s, '-o', o], sub)
                if r.returncode:
                    raise Violation(f'{os.path.basename(s)} does not compile with {cc} {" ".join(flags + defs)}: {r.stdout[:1000]}')
                objs.append(o)
            o = os.path.join(sub, f'gl{i}.o')
            comp = [cc, '-std=gnu11'] if lang == 'c' else [{'gcc': 'g++'}.get(cc, cc + '++'), '-x', 'c++', '-std=c++17']
            r = build.run_cc([*comp, '-O1', '-I', sub, '-I', build.HERE, '-I', build.REPO + '/lib/include', *defs, '-c', glue, '-o', o], sub)
            if r.returncode:
                raise Violation(f'user code does not compile as {lang} with {cc} {" ".join(defs)}: {r.stdout[:1500]}')
            objs.append(o)
            os.mkdir(os.path.join(sub, f'run{i}'))
            return build.link(sub, objs + base, os.path.join(sub, f'run{i}', 'digest'), 'gcc')
        with ThreadPoolExecutor(build.NPROC) as ex:
            exes = list(ex.map(make, enumerate(vs)))
        ref = None
        for v, exe in zip(vs, exes):
            name = f'{os.path.basename(v[0])} {" ".join(v[1] + v[2])} headers as {v[3]}'
            st = run_harness(exe, os.path.dirname(exe), ctx.tier, 'C14', hang=60)
            dg = st.pop('digests')
            ctx.harness(st, what=name)
            variants += 1
            if ref is None:
                ref, refexe, refname = dg, exe, name
                continue
            for root, (a, b) in enumerate(zip(ref, dg)):
                if a != b and ctx.exhaustive:
                    raise Violation(differ(ctx, root, refexe, refname, exe, name),
                                    replay={'root': root, 'variants': [refname, name]})
    ctx.cov['build_variants'] = variants


def differ(ctx, root, exe1, name1, exe2, name2):
    lines = []
    for e in (exe1, exe2):
        run_harness(e, os.path.dirname(e), ctx.tier, f'trace{root}', workers=1, hang=60)
        lines.append(open(os.path.join(os.path.dirname(e), 'digest.trace')).read().split('\n'))
    for a, b in zip(*lines):
        if a != b:
            return f'the builds differ:\n  {name1}: {a}\n  {name2}: {b}'
    return f'the builds {name1} and {name2} differ in root {root}'


# Functions without effects outside the memory they are given.
COUNTED = ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen')
PURE = ('memchr', 'memrchr', 'rawmemchr', 'mempcpy', 'bcmp', 'bzero', 'strnlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'stpcpy', 'strchr', 'strrchr',
        'abs', 'labs', 'llabs', '__errno_location', '__stack_chk_fail', '_GLOBAL_OFFSET_TABLE_', '__sanitizer_cov_trace_pc',
        'stdin', 'stdout', 'stderr', 'environ')


def foreign(d, objs):
    """Redirects what the objects call outside: to counting functions, or to stubs that report it."""
    def names(flag):
        out = set()
        for o in objs:
            r = subprocess.run(['nm', flag, '-P', o], check=True, stdout=subprocess.PIPE, text=True).stdout
            out |= {x.split()[0] for x in r.splitlines() if x.strip() and not x.endswith(':')}
        return out
    und = names('-u') - names('--defined-only')
    stubs = sorted(und - set(COUNTED) - set(PURE))
    args = [x for n in (*COUNTED, *stubs) for x in ('--redefine-sym', f'{n}=vp_{n}')]
    for o in objs:
        subprocess.run(['objcopy', *args, o], check=True)
    s = os.path.join(d, 'stubs.c')
    with open(s, 'w') as f:
        f.write('void vp_foreign(const char *);\n' + ''.join(f'void vp_{n}(void);\nvoid vp_{n}(void) {{ vp_foreign("{n}"); }}\n' for n in stubs))
    return s, stubs


def C15(ctx):
    for flags in (['-O0'], ['-O2']):
        d = os.path.join(ctx.dir, flags[0][1:])
        os.makedirs(d)
        files = corpus()
        for f in files:
            f.link()
        for f in files:
            with open(os.path.join(d, f.name + '.proto'), 'w') as fo:
                fo.write(schema.proto(f))
        build.generate(d, [f.name + '.proto' for f in files], ['-I', d])
        with open(os.path.join(d, 'glue.c'), 'w') as fo:
            fo.write(schema.glue(files))
        ut = [os.path.join(d, schema.snake(f.name) + '.c') for f in files] + [build.REPO + '/lib/src/pbtools.c']
        objs = build.compile_objs(d, ut, 'ut', 'gcc', [*flags, '-g', '-fsanitize-coverage=trace-pc', '-fno-builtin', '-U_FORTIFY_SOURCE', '-fno-stack-protector'])
        stubs, found = foreign(d, objs)
        objs += build.compile_objs(d, [os.path.join(d, 'glue.c'), stubs] + [os.path.join(build.HERE, x) for x in ('model.c', 'engine.c', 'h_res.c')],
                                   'h', 'gcc', ['-O1', '-g', '-w'])
        exe = build.link(d, objs, os.path.join(d, 'h_res'), 'gcc')
        st = run_harness(exe, d, ctx.tier, 'C15', hang=60)
        ctx.harness(st, what=f'{flags[0]}; functions of the system that the code refers to: {" ".join(found) or "none"}')
