"""P01-P10: the parser, the command line tool and the C generator."""
import json
import os
import subprocess
import sys
import build
from build import Violation

STATES = {}


def explore(ctx, module, name, workers=None, what=None):
    """Runs all cases of a check in worker processes."""
    n = workers or build.NPROC
    replay = os.environ.get('VERIF_REPLAY')
    if replay:
        if build.replaying().get('explorer') != [module, name]:
            return
        n = 1
    procs = []
    for k in range(n):
        d = os.path.join(ctx.dir, f'{name}-{k}')
        out = os.path.join(ctx.dir, f'{name}-{k}.json')
        cmd = [build.PY, '-B', os.path.join(build.HERE, 'pyw.py'), module, name, str(k), str(n), ctx.tier, d, out]
        if replay:
            cmd.append(replay)
        log = open(out + '.log', 'w')
        e = build.env()
        e['PYTHONHASHSEED'] = str(k)
        procs.append((subprocess.Popen(cmd, cwd=ctx.dir, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log), out, log))
    results = []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(60, build.left() + 70))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise RuntimeError(f'{name}: time limit')
        log.close()
        if not os.path.exists(out):
            raise RuntimeError(f'{name}: worker gave no result: ' + open(out + '.log').read()[-2000:])
        results.append(json.load(open(out)))
    outcomes = {}
    states = 0
    for r in results:
        ctx.count(r['states'], r['transitions'], r['traces'])
        states += r['states']
        for s in r['samples']:
            ctx.sample(s)
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    ctx.parts.append({'explorer': name, 'states': states, 'outcomes': outcomes, **({'what': what} if what else {})})
    cut = [r['cut'] for r in results if r['cut'] is not None]
    if cut:
        ctx.cut(f'{name} after the first {min(cut)} cases')
    bad = sorted((r['violation'] for r in results if r['violation']), key=lambda v: v.get('index', 0))
    if bad:
        raise Violation(bad[0]['msg'], replay={'explorer': [module, name], 'case': bad[0]['case']})
    for r in results:
        if r['error']:
            raise RuntimeError(f'{name}: {r["error"]}')
    for r in results:
        for k, v in r['knowns'].items():
            ctx.known(k, v)


def P01(ctx):
    explore(ctx, 'p01', 'bodies', what='every sequence of items in each kind of body and at top level')
    explore(ctx, 'p01', 'attributes', what='every name, number form, option form and type form in every place')
    explore(ctx, 'p01', 'counts', what='many things of one kind: fields, oneofs, maps, messages, nesting, constants, options, rpcs ...')
    explore(ctx, 'p01', 'deviations', what='files with a bounded number of deviations from a small file')


def P02(ctx):
    explore(ctx, 'p02', 'layout', what='every filler in every gap, pairs of insertions, the same filler in all gaps')
    explore(ctx, 'p02', 'sizes', what='long comments and white space, many of them, in large files')
    explore(ctx, 'p02', 'imported', what='the same in a file that is imported')
    explore(ctx, 'p02', 'errors', what='every token broken in several ways, with fillers before it, in the file itself or in one that it imports')
    explore(ctx, 'p02', 'places', what='the same after long comments and white space, in large files')


def P03(ctx):
    explore(ctx, 'p03', 'scopes', what='every arrangement of equally named types, every name form in three scopes and five kinds of members')
    explore(ctx, 'p03', 'depths', what='deep nesting, long package names, many types: every level or pair of levels that declares the name')
    explore(ctx, 'p03', 'members', what='the C type of the generated member for every resolvable name')


def P04(ctx):
    explore(ctx, 'p04', 'inputs', what='every kind of invalid input alone and among valid files, as a command and in process')
    explore(ctx, 'p04', 'references', what='every kind of undefined name in every place, every type as map key')
    explore(ctx, 'p04', 'sizes', what='one thing is wrong in a large file: a token, a bracket, a type, a field number')
    explore(ctx, 'p04', 'cut', what='files that end at any character')
    explore(ctx, 'p04', 'tokens', what='every deletion, duplication, swap, insertion and replacement of a token, every removed range')


def P05(ctx):
    for name, what in [('graphs', 'reference graphs over three messages, all nestings and orders'),
                       ('chains', 'chains and rings of messages in every order of declaration'),
                       ('enums', 'enums at every level, used from every message'),
                       ('members', 'every kind of member, pairs of members'),
                       ('bodies', 'sequences of everything that may be in a message, an enum and a oneof'),
                       ('imports', 'two and three files, all packages, all imported types'),
                       ('names', 'many names in every place'),
                       ('spellings', 'every name of up to four characters, one of each class, and characters at the edges of the classes'),
                       ('counts', 'many things of one kind: fields, oneofs, maps, messages, nesting, chains, constants ...'),
                       ('siblings', 'two things with similar names in one message'),
                       ('filenames', 'two files, similar and long names'),
                       ('optimized', 'other optimization levels, each file alone')]:
        explore(ctx, 'p05', name, what=what)


class Sub:
    """A context for one build of a check."""
    def __init__(self, ctx, name):
        self.dir = os.path.join(ctx.dir, name)
        os.mkdir(self.dir)


def P06(ctx):
    import checks_c
    import p06
    for fam in p06.FAMILIES:
        sub = Sub(ctx, fam.__name__)
        files = fam(ctx.thorough)
        exe = checks_c.build_split(sub, files, 'h_encode.c', 'h', ['-O0'], ['-O1', '-g'])
        st = build.run_harness(exe, sub.dir, ctx.tier, 'P06', hang=40)
        ctx.harness(st, what=f'{fam.__name__}: {fam.__doc__}')
        ctx.parts[-1]['schemas'] = sum(len(f.messages()) for f in files)


def P07(ctx):
    explore(ctx, 'p07', 'histories', what='every sequence of operations in one process')
    explore(ctx, 'p07', 'invocations', what='every sequence of files in one invocation')
    explore(ctx, 'p07', 'sizes', what='many files in one invocation or process')
    explore(ctx, 'p07', 'names', what='every pair of files that declare the same names in another way, in one process')
    explore(ctx, 'p07', 'directories', what='inputs in several directories, imported files of the same name in several directories')
    explore(ctx, 'p07', 'environment', what='at most two deviations from the plain environment')


def P08(ctx):
    import checks_c
    import p08
    explore(ctx, 'p08', 'placement', what='every subset of places that have the imported file, every list of import paths')
    explore(ctx, 'p08', 'states', what='links, invalid files and nothing in each of three places')
    explore(ctx, 'p08', 'sizes', what='many import paths, imports, long chains of imports, deep directories, long names')
    explore(ctx, 'p08', 'uses', what='files that use their import in one place only')
    us = list(p08.units(ctx.thorough))
    for k in range(0, len(us), 160):
        sub = Sub(ctx, f'graphs{k}')
        files = [f for u in us[k:k + 160] for f in u]
        p08.prepare(sub.dir, files, k // 160 % 2)
        exe = checks_c.build_split(sub, files, 'h_encode.c', 'h', ['-O0', '-Werror=implicit-function-declaration'], ['-O1', '-g'], gen=False, glue=True)
        st = build.run_harness(exe, sub.dir, ctx.tier, 'P06', hang=40)
        ctx.harness(st, what='every import graph over three files, compiled, linked and used')
        ctx.parts[-1]['graphs'] = len(us[k:k + 160])


def P09(ctx):
    explore(ctx, 'p09', 'faults', what='every fault at every file operation, pairs of faults, then a run without faults')


def P10(ctx):
    explore(ctx, 'p10', 'compared', what='the code with and without the option')
    explore(ctx, 'p10', 'compiled', what='the code with the option is compiled')


def P11(ctx):
    explore(ctx, 'p11', 'wrong', what='wrong command lines, help and version')
    explore(ctx, 'p11', 'names', what='names of files')
    explore(ctx, 'p11', 'sizes', what='many files and import paths, deep directories, long names')
    explore(ctx, 'p11', 'commands', what='command lines and calls of generate_files() with a bounded number of deviations from a plain one')
