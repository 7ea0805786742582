"""Builds and runs things from /repo's working tree in a scratch directory."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SAN = ['-fsanitize=address', '-fsanitize=signed-integer-overflow,shift,bounds,alignment,bool,null,nonnull-attribute,pointer-overflow,integer-divide-by-zero,unreachable,return,vla-bound',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
NPROC = os.cpu_count() or 4


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.replay = replay


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8',
             ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
             UBSAN_OPTIONS='print_stacktrace=0')
    return e


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='pbmc-')

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def pbtools(args, cwd, **kw):
    return subprocess.run([PY, '-m', 'pbtools'] + args, cwd=cwd, env=env(), stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, **kw)


def generate(dir, names, extra=()):
    """Runs the generator on files in dir; output in dir."""
    r = pbtools(['generate_c_source'] + list(extra) + list(names), dir)
    if r.returncode != 0:
        raise Violation(f'the generator fails on supported proto file(s) {" ".join(names)}: {r.stderr.strip()[:600]}',
                        replay={'files': {n: open(os.path.join(dir, n)).read() for n in names}})
    return r


def run_cc(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)


def compile_objs(dir, sources, tag, cc='gcc', cflags=(), defs=()):
    """Compiles each source separately, in parallel."""
    objs = []

    def one(s):
        obj = os.path.join(dir, 'o_' + tag + '_' + os.path.basename(s) + '.o')
        r = run_cc([cc, '-std=gnu11', '-I', dir, '-I', HERE, '-I', REPO + '/lib/include', *cflags, *defs,
                    '-c', s, '-o', obj], dir)
        return obj, r, s
    with ThreadPoolExecutor(NPROC) as ex:
        for obj, r, s in ex.map(one, sources):
            if r.returncode:
                raise Violation(f'{os.path.basename(s)} does not compile: {r.stdout[:1500]}')
            objs.append(obj)
    return objs


def link(dir, objs, out, cc='gcc', flags=(), libs=()):
    r = run_cc([cc, *flags, '-o', out, *objs, *libs], dir)
    if r.returncode:
        raise Violation(f'link failed: {r.stdout[:1500]}')
    return out


def compile_all(dir, sources, out, cc='gcc', cflags=('-O1', '-g'), ldflags=(), libs=(), defs=()):
    objs = compile_objs(dir, sources, os.path.basename(out), cc, cflags, defs)
    return link(dir, objs, out, cc, [*cflags, *ldflags], libs)


def build_harness(dir, files, harness, out='harness', cc='gcc', cflags=None, extra_src=(), defs=(), ldflags=()):
    """Generates code for the files, writes the glue and builds the harness."""
    import schema
    for f in files:
        f.link()
    for f in files:
        with open(os.path.join(dir, f.name + '.proto'), 'w') as fo:
            fo.write(schema.proto(f))
    generate(dir, [f.name + '.proto' for f in files], ['-I', dir])
    with open(os.path.join(dir, 'glue.c'), 'w') as fo:
        fo.write(schema.glue(files))
    gen = [os.path.join(dir, schema.snake(f.name) + '.c') for f in files]
    src = gen + [os.path.join(dir, 'glue.c'), os.path.join(HERE, 'model.c'), os.path.join(HERE, 'engine.c'),
                 os.path.join(HERE, harness), REPO + '/lib/src/pbtools.c', *extra_src]
    if cflags is None:
        cflags = ['-O1', '-g', *SAN]
    return compile_all(dir, src, os.path.join(dir, out), cc=cc, cflags=cflags, defs=defs, ldflags=ldflags)


def replaying():
    """The record to replay, or None."""
    p = os.environ.get('VERIF_REPLAY')
    return json.load(open(p))['replay'] or {} if p else None


def relative(exe):
    return exe.split('/pbmc-', 1)[-1].split('/', 1)[-1]


def replay_harness(exe, dir, tier, mode, hang, rec):
    """One recorded execution only."""
    st = {'harness': os.path.basename(exe), 'roots': 0, 'execs': 0, 'calls': 0, 'traces': 0, 'states': 0, 'state_cap_hit': 0, 'max_choices': 0,
          'bound': 0, 'outcomes': {}, 'known': {}, 'samples': [], 'fail': None, 'wall': 0, 'cut': 0, 'mode': mode, 'exe': relative(exe), 'digests': []}
    if rec.get('exe') == st['exe'] and rec.get('mode') == mode:
        r = subprocess.run([exe, exe + '.replay', tier, '1', str(hang), mode, str(rec['root']), *map(str, rec['choices'])],
                           cwd=dir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout[-3000:])
        st['execs'] = st['roots'] = 1
        if r.returncode == 1:
            st['fail'] = {'kind': 1, 'msg': r.stdout[-1500:], 'where': rec.get('where'), 'root': rec['root'], 'choices': rec['choices']}
    return st


def left():
    """Seconds until a check stops exploring."""
    return float(os.environ.get('PBMC_DEADLINE', 'inf')) - time.time()


def run_harness(exe, dir, tier, mode='-', workers=None, hang=20):
    rec = replaying()
    if rec is not None and 'variants' not in rec:
        return replay_harness(exe, dir, tier, mode, hang, rec)
    st = exe + '.' + (mode.replace('/', '_') or 'x') + '.json'
    if os.path.exists(st):
        os.unlink(st)
    t0 = time.time()
    log = open(exe + '.log', 'w')
    r = subprocess.run([exe, st, tier, str(workers or NPROC), str(hang), mode], cwd=dir, env=env(),
                       stdout=log, stderr=subprocess.STDOUT, timeout=max(60, left() + 70))
    log.close()
    if not os.path.exists(st):
        raise RuntimeError(f'harness gave no statistics (exit {r.returncode}): ' + open(exe + '.log').read()[-2000:])
    s = json.load(open(st))
    s['wall'] = round(time.time() - t0, 2)
    s['mode'] = mode
    s['exe'] = relative(exe)
    if s['fail']:
        s['log'] = open(exe + '.log').read()[:4000]
    return s
