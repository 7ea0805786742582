"""P09: failing file operations."""
import os
import shutil
import subprocess
import build
import plib
import p07

LIMIT = {'faults': 600}
# language, input files, output directory, what is there before, -I
SCENARIOS = [('c', ('graph',), 'a/b', 'nothing', ('inc',)),
             ('c', ('user', 'own'), 'out', 'old', ('inc',)),
             ('u', ('own',), '.', 'other', ('inc',)),
             ('rust', ('graph', 'other'), 'out', 'old', ('inc',)),
             ('mys', ('other', 'graph'), 'out', 'other', ('inc',)),
             ('c', ('no_pkg', 'user', 'graph'), 'out', 'half', ('nosuch', 'src', 'inc'))]
FAULTS = {'open': ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'EISDIR', 'ENOMEM', 'EINTR', 'KILL', 'ELOOP'],
          'read': ['EIO', 'EISDIR', 'EINTR', 'SHORT', 'KILL', 'ENOMEM'],
          'close': ['EIO', 'KILL', 'EINTR'],
          'openw': ['ENOSPC', 'EACCES', 'EROFS', 'EISDIR', 'ENOENT', 'EMFILE', 'EIO', 'EINTR', 'KILL', 'ETXTBSY', 'EPERM', 'ENOTDIR', 'EDQUOT', 'EEXIST'],
          'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EINTR', 'SHORT', 'KILL'],
          'closew': ['EIO', 'ENOSPC', 'EDQUOT', 'KILL', 'EINTR'],
          'mkdir': ['EACCES', 'ENOSPC', 'EROFS', 'ENOENT', 'EEXIST', 'EIO', 'ENOTDIR', 'EPERM', 'KILL'],
          'mkdir existing': ['EACCES', 'EROFS', 'EEXIST', 'ENOSPC', 'KILL'],
          'opendir': ['EACCES', 'KILL'], 'unlink': ['EACCES', 'EIO', 'KILL'], 'fsync': ['EIO', 'ENOSPC', 'KILL'], 'truncate': ['EIO', 'KILL'],
          'rename': ['EIO', 'ENOSPC', 'EACCES', 'KILL']}
# The faults that are combined with another one.
FEW = {'open': ['EIO', 'ENOENT'], 'read': ['EIO', 'SHORT', 'EINTR'], 'close': ['EIO'], 'openw': ['ENOSPC', 'EINTR'], 'write': ['ENOSPC', 'SHORT', 'EINTR'],
       'closew': ['EIO'], 'mkdir': ['EACCES', 'EEXIST'], 'mkdir existing': ['EEXIST']}
HARD = ('open', 'read', 'openw', 'write', 'closew', 'mkdir', 'rename')
SOFT = ('EINTR', 'SHORT')
MAX_OPS = 70


def cases_faults(tier):
    for s in range(len(SCENARIOS)):
        yield s, 0, 0
        for k in range(1, MAX_OPS):
            for f in range(max(map(len, FAULTS.values()))):
                yield s, k, f


def prepare(w, s):
    """The state before, and the result that is expected."""
    lang, files, out, before, inc = SCENARIOS[s]
    top = w.path('fs')
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(w.path('src'), os.path.join(top, 'src'))
    o = os.path.normpath(os.path.join(top, out))
    os.makedirs(os.path.dirname(o) if before == 'nothing' and out == 'out' else top, exist_ok=True)
    want = w.want[s]
    extra = {}
    if before != 'nothing':
        os.makedirs(o, exist_ok=True)
        for i, (n, d) in enumerate(sorted(want.items())):
            if before == 'old' or before == 'half' and i % 2:
                open(os.path.join(o, n), 'wb').write(b'/* old */\n' + d + d)
        extra = {'notes.txt': b'mine', 'zz.c': b'also mine'}
        for n, d in extra.items():
            open(os.path.join(o, n), 'wb').write(d)
    return top, o, extra


def run(w, s, plan):
    lang, files, out, before, inc = SCENARIOS[s]
    top, o, extra = prepare(w, s)
    log = w.path('ops')
    if os.path.exists(log):
        os.unlink(log)
    a = p07.argv(lang, out, [os.path.join('src', f + '.proto') for f in files], [os.path.join('src', i) for i in inc])
    e = build.env()
    e.update(LD_PRELOAD=w.so, PBF_ROOT=top + '/', PBF_PLAN=','.join(f'{k}:{f}' for k, f in plan), PBF_LOG=log, PYTHONHASHSEED='0')
    r = subprocess.run([build.PY, '-B', '-m', 'pbtools', *a], cwd=top, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=60)
    w.transitions += 1
    w.traces += 1
    ops = [l.rstrip('\n').split('\t') for l in open(log)] if os.path.exists(log) else []
    desc = f'{" ".join(a)} with ' + (', '.join(f'{x[3]} at operation {x[0]} ({x[1]} {x[2]})' for x in ops if x[3] != '-') or 'no fault')
    hit = [x for x in ops if x[3] != '-']
    got = p07.outputs2(o) if os.path.isdir(o) else {}
    for n, d in extra.items():
        if got.pop(n, None) != d:
            raise plib.Bad(f'{desc}: {n} in the output directory is changed')
    killed = any(x[3] == 'KILL' for x in hit)
    if killed:
        if r.returncode != -9:
            raise RuntimeError(f'{desc}: not killed: {r.returncode}')
        w.out('killed')
    else:
        if r.returncode < 0 or 'Traceback (most recent call' in r.stderr:
            raise plib.Bad(f'{desc}: exit status {r.returncode}: {r.stderr[-1000:]}')
        if r.returncode == 0 and any(got.get(n) != d for n, d in w.want[s].items()):
            bad = [n for n, d in w.want[s].items() if got.get(n) != d]
            raise plib.Bad(f'{desc}: exit status 0, but {", ".join(bad)} missing or not complete')
        if any(x[3] not in SOFT and x[1] in HARD for x in hit):
            if r.returncode == 0:
                raise plib.Bad(f'{desc}: exit status 0')
            w.out('reported')
        elif any(x[3] not in SOFT or x[1] in ('close', 'closew') for x in hit):
            w.out('free: exit status %d' % r.returncode)
        elif r.returncode:
            raise plib.Bad(f'{desc}: exit status {r.returncode}, {r.stderr!r}')
        else:
            w.out('complete')
        if r.returncode and not r.stderr.strip():
            raise plib.Bad(f'{desc}: exit status {r.returncode} without a message')
    if r.returncode:
        # What is left behind does not disturb the next run.
        st, err, exc = plib.cli(a, cwd=top)
        got = p07.outputs2(o)
        if st or any(got.get(n) != d for n, d in w.want[s].items()):
            raise plib.Bad(f'{desc}: the next run, without faults, gives {st} {err}: {p07.diff(got, w.want[s])}')
        w.transitions += 1
    return ops


def check_faults(w, case):
    s, k, f = case
    if not hasattr(w, 'so'):
        w.so = w.path('faultfs.so')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', w.so, os.path.join(build.HERE, 'faultfs.c'), '-ldl'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError(r.stdout)
        w.want, w.log, w.base = {}, {}, {}
        p07.setup(w, 'src')
    if s not in w.log:
        lang, files = SCENARIOS[s][:2]
        w.want[s] = {}
        for n in files:
            st, err, exc, out = p07.baseline(w, ('g', lang, n), (0, 0))
            if st or exc:
                raise plib.Bad(f'{n}: {err} {exc}')
            w.want[s].update(out)
        w.log[s] = run(w, s, ())
        if not w.log[s] or len(w.log[s]) >= MAX_OPS:
            raise RuntimeError(f'{len(w.log[s])} file operations')
    ops = w.log[s]
    if k == 0:
        return
    if k > len(ops) or f >= len(FAULTS[ops[k - 1][1]]):
        w.states -= 1
        return
    op = ops[k - 1][1]
    fault = FAULTS[op][f]
    after = run(w, s, ((k, fault),))
    few = FEW if not w.thorough else FAULTS
    if fault == 'KILL' or fault not in few.get(op, ()) or not w.thorough and fault not in SOFT + ('EEXIST', 'ENOSPC', 'EIO'):
        return
    for x in after[k:]:
        for f2 in few.get(x[1], ()) if w.thorough or fault in SOFT else FEW.get(x[1], ())[:1]:
            if not w.thorough and fault in SOFT and x[1] != op and int(x[0]) > k + 4:
                continue
            w.states += 1
            run(w, s, ((k, fault), (int(x[0]), f2)))
