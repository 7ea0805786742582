"""Common part of all checks: evidence, known findings, verdict."""
import json
import os
import sys
import time
from build import VERIF, Violation


def assumptions(prop):
    """What the verdict rests on, besides the code of the check."""
    out = ['x86-64 Linux, the installed gcc and Python; defects show within the stated bounds']
    if prop[0] == 'C' or prop in ('P06', 'P08'):
        if prop != 'C13':
            out.append('the reference encoder and decoder in mc/model.c, written from the encoding specification, are right')
        if prop not in ('C10', 'C14', 'C15'):
            out.append('ASan and UBSan see the accesses they are built to see')
    if prop in ('P01', 'P02', 'P03', 'P04'):
        out.append('the reference grammar, printer and resolver in mc/protoast.py are right')
    if prop == 'C10':
        out.append('sequentially consistent interleavings; every unsynchronised conflicting access is reported, so weaker memory models add nothing')
    if prop == 'C05':
        out.append('the stack suffices for the nesting depth of the input')
    if prop == 'C15':
        out.append('basic blocks counted by the compiler and bytes moved stand for work; growth is judged at powers of two')
    if prop == 'C14':
        out.append('64-bit builds by gcc and clang stand for all builds')
    if prop in ('P05', 'P10'):
        out.append('what gcc and g++ accept with the warnings of the project as errors compiles')
    if prop == 'P09':
        out.append('operations on paths outside the scratch directory succeed')
    return out


class Ctx:
    def __init__(self, prop, tier, seed, dir):
        self.prop, self.tier, self.seed, self.dir = prop, tier, seed, dir
        self.thorough = tier == 'thorough'
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.exhaustive = True
        self.assumptions = assumptions(prop)
        self.hits = {}            # known finding key -> detail
        self.t0 = time.time()
        self.parts = []

    def count(self, states=0, transitions=0, traces=0):
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def cut(self, what):
        """The exploration stopped at the time limit."""
        self.exhaustive = False
        self.cov.setdefault('stopped_at_the_time_limit', []).append(what)

    def known(self, key, detail):
        """A violation that may be a listed known finding."""
        if key not in known_keys(self.prop):
            raise Violation(f'{detail} (finding {key} is not listed)')
        self.hits.setdefault(key, detail)

    def harness(self, st, known_map=None, what=None):
        """Folds in the statistics of a C harness run; raises on a violation."""
        n = {k: st[k] for k in ('harness', 'mode', 'roots', 'execs', 'calls', 'states', 'max_choices', 'bound', 'outcomes', 'wall')}
        if what:
            n['what'] = what
        n['state_cap_hit'] = bool(st['state_cap_hit'])
        if st['cut']:
            self.cut(f'{st["harness"]} {st["mode"]} after {st["execs"]} executions')
        self.parts.append(n)
        self.count(st['states'], st['calls'], st['traces'])
        for s in st['samples'][:6]:
            self.sample(s)
        f = st['fail']
        if f:
            if f['msg'].startswith('HARNESS'):
                raise RuntimeError(f['msg'] + ' at ' + f['where'])
            msg = f'{f["msg"]} [{f["where"]}]'
            if f['kind'] == 2:
                msg += ' ' + st.get('log', '')[:1500]
            raise Violation(msg, replay={'harness': st['harness'], 'mode': st['mode'], 'exe': st['exe'], 'root': f['root'],
                                         'choices': f['choices'], 'where': f['where'],
                                         **({'what': what} if what else {})})
        for k, v in st['known'].items():
            self.known((known_map or {})[int(k)], f'{v["msg"]} ({v["count"]} executions)')


def read_known():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if w and w[0] == 'known:':
                out.append((w[1].split('=', 1)[1], w[2].split('=', 1)[1], w[3]))
    return out


def known_keys(prop):
    return {k for p, k, _ in read_known() if p == prop}


def finish(ctx, level, violation):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    wall = round(time.time() - ctx.t0, 2)
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'evaluations': ctx.transitions, 'samples': ctx.samples or ['(none)'], 'exhaustive': ctx.exhaustive and violation is None,
           **ctx.cov}
    if ctx.parts:
        cov['parts'] = ctx.parts
    if ctx.hits:
        cov['known_findings_hit'] = ctx.hits
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': wall, 'violations': 0 if violation is None else 1}
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if violation is None:
        for p, k, text in read_known():
            if p == ctx.prop:
                print(f'KNOWN-FINDING: property={p} key={k} {text}')
        print(f'OK property={ctx.prop} tier={ctx.tier} states={ctx.states} transitions={ctx.transitions} '
              f'traces={ctx.traces} wall={wall}s' + ('' if ctx.exhaustive else ' (stopped at the time limit, see the evidence)'))
        return 0
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, f'{ctx.prop}-{ctx.tier}.json')
    with open(path, 'w') as f:
        json.dump({'property': ctx.prop, 'tier': ctx.tier, 'message': str(violation), 'replay': violation.replay}, f, indent=1)
        f.write('\n')
    print(str(violation)[:3000])
    print(f'VIOLATION property={ctx.prop} replay={path}')
    sys.stdout.flush()
    return 1
