"""Worker process of the P-checks: enumerates the cases of one check and runs
its share on the real pbtools from /repo.

pyw.py MODULE NAME WORKER WORKERS TIER DIR OUT [REPLAY]"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


from plib import Bad, Hang, W, tup


def main():
    mod, name, k, n, tier, dir, out = sys.argv[1:8]
    m = importlib.import_module(mod)
    w = W(int(k), int(n), tier, dir)
    os.makedirs(dir, exist_ok=True)
    os.chdir(dir)
    check = getattr(m, 'check_' + name)
    res = {'violation': None, 'error': None, 'cut': None}
    deadline = float(os.environ.get('PBMC_DEADLINE', 'inf'))

    hung = []

    def alarm(*a):
        # pbtools catches every exception.
        hung.append(1)
        raise Hang()
    # The limit is processor time, so that a busy machine does not matter. The
    # wall clock is only for what waits forever.
    signal.signal(signal.SIGPROF, alarm)
    signal.signal(signal.SIGALRM, alarm)
    limit = getattr(m, 'LIMIT', {}).get(name, 30)

    def one(case):
        w.case = case
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.setitimer(signal.ITIMER_REAL, 8 * limit)
        del hung[:]
        slow = {'msg': f'does not terminate within {limit} s', 'case': case}
        try:
            check(w, case)
            if hung:
                return slow
        except Bad as e:
            return slow if hung else {'msg': str(e), 'case': case}
        except Hang:
            return slow
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    try:
        if len(sys.argv) > 8:
            rec = json.load(open(sys.argv[8]))
            res['violation'] = one(tup(rec['replay']['case']))
        else:
            for i, case in enumerate(getattr(m, 'cases_' + name)(tier)):
                if i % w.n != w.k:
                    continue
                if time.time() > deadline:
                    res['cut'] = i
                    break
                w.states += 1
                v = one(case)
                if v:
                    v['index'] = i
                    res['violation'] = v
                    break
                if len(w.samples) < 2 and i // w.n in (1, 40):
                    w.samples.append(json.dumps(case)[:500])
            end = getattr(m, 'end_' + name, None)
            if end and not res['violation']:
                try:
                    end(w)
                except Bad as e:
                    res['violation'] = {'msg': str(e), 'case': w.case, 'index': 0}
    except Exception:
        res['error'] = traceback.format_exc()[-3000:] + '\ncase: ' + json.dumps(w.case, default=str)[:2000]
    res.update(states=w.states, transitions=w.transitions, traces=w.traces, samples=w.samples,
               outcomes=w.outcomes, knowns=w.knowns)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
