"""Common parts of the P-check workers."""
import contextlib
import io
import os
import sys
import traceback


class Bad(Exception):
    """A violation."""


class Hang(BaseException):
    pass


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


class W:
    def __init__(self, k, n, tier, dir):
        self.k, self.n, self.tier, self.dir = k, n, tier, dir
        self.thorough = tier == 'thorough'
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.outcomes = {}
        self.knowns = {}
        self.case = None
        self.upper = False

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return p

    def out(self, what):
        self.outcomes[what] = self.outcomes.get(what, 0) + 1

    def known(self, key, detail):
        self.knowns.setdefault(key, detail)

    def bad(self, msg):
        raise Bad(msg)


def cli(args, cwd=None):
    """Runs the command line tool in this process. (status, stderr, escaped exception or None)"""
    import pbtools
    err, out = io.StringIO(), io.StringIO()
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ['pbtools'] + args
    status, exc = 0, None
    if cwd:
        os.chdir(cwd)
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            try:
                pbtools._main()
            except SystemExit as e:
                if e.code is None or isinstance(e.code, int):
                    status = e.code or 0
                else:
                    err.write(str(e.code) + '\n')
                    status = 1
    except Hang:
        raise
    except BaseException:
        status, exc = 1, traceback.format_exc()
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return status, err.getvalue(), exc
