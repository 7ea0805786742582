"""Deviation bounded enumeration: every run of a program that draws choices
with at most a number of choices that differ from the default (0)."""


class Ch:
    def __init__(self, prefix):
        self.prefix, self.i, self.sizes, self.taken = prefix, 0, [], []

    def pick(self, n):
        v = self.prefix[self.i] if self.i < len(self.prefix) else 0
        if v >= n:
            v = 0
        self.i += 1
        self.sizes.append(n)
        self.taken.append(v)
        return v

    def of(self, seq):
        return seq[self.pick(len(seq))]


def runs(program, bound):
    """Yields (choices, result) of every run with at most bound deviations."""
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        ch = Ch(prefix)
        r = program(ch)
        yield tuple(ch.taken), r
        if used >= bound:
            continue
        for pos in range(len(ch.sizes) - 1, len(prefix) - 1, -1):
            for v in range(ch.sizes[pos] - 1, 0, -1):
                stack.append((tuple(ch.taken[:pos]) + (v,), used + 1))
