#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(m))
    by[json.load(open(m))['property']].append(n.split('-', 1)[1])
p = here + '/DESIGN.md'
s = open(p).read()
t = '| property | planted bugs |\n|---|---|\n' + ''.join(f'| {k} | {", ".join(v)} |\n' for k, v in sorted(by.items()))
s = re.sub(r'\| property \| planted bugs \|\n\|---\|---\|\n(\|.*\n)+', lambda _: t, s)
s = re.sub(r'`seeded/` has \d+ changes', f'`seeded/` has {sum(map(len, by.values()))} changes', s)
open(p, 'w').write(s)
