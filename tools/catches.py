#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), m['property']))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read().split('\n## Planted bugs')[0].rstrip('\n')
s += '''

## Planted bugs

Every change in `seeded/` was confirmed to compile, to pass the repository's tests and to fail its demonstration, and was run against the quick
check of its own property, which catches it ("caught by"). Most are caught by other checks, too (a decoding bug by almost all of them); those are
not listed. Changes that a check missed when they were planted led to more cases or finer observation: bulk and huge files for every writer (C03, C16),
more than 256 tracks or chunks (C01, C11), ticks beyond 32 bits (C10), exact rational times (C10, C24), bystander events between any two related ones
(C08, C14, C17), names of input files (C15, C22), full devices (C22), `null` for an empty list (C20), templates kept between disassemblies (C18, C25)
and, with the race detector, state shared between goroutines (C26). None is missed now.

| change | needs | breaks | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
