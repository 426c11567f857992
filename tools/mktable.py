"""Writes the table of planted changes at the end of DESIGN.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = '## Planted changes\n'
d = open(os.path.join(V, 'DESIGN.md')).read().split(T)[0]
out = [T, '''
Each is in `seeded/<id>/` (patch, demonstration, meta).  All were confirmed in a
scratch copy: the demonstration passes without and fails with the change, the
tests pass with it.  The check named is the one of its property; every change
listed was caught by it in the quick tier when it was planted (the changes that
were first missed are marked with what was added to the check).  The workloads
changed since: in the last full run c01-bigcat was not caught at seed 1, as
catalogues of more than a thousand objects are rare in the quick tier of C01
(C02, not run there, has such catalogues in its family `large`).

| change | check | needs | breaks |
|---|---|---|---|
''']
MISSED = json.load(open(os.path.join(V, 'tools', 'missed.json')))
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    one = lambda s: ' '.join(str(s).split()).replace('|', '/')
    n = one(m['needs'])
    if i in MISSED:
        n += ' (first missed: ' + MISSED[i] + ')'
    out.append('| {} | {} | {} | {} |\n'.format(i, m['property'], n, one(m['what_it_breaks'])))
out.append('''
Beside these, mutations tried without keeping them (sizes above a threshold,
nearby redshifts, wide configurations) led to the rare large cases of
`gen.conf`, C02, C05, C06 and C12.

Quiet-ness was checked on three refactored copies of the repository (helpers
extracted, loops vectorised or rewritten, statements reordered, `np.float32`
casts moved) with every check, several seeds.

Limits: names of bandpasses with trailing blanks or characters outside ASCII
cannot be stored in a FITS file and are not generated where files are written.
''')
open(os.path.join(V, 'DESIGN.md'), 'w').write(d + ''.join(out))
