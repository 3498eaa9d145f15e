#!/usr/bin/env python3
"""Writes known_findings.json from the fix: commits in /repo.  Nothing is listed as known but unrepaired."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = dict(l.split() for l in '''7ecb377 C02
bc91e19 C01,C02,C14
ff9ed5b C02
f3c36af C02
f0afdb9 C02
5231bff C02
bc2b69b C02
6c355eb C02
76bc410 C02
2091979 C02
0d2579a C02
ba9dff4 C01
3134d6d C02
30cc36f C05
a47f9ef C05
f25dc75 C04,C05
08c4379 C14
ebbe70f C03
d742d38 C06,C11
17750a9 C07
64807a2 C07
8849cca C07
1c6a5b5 C09
bff86af C09
0ff7827 C09
80ec7b3 C01,C09
5ed10df C10
8b5b25b C10
b2e8fe0 C11
86a80c4 C01,C11
13477b4 C01,C11
c7eb524 C12
df6efe0 C12
1d5f9ff C15
ade6e29 C02
c4d8cd1 C14
4f64a8c C02
61d6322 C02
2ab9d46 C04
29d6060 C02
24ee629 C14
62c3756 C02
b9f6563 C06
7c70331 C04,C12
e59c509 C02
944f4d2 C02
d9fab79 C02
08c6c4f C05
ab68d2b C02'''.splitlines())
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        for p in P[h[:7]].split(','):
            fixed.append({'property': p, 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p, h, s[5:])})
json.dump(fixed, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
