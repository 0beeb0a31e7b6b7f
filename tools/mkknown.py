#!/usr/bin/env python3
"""writes KNOWN_FINDINGS.txt: the repairs (fix: commits of /repo) and the recorded findings (tools/findings.txt)"""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip('\n').split(' ', 1) for l in open(os.path.join(V, 'tools', 'fixmap.txt')) if l.strip()]
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], universal_newlines=True).splitlines()]
out = ['# fixed: defects of the pinned commit repaired by "fix:" commits in /repo (these lines suppress nothing)',
       '# finding: genuine defects that are recorded, identified by the construct that fails (key=...)']
miss = []
for h, s in log:
    if not s.startswith('fix: '):
        continue
    p = [x for x in MAP if s[5:].startswith(x[1])]
    if not p:
        miss.append(s); continue
    for pid in p[0][0].split('/'):
        out.append('fixed: property=%s %s %s' % (pid, h, s[5:]))
f = os.path.join(V, 'tools', 'findings.txt')
if os.path.exists(f):
    out += [l.rstrip('\n') for l in open(f) if l.startswith('finding: ')]
open(os.path.join(V, 'KNOWN_FINDINGS.txt'), 'w').write('\n'.join(out) + '\n')
print(len(out) - 2, 'entries; unmapped:', miss)
