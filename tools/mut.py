#!/usr/bin/env python3
"""development aid: mut.py CHECKS FILE OLD NEW [OLD NEW...]: run checks against a scratch copy of /repo with the text replaced"""
import os, shutil, subprocess, sys
D = '/tmp/mutrepo%d' % os.getpid()
def main():
    checks, fil, reps = sys.argv[1].split(','), sys.argv[2], sys.argv[3:]
    shutil.rmtree(D, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', D], check=True)
    p = os.path.join(D, fil)
    s = open(p).read()
    for o, n in zip(reps[::2], reps[1::2]):
        if o not in s:
            print('NOT FOUND', repr(o)); return 3
        s = s.replace(o, n, 1)
    open(p, 'w').write(s)
    env = dict(os.environ, EML_REPO=D)
    for c in checks:
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, universal_newlines=True, cwd='/verif')
        print('%s rc=%d %s' % (c, r.returncode, ' | '.join(l[:230] for l in r.stdout.strip().split("\n")[-5:]) if r.returncode else ''))
    shutil.rmtree(D, ignore_errors=True)
sys.exit(main())
