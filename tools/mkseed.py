"""development aid: writes /verif/seeded/<id>/ from an edit specification (used by tools/seeds_*.py)"""
import difflib, json, os, subprocess, shutil, sys
REPO = '/repo'
def c_demo(c, cxx=False, flags='', extra=''):
    comp = 'g++ -std=gnu++11' if cxx else 'gcc -std=gnu99'
    return {'demo.' + ('cpp' if cxx else 'c'): c, 'demo.sh': '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
%s -w %s -I/repo/emlearn "$HERE/demo.%s" -o demo -lm || { echo "does not compile"; exit 1; }
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo %s
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ]
''' % (comp, flags, 'cpp' if cxx else 'c', extra)}
ASAN = '-g -fsanitize=address,undefined -fno-sanitize-recover=all'
def py_demo(p):
    return {'demo.py': p, 'demo.sh': '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PATH=/opt/venv/bin:$PATH
timeout 280 /opt/venv/bin/python -W ignore "$HERE/demo.py"
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ]
'''}
def seed(sid, prop, edits, demo, needs, breaks, only=None):
    sel = sys.argv[1:]
    if sel and sid not in sel:
        return
    d = '/verif/seeded/' + sid
    patch = ''
    files = {}
    for f, o, n in edits:
        s = files.get(f) or open(os.path.join(REPO, f)).read()
        if s.count(o) < 1:
            print('NOT FOUND', sid, f, repr(o)); return
        if s.count(o) > 1:
            print('AMBIGUOUS', sid, f, repr(o[:60]), s.count(o))
        files[f] = s.replace(o, n, 1)
    for f, s in files.items():
        a = open(os.path.join(REPO, f)).read().splitlines(True)
        b = s.splitlines(True)
        for l in difflib.unified_diff(a, b, 'a/' + f, 'b/' + f):
            patch += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(patch)
    for k, v in demo.items():
        open(os.path.join(d, k), 'w').write(v)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'], stderr=subprocess.PIPE, universal_newlines=True)
    print(sid, 'ok' if r.returncode == 0 else 'DOES NOT APPLY ' + r.stderr)
