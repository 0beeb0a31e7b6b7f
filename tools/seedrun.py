#!/usr/bin/env python3
"""development aid: seedrun.py [--tests] [--all] ID...: validate planted bugs in scratch copies (mount namespace), run their checks"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = '/tmp/sr'
def sh(cmd, d, timeout=900, ns=True, env=None):
    if ns:
        cmd = ['unshare', '-Urm', 'sh', '-c', 'mount --bind %s /repo && cd /repo && %s' % (d, cmd)]
    else:
        cmd = ['sh', '-c', cmd]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return r.returncode, r.stdout
def one(sid, tests, allc):
    d = os.path.join(ROOT, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    out = {}
    src = '/verif/seeded/' + sid
    dem = '/tmp/sr/demo_' + sid
    shutil.rmtree(dem, ignore_errors=True)
    shutil.copytree(src, dem, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    meta = json.load(open(src + '/meta.json'))
    try:
        rc, o = sh('bash %s/demo.sh' % dem, d, 300)
        out['demo_clean'] = rc
        if rc: out['demo_clean_out'] = o[-600:]
        rc, o = sh('git apply --check %s/patch.diff && git apply %s/patch.diff' % (src, src), d)
        out['apply'] = rc
        if rc: out['apply_out'] = o[-300:]; return out
        rc, o = sh('bash /opt/vp/build.sh', d)
        out['build'] = rc
        if rc: out['build_out'] = o[-500:]
        rc, o = sh('bash %s/demo.sh' % dem, d, 300)
        out['demo_bug'] = rc
        out['demo_bug_out'] = o[-250:]
        if tests:
            rc, o = sh('bash /opt/vp/test.sh /repo/build/res.json', d, 1500)
            res = json.load(open(d + '/build/res.json'))
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            ps = set(res.get('passed', res.get('pass', [])))
            bad = [t for t in st if t not in ps]
            out['tests_broken'] = bad[:5]
        ids = [meta['property']]
        if allc:
            ids = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
        out['checks'] = {}
        for i in ids:
            e = dict(os.environ, EML_REPO=d, VERIF_EVID='/tmp/sr/evid_' + sid)
            rc, o = sh('cd /verif && python3 check.py %s' % i, d, 900, ns=False, env=e)
            out['checks'][i] = (rc, [l[:200] for l in o.strip().split('\n')[-3:]] if rc else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dem, ignore_errors=True)
        shutil.rmtree('/tmp/sr/evid_' + sid, ignore_errors=True)
    return out
def main():
    a = sys.argv[1:]
    tests, allc = '--tests' in a, '--all' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir('/verif/seeded'))
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for sid, r in zip(ids, ex.map(lambda s: one(s, tests, allc), ids)):
            ok = r.get('demo_clean') == 0 and r.get('apply') == 0 and r.get('build') == 0 and r.get('demo_bug') not in (0, None) and not r.get('tests_broken')
            p = json.load(open('/verif/seeded/%s/meta.json' % sid))['property']
            c = r.get('checks', {}).get(p, (None, ''))
            print(sid, 'VALID' if ok else 'INVALID', 'CAUGHT' if c[0] == 1 else 'MISSED rc=%s' % (c[0],))
            if not ok: print('   ', {k: v for k, v in r.items() if k != 'checks'})
            else: print('   ', c[1][0] if c[1] else '', '| demo:', r.get('demo_bug_out', '').strip().replace('\n', ' / ')[-150:])
            for k, v in r.get('checks', {}).items():
                if k != p and v[0]: print('    also', k, v[0], v[1][:1])
            sys.stdout.flush()
main()
