#!/usr/bin/env python3
"""seedcheck.py ID [--checks C01,C02|all]: apply seeded/<ID>/patch.diff to /repo, build, run the stable tests and the demo,
run checks, undo.  Development helper; no check uses it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    sid = sys.argv[1]
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    checks = [meta['property']]
    fast = '--fast' in sys.argv
    for i, a in enumerate(sys.argv):
        if a == '--checks':
            checks = sys.argv[i + 1].split(',')
    assert not sh('git -C /repo status --short').stdout.strip(), '/repo not clean'
    res = {}
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(sid, 'patch does not apply', r.stderr[:300]); return 1
    try:
        if not fast:
            r = sh('bash /opt/vp/build.sh')
            res['build'] = r.returncode
            if r.returncode:
                print(r.stdout[-1500:])
            sh('bash /opt/vp/test.sh /tmp/sc.json')
            o = json.load(open('/tmp/sc.json')); b = json.load(open('/opt/vp/BASELINE.json'))
            res['tests_missing'] = len(set(b['stable']) - set(o['passed']))
            res['demo_patched'] = sh('bash %s/demo.sh' % d, cwd='/repo').returncode
        env = dict(os.environ)
        for c in checks:
            r = sh('python3 %s/check.py %s quick' % (V, c), env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[c] = (r.returncode, len(v), [l.strip()[:180] for l in r.stdout.splitlines() if l.startswith('  ') and 'undecided' not in l][:2])
    finally:
        sh('git -C /repo checkout -- .')
        if not fast:
            sh('bash /opt/vp/build.sh')
    if not fast:
        res['demo_clean'] = sh('bash %s/demo.sh' % d, cwd='/repo').returncode
    print(sid, json.dumps(res))
    return 0
sys.exit(main())
