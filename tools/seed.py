#!/usr/bin/env python3
"""Planted-bug workshop (development only, no check uses it).

seed.py make ID PROP NEEDS BREAKS   < edits      edits: blocks  FILE\n<<<<\nold\n====\nnew\n>>>>\n
seed.py verify ID [--nocheck]                    build, tests, demo, and the property's check in a scratch copy
seed.py verify-all [REGEX]
"""
import sys, os, re, json, subprocess, shutil
V = '/verif'
W = os.environ.get('SEED_W', '/tmp/vpseed')
R = W + '/repo'

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R):
        subprocess.check_call(['cp', '-a', '/repo', R])
    # tracked files back to /repo's HEAD
    h = run(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout.strip()
    if run(['git', '-C', R, 'rev-parse', 'HEAD']).stdout.strip() != h:
        subprocess.check_call(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'])
        subprocess.check_call(['git', '-C', R, 'checkout', '-qf', h])
    subprocess.check_call(['git', '-C', R, 'checkout', '-qf', '.'])
    os.makedirs(W + '/opt', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        p = '/opt/vp/' + f
        if os.path.isfile(p):
            s = open(p, errors='replace').read()
            s = s.replace('/opt/vp/', W + '/opt/').replace('/repo', R)
            open(W + '/opt/' + f, 'w').write(s)

def make(sid, prop, needs, breaks, edits):
    d = '%s/seeded/%s' % (V, sid)
    os.makedirs(d, exist_ok=True)
    setup()
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', edits, re.M | re.S):
        f, old, new = m.groups()
        s = open(R + '/' + f).read()
        if s.count(old) != 1:
            sys.exit('%s: pattern occurs %d times: %s' % (f, s.count(old), old))
        open(R + '/' + f, 'w').write(s.replace(old, new))
    diff = run(['git', '-C', R, 'diff']).stdout
    if not diff:
        sys.exit('empty diff')
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', R, 'checkout', '-qf', '.'])

def verify(sid, check=True, tests=True):
    d = '%s/seeded/%s' % (V, sid)
    prop = json.load(open(d + '/meta.json'))['property']
    setup()
    out = {}
    dd = W + '/demo'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    for f in ('patch.diff', 'meta.json'):
        os.remove(dd + '/' + f)
    b = run(['bash', W + '/opt/build.sh'])
    if b.returncode:
        print(sid, 'CLEAN BUILD FAILED', b.stdout[-2000:]); return False
    r = run(['bash', dd + '/demo.sh'], cwd=R, timeout=300)
    out['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    a = run(['git', '-C', R, 'apply', d + '/patch.diff'])
    if a.returncode:
        print(sid, 'PATCH DOES NOT APPLY', a.stdout); return False
    try:
        b = run(['bash', W + '/opt/build.sh'])
        out['build'] = b.returncode
        if b.returncode: print(b.stdout[-1500:])
        if tests:
            t = run(['bash', W + '/opt/test.sh', W + '/t.json'])
            res = json.load(open(W + '/t.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = stable - set(res['passed'])
            out['tests_lost'] = len(miss)
            if miss: print('   lost:', sorted(miss)[:10])
            b = run(['bash', W + '/opt/build.sh'])
        r = run(['bash', dd + '/demo.sh'], cwd=R, timeout=300)
        out['demo_bug'] = r.returncode
        out['demo_out'] = r.stdout[-200:]
        if check:
            c = run([sys.executable, V + '/vp/run.py', prop], cwd=V, env=dict(os.environ, VP_REPO=R, VP_NOEV='1'))
            out['check'] = c.returncode
            out['check_out'] = '\n'.join(l[:200] for l in c.stdout.splitlines() if l.startswith(('VIOL', 'FAILED', 'ERROR')))[:700]
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-qf', '.'])
    good = out.get('demo_clean') == 0 and out.get('build') == 0 and not out.get('tests_lost') and out.get('demo_bug')
    print(sid, prop, 'VALID' if good else '*** INVALID', ('CAUGHT' if out.get('check') == 1 else '*** NOT CAUGHT') if check else '', json.dumps({k: v for k, v in out.items() if not k.endswith('_out')}))
    print('   ' + out.get('check_out', '').replace('\n', '\n   '))
    sys.stdout.flush()
    return good

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(*sys.argv[2:6], sys.stdin.read())
    elif sys.argv[1] == 'verify':
        verify(sys.argv[2], '--nocheck' not in sys.argv, '--notests' not in sys.argv)
    else:
        for s in sorted(os.listdir(V + '/seeded')):
            if len(sys.argv) < 3 or re.search(sys.argv[2], s):
                verify(s, tests='--notests' not in sys.argv)
