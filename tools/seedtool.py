#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
 mk SPEC.py           SPEC defines seeds = [dict(id, property, file|files, edits=[(old,new)] or {file: edits}, needs, what, demo)]
 run [ID...]          applies each planted bug to a scratch copy and runs the property's check there
"""
import sys, os, subprocess, json, shutil, tempfile, runpy, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
BASE = '09e8b64'
PY = '/opt/venv/bin/python'
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix='seedcopy_'); r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r
def env_for(r, d):
    e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=d, HOME=d, PYTHONHASHSEED='0')
    return e
def tests(r, d):
    for f in ('simim/resources/rootpath.txt', 'tests/simim_resources', 'tests/test_root.txt', 'raw', 'meta.npy', 'meta_snaps.npy', 'data.hdf5'):
        f = os.path.join(r, f); shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else (os.path.exists(f) and os.unlink(f))
    e = env_for(r, d); data = os.path.join(d, 'data'); os.makedirs(data, exist_ok=True)
    subprocess.run([PY, '-c', 'from simim import setupsimim; setupsimim()'], input='%s\ny\n' % data, text=True, cwd=r, env=e, capture_output=True)
    x = os.path.join(d, 'junit.xml')
    p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], cwd=r, env=e)
    p2 = sh(['python3', '/opt/vp/results.py', os.path.join(d, 'out.json'), 'junit:' + x])
    o = json.load(open(os.path.join(d, 'out.json'))); b = json.load(open('/opt/vp/BASELINE.json'))
    return [t for t in b['stable'] if t not in o['passed']]
def mk(spec):
    for s in runpy.run_path(spec)['seeds']:
        ed = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
        d, r = copy(); out = os.path.join(SEED, s['id'])
        try:
            ok = True
            for f, prs in ed.items():
                t = open(os.path.join(r, f)).read(); base = sh(['git', '-C', '/repo', 'show', BASE + ':' + f]).stdout
                for a, b in prs:
                    if t.count(a) != 1: print(s['id'], 'EDIT COUNT', t.count(a), repr(a)); ok = False; continue
                    t = t.replace(a, b)
                open(os.path.join(r, f), 'w').write(t)
            if not ok: continue
            df = sh(['git', '-C', r, 'diff']).stdout
            bl = set()
            for f in ed: bl |= set(l.strip() for l in sh(['git', '-C', '/repo', 'show', BASE + ':' + f]).stdout.split('\n'))
            rem = [l[1:].strip() for l in df.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
            bad = [l for l in rem if l not in bl]
            if bad: print(s['id'], 'NOT ORIGINAL LINES', bad)
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(df)
            open(os.path.join(out, 'demo.py'), 'w').write(s['demo'])
            open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            a = sh(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', env=env_for('/repo', d)); b = sh(['bash', os.path.join(out, 'demo.sh')], cwd=r, env=env_for(r, d))
            tl = tests(r, d)
            good = a.returncode == 0 and b.returncode != 0 and not tl and not bad
            print(s['id'], 'OK' if good else 'BAD', 'demo', a.returncode, b.returncode, 'tests lost', tl)
            if a.returncode: print(a.stderr[-600:])
            elif b.returncode: print('    ', b.stderr.strip().split('\n')[-1][:200])
            if not good: shutil.rmtree(out)
        finally: shutil.rmtree(d, ignore_errors=True)
def run(ids):
    for i in ids or sorted(os.listdir(SEED)):
        m = json.load(open(os.path.join(SEED, i, 'meta.json'))); d, r = copy()
        try:
            p = sh(['git', '-C', r, 'apply', os.path.join(SEED, i, 'patch.diff')])
            if p.returncode: print(i, 'DOES NOT APPLY', p.stderr[:200]); continue
            t0 = time.time()
            c = sh([os.path.join(HERE, 'check'), m['property']], cwd=HERE, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=d))
            print(i, m['property'], 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + m['property'] in c.stdout else 'MISSED rc=%d' % c.returncode, '%.0fs' % (time.time() - t0),
                  ' | '.join(l.strip()[:170] for l in c.stdout.split('\n') if l.strip().startswith('obligation'))[:400]); sys.stdout.flush()
        finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    mk(sys.argv[2]) if sys.argv[1] == 'mk' else run(sys.argv[2:])
