"""python3-vt -m vc.prove PROP [--contract NAME] [--budget S] -> json on stdout/--out"""
import sys, os, json, argparse, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import api

def job(a):
    i, param, opts = a
    from vc import sym
    c = api.CONTRACTS[i]
    return sym.run_instance(c, param, opts)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--contract'); ap.add_argument('--param'); ap.add_argument('--budget', type=float, default=60)
    ap.add_argument('--timeout', type=int, default=10000); ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--out'); ap.add_argument('-v', action='store_true'); ap.add_argument('--repo', default='/repo')
    ap.add_argument('--total', type=float, default=600)
    ap.add_argument('--deep', action='store_true')
    a = ap.parse_args()
    api.load_contracts()
    opts = dict(budget=a.budget, timeout_ms=a.timeout, repo=a.repo, deep=a.deep)
    jobs = []
    for i, c in enumerate(api.CONTRACTS):
        if c.prop != a.prop or not c.sym: continue
        if a.contract and c.name != a.contract: continue
        for p in c.params:
            if a.param and json.dumps(p) != a.param: continue
            sh = c.shards(p) if callable(c.shards) else c.shards
            for k in range(sh): jobs.append((i, p, dict(opts, shard=(k, sh) if sh > 1 else None)))
    t0 = time.time(); out = []
    if a.jobs == 1:
        out = [job(j) for j in jobs]
    else:
        pool = mp.get_context('fork').Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=1)
        rs = [(j, pool.apply_async(job, (j,))) for j in jobs]
        for j, r in rs:
            left = max(1, a.total - (time.time() - t0))
            try: out.append(r.get(timeout=left))
            except mp.TimeoutError: out.append(dict(contract=api.CONTRACTS[j[0]].id, param=j[1], obligations=[], unsupported=[], complete=0, error=None, limit='wall', functions=[], stats={}))
            except Exception as ex: out.append(dict(contract=api.CONTRACTS[j[0]].id, param=j[1], obligations=[], unsupported=[], complete=0, error=repr(ex), limit=None, functions=[], stats={}))
        pool.terminate()
    if a.out: json.dump(out, open(a.out, 'w'))
    if a.v or not a.out:
        for r in out:
            n = len(r['obligations']); k = sum(o['status'] == 'proved' for o in r['obligations'])
            print('%-40s %-24s %d/%d proved, paths=%s complete=%s reach=%s wall=%s limit=%s unsupported=%d' % (r['contract'], json.dumps(r['param']), k, n, r['stats'].get('paths'), r['complete'], r.get('reach'), r.get('wall'), r['limit'], len(r['unsupported'])))
            if r['error']: print('   ERROR', r['error'])
            seen = set()
            for u in r['unsupported']:
                if u['why'] + u['where'] not in seen:
                    seen.add(u['why'] + u['where']); print('   UNSUPPORTED', u['why'], u['where'], u['path'])
            sh = 0; seen = set()
            for o in r['obligations']:
                if o['status'] != 'proved':
                    k = (o['name'], str(o.get('goal'))[-200:])
                    if k in seen: continue
                    seen.add(k)
                if o['status'] != 'proved' and sh < (5 if a.v else 3):
                    sh += 1; print('   ', o['status'], o['name'], o.get('path'), ' '.join(str(o.get('goal'))[-(600 if a.v else 300):].split()), json.dumps(o.get('model'))[:300], o.get('t'))
        print('total wall %.1f' % (time.time() - t0))
if __name__ == '__main__': main()
