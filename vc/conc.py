"""Concrete interpretation of the contracts on the real code (CPython + real numpy/h5py/astropy).
 conc.py search PROP --seed S --cases N --time T --out F   seeded bounded search
 conc.py batch  FILE --out F                               replay of counter-models
 conc.py replay FILE                                       one replay file; exit 1 when it fails
"""
import sys, os, json, argparse, time, random, traceback, signal, tempfile, shutil, hashlib, contextlib, io, warnings
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(v, '1')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE); sys.path.insert(0, REPO)
if 'MPLCONFIGDIR' not in os.environ: os.environ['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'verif_mpl_%d' % os.getuid())

from vc import api

class Timeout(BaseException): pass
def _alarm(*a): raise Timeout()

def scratch():
    return tempfile.mkdtemp(prefix='verif_conc_')

def faster_units():
    """astropy finds the same unit conversions again for each cosmology object (40 ms); remember them"""
    import astropy.units.core as U
    f = U.UnitBase.to_system; memo = {}
    def to_system(self, system):
        k = (self.to_string(), getattr(system, '__name__', id(system)))
        if k not in memo: memo[k] = f(self, system)
        return list(memo[k])
    U.UnitBase.to_system = to_system

def setup_paths(root):
    """the library must never look at or write to the real data root"""
    import simim._paths as P
    import simim
    faster_units()
    assert os.path.realpath(simim.__file__).startswith(os.path.realpath(REPO)), simim.__file__
    rf = os.path.join(root, 'rootpath.txt')
    orig = P._SimIMPaths.__init__
    P._verif_root = root

def run_case(c, param, rng, values=None, tmp=None, limit=20):
    """-> (status, info, Conc); status in ok | skip | undecided | fail"""
    I = api.Conc(rng, values, tmp); I.prop = c.prop
    if hasattr(signal, 'setitimer'):
        signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, limit)
    import numpy as np
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            c.fn(I, **param)
        return 'ok', None, I
    except api.Skip: return 'skip', None, I
    except api.Undecided as e: return 'undecided', str(e), I
    except api.Failed as e: return 'fail', dict(obligation=e.obl, detail=e.detail), I
    except Timeout: return 'undecided', 'time limit', I
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO + '/') for f in tb)
        where = ['%s:%d %s' % (os.path.relpath(f.filename, REPO), f.lineno, f.name) for f in tb if f.filename.startswith(REPO + '/')]
        if not inrepo and os.environ.get('VERIF_DEBUG'): traceback.print_exc()
        return 'fail', dict(obligation='no-exception', detail='%s: %s' % (type(e).__name__, str(e)[:300]), where=where[-3:], harness=not inrepo,
                            trace=[] if inrepo else ['%s:%d' % (f.filename, f.lineno) for f in tb[-4:]]), I
    finally:
        if hasattr(signal, 'setitimer'): signal.setitimer(signal.ITIMER_REAL, 0)
        I.restore()
        os.chdir(cwd)

def worker(prop, seed, wid, nw, plan, t_end, tmp):
    cs = {c.id: c for c in api.CONTRACTS if c.prop == prop}
    out = {}
    d = tempfile.mkdtemp(dir=tmp); os.chdir(d)
    nviol = 0
    i = wid
    for cid, pi, k in plan[wid::nw]:
        if time.time() > t_end: break
        c = cs[cid]; p = c.params[pi]
        h = int(hashlib.sha256(('%s|%s|%d|%d' % (cid, json.dumps(p, sort_keys=True), seed, k)).encode()).hexdigest()[:12], 16)
        rec = out.setdefault(cid, dict(cases=0, ok=0, skip=0, undecided=0, fail=0, checks=0, distinct=set(), obl={}, undecided_why=[], violations=[], samples=[]))
        if rec['fail'] >= 3: continue
        t0 = time.time()
        st, info, I = run_case(c, p, random.Random(h), None, d)
        rec['t'] = rec.get('t', 0) + time.time() - t0
        rec['cases'] += 1; rec[st] += 1; rec['checks'] += I.n_checks
        if st == 'ok':
            rec['distinct'].add(hashlib.md5(json.dumps([p, I.values], sort_keys=True, default=str).encode()).hexdigest()[:12])
            if len(rec['samples']) < 1: rec['samples'].append(dict(contract=cid, param=p, inputs=I.values))
        for o, n in I.obl_hits.items(): rec['obl'][o] = rec['obl'].get(o, 0) + n
        if st == 'undecided' and len(rec['undecided_why']) < 3: rec['undecided_why'].append(str(info)[:200])
        if st == 'fail':
            rec['violations'].append(dict(contract=cid, param=p, values=I.values, seed=h, **info))
        for f in os.listdir(d):
            q = os.path.join(d, f)
            shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
    for r in out.values(): r['distinct'] = sorted(r['distinct'])
    os.chdir('/')
    return out

def search(a):
    import multiprocessing as mp
    api.load_contracts()
    cs = [c for c in api.CONTRACTS if c.prop == a.prop and (not a.contract or c.name == a.contract)]
    import simim.map.gridder
    import simim
    tmp = scratch(); setup_paths(tmp)
    tw = sum(c.weight for c in cs) or 1
    plan = []
    for c in cs:
        n = max(4 * len(c.params), int(a.cases * c.weight / tw))
        for k in range(n):
            pi = k % len(c.params)
            plan.append((c.id, pi, k))
    random.Random(a.seed).shuffle(plan)
    nw = min(a.jobs, max(1, len(plan)))
    t_end = time.time() + a.time
    merged = {}
    try:
        pool = mp.get_context('fork').Pool(nw)
        rs = [pool.apply_async(worker, (a.prop, a.seed, w, nw, plan, t_end, tmp)) for w in range(nw)]
        for r in rs:
            try: o = r.get(timeout=a.time + 60)
            except mp.TimeoutError: continue
            for cid, rec in o.items():
                m = merged.setdefault(cid, None)
                if m is None: merged[cid] = rec; continue
                for k in ('cases', 'ok', 'skip', 'undecided', 'fail', 'checks', 't'): m[k] = m.get(k, 0) + rec.get(k, 0)
                m['distinct'] = sorted(set(m['distinct']) | set(rec['distinct']))
                for k, v in rec['obl'].items(): m['obl'][k] = m['obl'].get(k, 0) + v
                m['violations'] += rec['violations']; m['undecided_why'] = (m['undecided_why'] + rec['undecided_why'])[:5]
                m['samples'] = (m['samples'] + rec['samples'])[:2]
        pool.terminate()
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return dict(planned=len(plan), contracts=merged)

def find(cid):
    for c in api.CONTRACTS:
        if c.id == cid: return c
    raise SystemExit('no contract ' + cid)

def batch(items):
    api.load_contracts()
    tmp = scratch(); setup_paths(tmp); cwd = os.getcwd(); os.chdir(tmp)
    out = []
    try:
        for it in items:
            st, info, I = run_case(find(it['contract']), it['param'], random.Random(it.get('seed', 0)), it.get('values') or {}, tmp)
            out.append(dict(status=st, info=info, values=I.values, used=I.used_given))
    finally:
        os.chdir(cwd); shutil.rmtree(tmp, ignore_errors=True)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode'); ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--cases', type=int, default=400)
    ap.add_argument('--time', type=float, default=15); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--out'); ap.add_argument('--contract')
    a = ap.parse_args()
    if a.mode == 'search':
        r = search(a)
        if a.out: json.dump(r, open(a.out, 'w'), default=str)
        else:
            for cid, m in r['contracts'].items():
                print('%-34s cases=%d ok=%d skip=%d undec=%d fail=%d checks=%d distinct=%d t=%.1f' % (cid, m['cases'], m['ok'], m['skip'], m['undecided'], m['fail'], m['checks'], len(m['distinct']), m['t']), m['undecided_why'][:1])
                for v in m['violations'][:3]: print('    FAIL', json.dumps({k: v[k] for k in v if k != 'values'}, default=str)[:700]); print('      ', json.dumps(v['values'])[:500])
    elif a.mode == 'batch':
        json.dump(batch(json.load(open(a.prop))), open(a.out, 'w'), default=str)
    elif a.mode == 'replay':
        it = json.load(open(a.prop))
        if it.get('no_failing_input'):
            print('This violation has no failing input: the obligation below was not discharged.'); print(json.dumps(it, indent=1)); sys.exit(1)
        r = batch([it])[0]
        print(json.dumps(dict(contract=it['contract'], param=it['param'], inputs=r['values'], status=r['status'], info=r['info']), indent=1, default=str))
        sys.exit(1 if r['status'] == 'fail' else 0)
if __name__ == '__main__': main()
