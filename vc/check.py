"""check PROP [--tier quick|thorough]: proves the contracts of one property on /repo's current tree,
replays counter-models and runs the seeded bounded search on the real code, writes the evidence file."""
import sys, os, json, argparse, time, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')   # development aid; the registered commands use /repo
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REAL_PY = '/opt/venv/bin/python'
VT_PY = 'python3-vt'

TRUSTED = [
 'vc/core.py, vc/arr.py, vc/snp.py, vc/loader.py: the symbolic interpreter that executes the unmodified source of /repo and emits the obligations',
 'z3 5.x / cvc5 1.1 (discharge), CPython 3.12 evaluating the Python statements of /repo',
 'numpy, scipy, h5py, astropy: assumed contracts as written in vc/snp.py, vc/opaque.py and vc/stubs.py',
 'sum extensionality meta-lemma (equal extents and pointwise equal terms give equal sums)',
]
ASSUME = [
 'floating point and fixed-width integers are treated as mathematical reals and integers in the proofs (the bounded stand-in runs the real machine arithmetic)',
 'np.round resolves exact ties upwards in the proofs (numpy: to even)',
 'numbers of spatial dimensions, properties, detectors etc. are case-split over the stated small sets; lengths, values and indices are unbounded',
]

def killpg(p):
    import signal
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(property=None, contract=None, obligation=None)
                parts = l[6:].strip().split(' | ')
                for kv in parts[0].split():
                    k, v = kv.split('=', 1); d[k] = v
                d['what'] = parts[1] if len(parts) > 1 else ''
                d['match'] = parts[2].strip() if len(parts) > 2 else None
                out.append(d)
    return out

def is_known(known, prop, v):
    for k in known:
        if k['property'] == prop and k['contract'] == v['contract'] and k['obligation'] == v['obligation']:
            if k['match']:
                try:
                    m = json.loads(k['match'])
                    if any(v['values'].get(n) != x for n, x in m.get('values', {}).items()): continue
                    if any((v.get('param') or {}).get(n) != x for n, x in m.get('param', {}).items()): continue
                except Exception: continue
            return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-search', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vc import api
    api.load_contracts()
    cs = [c for c in api.CONTRACTS if c.prop == a.prop]
    if not cs: print('no contract for', a.prop); return 3
    quick = a.tier != 'thorough'
    tmp = tempfile.mkdtemp(prefix='verif_check_')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=os.path.join(tmp, 'mpl'), HOME=tmp, PYTHONHASHSEED='0', TMPDIR=tmp)
    viols = []; notes = []
    try:
        # ---- bounded stand-in (the contracts run on the real code) and proofs, at the same time
        conc = dict(planned=0, contracts={})
        symc = [c for c in cs if c.sym]
        fc = os.path.join(tmp, 'conc.json'); fp = os.path.join(tmp, 'prove.json')
        pc = pp = None
        if not a.no_search:
            pc = subprocess.Popen([REAL_PY, os.path.join(HERE, 'vc/conc.py'), 'search', a.prop, '--seed', str(seed), '--cases', '60000' if quick else '400000',
                                '--time', '25' if quick else '300', '--out', fc], env=env, stdout=subprocess.PIPE, stderr=open(os.path.join(tmp, 'conc.err'), 'w'), text=True, start_new_session=True)
        if symc and not a.no_proof:
            pp = subprocess.Popen([VT_PY, os.path.join(HERE, 'vc/prove.py'), a.prop, '--repo', REPO, '--budget', '120' if quick else '400', '--total', '240' if quick else '500',
                                '--timeout', '10000' if quick else '60000', '--out', fp] + ([] if quick else ['--deep']), env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, 'prove.err'), 'w'), text=True, start_new_session=True)
        def tail(n): 
            try: return open(os.path.join(tmp, n)).read()[-3000:]
            except OSError: return ''
        recs = []
        seen = set()
        if pc:
            try: pc.communicate(timeout=500)
            except subprocess.TimeoutExpired: killpg(pc)
            if not os.path.exists(fc):
                err = tail('conc.err')
                print(err); print('bounded search did not run (exit %s)' % pc.returncode)
                if 'simim' in err and 'Error' in err:
                    viols.append(dict(contract=a.prop + '.import', param={}, values={}, obligation='import', detail='the package cannot be imported: ' + err[-500:], src='import', noinput=True))
                else:
                    if pp: killpg(pp)
                    return 3
            else: conc = json.load(open(fc))
        for cid, m in conc['contracts'].items():
            for v in m['violations']:
                if v.get('harness'):
                    notes.append('contract error in %s: %s %s' % (cid, v['detail'], v.get('trace')))
                v['src'] = 'bounded search'
                if (cid, v['obligation']) in seen: continue
                seen.add((cid, v['obligation'])); viols.append(v)
        if pp:
            try: pp.wait(timeout=max(5, 800 - (time.time() - t0)))
            except subprocess.TimeoutExpired: killpg(pp)
            if os.path.exists(fp): recs = json.load(open(fp))
            else: notes.append('prover did not finish: ' + tail('prove.err')[-500:])
        # ---- counter-models replayed on the real code
        cand = []
        for r in recs:
            per = {}
            for o in r['obligations']:
                if o['status'] == 'refuted' and o.get('model') is not None and per.get(o['name'], 0) < 4:
                    per[o['name']] = per.get(o['name'], 0) + 1
                    cand.append((r, o))
        confirmed = 0; spurious = 0
        if cand:
            f = os.path.join(tmp, 'batch.json'); g = os.path.join(tmp, 'batch_out.json')
            json.dump([dict(contract=r['contract'], param=r['param'], values=o['model']) for r, o in cand], open(f, 'w'))
            subprocess.run([REAL_PY, os.path.join(HERE, 'vc/conc.py'), 'batch', f, '--out', g], env=env, capture_output=True, text=True, timeout=300)
            outs = json.load(open(g)) if os.path.exists(g) else []
            for (r, o), res in zip(cand, outs):
                o['replay'] = res['status']
                if res['status'] == 'fail' and not res['info'].get('harness'):
                    confirmed += 1
                    v = dict(contract=r['contract'], param=r['param'], values=res['values'], src='counter-model of obligation %s (path %s)' % (o['name'], o.get('path')),
                             goal=o.get('goal'), **res['info'])
                    if (v['contract'], v['obligation']) not in seen:
                        seen.add((v['contract'], v['obligation'])); viols.append(v)
                elif res['status'] == 'ok': spurious += 1
        # refuted with no replayable input: reported without a failing input
        names = {}
        for r in recs:
            for o in r['obligations']:
                if o['status'] == 'refuted' and not o.get('exc') and o.get('model') is None:
                    names.setdefault((r['contract'], o['name']), (r, o))
        for (cid, nm), (r, o) in names.items():
            if any(v['contract'] == cid for v in viols): continue
            if any(x['name'] == nm and x.get('replay') == 'ok' for x in r['obligations']): continue
            viols.append(dict(contract=cid, param=r['param'], values={}, obligation=nm, detail='obligation refuted by %s: %s' % (o['backend'], o.get('goal')), src='solver', noinput=True))
        # ---- report
        known = load_known()
        rc = 0; nrep = 0
        rdir = os.path.join(HERE, 'replays') if 'VERIF_EVIDENCE' not in os.environ else EVID
        for v in viols:
            k = is_known(known, a.prop, v)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what'])); continue
            os.makedirs(rdir, exist_ok=True)
            nrep += 1
            path = os.path.join(rdir, '%s_%d.json' % (a.prop, nrep))
            json.dump(dict(v, property=a.prop, no_failing_input=bool(v.get('noinput')), replay_cmd='%s %s/vc/conc.py replay %s' % (REAL_PY, HERE, path)), open(path, 'w'), indent=1, default=str)
            print('  obligation %s of %s: %s [%s]' % (v['obligation'], v['contract'], str(v['detail'])[:300], v['src']))
            if v.get('where'): print('   at', ' / '.join(v['where']))
            print('VIOLATION property=%s replay=%s%s' % (a.prop, path, ' no-failing-input-found' if v.get('noinput') else ''))
            rc = 1
        for n in notes: print('note:', n[:600])
        # ---- evidence
        nobl = sum(len(r['obligations']) for r in recs)
        dis = sum(o['status'] == 'proved' for r in recs for o in r['obligations'])
        back = {}
        for r in recs:
            for o in r['obligations']:
                if o['status'] == 'proved': back[o['backend']] = back.get(o['backend'], 0) + 1
        inst = []
        proved_inst = 0
        for r in recs:
            n = len(r['obligations']); k = sum(o['status'] == 'proved' for o in r['obligations'])
            full = n > 0 and n == k and not r['unsupported'] and not r['limit'] and not r['error'] and r['complete'] > 0 and r.get('reach') != 'unsat'
            proved_inst += full
            ent = dict(contract=r['contract'], instance=r['param'], obligations=n, discharged=k, paths=r['stats'].get('paths'), complete_paths=r['complete'],
                       fully_proved=full, solver_s=round(r['stats'].get('solver_s', 0), 2), functions=r['functions'], wall_s=r.get('wall'))
            if r['unsupported']: ent['outside_reach'] = sorted(set(u['why'] + ' @ ' + u['where'] for u in r['unsupported']))[:6]
            if r['limit']: ent['limit'] = r['limit']
            if r['error']: ent['error'] = r['error'][-300:]
            bad = [dict(name=o['name'], status=o['status'], replay=o.get('replay'), path=o.get('path')) for o in r['obligations'] if o['status'] != 'proved']
            if bad: ent['not_discharged'] = bad[:8]
            inst.append(ent)
        bounded = {}
        for cid, m in conc['contracts'].items():
            bounded[cid] = dict(cases=m['cases'], ok=m['ok'], skipped=m['skip'], undecided=m['undecided'], postcondition_checks=m['checks'], distinct=len(m['distinct']))
        samples = [s for m in conc['contracts'].values() for s in m['samples'][:1]][:3]
        fns = sorted(set(f for r in recs for f in r['functions']))
        tot_cases = sum(m['cases'] for m in conc['contracts'].values())
        cov = dict(obligations=nobl, discharged=dis, checker_cmd='python3-vt vc/prove.py %s -v   (quick: %s vc/check.py %s)' % (a.prop, VT_PY, a.prop), trusted_base=TRUSTED,
                   backends=back, solver_s=round(sum(r['stats'].get('solver_s', 0) for r in recs), 2),
                   instances=len(recs), instances_fully_proved=proved_inst, contracts=inst,
                   functions_under_contract=sorted(set(x for c in cs for x in c.covers)), functions_executed_symbolically=fns,
                   counter_models_confirmed=confirmed, counter_models_spurious=spurious,
                   bounded=dict(label='bounded: seeded cases of the same contracts on the real code; never counted as proved', contracts=bounded),
                   evaluations=tot_cases, distinct_nontrivial=sum(len(m['distinct']) for m in conc['contracts'].values()),
                   rule='a case is one generated input satisfying the precondition for which every postcondition of the contract was evaluated on the real code; distinct by hash of instance and inputs',
                   samples=samples)
        allprops = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        level = next((c['level'] for c in allprops['checks'] if c['property'] == a.prop), 'proof')
        if level != 'proof':
            cov['explanation'] = 'contract checked on the real code by seeded bounded search; obligations discharged by the prover are reported where the function is within reach'
        ev = dict(property=a.prop, tier='quick' if quick else 'thorough', seed=seed, level=level, coverage=cov,
                  assumptions=ASSUME + sorted(set('bounded only: %s (%s)' % (c.id, (c.note or '').strip().split('\n')[0]) for c in cs if not c.sym)),
                  wall_s=round(time.time() - t0, 2), violations=nrep)
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, a.prop + '.json'), 'w'), indent=1, default=str)
        if rc == 0 and tot_cases == 0 and nobl == 0:
            print('nothing was checked'); return 3
        print('%s: %d/%d obligations discharged (%d/%d instances fully proved), %d bounded cases, %d violation(s), %.1f s' % (a.prop, dis, nobl, proved_inst, len(recs), tot_cases, nrep, time.time() - t0))
        return rc
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
