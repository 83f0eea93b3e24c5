"""check.py <property> : decides one property on /repo's current tree.
exit 0: held; exit 1 + VIOLATION line: broken."""
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

H = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(H)
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(ROOT, 'spec'))
REPO = os.environ.get('VC_REPO', '/repo')
VENV = '/opt/venv/bin/python'


def start_battery(prop, tier, seed, scratch, hints=None, tag='a'):
    out = os.path.join(scratch, f'battery_{tag}.json')
    hf = ''
    if hints:
        hf = os.path.join(scratch, 'hints.json')
        json.dump(hints, open(hf, 'w'))
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL',
               JAX_PLATFORMS='cpu', MPLBACKEND='Agg', OMP_NUM_THREADS='2', HOME=scratch, VC_REPO=REPO)
    log = open(os.path.join(scratch, f'battery_{tag}.log'), 'w')
    p = subprocess.Popen([VENV, os.path.join(ROOT, 'rt', 'run.py'), prop, tier, str(seed), out, hf], cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, out, log.name


def finish_battery(h, timeout):
    p, out, log = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.terminate()       # the stand-in writes what it has found so far
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    if os.path.exists(out):
        return json.load(open(out))
    return dict(ok=False, crashed=True, log=open(log).read()[-3000:], failures=[], cases=0)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'vc_{prop}_')
    known = []
    kf = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.strip().startswith('known:') and f'property={prop} ' in l]
    try:
        bat = start_battery(prop, tier, seed, scratch)
        import engine
        import smt
        try:
            importlib.import_module(prop.lower())
        except ImportError as e:
            if f"'{prop.lower()}'" not in str(e):
                raise
        limit = 240 if tier == 'quick' else 1500
        res = engine.run_property(prop, limit, tier, total=430 if tier == 'quick' else 2400)
        b = finish_battery(bat, max(20, (560 if tier == 'quick' else 3000) - (time.time() - t0)))
        nobl = sum(len(r['obligations']) for r in res)
        ndis = sum(o['status'] == 'proved' for r in res for o in r['obligations'])
        refuted = [(r, o) for r in res for o in r['obligations'] if o['status'] == 'refuted']
        undecided = [(r, o) for r in res for o in r['obligations'] if o['status'] == 'unknown']
        unsup = [(r, x) for r in res for x in r['unsupported']]
        vac = [r['unit'] for r in res if not r['feasible'] or not r['obligations']]
        if refuted and not b['failures']:
            hints = [o['cex'] for _, o in refuted if o.get('cex')][:20]
            hb = finish_battery(start_battery(prop, tier, seed, scratch, hints, 'b'), 230 if tier == 'quick' else 1500)
            if hb['failures']:
                b = hb
        viol = None
        if b['failures']:
            viol = 'battery'
        elif refuted:
            viol = 'obligation'
        backends = {}
        for r in res:
            for o in r['obligations']:
                if o['status'] == 'proved':
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
        complete = bool(nobl) and ndis == nobl and not unsup and not vac
        cov = dict(obligations=nobl, discharged=ndis,
                   checker_cmd=f'python3-vt pyvc/check.py {prop} {tier}  (VC generator pyvc, back ends z3 {engine.smt.z3.get_version_string()} and cvc5)',
                   trusted_base=trusted(res),
                   functions_under_contract=sorted({f for r in res for f in r['funcs']}),
                   back_ends=backends,
                   solver_seconds=round(sum(r['stats'].get('time', 0) for r in res), 2),
                   solver_queries=sum(r['stats'].get('queries', 0) for r in res),
                   paths=sum(r['paths'] for r in res), feasible_paths=sum(r['feasible'] for r in res),
                   units=[dict(unit=r['unit'], kind=r['kind'], functions=r['funcs'], paths=r['paths'], feasible_paths=r['feasible'],
                               obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']),
                               outside_the_verifier=sorted(set(r['unsupported'])), seconds=round(r['seconds'], 2)) for r in res],
                   every_obligation_discharged=complete,
                   undecided=[f"{r['unit']}: {o['name']}" for r, o in undecided] + [f"{r['unit']}: {x}" for r, x in unsup] + [f'{v}: no feasible path or no obligation' for v in vac],
                   bounded_stand_in=dict(label='bounded, not counted as proved', cases=b.get('cases', 0), checks=b.get('checks', 0), bound=b.get('bound', ''),
                                         seconds=b.get('seconds'), crashed=bool(b.get('crashed')), notes=b.get('notes', [])),
                   samples=b.get('samples', []) + [f"{o['name']} :: {o['form'][:200]}" for r in res for o in r['obligations'][:2]][:12])
        evid = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
                    assumptions=assumptions(res), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        json.dump(evid, open(os.path.join(ev, f'{prop}.json'), 'w'), indent=1, default=str)
        for k in known:
            print('KNOWN-FINDING: ' + k[len('known:'):].strip())
        print(f'{prop}: {ndis}/{nobl} obligations discharged on {len(res)} units, {len(undecided)} undecided, {len(unsup)} outside the verifier; '
              f"bounded stand-in: {b.get('cases', 0)} cases, {len(b['failures'])} failures; {time.time() - t0:.1f}s")
        for r, o in undecided[:10]:
            print(f"  undecided: {r['unit']}: {o['name']}")
        for r, x in unsup[:10]:
            print(f"  outside the verifier: {r['unit']}: {x}")
        if b.get('harness_error'):
            print('  stand-in incomplete: ' + '; '.join(b.get('notes', []))[-1500:])
        if b.get('crashed'):
            print('  stand-in crashed: ' + b['log'][-1500:])
        if viol:
            rp = os.path.join(ev, f'{prop}.replay.json')
            json.dump(dict(property=prop, seed=seed, tier=tier,
                           failed_obligations=[dict(unit=r['unit'], functions=r['funcs'], obligation=o['name'], formula=o['form'], hypotheses=o.get('hyps'),
                                                    counterexample=o.get('cex'), verifier=o['backend']) for r, o in refuted],
                           failing_inputs=b['failures'],
                           replay=f'PYTHONPATH=/repo {VENV} {ROOT}/rt/run.py {prop} {tier} {seed} /tmp/replay.json'), open(rp, 'w'), indent=1, default=str)
            for f in b['failures'][:5]:
                print(f"  failing input: {f['what']} :: {str(f['data'])[:400]}")
            for r, o in refuted[:5]:
                print(f"  failed obligation: {r['unit']}: {o['name']}")
            print(f'VIOLATION property={prop} replay={rp}' + ('' if viol == 'battery' else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        subprocess.run(['rm', '-rf', scratch])


def trusted(res):
    out = ['pyvc verification-condition generator and its term normaliser (pyvc/terms.py, values.py, seqs.py, loader.py)',
           'z3 and cvc5; axiom instances for sin, cos, exp, log, sqrt, arccos, floor, round (pyvc/smt.py axioms)',
           'the AST rewriting that drives CPython over the real source: loops, comprehensions, displays, f-strings, `in` are replaced by calls with the same meaning; docstrings and type annotations are kept but ignored; plotting code is never called',
           'assumed contracts of numpy, astropy.units, jax/tinygp on the operations used (pyvc/shim_np.py, shim_units.py, loader.py)']
    return out


def assumptions(res):
    out = ['machine arithmetic treated as mathematical (real numbers); rounding error is exercised only by the bounded stand-in']
    for r in res:
        for n in r['notes']:
            if n not in out:
                out.append(n)
    return out


if __name__ == '__main__':
    sys.exit(main())
