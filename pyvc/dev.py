import signal, traceback
def _al(*a):
    traceback.print_stack(a[1]); raise SystemExit(1)
import os
if os.environ.get('AL'):
    signal.signal(signal.SIGALRM, _al); signal.alarm(int(os.environ['AL']))
import sys, os, time
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(os.path.dirname(H), 'spec'))
import engine, importlib
prop = sys.argv[1]; only = sys.argv[2] if len(sys.argv) > 2 else None
importlib.import_module(prop.lower())
t=time.time()
if os.environ.get('SERIAL'):
    rs=[engine.run_unit(u) for u in engine.UNITS[prop] if only is None or only in u.name]
else:
    rs = engine.run_property(prop, only=only)
for r in rs:
    n = len(r['obligations']); d = sum(o['status'] == 'proved' for o in r['obligations'])
    print(f"== {r['unit']}: paths {r['paths']} feasible {r['feasible']} obligations {d}/{n} {r['seconds']:.1f}s {r['stats']}")
    for x in sorted(set(r['unsupported'])): print('   UNSUPPORTED', x)
    for x in r['nondet']: print('   NONDET', x)
    for o in r['obligations']:
        if o['status'] != 'proved':
            print('   ', o['status'], o['name'], 'path', o['path'], o['backend'], f"{o['t']:.1f}s", '::', o['form'][:400])
            if o.get('cex'): print('       CEX', {k:v for k,v in list(o['cex'].items())[:14]})
            if os.environ.get('HYPS'): print('       HYPS', *o['hyps'], sep='\n           ')
print('total', time.time()-t)
