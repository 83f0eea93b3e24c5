import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VC_REPO', '/repo'))
prop, tier, seed, out = sys.argv[1:5]
hints = json.load(open(sys.argv[5])) if len(sys.argv) > 5 and sys.argv[5] else []
import base
import vspec_vsm
assert os.path.dirname(os.path.dirname(os.path.abspath(vspec_vsm.__file__))) == os.path.realpath(os.environ.get('VC_REPO', '/repo')), vspec_vsm.__file__
importlib.import_module(prop.lower())
r = base.R(tier, int(seed), hints)
t = time.time()
bounds = []
HANG = 120      # seconds of processor time within one step of a stand-in
last = [(-1, -1), time.process_time()]


def where(tb):
    tb = traceback.extract_tb(tb) if not isinstance(tb, traceback.StackSummary) else tb
    return [f'{os.path.basename(x.filename)}:{x.lineno}' for x in tb if 'vspec_vsm' in x.filename]


def tick(sig, frame):
    now = (r.cases, r.checks)
    if now != last[0]:
        last[:] = [now, time.process_time()]
    elif time.process_time() - last[1] > HANG:
        last[1] = time.process_time()
        if where(traceback.extract_stack(frame)):
            raise base.Hang


def dump(*a):
    json.dump(dict(harness_error=getattr(r, 'harness_error', False) or bool(a), cases=r.cases, checks=r.checks, failures=r.failures[:10], samples=r.samples,
                   notes=r.notes + (['stopped at the time limit'] if a else []), bound='; '.join(b for b in bounds if b),
                   seconds=round(time.time() - t, 2)), open(out, 'w'), default=str)
    if a:
        os._exit(0)


signal.signal(signal.SIGTERM, dump)
signal.signal(signal.SIGALRM, tick)
signal.setitimer(signal.ITIMER_REAL, 5, 5)
for f, bd in base.BATTERIES.get(prop, []):
    bounds.append(bd)
    try:
        f(r)
    except base.Stop:
        pass
    except base.Hang as e:
        r.failures.append(dict(what=f'does not come to an end within {HANG} s', data=dict(at=where(e.__traceback__)[-3:], **{k: base.short(v) for k, v in r.data.items()})))
    except Exception as e:
        loc = where(e.__traceback__)
        if loc:     # the code under test raised on a legal input
            r.failures.append(dict(what=f'{type(e).__name__}: {str(e)[:300]}', data=dict(at=loc[-1], **{k: base.short(v) for k, v in r.data.items()})))
        else:
            r.notes.append(f'harness error in {f.__name__}: ' + traceback.format_exc()[-1500:])
            r.harness_error = True
signal.setitimer(signal.ITIMER_REAL, 0)
dump()
