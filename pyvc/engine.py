"""Verification units: contracts on functions of /repo, explored path by path, every obligation
handed to the SMT back ends."""
import time
import traceback
import multiprocessing as mp
import re
import os
import queue
from terms import *
import terms as T
import values as V
from values import *
import smt
import numeric
import loader

UNITS = {}
MAX_PATHS = 600


class UnitDef:
    def __init__(self, prop, name, fn, funcs, kind):
        self.prop, self.name, self.fn, self.funcs, self.kind = prop, name, fn, funcs, kind


def unit(prop, name, funcs=(), kind='contract'):
    def deco(fn):
        UNITS.setdefault(prop, []).append(UnitDef(prop, name, fn, tuple(funcs), kind))
        return fn
    return deco


class Patches:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, val):
        had = name in obj.__dict__
        self.saved.append((obj, name, had, obj.__dict__.get(name)))
        setattr(obj, name, val)

    def undo(self):
        for obj, name, had, old in reversed(self.saved):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self.saved = []


def exc_origin(e):
    """('explicit'|'semantic'|'engine', text)"""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    inrepo = [f for f in tb if '/vspec_vsm/' in (f.filename or '')]
    txt = f'{type(e).__name__}: {e}'
    if inrepo:
        txt += f' at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].lineno}'
    if last is not None and inrepo and last.filename == inrepo[-1].filename:
        try:
            line = open(last.filename).read().splitlines()[last.lineno - 1].strip()
        except OSError:
            line = ''
        if line.startswith('raise') or isinstance(e, (KeyError,)):
            return 'explicit', txt
        return 'engine', txt
    if isinstance(e, KeyError) and not inrepo and '/spec/' in (last.filename or ''):
        return 'engine', txt         # the specification looked for an attribute that is stored another way
    if isinstance(e, (smtUnitError(), KeyError)):
        return 'semantic', txt
    return 'engine', txt


def smtUnitError():
    import shim_units
    return shim_units.UnitConversionError


def run_unit(ud, prog=None, limit=None, tier='quick'):
    t0 = time.time()
    res = dict(unit=ud.name, prop=ud.prop, funcs=list(ud.funcs), kind=ud.kind, obligations=[], unsupported=[], paths=0, feasible=0,
               notes=[], nondet=[], covered={}, seconds=0.0, stats={})
    s0 = dict(smt.STATS)
    try:
        P = prog or loader.Program()
    except Unsupported as e:
        res['unsupported'].append(f'loading: {e}')
        return res
    except Exception as e:
        res['unsupported'].append(f'loading: {type(e).__name__}: {e}')
        return res
    work = [[]]
    base_time = limit or 200
    seen_obl = {}
    while work:
        if res['paths'] >= MAX_PATHS:
            res['unsupported'].append('too many paths')
            break
        if time.time() - t0 > base_time:
            res['unsupported'].append('time budget of the unit exhausted')
            break
        prefix = work.pop()
        c = V.set_ctx(V.Ctx())
        V.sum_index.depth = 0
        T.TPATH.clear()
        c.prefix = prefix
        c.unit = ud
        c.patch = Patches()
        import shim_np
        shim_np.UNIQ.clear()
        import seqs
        seqs._src[0] = 0
        ended = 'ok'
        try:
            ud.fn(P, c)
        except PathEnd:
            ended = 'end'
        except Unsupported as e:
            ended = 'unsupported'
            if feasible(c):
                res['unsupported'].append(f'{e} [{where(e)}]')
        except RecursionError as e:
            res['unsupported'].append('recursion')
        except Exception as e:
            kind, txt = exc_origin(e)
            if kind == 'engine':
                if feasible(c):
                    res['unsupported'].append(f'{txt} [{where(e)}]')
            else:
                c.oblige(f'no exception ({txt})', FALSE, 'exception')
        finally:
            c.patch.undo()
        res['paths'] += 1
        work += c.pending
        for n in c.notes:
            if n not in res['notes']:
                res['notes'].append(n)
        for n in c.nondet:
            if n not in res['nondet']:
                res['nondet'].append(n)
        feas = None
        if ended in ('ok', 'end'):
            feas = smt.consistent(c.hyps(), 1500)
            res['feasible'] += bool(feas)
        for name, form, kind, hyps, via in c.obls:
            hk = (name, form.key, frozenset(h.key for h in hyps))
            if hk in seen_obl:
                continue
            st = discharge(form, hyps, kind, tier, via)
            if st['status'] == 'refuted' and any(not used and re.search(r'(?<![A-Za-z_0-9])' + n + r'(?![A-Za-z_0-9])', full(form)) for n, used in c.ghosts.items()):
                st['status'] = 'unknown'
                st['backend'] = 'the callee whose contract introduces a symbol of this obligation was not used'
            seen_obl[hk] = st
            st['by_rule'] = c.by_rule
            st.update(name=name, kind=kind, path=res['paths'] - 1, form=short(form))
            if st['status'] != 'proved':
                st['hyps'] = [short(h) for h in hyps][:40]
            res['obligations'].append(st)
    if res['unsupported']:
        for st in res['obligations']:
            if st['status'] == 'refuted' and st['by_rule']:
                # the loop body this path relies on was not accepted
                st['status'], st['backend'] = 'unknown', 'the loop rule this path uses was not established'
    res['seconds'] = time.time() - t0
    res['stats'] = {k: smt.STATS[k] - s0[k] for k in s0}
    return res


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    r = [f for f in tb if '/vspec_vsm/' in (f.filename or '')]
    s = [f for f in tb if '/pyvc/' in (f.filename or '') or '/spec' in (f.filename or '')]
    out = ''
    if r:
        out = f'{os.path.basename(r[-1].filename)}:{r[-1].lineno}'
    if s:
        out += f' via {os.path.basename(s[-1].filename)}:{s[-1].lineno}'
    return out


def feasible(c):
    try:
        return smt.consistent(c.hyps(), 800)
    except BaseException:
        return True


def full(f):
    try:
        return show_form(f)
    except BaseException:
        return repr(f)


def short(f):
    try:
        s = show_form(f)
    except BaseException:
        s = repr(f)
    return s if len(s) < 600 else s[:600] + ' ...'


def discharge(form, hyps, kind, tier, via=None):
    t = time.time()
    if via is not None:
        # (lemmas, generalised hypotheses, generalised goal): the lemmas instantiate the generalised
        # hypotheses at the actual terms, so the generalised implication implies the goal
        lems, gh, gg = via
        if all(smt.prove(l, hyps, 4000, 1)[0] == 'proved' for l in lems):
            r = smt.prove(gg, gh, 4000, 1)
            if r[0] != 'proved':
                r = smt.prove(gg, gh, 8000, 2)
            if r[0] == 'proved':
                return dict(status='proved', backend=r[1], t=time.time() - t)
    if smt.has_trig(form) and smt.prove(form, [], 1500, 0)[0] == 'proved':
        return dict(status='proved', backend='z3', t=time.time() - t)
    r = smt.prove(form, hyps, 4000, 1)
    if r[0] == 'unknown':
        cx = numeric.refute(form, hyps, None, tries=1500, budget=2.5)
        if cx is not None:
            return dict(status='refuted', backend='numeric', cex=cx, t=time.time() - t)
        r = smt.prove(form, hyps, 8000 if tier == 'quick' else 30000, 2)
    if r[0] == 'proved':
        return dict(status='proved', backend=r[1], t=time.time() - t)
    seed = r[1] if r[0] == 'refuted' else None
    cx = numeric.refute(form, hyps, seed)
    if cx is not None:
        return dict(status='refuted', backend='z3' if seed else 'numeric', cex=cx, t=time.time() - t)
    if r[0] == 'refuted':
        r2 = smt.prove(form, hyps, 8000 if tier == 'quick' else 30000, 2)
        if r2[0] == 'proved':
            return dict(status='proved', backend=r2[1], t=time.time() - t)
    return dict(status='unknown', backend=str(r[0]), t=time.time() - t)


# ------------------------------------------------------------------- parallel
def _child(i, ud, limit, tier, q):
    try:
        r = run_unit(ud, None, limit, tier)
    except BaseException as e:
        r = dict(unit=ud.name, prop=ud.prop, funcs=list(ud.funcs), kind=ud.kind, obligations=[], paths=0, feasible=0, notes=[], nondet=[],
                 unsupported=[f'engine: {type(e).__name__}: {e} {traceback.format_exc()[-400:]}'], seconds=0, stats={}, covered={})
    q.put((i, r))


def run_property(prop, limit=200, tier='quick', jobs=None, only=None, total=None):
    uds = [u_ for u_ in UNITS.get(prop, []) if only is None or only in u_.name]
    jobs = jobs or min(8, len(os.sched_getaffinity(0)) or 4)
    q = mp.Queue()
    out = [None] * len(uds)
    live = {}
    nxt = 0
    t0 = time.time()
    while nxt < len(uds) or live:
        over = total is not None and time.time() - t0 > total
        while nxt < len(uds) and over:
            live[nxt] = (None, time.time())
            nxt += 1
        while nxt < len(uds) and len(live) < jobs:
            p = mp.Process(target=_child, args=(nxt, uds[nxt], limit, tier, q))
            p.start()
            live[nxt] = (p, time.time())
            nxt += 1
        try:
            i, r = q.get(timeout=1)
            out[i] = r
            live.pop(i)[0].join(5)
        except queue.Empty:
            pass
        for i, (p, ts) in list(live.items()):
            if over or time.time() - ts > limit + 90 or (not p.is_alive() and q.empty() and time.time() - ts > 5 and out[i] is None and p.exitcode not in (None, 0)):
                if p is not None:
                    p.kill()
                    p.join()
                ud = uds[i]
                out[i] = dict(unit=ud.name, prop=ud.prop, funcs=list(ud.funcs), kind=ud.kind, obligations=[], paths=0, feasible=0, notes=[],
                              nondet=[], unsupported=['unit did not finish'], seconds=time.time() - ts, stats={}, covered={})
                live.pop(i)
    return out
