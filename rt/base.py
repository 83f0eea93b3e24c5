"""Run-time contract checks on the real code (bounded stand-in and replay of counterexamples)."""
import time
import traceback
import numpy as np

BATTERIES = {}


def battery(prop, bound=''):
    def deco(f):
        BATTERIES.setdefault(prop, []).append((f, bound))
        return f
    return deco


class Stop(Exception):
    pass


class Hang(BaseException):
    pass


class R:
    scale = 3
    def __init__(self, tier, seed, hints):
        self.tier, self.seed, self.hints = tier, seed, hints or []
        self.rng = np.random.default_rng(seed)
        self.cases = 0
        self.checks = 0
        self.failures = []
        self.samples = []
        self.notes = []
        self.data = {}
        self.hint = {}
        self.t0 = time.time()

    def n(self, quick, thorough=None):
        return quick * self.scale if self.tier == 'quick' else (thorough or quick * 20)

    def loop(self, quick, thorough=None):
        """case indices; first the counterexamples handed over by the verifier, then fresh cases"""
        for h in self.hints:
            for k in range(6):
                self.hint = h
                self.cases += 1
                self.data = {}
                yield k
        self.hint = {}
        for k in range(self.n(quick, thorough)):
            self.cases += 1
            self.data = {}
            yield k
            if len(self.samples) < 3:
                self.samples.append({a: short(b) for a, b in self.data.items()})

    def val(self, name, x):
        """input named as in the contract; a verifier counterexample overrides the drawn value"""
        v = self.hint.get(name, x)
        self.data[name] = v
        return v

    def put(self, **kw):
        self.data.update(kw)

    def check(self, cond, what, **kw):
        self.checks += 1
        ok = bool(np.all(cond))
        if not ok:
            d = dict(self.data)
            d.update(kw)
            self.failures.append(dict(what=what, data={k: short(v) for k, v in d.items()}))
            if len(self.failures) >= 5:
                raise Stop
        return ok

    def close(self, a, b, what, rtol=1e-9, atol=0.0, **kw):
        a = np.asarray(a, float)
        b = np.asarray(b, float)
        ok = a.shape == b.shape or a.ndim == 0 or b.ndim == 0
        if ok:
            with np.errstate(all='ignore'):
                ok = np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) and np.all(np.isfinite(a)) and np.all(np.isfinite(b))
        return self.check(ok, what, got=a, expected=b, **kw)

    def call(self, what, f, *a, **k):
        """calls f; an exception is a violation"""
        try:
            return True, f(*a, **k)
        except Stop:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f'{x.filename.split("/")[-1]}:{x.lineno}' for x in tb if 'vspec_vsm' in x.filename]
            self.check(False, f'{what} raises {type(e).__name__}: {str(e)[:200]}', at=loc[-1:] if loc else '')
            return False, None

    def raises(self, exc, what, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return self.check(True, what)
        except Exception as e:
            return self.check(False, what + f' (got {type(e).__name__})')
        return self.check(False, what + ' (no exception)')


def short(v):
    s = repr(v) if not isinstance(v, (int, float, str)) else v
    if isinstance(s, str) and len(s) > 400:
        s = s[:400] + '...'
    return s
