"""Numeric evaluation of terms/formulas and counterexample search with the true functions."""
import math
import random
import time
import itertools
from fractions import Fraction as F
from terms import *
import terms as T
import values as V
import smt


class Undef(Exception):
    pass


class Env:
    def __init__(self, rng, seed_vals=None, scale=1.0):
        self.rng = rng
        self.vals = {}
        self.bools = {}
        self.seed = seed_vals or {}
        self.scale = scale
        self.bound = {}
        self.memo = {}
        self.maxdim = 4

    def sample(self, a, idx):
        r = self.rng
        if a.id in self.seed and not a.args and r.random() < 0.7:
            v = self.seed[a.id]
            if r.random() < 0.3:
                v *= 1 + r.gauss(0, 0.05)
        elif a.isint:
            v = r.choice([1, 2, 3, 4, 5]) if a.sign == 'pos' else r.choice([0, 1, 2, 3, 4]) if a.sign == 'nneg' else r.choice([-2, -1, 0, 1, 2, 3])
            return v
        else:
            k = r.random()
            v = math.exp(r.gauss(0, 1.5)) if k < 0.7 else r.choice([0.5, 1.0, 2.0, 0.1, 3.0, 10.0])
            if a.sign == 'any' and r.random() < 0.5:
                v = -v
            if a.sign == 'nneg' and r.random() < 0.1:
                v = 0.0
            if a.sign == 'neg':
                v = -v
        if a.isint:
            v = round(v)
        if a.sign in ('pos',) and v <= 0:
            v = abs(v) or 1.0
        if a.sign == 'nneg' and v < 0:
            v = -v
        return v

    def fam_sample(self, a, idx, k, fam):
        """a value of an indexed variable obeying the facts of its family"""
        facts = fam(*[rat(F(x).limit_denominator(10 ** 9)) for x in idx])
        ob, self.bound = self.bound, {}
        try:
            for t in range(30):
                v = self.sample(a, idx)
                if t % 3 == 2 and not a.isint:
                    v = self.rng.uniform(-1, 1) if a.sign == 'any' else self.rng.random()
                self.vals[k] = v
                self.memo = {}
                if all(self.form(f) for f in facts if isinstance(f, Form)):
                    return
            raise Undef()
        except Undef:
            self.vals.pop(k, None)
            raise
        finally:
            self.bound = ob
            self.memo = {}

    def atom(self, i):
        if i in self.bound:
            return self.bound[i]
        if i == T.PI_ID:
            return math.pi
        key = None
        if not self.bound:
            if i in self.memo:
                return self.memo[i]
        a = Atom.byid[i]
        v = self._atom(a)
        if not self.bound:
            self.memo[i] = v
        return v

    def _atom(self, a):
        if a.kind == 'var':
            idx = tuple(round(self.rat(x), 9) for x in a.args)
            k = (a.name, idx)
            if k not in self.vals:
                fam = V.ctx().families.get(a.name) if a.args else None
                if fam is None:
                    self.vals[k] = self.sample(a, idx)
                else:
                    self.fam_sample(a, idx, k, fam)
            return self.vals[k]
        if a.kind == 'ind':
            return 1.0 if self.form(a.args[0]) else 0.0
        if a.kind == 'sum':
            bvs, body = a.args
            rngs = []
            for b in bvs:
                d = V.BOUND_DIM.get(b.id)
                if d is None:
                    raise Undef()
                n = self.rat(d)
                if n != n or n > 40:
                    raise Undef()
                rngs.append(range(int(round(n))))
            tot = 0.0
            old = dict(self.bound)
            for ix in itertools.product(*rngs):
                self.bound = dict(old)
                for b, v in zip(bvs, ix):
                    self.bound[b.id] = v
                tot += self.rat(body)
            self.bound = old
            return tot
        xs = [self.rat(x) for x in a.args]
        n = a.name
        try:
            if n == 'sin':
                return math.sin(xs[0])
            if n == 'cos':
                return math.cos(xs[0])
            if n == 'sinh2':
                return math.sin(xs[0] / 2)
            if n == 'cosh2':
                return math.cos(xs[0] / 2)
            if n == 'exp':
                return math.exp(xs[0]) if xs[0] < 600 else math.inf
            if n == 'log':
                return math.log(xs[0])
            if n == 'sqrt':
                return math.sqrt(xs[0])
            if n == 'arccos':
                return math.acos(min(1.0, max(-1.0, xs[0]))) if abs(xs[0]) < 1 + 1e-9 else _un()
            if n == 'inv':
                return 1 / xs[0]
            if n == 'floor':
                return math.floor(xs[0])
            if n == 'trunc':
                return math.trunc(xs[0])
            if n.startswith('round'):
                return round(xs[0], int(n[5:])) if int(n[5:]) else round(xs[0])
            if n == 'pw':
                return xs[0] ** xs[1]
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Undef()
        raise Undef()

    def rat(self, r):
        try:
            n = self.poly(r.num)
            mag = self.mag
            for p, e in r.den:
                d = self.poly(p) ** e
                n /= d
                mag /= abs(d)
            self.mag = mag
            return n
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Undef()

    def poly(self, p):
        tot = 0.0
        mag = 0.0
        for m, c in p.d.items():
            t = float(c)
            for i, e in m:
                v = self.atom(i)
                t *= v ** (float(e) if e != int(e) else int(e))
            if isinstance(t, complex):
                raise Undef()
            tot += t
            mag = max(mag, abs(t))
        self.mag = mag
        return tot

    def form(self, f, strict=0.0):
        """truth value; comparisons within rounding of equality are Undef when strict"""
        if isinstance(f, BConst):
            return f.v
        if isinstance(f, Not):
            return not self.form(f.a, strict)
        if isinstance(f, NAry):
            # an undefined operand does not matter when another one decides
            deciding = f.op == '|'
            undef = False
            for x in f.xs:
                try:
                    if self.form(x, strict) == deciding:
                        return deciding
                except Undef:
                    undef = True
            if undef:
                raise Undef()
            return not deciding
        if isinstance(f, Cmp):
            v = self.rat(f.r)
            if not math.isfinite(v):
                raise Undef()
            mag = self.mag
            tol = 1e-9 * max(mag, 1e-300)
            if f.op == '=':
                return abs(v) <= tol
            if abs(v) <= tol and f.r.const() is None:
                if strict:
                    raise Undef()
                return f.op == '<='
            return v < 0 if f.op == '<' else v <= 0
        if isinstance(f, BAtom):
            if f.key in V.ANYDEF:
                p, g = V.ANYDEF[f.key]
                bvs = [T.atom_of(r) for r in p]
                rngs = [range(int(round(self.rat(V.BOUND_DIM[b.id])))) for b in bvs]
                old = dict(self.bound)
                try:
                    for ix in itertools.product(*rngs):
                        self.bound = dict(old)
                        for b, v in zip(bvs, ix):
                            self.bound[b.id] = v
                        if self.form(g):
                            return True
                    return False
                finally:
                    self.bound = old
            k = (f.name, tuple(round(self.rat(x), 9) for x in f.args))
            if k not in self.bools:
                self.bools[k] = self.rng.random() < 0.5
            return self.bools[k]
        raise Undef()


def _un():
    raise Undef()


def refute(goal, hyps, seed_vals=None, tries=2500, budget=6.0, seed=1):
    """an assignment satisfying hyps and falsifying goal by a clear margin, or None"""
    rng = random.Random(seed)
    t0 = time.time()
    hyps = [h for h in hyps if h != TRUE]
    # variables pinned by an equality hypothesis of the form  v = term  are computed
    pins = []
    for h in hyps:
        if isinstance(h, Cmp) and h.op == '=' and not h.r.den:
            for m, c in h.r.num.d.items():
                if len(m) == 1 and m[0][1] == 1 and Atom.byid[m[0][0]].kind == 'var' and m[0][0] != T.PI_ID:
                    a = Atom.byid[m[0][0]]
                    rest = Rat(Poly({mm: -cc / c for mm, cc in h.r.num.d.items() if mm != m}))
                    if a.id not in rest.fv():
                        pins.append((a, rest))
                        break
    n = 0
    while n < tries and time.time() - t0 < budget:
        n += 1
        env = Env(rng, seed_vals)
        try:
            for a, rest in pins:
                if rng.random() < 0.9:
                    v = env.rat(rest)
                    idx = tuple(round(env.rat(x), 9) for x in a.args)
                    env.vals.setdefault((a.name, idx), v)
                    env.memo = {}
            ok = True
            for h in hyps:
                if not env.form(h):
                    ok = False
                    break
            if not ok:
                continue
            if not env.form(goal, 1.0) and clear(goal, env):
                return {f'{k[0]}{list(k[1]) if k[1] else ""}': v for k, v in env.vals.items()}
        except Undef:
            continue
        except (OverflowError, RecursionError, ZeroDivisionError, KeyError):
            continue
    return None


def _clear_false(x, env):
    try:
        return not env.form(x) and clear(x, env)
    except Undef:
        return False


def clear(goal, env):
    """the violation of goal is larger than rounding"""
    f = goal
    if isinstance(f, Cmp):
        v = env.rat(f.r)
        return abs(v) > 1e-6 * max(env.mag, 1e-12)
    if isinstance(f, NAry) and f.op == '&':
        return any(_clear_false(x, env) for x in f.xs)
    if isinstance(f, NAry) and f.op == '|':
        return all(clear(x, env) for x in f.xs)
    if isinstance(f, Not) and isinstance(f.a, Cmp) and f.a.op == '=':
        return False if env.form(f.a) is False else abs(env.rat(f.a.r)) <= 1e-12 * env.mag
    return True
