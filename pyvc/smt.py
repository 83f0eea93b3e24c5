"""Discharging formulas over terms.py with z3 (first) and cvc5 (second)."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction as F
from math import lcm, gcd
import z3
from terms import *
import terms as T

STATS = {'z3': 0, 'cvc5': 0, 'syntactic': 0, 'queries': 0, 'time': 0.0}
PI_LO = F(31415926535897932, 10 ** 16)
PI_HI = F(31415926535897933, 10 ** 16)


def closure(forms):
    """all atom ids occurring, transitively through function arguments"""
    todo = set()
    for f in forms:
        todo |= form_atoms(f)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = Atom.byid[i]
        for x in a.args:
            if a.kind == 'sum' or a.kind == 'var':
                continue
            if isinstance(x, Rat):
                todo |= x.atoms() - seen
            elif isinstance(x, Form):
                todo |= form_atoms(x) - seen
    return seen


def has_trig(f):
    return any(Atom.byid[i].kind == 'fn' and Atom.byid[i].name in ('sin', 'cos') for i in form_atoms(f))


LOG = os.environ.get('VC_LOG')
LOG_BOUNDS = {}


def log_bounds(n):
    import mpmath
    mpmath.mp.dps = 30
    v = mpmath.log(n)
    s = int(v * 10 ** 12)
    return F(s, 10 ** 12), F(s + 1, 10 ** 12)


def exp_bounds(q):
    import mpmath
    mpmath.mp.dps = 40
    v = mpmath.e ** (mpmath.mpf(q.numerator) / q.denominator)
    k = 16 - int(mpmath.floor(mpmath.log10(v)))
    n = int(mpmath.floor(v * mpmath.mpf(10) ** k))
    return F(n - 1) / F(10) ** k, F(n + 2) / F(10) ** k


def fc(name, *args):
    return rat(mk_atom('fn', name, args))


def lin_log(r):
    """For r = c1*m1 - c2*m2 with positive atoms: Rat log(c1 m1) - log(c2 m2), else None"""
    if len(r.num.d) != 2:
        return None
    if r.den and any(sign_poly(p) != 'pos' for p, _ in r.den):
        return None
    (m1, c1), (m2, c2) = r.num.d.items()
    if not (c1 > 0) ^ (c2 > 0):
        return None
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    for m in (m1, m2):
        for i, _ in m:
            if Atom.byid[i].sign != 'pos':
                return None
    return f_log(Rat(Poly({m1: c1}))) - f_log(Rat(Poly({m2: -c2})))


def lin_log_poly(r):
    """For r = P - Q with general positive pieces (c*m - poly): only when one side monomial."""
    return None


def all_cmps(f, out):
    if isinstance(f, Cmp):
        out.append(f)
    elif isinstance(f, Not):
        all_cmps(f.a, out)
    elif isinstance(f, NAry):
        for x in f.xs:
            all_cmps(x, out)


def exponents(forms):
    out = {}
    cs = []
    for f in forms:
        all_cmps(f, cs)
    for i in closure(forms):
        a = Atom.byid[i]
        for x in a.args:
            if isinstance(x, Form) and a.kind == 'ind':
                all_cmps(x, cs)
    for c in cs:
        for p in [c.r.num] + [p for p, _ in c.r.den]:
            for m in p.d:
                for i, e in m:
                    if Atom.byid[i].name == 'exp' and Atom.byid[i].kind == 'fn':
                        out.setdefault(i, set()).add(F(e))
    return out


def axioms(forms, level=1):
    """ground instances of the trusted theory axioms for the atoms occurring in forms"""
    out = []
    cm = []
    for f in forms:
        all_cmps(f, cm)
    seen_l = set()
    for f in cm:
        r = f.r
        has_exp = any(Atom.byid[i].kind == 'fn' and Atom.byid[i].name in ('exp',) for i in r.atoms())
        if has_exp:
            l = lin_log(r)
            if l is not None and r.key not in seen_l:
                seen_l.add(r.key)
                out.append(mk_iff(Cmp('<', r), mk_cmp('<', l)))
                out.append(mk_iff(Cmp('=', r), mk_cmp('=', l)))
    ids = closure(list(forms) + out)
    pows = exponents(list(forms) + out)
    fns = {}
    done = set()
    work = sorted(ids)
    while work:
        i = work.pop()
        if i in done:
            continue
        done.add(i)
        a = Atom.byid[i]
        v = rat(a)
        if a.kind == 'ind':
            continue
        if a.kind == 'var':
            if a.id == T.PI_ID:
                out.append(Cmp('<', rat(PI_LO) - v))
                out.append(Cmp('<', v - rat(PI_HI)))
                continue
        if a.sign == 'pos' and a.isint:
            out.append(Cmp('<=', -v + 1))
        elif a.sign == 'pos':
            out.append(Cmp('<', -v))
        elif a.sign == 'nneg':
            out.append(Cmp('<=', -v))
        if a.kind != 'fn':
            continue
        x = a.args[0]
        n = a.name
        new = []
        fns.setdefault(n, []).append(a)
        if n in ('sin', 'cos'):
            s, c = fc('sin', x), fc('cos', x)
            # write s^2+c^2=1 without triggering normalisation
            sa, ca = mk_atom('fn', 'sin', (x,)), mk_atom('fn', 'cos', (x,))
            raw = Rat(Poly({((sa.id, 2),): F(1), ((ca.id, 2),): F(1), (): F(-1)}))
            new.append(Cmp('=', raw))
            hp = PI * F(1, 2)
            if level >= 1:
                inr = mk_and(Cmp('<=', -hp - x), Cmp('<=', x - hp))
                new.append(mk_implies(inr, Cmp('<=', -c)))
                new.append(mk_implies(mk_and(mk_cmp('<', -hp - x), mk_cmp('<', x - hp)), Cmp('<', -c)))
                new.append(mk_implies(mk_and(mk_cmp('<=', -x), mk_cmp('<=', x - PI)), Cmp('<=', -s)))
                new.append(mk_implies(mk_and(mk_cmp('<', -x), mk_cmp('<', x - PI)), Cmp('<', -s)))
                new.append(mk_implies(mk_and(mk_cmp('<=', x), mk_cmp('<=', -x - PI)), Cmp('<=', s)))
                new.append(mk_implies(mk_cmp('=', x), mk_cmp('=', s)))
                new.append(mk_implies(mk_cmp('=', x), mk_cmp('=', c - 1)))
                new.append(mk_implies(mk_cmp('=', x - hp), mk_cmp('=', s - 1)))
                new.append(mk_implies(mk_cmp('=', x + hp), mk_cmp('=', s + 1)))
        elif n in ('sinh2', 'cosh2'):
            sa, ca = mk_atom('fn', 'sinh2', (x,)), mk_atom('fn', 'cosh2', (x,))
            S, C = sincos(x)
            new.append(Cmp('=', Rat(Poly({((sa.id, 2),): F(2), (): F(-1)})) + C))
            new.append(Cmp('=', Rat(Poly({((ca.id, 2),): F(2), (): F(-1)})) - C))
            prod = Poly({tuple(sorted([(sa.id, 1), (ca.id, 1)])): F(2)})
            new.append(Cmp('=', Rat(p_add(prod, S.num, -1)) if not S.den else Cmp('=', RZERO).r))
        elif n == 'exp':
            new.append(Cmp('<', -v))
            xc = x.const()
            if xc is not None:
                lo, hi = exp_bounds(xc)
                new += [Cmp('<', rat(lo) - v), Cmp('<', v - rat(hi))]
                for e in sorted(pows.get(a.id, ()))[:6]:
                    if F(e) != 1:
                        lo, hi = exp_bounds(xc * e)
                        ve = Rat(Poly({((a.id, T._nexp(e)),): F(1)}))
                        new += [Cmp('<', rat(lo) - ve), Cmp('<', ve - rat(hi))]
            else:
                es = sorted(pows.get(a.id, ()))[:5]
                if any(F(e).denominator > 12 or abs(e) > 40 for e in es):
                    for p_ in range(len(es)):
                        for q_ in range(p_ + 1, len(es)):
                            v1, v2 = [Rat(Poly({((a.id, T._nexp(e)),): F(1)})) for e in (es[p_], es[q_])]
                            new.append(mk_iff(mk_cmp('<', -x), Cmp('<', v1 - v2)))
                            new.append(mk_iff(mk_cmp('=', x), Cmp('=', v1 - v2)))
                    for e in es:
                        if e < 0:
                            ve = Rat(Poly({((a.id, T._nexp(e)),): F(1)}))
                            new.append(mk_iff(mk_cmp('<', -x), Cmp('<', ve - 1)))
                            new.append(mk_iff(mk_cmp('=', x), Cmp('=', ve - 1)))
                for e in sorted({abs(F(t)) for t in pows.get(a.id, ())} or {F(1)})[:4]:
                    ve = Rat(Poly({((a.id, T._nexp(e)),): F(1)}))
                    new.append(mk_iff(mk_cmp('<', x), Cmp('<', ve - 1)))
                    new.append(mk_iff(mk_cmp('=', x), Cmp('=', ve - 1)))
                    new.append(Cmp('<=', x * e + 1 - ve))
        elif n == 'log':
            xc = x.const()
            if xc is not None:
                lo, hi = log_bounds(int(xc)) if xc.denominator == 1 else (None, None)
                if lo is not None:
                    new += [Cmp('<', rat(lo) - v), Cmp('<', v - rat(hi))]
            else:
                new.append(mk_iff(mk_cmp('<', x - 1), Cmp('<', v)))
                new.append(mk_iff(mk_cmp('=', x - 1), Cmp('=', v)))
                new.append(mk_cmp('<=', v - x + 1))
        elif n == 'sqrt':
            raw = Rat(Poly({((a.id, 2),): F(1)}))
            # a^2 = x : build without reduction
            d = raw
            if x.den:
                num = Rat(Poly({((a.id, 2),): F(1)}), ())
                P = PONE
                for p, e in x.den:
                    for _ in range(e):
                        P = p_mul(P, p)
                new.append(Cmp('=', Rat(p_add(p_mul(num.num, P), x.num, -1))))
            else:
                new.append(Cmp('=', Rat(p_add(raw.num, x.num, -1))))
            new.append(Cmp('<=', -v))
        elif n == 'arccos':
            new.append(Cmp('<=', -v))
            new.append(Cmp('<=', v - PI))
            new.append(mk_iff(mk_cmp('=', x - 1), Cmp('=', v)))
            new.append(mk_iff(mk_cmp('=', x + 1), Cmp('=', v - PI)))
            new.append(mk_iff(mk_cmp('<', -x), Cmp('<', v - PI * F(1, 2))))
            new.append(mk_iff(mk_cmp('=', x), Cmp('=', v - PI * F(1, 2))))
        elif n == 'floor':
            new += [Cmp('<=', v - x), mk_cmp('<', x - v - 1)]
        elif n == 'trunc':
            # truncation toward zero
            new += [mk_implies(mk_cmp('<=', -x), mk_and(Cmp('<=', v - x), mk_cmp('<', x - v - 1), Cmp('<=', -v))),
                    mk_implies(mk_cmp('<', x), mk_and(Cmp('<=', x - v), mk_cmp('<', v - x - 1), Cmp('<=', v)))]
        elif n.startswith('round'):
            k = int(n[5:] or 0)
            h = F(1, 2 * 10 ** k)
            new += [Cmp('<=', v - x - h), Cmp('<=', x - v - h)]
            if level >= 1:
                for m in (-1, 0, 1):
                    new += [mk_implies(mk_cmp('<=', x - m), Cmp('<=', v - m)), mk_implies(mk_cmp('>=', x - m), Cmp('<=', -v + m))]
        elif n == 'inv':
            new.append(Cmp('=', Rat(p_add(p_mul(v.num, x.num), PONE, -1)) if not x.den else RZERO))
        elif n == 'pw':
            e = a.args[1].const()
            if e is not None and e > 0 and e.numerator <= 8 and e.denominator <= 8:
                raw = Rat(Poly({((a.id, e.denominator),): F(1)}))
                new.append(Cmp('=', raw - x.ipow(e.numerator)))
        for f in new:
            if f is None:
                continue
            out.append(f)
            for j in closure([f]):
                if j not in done:
                    work.append(j)
    # pairwise monotonicity
    for n in ('exp', 'log', 'arccos', 'sqrt', 'floor'):
        L = fns.get(n, [])
        if len(L) > 8:
            L = L[:8]
        for p in range(len(L)):
            for q in range(p + 1, len(L)):
                a, b = L[p], L[q]
                xa, xb = a.args[0], b.args[0]
                va, vb = rat(a), rat(b)
                if n == 'exp':
                    pa, pb = [min((abs(F(t)) for t in pows.get(z.id, ())), default=F(1)) for z in (a, b)]
                    va, vb = [Rat(Poly({((z.id, T._nexp(e)),): F(1)})) for z, e in ((a, pa), (b, pb))]
                    xa, xb = xa * pa, xb * pb
                if n == 'floor':
                    out.append(mk_implies(mk_cmp('<=', xa - xb), Cmp('<=', va - vb)))
                    out.append(mk_implies(mk_cmp('<=', xb - xa), Cmp('<=', vb - va)))
                    continue
                if n == 'sqrt':
                    continue
                sgn = -1 if n == 'arccos' else 1
                out.append(mk_iff(mk_cmp('<', xa - xb), Cmp('<', (va - vb) * sgn)))
                out.append(mk_iff(mk_cmp('=', xa - xb), Cmp('=', va - vb)))
    # a sum of non-negative terms restricted by indicators is at most the unrestricted sum
    sums = [Atom.byid[i] for i in sorted(done) if Atom.byid[i].kind == 'sum'][:24]
    for a in sums:
        for b in sums:
            if a is b or a.name != b.name or tuple(x.id for x in a.args[0]) != tuple(x.id for x in b.args[0]):
                continue
            if T.sign_rat(a.args[1]) not in ('pos', 'nneg'):
                continue
            if ind_part(a.args[1], b.args[1]):
                out.append(Cmp('<=', rat(b) - rat(a)))
    # function congruence for opaque functions is given by interning (syntactic)
    fn_other = [a for n, L in fns.items() for a in L if n in ('round0', 'round2', 'round4', 'trunc', 'lab')]
    for p in range(len(fn_other)):
        for q in range(p + 1, len(fn_other)):
            a, b = fn_other[p], fn_other[q]
            if a.name == b.name and len(a.args) == 1:
                out.append(mk_implies(mk_cmp('=', a.args[0] - b.args[0]), Cmp('=', rat(a) - rat(b))))
                if a.name.startswith('round'):
                    out.append(mk_implies(mk_cmp('<=', a.args[0] - b.args[0]), Cmp('<=', rat(a) - rat(b))))
                    out.append(mk_implies(mk_cmp('<=', b.args[0] - a.args[0]), Cmp('<=', rat(b) - rat(a))))
    return out


def ind_part(A, B):
    """B == A times a product of indicators (syntactically, for single-term bodies)"""
    if A.den or B.den:
        return A.den == B.den and ind_part(Rat(A.num), Rat(B.num))
    if len(A.num.d) != 1 or len(B.num.d) != 1:
        return False
    (ma, ca), (mb, cb) = list(A.num.d.items())[0], list(B.num.d.items())[0]
    if ca != cb:
        return False
    da, db = dict(ma), dict(mb)
    for i, e in db.items():
        if da.get(i) != e:
            if i in da or Atom.byid[i].kind != 'ind' or e <= 0:
                return False
    return all(i in db for i in da)


class Enc:
    """Encoding of forms to z3 (pure polynomial real constraints + booleans)."""

    def __init__(self, forms):
        self.forms = forms
        self.ids = closure(forms)
        self.vars = {}
        self.roots = {}
        self.extra = []
        self.inds = {}
        self.bools = {}
        q = {}
        for f in self._all_forms(forms):
            cs = []
            all_cmps(f, cs)
            for c in cs:
                for p in [c.r.num] + [p for p, _ in c.r.den]:
                    for m in p.d:
                        for i, e in m:
                            if isinstance(e, F):
                                q[i] = lcm(q.get(i, 1), e.denominator)
        self.opq = {}
        for i, es in exponents(list(self._all_forms(forms))).items():
            if q.get(i, 1) <= 12 and max(abs(e) for e in es) * q.get(i, 1) <= 40:
                continue
            g = F(0)
            for e in es:
                g = F(gcd(g.numerator * e.denominator, e.numerator * g.denominator), g.denominator * e.denominator)
            if g and max(abs(e) for e in es) / g <= 40:
                q[i] = 1 / g
            else:
                self.opq[i] = {}
        self.q = q
        for i in sorted(self.ids):
            a = Atom.byid[i]
            if a.kind == 'ind':
                continue
            self.v(i)
        self.ext2 = []
        for i in sorted(self.ids):
            a = Atom.byid[i]
            if a.kind == 'ind':
                z = self.v(i)
                g = self.form(a.args[0])
                self.ext2.append(z3.Or(z3.And(g, z == 1), z3.And(z3.Not(g), z == 0)))

    def _all_forms(self, forms):
        yield from forms
        for i in self.ids:
            a = Atom.byid[i]
            if a.kind == 'ind':
                yield a.args[0]

    def v(self, i):
        if i not in self.vars:
            a = Atom.byid[i]
            k = self.q.get(i, 1)
            if k != 1:
                r = z3.Real(f'r{k}_a{i}')
                self.vars[i] = (r, k)
                self.extra.append(r >= 0)
                if a.sign == 'pos':
                    self.extra.append(r > 0)
            else:
                self.vars[i] = (z3.Real(f'a{i}'), 1)
        x, k = self.vars[i]
        return x if k == 1 else None

    def mono(self, m, c, shift):
        t = None
        for i, e in m:
            if i in self.opq:
                z = self.opq[i].get(e)
                if z is None:
                    z = self.opq[i][e] = z3.Real(f'o{i}_{len(self.opq[i])}')
                    self.extra.append(z > 0)
                t = z if t is None else t * z
                continue
            x, k = self._raw(i)
            ee = F(e) * k + shift.get(i, 0)
            assert ee.denominator == 1 and ee >= 0, (i, e, k)
            for _ in range(int(ee)):
                t = x if t is None else t * x
        for i, s in shift.items():
            if i not in dict(m):
                x, k = self._raw(i)
                for _ in range(int(s)):
                    t = x if t is None else t * x
        cc = z3.RealVal(str(c))
        if t is None:
            return cc
        return t if c == 1 else cc * t

    def _raw(self, i):
        self.v(i)
        return self.vars[i]

    def poly(self, p):
        """(z3 expr of p * prod atom^shift, shift) where shift makes all exponents >= 0 and is even
        for atoms not known positive"""
        shift = {}
        for m in p.d:
            for i, e in m:
                if e < 0 and i not in self.opq:
                    k = self._raw(i)[1]
                    s = -F(e) * k
                    if s > shift.get(i, 0):
                        shift[i] = s
        for i in shift:
            if Atom.byid[i].sign != 'pos':
                s = int(shift[i])
                shift[i] = s + (s % 2)
        ts = [self.mono(m, c, shift) for m, c in p.d.items()]
        if not ts:
            return z3.RealVal(0), shift
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r, shift

    def form(self, f):
        if isinstance(f, BConst):
            return z3.BoolVal(f.v)
        if isinstance(f, BAtom):
            k = f.key
            if k not in self.bools:
                self.bools[k] = z3.Bool(f'b{len(self.bools)}')
            return self.bools[k]
        if isinstance(f, Not):
            return z3.Not(self.form(f.a))
        if isinstance(f, NAry):
            return (z3.And if f.op == '&' else z3.Or)(*[self.form(x) for x in f.xs])
        e, _ = self.poly(f.r.num)
        if f.op == '=':
            return e == 0
        for p, k in f.r.den:
            if k % 2 and sign_poly(p) != 'pos':
                d, _ = self.poly(p)
                e = e * d
        return e < 0 if f.op == '<' else e <= 0


CACHE = {}
LAST_MODEL = [None]


def run_z3(cons, timeout_ms, how):
    if how == 'nlsat':
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra-nlsat').solver()
    elif how == 'qfnra':
        s = z3.SolverFor('QF_NRA')
    else:
        s = z3.Solver()
    s.set('timeout', timeout_ms)
    for c in cons:
        s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        return 'sat', s.model()
    return 'unknown', None


def run_cvc5(cons, timeout_ms):
    s = z3.Solver()
    for c in cons:
        s.add(c)
    txt = '(set-logic QF_NRA)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit', str(timeout_ms), '--nl-cov', fh.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    finally:
        os.unlink(fh.name)


def relevant(goal, hyps, depth):
    """hypotheses connected to the goal through shared atoms, within depth steps"""
    if depth is None:
        return list(hyps)
    common = {T.PI_ID}
    have = closure([goal]) - common
    out = []
    left = [(h, closure([h]) - common) for h in hyps]
    for _ in range(depth):
        nxt = []
        add = set()
        for h, s in left:
            if (s & have) or not s:
                out.append(h)
                add |= s
            else:
                nxt.append((h, s))
        if not add:
            break
        have |= add
        left = nxt
    return out


def simplify_goal(goal):
    return goal


def prove(goal, hyps, timeout=4000, effort=1, want_model=True):
    """-> ('proved', backend) | ('refuted', model dict) | ('unknown', why)"""
    if goal == TRUE:
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    hyps = [h for h in hyps if h != TRUE]
    if any(h == goal for h in hyps):
        STATS['syntactic'] += 1
        return 'proved', 'syntactic'
    if FALSE in hyps:
        return 'proved', 'contradictory path'
    if isinstance(goal, NAry) and goal.op == '&':
        bk = 'syntactic'
        for g in goal.xs:
            r = prove(g, hyps, timeout, effort, want_model)
            if r[0] != 'proved':
                return r
            bk = r[1] if r[1] != 'syntactic' else bk
        return 'proved', bk
    key = (goal.key, frozenset(h.key for h in hyps), timeout, effort)
    if key in CACHE:
        return CACHE[key]
    t0 = time.time()
    STATS['queries'] += 1
    res = _prove(goal, hyps, timeout, effort)
    STATS['time'] += time.time() - t0
    if LOG and time.time() - t0 > 0.3:
        import sys
        print(f'  smt {time.time() - t0:.1f}s e{effort} {res[0]} {len(hyps)}h {show_form(goal)[:300]}', file=sys.stderr, flush=True)
    CACHE[key] = res
    return res


def cauchy(goal):
    """goal  c*(1 -+ a.b) >= 0  for two unit vectors a, b given by (latitude, longitude): certificate
    2(1 -+ a.b) = |a -+ b|^2, checked as a polynomial identity"""
    if not (isinstance(goal, Cmp) and goal.op == '<=' and not goal.r.den):
        return False
    r = goal.r
    k = r.num.d.get((), F(0))
    if k >= 0:
        return False
    r = r * (-1 / k)
    args = []
    for i in r.atoms():
        a = Atom.byid[i]
        if a.kind != 'fn' or a.name not in ('sin', 'cos'):
            return False
        if a.args[0] not in args:
            args.append(a.args[0])
    if not 1 <= len(args) <= 4:
        return False
    import itertools
    pad = args + [RZERO] * (4 - len(args))
    seen = set()
    for A, X, B, Y in itertools.permutations(pad, 4):
        kk = (A.key, X.key, B.key, Y.key)
        if kk in seen:
            continue
        seen.add(kk)
        va = (f_cos(A) * f_cos(X), f_cos(A) * f_sin(X), f_sin(A))
        vb = (f_cos(B) * f_cos(Y), f_cos(B) * f_sin(Y), f_sin(B))
        for sg in (1, -1):
            n = RZERO
            for x, y in zip(va, vb):
                n = n + (x - y * sg) * (x - y * sg)
            if (n + r * 2) == RZERO:
                return True
    return False


def _prove(goal, hyps, timeout, effort):
    neg = mk_not(goal)
    if cauchy(goal):
        return 'proved', 'certificate'
    plans = [(1, 0, 'z3', 1500), (2, 1, 'z3', timeout)]
    if effort >= 1:
        plans += [(None, 1, 'qfnra', timeout), (None, 1, 'nlsat', timeout)]
    if effort >= 2:
        plans += [(None, 1, 'cvc5', timeout), (2, 0, 'nlsat', timeout * 3)]
    sat = None
    for depth, lvl, how, to in plans:
        hs = relevant(goal, hyps, depth)
        base = hs + [neg]
        ax = axioms(base, lvl)
        forms = base + ax
        enc = Enc(forms)
        cons = [enc.form(f) for f in forms] + enc.extra + enc.ext2
        if how == 'cvc5':
            r, m = run_cvc5(cons, min(to, 10000)), None
        else:
            r, m = run_z3(cons, to, how)
        if r == 'unsat':
            STATS['cvc5' if how == 'cvc5' else 'z3'] += 1
            return 'proved', ('cvc5' if how == 'cvc5' else 'z3')
        if r == 'sat' and m is not None and (depth is None or len(hs) == len(hyps)) and lvl == 1:
            sat = model_dict(m, enc)
            break
        if r == 'sat' and m is not None and sat is None:
            sat = None
    if sat is not None:
        return 'refuted', sat
    return 'unknown', 'solver gave no answer'


def model_dict(m, enc):
    out = {}
    for i, (x, k) in enc.vars.items():
        a = Atom.byid[i]
        if a.kind == 'ind':
            continue
        val = m.eval(x, model_completion=True)
        try:
            if z3.is_algebraic_value(val):
                val = val.approx(20)
            f = float(val.as_fraction())
        except Exception:
            continue
        out[i] = f ** k
    return out


def consistent(hyps, timeout=1500):
    """False only if hyps are shown contradictory"""
    if FALSE in hyps:
        return False
    hyps = [h for h in hyps if h != TRUE]
    if not hyps:
        return True
    r = prove(FALSE, hyps, timeout, effort=0)
    return r[0] != 'proved'
