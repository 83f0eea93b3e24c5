"""Canonical real terms for the pyvc verification-condition generator.

Rat     rational function: Laurent polynomial numerator over factored denominator
Atom    interned indivisible term: variable (possibly indexed), transcendental
        application, 0/1 indicator of a formula, or a sum over index sets
Form    quantifier-free formula over comparisons with 0
Tree    if-then-else tree whose leaves are Rat or a special (NAN, PINF)

All arithmetic is exact real arithmetic (machine floats are treated as
mathematical reals; this is listed as an assumption in every evidence file).
"""
from fractions import Fraction as F
from functools import lru_cache
import math


class Unsupported(BaseException):
    """The code left the verifier's reach (never a violation)."""


# --------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'sign', 'isint', 'key', 'fv')
    table = {}
    byid = []

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, name, args=(), sign='any', isint=False):
    """kind: 'var' (args: index Rats), 'fn' (args Rats), 'ind' (args (Form,)),
    'sum' (args (bound Atom tuple, Rat))."""
    if kind == 'sum':
        key = ('sum', name, (tuple(b.id for b in args[0]), args[1].key))
    else:
        key = (kind, name, tuple(a.key if hasattr(a, 'key') else a for a in args))
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid)
        a.kind, a.name, a.args, a.sign, a.isint = kind, name, tuple(args), sign, isint
        a.key = key
        fv = set()
        if kind == 'var':
            if not args:
                fv.add(a.id)
        for x in args:
            if isinstance(x, (Rat, Form)):
                fv |= x.fv()
        if kind == 'sum':
            fv = set(args[1].fv()) - {b.id for b in args[0]}
        a.fv = frozenset(fv)
        Atom.table[key] = a
        Atom.byid.append(a)
    return a


# --------------------------------------------------------------------- polys
# monomial: tuple of (atom id, exponent) sorted by id; exponent int or Fraction, nonzero
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        v = d.get(i, 0) + e
        if v == 0:
            del d[i]
        else:
            d[i] = v
    return tuple(sorted(d.items()))


def _nexp(e):
    return int(e) if isinstance(e, F) and e.denominator == 1 else e


def mono_pow(m, k):
    return tuple((i, _nexp(e * k)) for i, e in m)


class Poly:
    __slots__ = ('d', '_key')

    def __init__(self, d):
        self.d = d
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items(), key=lambda t: mono_sort(t[0])))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self.d == o.d

    def __bool__(self):
        return bool(self.d)

    def atoms(self):
        s = set()
        for m in self.d:
            for i, _ in m:
                s.add(i)
        return s


def mono_sort(m):
    return tuple((i, F(e)) for i, e in m)


PZERO = Poly({})
PONE = Poly({(): F(1)})


def p_add(a, b, s=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + s * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return Poly(d)


def p_mul(a, b):
    if len(a.d) > len(b.d):
        a, b = b, a
    if len(a.d) * len(b.d) > 400000:
        raise Unsupported('polynomial too large')
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return Poly(d)


def p_scale(a, c, m=()):
    return Poly({mono_mul(k, m): v * c for k, v in a.d.items()})


def p_content(p):
    """(coef, monomial, primitive poly) with lead coefficient 1 and no common monomial."""
    ms = list(p.d)
    exps = {}
    for n, m in enumerate(ms):
        dm = dict(m)
        if n == 0:
            exps = dict(dm)
        else:
            for i in list(exps):
                exps[i] = min(exps[i], dm.get(i, 0))
            for i in dm:
                if i not in exps:
                    exps[i] = min(0, dm[i])
    mono = tuple(sorted((i, e) for i, e in exps.items() if e != 0))
    inv = mono_pow(mono, -1)
    q = Poly({mono_mul(m, inv): c for m, c in p.d.items()})
    lead = max(q.d, key=mono_order)
    c = q.d[lead]
    if c != 1:
        q = Poly({m: v / c for m, v in q.d.items()})
    return c, mono, q


def mono_order(m):
    return (sum(F(e) for _, e in m), tuple((-i, F(e)) for i, e in m))


def p_divexact(a, b):
    """a / b if exact, else None (lex multivariate division by one polynomial)."""
    if not a.d:
        return a
    if len(b.d) > 40 or len(a.d) > 2000:
        return None
    def lex(m):
        return tuple((-i, F(e)) for i, e in m)
    def lexkey(m):
        # lexicographic on dense exponents: compare by atoms ascending
        return m
    ids = sorted(a.atoms() | b.atoms())
    pos = {i: n for n, i in enumerate(ids)}
    def dense(m):
        v = [F(0)] * len(ids)
        for i, e in m:
            v[pos[i]] = F(e)
        return tuple(v)
    rem = {dense(m): c for m, c in a.d.items()}
    bd = {dense(m): c for m, c in b.d.items()}
    lb = max(bd)
    cb = bd[lb]
    minrem = [min(m[k] for m in rem) for k in range(len(ids))]
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 400:
            return None
        lm = max(rem)
        q = tuple(x - y for x, y in zip(lm, lb))
        if any(q[k] < minrem[k] - max(m[k] for m in bd) for k in range(len(ids))):
            return None
        # exact division requires quotient monomials within bounds of a's support
        c = rem[lm] / cb
        if q in quo:
            return None
        quo[q] = c
        for m, v in bd.items():
            mm = tuple(x + y for x, y in zip(m, q))
            nv = rem.get(mm, 0) - c * v
            if nv == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = nv
        if len(quo) > 3 * len(a.d) + 5:
            return None
    return Poly({tuple((ids[k], _nexp(e)) for k, e in enumerate(q) if e != 0): c
                 for q, c in quo.items()})


# ----------------------------------------------------------------------- Rat
class Rat:
    __slots__ = ('num', 'den', '_key', '_fv')

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (Poly primitive, int exp>0) sorted by key
        self._key = None
        self._fv = None

    @property
    def key(self):
        if self._key is None:
            self._key = ('R', self.num.key, tuple((p.key, e) for p, e in self.den))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if isinstance(o, Rat):
            return self.key == o.key
        return NotImplemented

    def fv(self):
        if self._fv is None:
            s = set()
            for i in self.atoms():
                s |= Atom.byid[i].fv
            self._fv = frozenset(s)
        return self._fv

    def atoms(self):
        s = self.num.atoms()
        for p, _ in self.den:
            s |= p.atoms()
        return s

    def const(self):
        if self.den:
            return None
        if not self.num.d:
            return F(0)
        if len(self.num.d) == 1 and () in self.num.d:
            return self.num.d[()]
        return None

    def __repr__(self):
        return show(self)

    # arithmetic on Rats (with ints / Fractions allowed)
    def __add__(self, o):
        o = rat(o)
        if self.den == o.den:
            if not self.den:
                return Rat(p_add(self.num, o.num))
            return mk_rat(p_add(self.num, o.num), self.den)
        da, db = dict(self.den), dict(o.den)
        ma, mb = PONE, PONE
        allk = {}
        for p in set(da) | set(db):
            e = max(da.get(p, 0), db.get(p, 0))
            allk[p] = e
            for _ in range(e - da.get(p, 0)):
                ma = p_mul(ma, p)
            for _ in range(e - db.get(p, 0)):
                mb = p_mul(mb, p)
        return mk_rat(p_add(p_mul(self.num, ma), p_mul(o.num, mb)), sort_den(allk))

    __radd__ = __add__

    def __neg__(self):
        return Rat(p_scale(self.num, -1), self.den)

    def __sub__(self, o):
        return self + (-rat(o))

    def __rsub__(self, o):
        return rat(o) - self

    def __mul__(self, o):
        o = rat(o)
        c = o.const()
        if c is not None:
            return RZERO if c == 0 else Rat(p_scale(self.num, c), self.den)
        c = self.const()
        if c is not None:
            return RZERO if c == 0 else Rat(p_scale(o.num, c), o.den)
        d = dict(self.den)
        for p, e in o.den:
            d[p] = d.get(p, 0) + e
        return mk_rat(p_mul(self.num, o.num), sort_den(d))

    __rmul__ = __mul__

    def inv(self):
        if not self.num.d:
            raise ZeroDivisionError
        c, m, q = p_content(self.num)
        num = Poly({mono_pow(m, -1): F(1) / c})
        for p, e in self.den:
            for _ in range(e):
                num = p_mul(num, p)
        den = () if q == PONE else ((q, 1),)
        return mk_rat(num, den)

    def __truediv__(self, o):
        return self * rat(o).inv()

    def __rtruediv__(self, o):
        return rat(o) * self.inv()

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        if n > 60:
            raise Unsupported('power too large')
        r = RONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __pow__(self, n):
        return self.ipow(n)


def sort_den(d):
    return tuple(sorted(((p, e) for p, e in d.items() if e), key=lambda t: (len(t[0].d), t[0].key)))


def mk_rat(num, den=()):
    num_r = reduce_poly(num)
    if num_r is not None:
        r = num_r
        if den:
            d = dict(r.den)
            for p, e in den:
                d[p] = d.get(p, 0) + e
            return cancel(r.num, sort_den(d))
        return r
    return cancel(num, den)


def cancel(num, den):
    if not num.d:
        return RZERO
    if not den:
        return Rat(num)
    nd = {}
    for p, e in den:
        # reduce denominators too (e.g. cos^2 -> 1-sin^2)
        while e > 0:
            q = p_divexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            nd[p] = nd.get(p, 0) + e
    r = reduce_poly(num)
    if r is not None:
        d = dict(r.den)
        for p, e in nd.items():
            d[p] = d.get(p, 0) + e
        return Rat(r.num, sort_den(d))
    return Rat(num, sort_den(nd))


def rat(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        return RONE if x else RZERO
    if isinstance(x, int):
        return Rat(Poly({(): F(x)})) if x else RZERO
    if isinstance(x, F):
        return Rat(Poly({(): x})) if x else RZERO
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite constant as real')
        return rat(F(repr(x)))
    if isinstance(x, Atom):
        return Rat(Poly({((x.id, 1),): F(1)}))
    raise Unsupported(f'not a real term: {type(x).__name__}')


RZERO = Rat(PZERO)
RONE = Rat(PONE)

# ------------------------------------------------------- reduction of monomials
# reducers: atom id -> rule.  A rule is applied inside reduce_poly.
_half = {}          # sin-half id -> (cos-half id, sin atom id, cos atom id)


def reducible(i, e):
    a = Atom.byid[i]
    if a.kind == 'ind':
        return e != 1 or None
    if a.kind == 'fn':
        if a.name == 'sqrt' and (e >= 2 or e <= -2):
            return True
        if a.name in ('cos', 'cosh2') and e >= 2:
            return True
        if a.name == 'sinh2' and e >= 2:
            return True
    return False


def reduce_mono(m):
    """None if irreducible, else (Rat) replacement."""
    d = dict(m)
    hs = None
    for i, e in m:
        a = Atom.byid[i]
        if a.kind == 'ind':
            if e != 1:
                if e < 0:
                    raise Unsupported('division by an indicator')
                d[i] = 1
                return mk_rat(Poly({tuple(sorted(d.items())): F(1)}))
            continue
        if a.kind != 'fn':
            continue
        nm = a.name
        if nm == 'sqrt' and abs(e) >= 2:
            k = int(e) // 2 if e > 0 else -(int(-e) // 2)
            rest = e - 2 * k
            d.pop(i)
            if rest:
                d[i] = rest
            return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) * a.args[0].ipow(k)
        if nm == 'cos' and e >= 2 and float(e).is_integer():
            k = int(e) // 2
            rest = int(e) - 2 * k
            d.pop(i)
            if rest:
                d[i] = rest
            s = rat(mk_atom('fn', 'sin', a.args))
            return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) * (RONE - s * s).ipow(k)
        if nm == 'cos' and e < 0:
            sa = Atom.table.get(('fn', 'sin', (a.args[0].key,)))
            if sa is not None and d.get(sa.id, 0) >= 2:
                # sin^2 cos^e = cos^e - cos^(e+2)
                d[sa.id] -= 2
                if d[sa.id] == 0:
                    del d[sa.id]
                d2 = dict(d)
                d2[i] = _nexp(F(e) + 2)
                if d2[i] == 0:
                    del d2[i]
                return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) - mk_rat(Poly({tuple(sorted(d2.items())): F(1)}))
        if nm == 'sinh2' and e >= 2:
            d[i] = e - 2
            if d[i] == 0:
                del d[i]
            c = f_cos(a.args[0])
            return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) * ((RONE - c) * F(1, 2))
        if nm == 'cosh2' and e >= 2:
            d[i] = e - 2
            if d[i] == 0:
                del d[i]
            c = f_cos(a.args[0])
            return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) * ((RONE + c) * F(1, 2))
        if nm == 'sinh2' and e >= 1:
            c = Atom.table.get(('fn', 'cosh2', (a.args[0].key,)))
            if c is not None and d.get(c.id, 0) >= 1:
                for j in (i, c.id):
                    d[j] -= 1
                    if d[j] == 0:
                        del d[j]
                s = f_sin(a.args[0])
                return mk_rat(Poly({tuple(sorted(d.items())): F(1)})) * (s * F(1, 2))
    # disjoint strict indicators  [x<0][-x<0] = 0
    inds = [Atom.byid[i] for i, e in m if Atom.byid[i].kind == 'ind']
    if len(inds) >= 2:
        keys = {a.args[0].key for a in inds}
        for a in inds:
            f = a.args[0]
            if isinstance(f, Cmp) and f.op in ('<', '='):
                if f.op == '<':
                    if Cmp('<', -f.r).key in keys:
                        return RZERO
                    z = mk_cmp('=', f.r)
                    if z.key in keys:
                        return RZERO
    return None


def reduce_poly(p):
    """None if no monomial reduces, else an equivalent Rat."""
    todo = None
    for m in p.d:
        for i, e in m:
            a = Atom.byid[i]
            if (a.kind == 'ind') or (a.kind == 'fn' and a.name in ('sqrt', 'cos', 'sinh2', 'cosh2')):
                todo = True
                break
        if todo:
            break
    if not todo:
        return None
    keep = {}
    extra = None
    for m, c in p.d.items():
        r = reduce_mono(m)
        if r is None:
            keep[m] = keep.get(m, 0) + c
        else:
            r = r * c
            extra = r if extra is None else extra + r
    if extra is None:
        return None
    keep = Poly({m: c for m, c in keep.items() if c})
    return Rat(keep) + extra


# ----------------------------------------------------------------- variables
def var(name, *idx, sign='any', isint=False):
    a = mk_atom('var', name, tuple(rat(i) for i in idx), sign, isint)
    return rat(a)


PI = rat(mk_atom('var', 'pi', (), 'pos'))
PI_ID = next(iter(PI.atoms()))


def atom_of(r):
    """The Atom if r is exactly one atom to the first power."""
    if r.den or len(r.num.d) != 1:
        return None
    (m, c), = r.num.d.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return Atom.byid[m[0][0]]
    return None


def terms_of(r):
    """list of (coef, Rat monomial) if polynomial (Laurent), else a single (1, r)"""
    if r.den:
        # split common denominators: num monomials over den
        c, mono, q = p_content(r.num)
        if len(q.d) == 1:
            return [(c, Rat(Poly({mono: F(1)}), r.den))]
        return [(c, Rat(p_scale(q, F(1), mono), r.den))]
    return [(c, Rat(Poly({m: F(1)}))) for m, c in r.num.d.items()]


# ---------------------------------------------------------------- elementary
_simple_trig = {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0)}   # k*pi/2 -> (sin, cos)


def trig_terms(r):
    """terms of an angle; a quotient is split into the part divisible by the denominator and a proper remainder"""
    if len(r.den) != 1 or r.den[0][1] != 1 or len(r.den[0][0].d) < 2:
        return terms_of(r)
    D = r.den[0][0]
    lead = max(D.d, key=mono_order)
    if not lead:
        return terms_of(r)
    linv = mono_pow(lead, -1)
    q, rem = Poly({}), r.num
    for _ in range(20):
        hit = None
        for m, c in rem.d.items():
            k = mono_mul(m, linv)
            if all(e >= 0 for i, e in k if any(i == j for j, _e in lead)):
                if hit is None or mono_order(m) > mono_order(hit[0]):
                    hit = (m, c, k)
        if hit is None:
            break
        m, c, k = hit
        f = c / D.d[lead]
        q = p_add(q, Poly({k: f}))
        rem = p_add(rem, p_scale(D, f, k), -1)
    else:
        return terms_of(r)
    if list(q.d) != [((PI_ID, 1),)]:      # only multiples of pi are split off
        return terms_of(r)
    out = [(c, Rat(Poly({m: F(1)}))) for m, c in q.d.items()]
    return out + (terms_of(Rat(rem, r.den)) if rem.d else [])


def sincos(arg):
    s, c = RZERO, RONE
    for coef, m in trig_terms(arg):
        s1, c1 = sincos_term(coef, m)
        s, c = s * c1 + c * s1, c * c1 - s * s1
    return s, c


def sincos_term(coef, m):
    if m == PI:
        k = coef * 2
        if k.denominator == 1:
            a, b = _simple_trig[int(k) % 4]
            return rat(a), rat(b)
        k4 = coef * 4
        if k4.denominator == 1:
            h = f_sqrt(rat(2)) * F(1, 2)
            kk = int(k4) % 8
            sg = {1: (1, 1), 3: (1, -1), 5: (-1, -1), 7: (-1, 1)}[kk]
            return h * sg[0], h * sg[1]
        r = PI * abs(coef)
        s = rat(mk_atom('fn', 'sin', (r,)))
        c = rat(mk_atom('fn', 'cos', (r,)))
        return (s if coef > 0 else -s), c
    if m == RONE:
        m = rat(abs(coef))
        coef = F(1) if coef > 0 else F(-1)
    a = atom_of(m)
    if a is not None and a.kind == 'fn' and a.name in ('arccos', 'arcsin') and coef.denominator == 1:
        x = a.args[0]
        o = f_sqrt(RONE - x * x)
        s0, c0 = (o, x) if a.name == 'arccos' else (x, o)
    elif coef.denominator == 2:
        s0 = rat(mk_atom('fn', 'sinh2', (m,)))
        c0 = rat(mk_atom('fn', 'cosh2', (m,)))
        coef = coef * 2
    elif coef.denominator == 1:
        s0 = rat(mk_atom('fn', 'sin', (m,)))
        c0 = rat(mk_atom('fn', 'cos', (m,)))
    else:
        r = m * abs(coef)
        s0 = rat(mk_atom('fn', 'sin', (r,)))
        c0 = rat(mk_atom('fn', 'cos', (r,)))
        coef = F(1) if coef > 0 else F(-1)
    n = int(coef)
    sg = 1 if n >= 0 else -1
    n = abs(n)
    if n > 8:
        r = m * n
        return rat(mk_atom('fn', 'sin', (r,))) * sg, rat(mk_atom('fn', 'cos', (r,)))
    s, c = RZERO, RONE
    for _ in range(n):
        s, c = s * c0 + c * s0, c * c0 - s * s0
    return s * sg, c


def f_sin(x):
    return sincos(x)[0]


def f_cos(x):
    return sincos(x)[1]


def const_sqrt(c):
    """sqrt of nonneg Fraction as Rat"""
    def isq(n):
        r = math.isqrt(n)
        return r * r == n, r
    n = c.numerator * c.denominator
    out = F(1, c.denominator)
    # extract square factors
    k = 2
    sq = 1
    m = n
    while k * k <= m and k < 2000:
        while m % (k * k) == 0:
            m //= k * k
            sq *= k
        k += 1
    ok, r = isq(m)
    if ok:
        return rat(out * sq * r)
    return rat(out * sq) * rat(mk_atom('fn', 'sqrt', (rat(m),), 'pos'))


def nneg_atom(i):
    return Atom.byid[i].sign in ('pos', 'nneg')


def f_sqrt(x):
    """caller guarantees x >= 0"""
    c = x.const()
    if c is not None:
        if c < 0:
            raise Unsupported('sqrt of a negative constant')
        return const_sqrt(c)
    num, den = x.num, x.den
    # sqrt(n/d) with d > 0 : sqrt(n*d)/d keeps one atom
    coef, mono, q = p_content(num)
    if coef < 0:
        coef, q = -coef, p_scale(q, -1)
    keep = {}
    out = {}
    for i, e in mono:
        if nneg_atom(i) or (isinstance(e, int) and e % 4 == 0):
            out[i] = _nexp(F(e) / 2)
        else:
            keep[i] = e
    outr = Rat(Poly({tuple(sorted(out.items())): F(1)})) if out else RONE
    inner = Rat(q) if not keep else Rat(p_scale(q, F(1), tuple(sorted(keep.items()))))
    for p, e in den:
        if sign_poly(p) == 'pos':
            h, rest = divmod(e, 2)
            if h:
                outr = outr * Rat(PONE, ((p, h),))
            if rest:
                inner = inner * Rat(p)
                outr = outr * Rat(PONE, ((p, 1),))
        else:
            inner = inner * Rat(PONE, ((p, e),))
    if coef != 1:
        ci = const_sqrt(coef)
        # keep irrational coefficient inside only if it does not simplify
        outr = outr * ci
    ic = inner.const()
    if ic is not None:
        return outr * const_sqrt(ic)
    r = perfect_square(inner)
    if r is not None:
        sg = sign_rat(r)
        if sg in ('pos', 'nneg', 'zero'):
            return outr * r
        sg = sign_rat(-r)
        if sg in ('pos', 'nneg'):
            return outr * (-r)
    return outr * rat(mk_atom('fn', 'sqrt', (inner,), 'nneg'))


def perfect_square(r):
    """sqrt of a polynomial that is the square of a (<=3 term) polynomial, or None"""
    if r.den or len(r.num.d) not in (3, 6):
        return None
    sq = [(m, c) for m, c in r.num.d.items() if c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m)]
    roots = []
    for m, c in sq:
        n, d = c.numerator, c.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a * a == n and b * b == d:
            roots.append((mono_pow(m, F(1, 2)), F(a, b)))
    want = 2 if len(r.num.d) == 3 else 3
    if len(roots) < want:
        return None
    import itertools
    for comb in itertools.combinations(roots, want):
        for signs in itertools.product((1, -1), repeat=want - 1):
            d = {comb[0][0]: comb[0][1]}
            for s, (m, c) in zip(signs, comb[1:]):
                d[m] = s * c
            p = Poly(d)
            if p_mul(p, p) == r.num:
                return Rat(p)
    return None


def f_exp(x):
    out = RONE
    for coef, m in terms_of(x):
        out = out * exp_term(coef, m)
    return out


def pow_rat(x, e):
    """x**e for rational e; caller guarantees x >= 0 (or > 0 when e < 0) unless e is an integer."""
    e = F(e)
    if e.denominator == 1:
        return x.ipow(int(e))
    if e.denominator == 2:
        return f_sqrt(x).ipow(int(e * 2)) if e > 0 else f_sqrt(x).inv().ipow(int(-e * 2))
    if not x.den and len(x.num.d) == 1:
        (m, c), = x.num.d.items()
        if all(nneg_atom(i) for i, _ in m):
            mm = mono_pow(m, e)
            k = const_pow(c, e)
            if k is not None:
                return Rat(Poly({mm: F(1)})) * k
    return rat(mk_atom('fn', 'pw', (x, rat(e)), 'pos' if sign_rat(x) == 'pos' else 'nneg'))


def const_pow(c, e):
    if c == 1:
        return RONE
    if c <= 0:
        return None
    return f_exp(f_log(rat(c)) * e)


def exp_term(coef, m):
    """exp(coef * m), m a monic monomial term"""
    if not m.den:
        (mono, _), = m.num.d.items()
        # a log factor: exp(c * k * log(x))
        logs = [(i, e) for i, e in mono if Atom.byid[i].kind == 'fn' and Atom.byid[i].name == 'log']
        if len(logs) == 1 and logs[0][1] == 1:
            i = logs[0][0]
            rest = tuple(t for t in mono if t[0] != i)
            x = Atom.byid[i].args[0]
            if not rest:
                if coef.denominator == 1:
                    return x.ipow(int(coef))
                xc = x.const()
                if not x.den and len(x.num.d) == 1 and all(nneg_atom(j) for mm in x.num.d for j, _ in mm):
                    (mm, c), = x.num.d.items()
                    if c == 1:
                        return Rat(Poly({mono_pow(mm, coef): F(1)}))
                if xc is not None:
                    n = coef.numerator // coef.denominator
                    fr = coef - n
                    base = x.ipow(n)
                    return base * Rat(Poly({((mk_atom('fn', 'exp', (m,), 'pos').id, fr),): F(1)}))
        elif not logs:
            # E(m)^coef, pull one canonical atom
            pass
    a = mk_atom('fn', 'exp', (m,), 'pos')
    return Rat(Poly({((a.id, _nexp(coef)),): F(1)}))


def primes(n):
    out = {}
    k = 2
    while k * k <= n and k < 100000:
        while n % k == 0:
            out[k] = out.get(k, 0) + 1
            n //= k
        k += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_const(c):
    r = RZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in primes(n).items():
            r = r + rat(mk_atom('fn', 'log', (rat(p),), 'pos')) * (s * e)
    return r


def f_log(x):
    """caller guarantees x > 0"""
    c = x.const()
    if c is not None:
        if c <= 0:
            raise Unsupported('log of a non-positive constant')
        return log_const(c)
    coef, mono, q = p_content(x.num)
    if coef < 0:
        coef, q = -coef, p_scale(q, -1)
    k = q.d.get((), F(0))
    if k > 0 and len(q.d) > 1:
        # canonical scale: constant term one
        coef, q = coef * k, p_scale(q, 1 / k)
    out = log_const(coef)
    rest = Rat(q)
    for i, e in mono:
        a = Atom.byid[i]
        if a.sign == 'pos':
            if a.kind == 'fn' and a.name == 'exp':
                out = out + a.args[0] * e
            else:
                out = out + rat(mk_atom('fn', 'log', (rat(a),))) * e
        else:
            rest = rest * Rat(Poly({((i, e),): F(1)}))
    for p, e in x.den:
        if sign_poly(p) == 'pos':
            out = out - rat(mk_atom('fn', 'log', (Rat(p),))) * e
        else:
            rest = rest * Rat(PONE, ((p, e),))
    rc = rest.const()
    if rc is not None:
        if rc > 0:
            return out + log_const(rc)
        raise Unsupported('log of a non-positive term')
    sg = sign_rat(rest - 1, hook=False)
    return out + rat(mk_atom('fn', 'log', (rest,), sg if sg in ('pos', 'nneg') else 'any'))


_ACOS = {F(1): F(0), F(0): F(1, 2), F(-1): F(1), F(1, 2): F(1, 3), F(-1, 2): F(2, 3)}


def f_arccos(x):
    c = x.const()
    if c is not None and c in _ACOS:
        return PI * _ACOS[c]
    a = atom_of(x)
    return rat(mk_atom('fn', 'arccos', (x,), 'nneg'))


def f_arcsin(x):
    c = x.const()
    if c is not None and c in _ACOS:
        return PI * (F(1, 2) - _ACOS[c])
    a = atom_of(x)
    # arcsin(sqrt(h)) = arccos(1-2h)/2   (0 <= h <= 1)
    if a is not None and a.kind == 'fn' and a.name == 'sqrt':
        h = a.args[0]
        return f_arccos(RONE - 2 * h) * F(1, 2)
    if not x.den and len(x.num.d) == 1:
        (m, cc), = x.num.d.items()
        ids = [i for i, e in m if Atom.byid[i].kind == 'fn' and Atom.byid[i].name == 'sqrt']
        if cc > 0 and (ids or all(isinstance(e, F) for _, e in m)) and all(nneg_atom(i) for i, _ in m):
            h = x * x
            return f_arccos(RONE - 2 * h) * F(1, 2)
    # arcsin(x) = pi/2 - arccos(x): a single kind of atom
    return PI * F(1, 2) - f_arccos(x)


def f_arctan2_like(*a):
    raise Unsupported('arctan')


# -------------------------------------------------------------- sign analysis
SIGN_HOOK = [None]


def sign_mono(m):
    s = 'pos'
    for i, e in m:
        a = Atom.byid[i]
        if a.sign == 'pos':
            continue
        if a.sign == 'nneg':
            s = 'nneg'
            continue
        if isinstance(e, int) and e % 2 == 0:
            s = 'nneg'
            continue
        return None
    return s


@lru_cache(maxsize=200000)
def _sign_poly(p):
    if not p.d:
        return 'zero'
    best = 'nneg'
    for m, c in p.d.items():
        if c < 0:
            return None
        s = sign_mono(m)
        if s is None:
            return None
        if s == 'pos':
            best = 'pos'
    return best


def sign_poly(p):
    s = _sign_poly(p)
    if s is None and SIGN_HOOK[0] is not None:
        s = SIGN_HOOK[0](p)
    return s


def sign_rat(r, hook=True):
    """'pos','nneg','zero','neg','npos' or None"""
    d = 1
    for p, e in r.den:
        if e % 2 == 0:
            continue
        s = sign_poly(p)
        if s == 'pos':
            continue
        s = sign_poly(p_scale(p, -1))
        if s == 'pos':
            d = -d
            continue
        return None
    s = _sign_poly(r.num)
    if s is None:
        n = _sign_poly(p_scale(r.num, -1))
        s = {'pos': 'neg', 'nneg': 'npos'}.get(n)
    if s is None and hook and SIGN_HOOK[0] is not None:
        s = SIGN_HOOK[0](r.num)
    if d < 0 and s:
        s = {'pos': 'neg', 'nneg': 'npos', 'neg': 'pos', 'npos': 'nneg', 'zero': 'zero'}[s]
    return s


# -------------------------------------------------------------------- formulas
class Form:
    __slots__ = ('key', '_fv')

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Form) and self.key == o.key

    def __repr__(self):
        return show_form(self)

    def fv(self):
        s = set()
        for a in form_atoms(self):
            s |= Atom.byid[a].fv
        return frozenset(s)


class BConst(Form):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.key = ('B', v)


TRUE, FALSE = BConst(True), BConst(False)


class Cmp(Form):
    """r op 0, op in '<', '<=', '='"""
    __slots__ = ('op', 'r')

    def __init__(self, op, r):
        self.op, self.r = op, r
        self.key = ('C', op, r.key)


class BAtom(Form):
    """opaque boolean, possibly indexed"""
    __slots__ = ('name', 'args')

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)
        self.key = ('A', name, tuple(a.key for a in self.args))


class Not(Form):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a
        self.key = ('N', a.key)


class NAry(Form):
    __slots__ = ('op', 'xs')

    def __init__(self, op, xs):
        self.op, self.xs = op, tuple(xs)
        self.key = (op, tuple(x.key for x in self.xs))


def form_atoms(f, out=None):
    if out is None:
        out = set()
    if isinstance(f, Cmp):
        out |= f.r.atoms()
    elif isinstance(f, BAtom):
        for a in f.args:
            out |= a.atoms()
    elif isinstance(f, Not):
        form_atoms(f.a, out)
    elif isinstance(f, NAry):
        for x in f.xs:
            form_atoms(x, out)
    return out


def mk_not(f):
    if isinstance(f, BConst):
        return FALSE if f.v else TRUE
    if isinstance(f, Not):
        return f.a
    if isinstance(f, Cmp):
        if f.op == '<':
            return mk_cmp('<=', -f.r)
        if f.op == '<=':
            return mk_cmp('<', -f.r)
        return Not(f)
    if isinstance(f, NAry):
        return (mk_or if f.op == '&' else mk_and)(*[mk_not(x) for x in f.xs])
    return Not(f)


def _nary(op, xs):
    unit, zero = (TRUE, FALSE) if op == '&' else (FALSE, TRUE)
    out = {}
    for x in xs:
        if isinstance(x, bool):
            x = TRUE if x else FALSE
        if x == zero:
            return zero
        if x == unit:
            continue
        for y in (x.xs if isinstance(x, NAry) and x.op == op else (x,)):
            out[y.key] = y
    for y in out.values():
        n = mk_not(y)
        if n.key in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    return NAry(op, sorted(out.values(), key=lambda f: repr(f.key)))


def mk_and(*xs):
    return _nary('&', xs)


def mk_or(*xs):
    return _nary('|', xs)


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


def mk_iff(a, b):
    if a == b:
        return TRUE
    return mk_and(mk_or(mk_not(a), b), mk_or(mk_not(b), a))


def mk_cmp(op, r):
    """op in '<','<=','=','>','>=','!='; normalises scale, positive factors, arccos pairs"""
    if op == '>':
        return mk_cmp('<', -r)
    if op == '>=':
        return mk_cmp('<=', -r)
    if op == '!=':
        return mk_not(mk_cmp('=', r))
    c = r.const()
    if c is not None:
        return TRUE if (c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0) else FALSE
    # strip positive denominators and monomials
    flip = 1
    den = []
    for p, e in r.den:
        s = sign_poly(p)
        if s == 'pos' or (op == '='):
            continue
        if sign_poly(p_scale(p, -1)) == 'pos':
            if e % 2:
                flip = -flip
            continue
        den.append((p, e))
    coef, mono, q = p_content(r.num)
    rest = []
    for i, e in mono:
        if Atom.byid[i].sign == 'pos':
            continue
        rest.append((i, e))
    if op == '=' or coef > 0:
        num = q
    else:
        num = p_scale(q, -1)
    if flip < 0:
        num = p_scale(num, -1)
    if rest:
        num = p_scale(num, F(1), tuple(rest))
    r = Rat(num, tuple(den))
    # canonical sign for equality
    if op == '=':
        _, _, q2 = p_content(r.num)
        r = Rat(p_scale(q2, F(1), tuple(rest)), r.den)
        r2 = _arc_pair(r)
        if r2 is not None:
            return mk_cmp('=', r2)
        s = sign_rat(r, hook=False)
        if s in ('pos', 'neg'):
            return FALSE
        if s == 'zero':
            return TRUE
        return Cmp('=', r)
    r2 = _arc_pair(r)
    if r2 is not None:
        return mk_cmp(op, r2)
    s = sign_rat(r, hook=False)
    if s == 'pos':
        return FALSE
    if s == 'neg':
        return TRUE
    if s == 'zero':
        return TRUE if op == '<=' else FALSE
    if op == '<' and not r.den and all(co.denominator == 1 and all(isinstance(e, int) and e > 0 and Atom.byid[i].isint for i, e in m) for m, co in r.num.d.items()):
        return mk_cmp('<=', r + 1)      # integers: r < 0 iff r <= -1
    if s == 'nneg' and op == '<':
        return FALSE
    if s == 'npos' and op == '<=':
        return TRUE
    return Cmp(op, r)


def _arc_pair(r):
    """arccos(a)-arccos(b) op 0  ->  b - a op 0 ;  k*pi - arccos etc. handled for constants"""
    if r.den or len(r.num.d) not in (1, 2):
        return None
    items = list(r.num.d.items())
    def arc(m):
        if len(m) == 1 and m[0][1] == 1:
            a = Atom.byid[m[0][0]]
            if a.kind == 'fn' and a.name == 'arccos':
                return a.args[0]
        return None
    if len(items) == 2:
        (m1, c1), (m2, c2) = items
        a1, a2 = arc(m1), arc(m2)
        if a1 is not None and a2 is not None and c1 == -c2:
            if c1 < 0:
                a1, a2 = a2, a1
            return a2 - a1
        for (ma, ca), (mb, cb) in ((items[0], items[1]), (items[1], items[0])):
            a = arc(ma)
            if a is not None and mb == ((PI_ID, 1),):
                # ca*arccos(a) + cb*pi op 0 ; arccos(a) op -cb/ca*pi
                k = -cb / ca
                for v, kk in _ACOS.items():
                    if kk == k:
                        # arccos(a) - arccos(v): sign ca
                        return (rat(v) - a) if ca > 0 else (a - rat(v))
    return None


# ---------------------------------------------------------------- indicators
def ind(f):
    """0/1 Rat of a formula"""
    if isinstance(f, BConst):
        return RONE if f.v else RZERO
    if isinstance(f, Not):
        return RONE - ind(f.a)
    if isinstance(f, NAry):
        if f.op == '&':
            r = RONE
            for x in f.xs:
                r = r * ind(x)
            return r
        r = RONE
        for x in f.xs:
            r = r * (RONE - ind(x))
        return RONE - r
    if isinstance(f, Cmp):
        if f.op == '<=':
            return RONE - ind(mk_cmp('<', -f.r))
        if f.op == '<':
            # orient: keep the canonical lead-coefficient sign positive:  [x<0]
            return rat(mk_atom('ind', 'ind', (f,), 'nneg'))
        return rat(mk_atom('ind', 'ind', (f,), 'nneg'))
    return rat(mk_atom('ind', 'ind', (f,), 'nneg'))


# --------------------------------------------------------------------- sums
_bound_cache = {}


def bound_var(tag):
    return mk_atom('var', '#' + tag, (), 'any', True)


def mk_sum(bvs, dimkey, body):
    """Sum over bound atoms bvs (ranging over index set `dimkey`) of Rat body, linear normal form."""
    ids = {b.id for b in bvs}
    total = RZERO
    if body.den:
        # pull denominators free of bound vars out, keep others as an inverse atom
        inn, out = [], []
        for p, e in body.den:
            (inn if Rat(p).fv() & ids else out).append((p, e))
        outr = Rat(PONE, tuple(out)) if out else RONE
        if inn:
            inv = rat(mk_atom('fn', 'inv', (Rat(_den_poly(inn)),)))
            return outr * mk_sum(bvs, dimkey, Rat(body.num) * inv)
        return outr * mk_sum(bvs, dimkey, Rat(body.num))
    for m, c in body.num.d.items():
        dep = tuple((i, e) for i, e in m if Atom.byid[i].fv & ids)
        free = tuple((i, e) for i, e in m if not (Atom.byid[i].fv & ids))
        b = Rat(Poly({dep: F(1)}))
        sg = sign_mono(dep)
        s = mk_atom('sum', dimkey, (tuple(bvs), b), 'nneg' if sg in ('pos', 'nneg') else 'any')
        total = total + Rat(Poly({free: c})) * rat(s)
    return total


def _den_poly(fs):
    r = PONE
    for p, e in fs:
        for _ in range(e):
            r = p_mul(r, p)
    return r


# -------------------------------------------------------------- substitution
def subst_atom(a, sub, memo):
    """Atom -> Rat under substitution {atom id: Rat}"""
    if a.id in sub:
        return sub[a.id]
    if a.id in memo:
        return memo[a.id]
    if not (a.fv & sub_ids(sub)):
        r = rat(a)
    elif a.kind == 'var':
        args = tuple(subst(x, sub, memo) for x in a.args)
        r = rat(mk_atom('var', a.name, args, a.sign, a.isint))
    elif a.kind == 'fn':
        args = [subst(x, sub, memo) for x in a.args]
        r = apply_fn(a.name, args, a)
    elif a.kind == 'ind':
        r = ind(subst_form(a.args[0], sub, memo))
    elif a.kind == 'sum':
        bvs, body = a.args
        s2 = {k: v for k, v in sub.items() if k not in {b.id for b in bvs}}
        r = mk_sum(bvs, a.name, subst(body, s2, {}))
    memo[a.id] = r
    return r


def sub_ids(sub):
    return frozenset(sub)


def apply_fn(name, args, a=None):
    if name == 'sin':
        return f_sin(args[0])
    if name == 'cos':
        return f_cos(args[0])
    if name == 'sinh2':
        return sincos(args[0] * F(1, 2))[0]
    if name == 'cosh2':
        return sincos(args[0] * F(1, 2))[1]
    if name == 'exp':
        return f_exp(args[0])
    if name == 'log':
        return f_log(args[0])
    if name == 'sqrt':
        return f_sqrt(args[0])
    if name == 'arccos':
        return f_arccos(args[0])
    if name == 'inv':
        return args[0].inv()
    if name == 'pw':
        return pow_rat(args[0], args[1].const())
    return rat(mk_atom('fn', name, tuple(args), a.sign if a else 'any', a.isint if a else False))


def subst_poly(p, sub, memo):
    out = RZERO
    for m, c in p.d.items():
        t = rat(c)
        for i, e in m:
            b = subst_atom(Atom.byid[i], sub, memo)
            t = t * (b.ipow(int(e)) if float(e).is_integer() else pow_rat(b, e))
        out = out + t
    return out


def subst(r, sub, memo=None):
    if not (r.fv() & sub_ids(sub)):
        return r
    memo = {} if memo is None else memo
    n = subst_poly(r.num, sub, memo)
    for p, e in r.den:
        n = n / subst_poly(p, sub, memo).ipow(e)
    return n


def subst_form(f, sub, memo=None):
    memo = {} if memo is None else memo
    if isinstance(f, Cmp):
        return mk_cmp(f.op, subst(f.r, sub, memo))
    if isinstance(f, BAtom):
        return BAtom(f.name, [subst(a, sub, memo) for a in f.args])
    if isinstance(f, Not):
        return mk_not(subst_form(f.a, sub, memo))
    if isinstance(f, NAry):
        return (mk_and if f.op == '&' else mk_or)(*[subst_form(x, sub, memo) for x in f.xs])
    return f


# --------------------------------------------------------------------- trees
class Special:
    def __init__(self, name):
        self.name = name
        self.key = ('S', name)

    def __repr__(self):
        return self.name


NAN, PINF, NINF = Special('nan'), Special('inf'), Special('-inf')


class Ite:
    __slots__ = ('c', 'a', 'b', 'key')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.key = ('I', c.key, a.key, b.key)

    def __repr__(self):
        return f'ite({self.c!r}, {self.a!r}, {self.b!r})'


def mk_ite(c, a, b):
    if isinstance(c, BConst):
        return a if c.v else b
    if a.key == b.key:
        return a
    return Ite(c, a, b)


_SGN = {'<': frozenset('-'), '<=': frozenset('-0'), '=': frozenset('0')}
_FLIP = {'-': '+', '+': '-', '0': '0'}
_ALL = frozenset('-0+')


def _lits(c, v):
    """literal facts (rat key -> sign set, or form key -> bool) implied by form c having value v"""
    out = []
    if isinstance(c, Not):
        return _lits(c.a, not v)
    if isinstance(c, NAry) and (c.op == '&') == v:
        for x in c.xs:
            out += _lits(x, v)
        return out
    return [(c, v)]


def _facts(c, v):
    sg, bl = {}, {}
    for f, val in _lits(c, v):
        bl[f.key] = val
        if isinstance(f, Cmp):
            s = _SGN[f.op] if val else _ALL - _SGN[f.op]
            k = f.r.key
            sg[k] = sg.get(k, _ALL) & s
            k2 = (-f.r).key
            sg[k2] = sg.get(k2, _ALL) & frozenset(_FLIP[x] for x in s)
    return sg, bl


def _under(f, sg, bl):
    b = bl.get(f.key)
    if b is not None:
        return TRUE if b else FALSE
    if isinstance(f, Cmp):
        s = sg.get(f.r.key)
        if s is not None:
            w = _SGN[f.op]
            if s <= w:
                return TRUE
            if not (s & w):
                return FALSE
        return f
    if isinstance(f, Not):
        x = _under(f.a, sg, bl)
        return f if x is f.a else mk_not(x)
    if isinstance(f, NAry):
        xs = [_under(x, sg, bl) for x in f.xs]
        if all(x is y for x, y in zip(xs, f.xs)):
            return f
        return mk_and(*xs) if f.op == '&' else mk_or(*xs)
    return f


def restrict(t, c, v):
    """prune tree t knowing formula c has value v"""
    if not isinstance(t, Ite):
        return t
    return _restrict(t, *_facts(c, v))


def _restrict(t, sg, bl):
    if not isinstance(t, Ite):
        return t
    c = _under(t.c, sg, bl)
    if c is TRUE:
        return _restrict(t.a, sg, bl)
    if c is FALSE:
        return _restrict(t.b, sg, bl)
    a, b = _restrict(t.a, sg, bl), _restrict(t.b, sg, bl)
    if a is t.a and b is t.b and c is t.c:
        return t
    return mk_ite(c, a, b)


TPATH = []


def tmap(f, *ts):
    for n, t in enumerate(ts):
        if isinstance(t, Ite):
            ta = tuple(restrict(x, t.c, True) for x in ts)
            tb = tuple(restrict(x, t.c, False) for x in ts)
            TPATH.append(t.c)
            try:
                ra = restrict(tmap(f, *ta), t.c, True)
            finally:
                TPATH.pop()
            TPATH.append(mk_not(t.c))
            try:
                rb = restrict(tmap(f, *tb), t.c, False)
            finally:
                TPATH.pop()
            return mk_ite(t.c, ra, rb)
    return f(*ts)


def tform(f, *ts):
    """leaf function returning Form"""
    for n, t in enumerate(ts):
        if isinstance(t, Ite):
            ta = tuple(restrict(x, t.c, True) for x in ts)
            tb = tuple(restrict(x, t.c, False) for x in ts)
            return mk_or(mk_and(t.c, tform(f, *ta)), mk_and(mk_not(t.c), tform(f, *tb)))
    return f(*ts)


def tree_leaves(t, path=()):
    if isinstance(t, Ite):
        yield from tree_leaves(t.a, path + (t.c,))
        yield from tree_leaves(t.b, path + (mk_not(t.c),))
    else:
        yield path, t


def tree_subst(t, sub):
    if isinstance(t, Ite):
        return mk_ite(subst_form(t.c, sub), tree_subst(t.a, sub), tree_subst(t.b, sub))
    if isinstance(t, Rat):
        return subst(t, sub)
    return t


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'var':
        if a.args:
            return f"{a.name}[{','.join(map(show, a.args))}]"
        return a.name
    if a.kind == 'fn':
        n = {'sinh2': 'sinhalf', 'cosh2': 'coshalf'}.get(a.name, a.name)
        return f"{n}({','.join(map(show, a.args))})"
    if a.kind == 'ind':
        return f'[{show_form(a.args[0])}]'
    if a.kind == 'sum':
        return f'SUM<{a.name}>({show(a.args[1])})'
    return '?'


def show_poly(p):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: mono_order(t[0]), reverse=True):
        fs = [show_atom(Atom.byid[i]) + ('' if e == 1 else f'^{e}') for i, e in m]
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(fs))
        elif c == -1:
            out.append('-' + '*'.join(fs))
        else:
            out.append(f'{c}*' + '*'.join(fs))
    return ' + '.join(out).replace('+ -', '- ')


def show(r):
    if isinstance(r, Rat):
        s = show_poly(r.num)
        if r.den:
            s = f'({s})/' + '/'.join(f'({show_poly(p)})' + ('' if e == 1 else f'^{e}') for p, e in r.den)
        return s
    return repr(r)


def show_form(f):
    if isinstance(f, BConst):
        return str(f.v)
    if isinstance(f, Cmp):
        return f"{show(f.r)} {f.op.replace('=', '==') if f.op == '=' else f.op} 0"
    if isinstance(f, BAtom):
        return f.name + (f"[{','.join(map(show, f.args))}]" if f.args else '')
    if isinstance(f, Not):
        return f'!({show_form(f.a)})'
    return '(' + (' & ' if f.op == '&' else ' | ').join(show_form(x) for x in f.xs) + ')'
