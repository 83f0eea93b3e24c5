"""Helpers for writing contracts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pyvc'))
from fractions import Fraction as F
from terms import *
import terms as T
from values import *
import values as V
import shim_units as U
import shim_np as NP
import seqs as S
import loader
from shim_units import Quantity, Unit, Label
from seqs import VList, SymSeq, Gen, VDict, mk_gen
from engine import unit

DAY = rat(86400)
UNITS_ON = True


# ------------------------------------------------------------ symbolic inputs
def num(name, sign='any', isint=False):
    return Sym(var(name, sign=sign, isint=isint), isint)


def sunit(name, base):
    """an arbitrary unit of the same physical kind as `base` (symbolic positive scale)"""
    return Unit(base.dims, var('unit_' + name, sign='pos'), f'<unit of {name}>')


def qty(name, base, sign='any', anyunit=True, shape=None):
    """(Quantity, base value): a quantity of the kind of `base`, given in an arbitrary unit;
    the second component is its magnitude in coherent SI units"""
    x = var(name, sign=sign)
    if anyunit:
        un = sunit(name, base)
    else:
        un = base
    return Quantity(Sym(x / un.scale), un), x


def si(q):
    """tree: magnitude in SI"""
    if isinstance(q, Quantity):
        if isinstance(q.value, Array):
            s = V.snap(q.value)
            sc = q.unit.scale
            return lambda ix: tmap(lambda a: l_mul(a, sc), s.at(ix))
        return tmap(lambda a: l_mul(a, q.unit.scale), tree_of(q.value))
    return tree_of(q)


def has_kind(q, base):
    return isinstance(q, Quantity) and q.unit.same_dims(base)


def angle(name, anyunit=True):
    return qty(name, U.rad, anyunit=anyunit)


def feq(a, b):
    """Form: trees equal (both NaN counts as unequal unless identical)"""
    return t_cmp('=', a if not isinstance(a, (Sym, int, float, F)) else tree_of(a), b if not isinstance(b, (Sym, int, float, F)) else tree_of(b))


def tr(x):
    return tree_of(x) if not isinstance(x, (Rat, Ite, Special)) else x


def fle(a, b):
    return t_cmp('<=', tr(a), tr(b))


def flt(a, b):
    return t_cmp('<', tr(a), tr(b))


def finite(t):
    return S.t_finite(tr(t))


def tmin(a, b):
    return tmap(NP._tmin(True), tr(a), tr(b))


def tmax(a, b):
    return tmap(NP._tmin(False), tr(a), tr(b))


# --------------------------------------------------------------- grids
class GridStub:
    """a coordinate grid by contract: N points (any shape) with latitude/longitude families"""

    def __init__(self, P, tag='', two_d=False):
        self.tag = tag
        if two_d:
            self.dims = (var('nlon' + tag, sign='pos', isint=True), var('nlat' + tag, sign='pos', isint=True))
        else:
            self.dims = (var('N' + tag, sign='pos', isint=True),)

    def lat(self, ix):
        return var('glat' + self.tag, *ix)

    def lon(self, ix):
        return var('glon' + self.tag, *ix)


def grid_facts(c, tag=''):
    c.families['glat' + tag] = lambda *ix: [mk_cmp('<=', var('glat' + tag, *ix) - PI / 2), mk_cmp('>=', var('glat' + tag, *ix) + PI / 2)]
    c.families['glon' + tag] = lambda *ix: [mk_cmp('>=', var('glon' + tag, *ix)), mk_cmp('<', var('glon' + tag, *ix) - PI * 2)]


def mk_grid(P, c, tag='', area=True, two_d=False, real_mu=False):
    """instance of the repository's CoordinateGrid whose methods are replaced by their contract"""
    cls = P.coordinate_grid.CoordinateGrid
    g = cls.__new__(cls)
    st = GridStub(P, tag, two_d)
    d = g.__dict__
    d['_stub'] = st
    grid_facts(c, tag)

    class Sub(cls):
        def grid(self):
            s = self.__dict__['_stub']
            return (Quantity(Array(s.dims, s.lat), U.rad), Quantity(Array(s.dims, s.lon), U.rad))

        def cos_angle_from_disk_center(self, lat0, lon0):
            la, lo = self.grid()
            return mu_array(self.__dict__['_stub'], si(lat0), si(lon0))

        @property
        def area(self):
            s = self.__dict__['_stub']
            c2 = V.ctx()
            nm = 'garea' + s.tag
            return Array(s.dims, lambda ix: var(nm, *ix, sign='nneg'))

        def zeros(self, dtype='float32'):
            if dtype in ('bool', bool):
                return Array(self.__dict__['_stub'].dims, lambda ix: FALSE, 'b')
            return Array(self.__dict__['_stub'].dims, lambda ix: RZERO)

        def __eq__(self, o):
            return self is o

        def __ne__(self, o):
            return self is not o

        __hash__ = object.__hash__
    if real_mu:
        del Sub.cos_angle_from_disk_center
    g = Sub.__new__(Sub)
    g.__dict__['_stub'] = st
    return g


def mu_true(lat0, lon0, lat, lon):
    """cosine of the angle between two unit vectors"""
    return tmap(lambda a, b, c_, d: f_sin(a) * f_sin(c_) + f_cos(a) * f_cos(c_) * f_cos(b - d), lat0, lon0, lat, lon)


def mu_array(st, lat0, lon0):
    return Array(st.dims, lambda ix: mu_true(lat0, lon0, st.lat(ix), st.lon(ix)))


# --------------------------------------------------------------- frames
def freeze(v, depth=0):
    if isinstance(v, Quantity):
        return ('Q', v.unit, freeze(v.value))
    if isinstance(v, Sym):
        return ('S', v.t)
    if isinstance(v, (bool, SymBool)):
        return ('B', as_form(v))
    if isinstance(v, (int, float)):
        return ('S', tree_of(v))
    if isinstance(v, Array):
        return ('A', V.snap(v))
    if isinstance(v, VDict) and not v.gens:
        return ('D', [(k, freeze(x)) for k, x in v.items_])
    if isinstance(v, (tuple,)) and depth < 3:
        return ('T', [freeze(x, depth + 1) for x in v])
    if isinstance(v, SymSeq):
        return ('L', [s if isinstance(s, Gen) else freeze(s[1], depth + 1) for s in v.segs])
    return ('O', v)


def same(x, y):
    """Form: equal trees, where identical trees (NaN included) are equal"""
    if x is y or x.key == y.key:
        return TRUE
    return feq(x, y)


def frozen_eq(a, b):
    """Form: two frozen values are the same"""
    if a is b:
        return TRUE
    if a[0] != b[0]:
        return FALSE
    k = a[0]
    if k == 'Q':
        if not a[1].same_dims(b[1]):
            return FALSE
        if a[2][0] == 'A':
            x, y = a[2][1], b[2][1]
            if y is None or len(x.dims) != len(y.dims):
                return FALSE
            if x.fn is y.fn:
                return TRUE if a[1].scale == b[1].scale else FALSE
            p = V.generic_index(x.dims)
            return same(tmap(lambda t: l_mul(t, a[1].scale), x.at(p)), tmap(lambda t: l_mul(t, b[1].scale), y.at(p)))
        return same(tmap(lambda t: l_mul(t, a[1].scale), a[2][1]), tmap(lambda t: l_mul(t, b[1].scale), b[2][1]))
    if k == 'S':
        return same(a[1], b[1])
    if k == 'B':
        return mk_iff(a[1], b[1])
    if k == 'A':
        x, y = a[1], b[1]
        if len(x.dims) != len(y.dims) or x.kind != y.kind:
            return FALSE
        if x.fn is y.fn:
            return TRUE
        p = V.generic_index(x.dims)
        if x.kind == 'b':
            return mk_iff(x.at(p), y.at(p))
        return same(x.at(p), y.at(p))
    if k == 'D':
        if [x[0] for x in a[1]] != [x[0] for x in b[1]]:
            return FALSE
        return mk_and(*[frozen_eq(x[1], y[1]) for x, y in zip(a[1], b[1])])
    if k in ('T', 'L'):
        if len(a[1]) != len(b[1]):
            return FALSE
        fs = []
        for x, y in zip(a[1], b[1]):
            if isinstance(x, Gen) or isinstance(y, Gen):
                if x is not y:
                    return FALSE
                continue
            fs.append(frozen_eq(x, y))
        return mk_and(*fs)
    return TRUE if a[1] is b[1] else FALSE


class Frame:
    """snapshot of an object's attributes and of every quantity reachable from them"""

    def __init__(self, obj, skip=()):
        self.obj = obj
        self.skip = set(skip)
        self.attrs = {n: (v, freeze(v)) for n, v in obj.__dict__.items()}

    def check(self, c, what, allowed=()):
        for n, (v, fz) in self.attrs.items():
            if n in self.skip or n.startswith('_'):
                continue             # private names are representation, not observable state
            cur = self.obj.__dict__.get(n, None)
            if n not in allowed:
                c.oblige(f'{what}: attribute {n} unchanged', frozen_eq(fz, freeze(cur)), 'frame')
            # the objects handed in are not mutated behind the caller's back
            if cur is not v or n not in allowed:
                c.oblige(f'{what}: the value object of {n} is not modified in place', frozen_eq(fz, freeze(v)), 'frame')
            elif n in allowed and isinstance(v, Quantity):
                c.oblige(f'{what}: the old {n} object is not modified in place', frozen_eq(fz, freeze(v)), 'frame')


def is_(a, b):
    return TRUE if a is b else FALSE


def expect_raise(c, name, exc, f):
    """calls f; obliges that it raises exc (subclass)"""
    try:
        f()
    except (Unsupported, PathEnd):
        raise
    except exc as e:
        import engine
        if engine.exc_origin(e)[0] == 'engine':
            raise
        c.oblige(name, TRUE, 'raises')
        return True
    c.oblige(name, FALSE, 'raises')
    return False


def at(x, p):
    """element of an array value (or the scalar itself) as a tree in SI units / a Form"""
    if isinstance(x, Quantity):
        t = at(x.value, p)
        sc = x.unit.scale
        return tmap(lambda a: l_mul(a, sc), t)
    if isinstance(x, Array):
        return x.at(p[-len(x.dims):] if len(x.dims) else ())
    if isinstance(x, (bool, SymBool)):
        return as_form(x)
    return tree_of(x)


def gp(st_or_dims):
    """generic index for a statement about every element (from here on the array has elements: for an
    empty one such a statement is void)"""
    dims = st_or_dims.dims if hasattr(st_or_dims, 'dims') else st_or_dims
    for d in dims:
        f = mk_cmp('>=', d - 1)
        if f != TRUE and f not in V.ctx().assume_list:
            V.ctx().assume(f)
    return V.generic_index(dims)


def form_of(b):
    """Form of a scalar/elementwise truth value (numbers: != 0)"""
    if isinstance(b, Form):
        return b
    if isinstance(b, (bool, SymBool)):
        return as_form(b)
    return mk_not(t_cmp('=', tr(b), RZERO))


def same_shape(x, dims):
    x = x.value if isinstance(x, Quantity) else x
    if not isinstance(x, Array) or len(x.dims) != len(dims):
        return FALSE
    return mk_and(*[mk_cmp('=', a - b) for a, b in zip(x.dims, dims)])


# --------------------------------------------------------------- calculus
def deriv(r, x):
    """symbolic derivative of a Rat with respect to the variable x (a Rat that is a single variable)"""
    a = atom_of(x)

    def datom(b):
        if b.id == a.id:
            return RONE
        if a.id not in b.fv:
            return RZERO
        if b.kind == 'fn':
            y = b.args[0]
            dy = deriv(y, x)
            rb = rat(b)
            if b.name == 'exp':
                return rb * dy
            if b.name == 'log':
                return dy / y
            if b.name == 'sqrt':
                return dy / (rb * 2)
            if b.name == 'sin':
                return f_cos(y) * dy
            if b.name == 'cos':
                return -f_sin(y) * dy
            if b.name == 'inv':
                return -dy / (y * y)
        raise Unsupported(f'derivative of {b}')

    def dpoly(p):
        out = RZERO
        for m, co in p.d.items():
            for i, e in m:
                b = Atom.byid[i]
                db = datom(b)
                if db == RZERO:
                    continue
                rest = rat(co)
                for j, ej in m:
                    k = ej - 1 if j == i else ej
                    bj = rat(Atom.byid[j])
                    rest = rest * (bj.ipow(int(k)) if float(k).is_integer() else pow_rat(bj, k))
                out = out + rest * db * (F(e) if not isinstance(e, int) else e)
        return out
    n = Rat(r.num)
    out = dpoly(r.num)
    den = RONE
    for p, e in r.den:
        q = Rat(p)
        for _ in range(e):
            den = den * q
    dn = RZERO
    for p, e in r.den:
        q = Rat(p)
        dn = dn + dpoly(p) / q * e
    return out / den - n / den * dn


def pick(c, t):
    """the leaf of a tree on this path: undecided conditions fork the path"""
    while isinstance(t, Ite):
        t = t.a if c.decide(t.c) else t.b
    return t
