"""numpy stand-in over symbolic values (exact real arithmetic, NaN/inf tracked as leaves)."""
import math
import builtins
from fractions import Fraction as F
from terms import *
import terms as T
from values import *
import values as V
import shim_units as U
from shim_units import Quantity, Unit, UnitConversionError, dimensionless_unscaled
import seqs as S
from seqs import VList, SymSeq, Gen, GIter, VDict

pi = Sym(PI)
e = Sym(f_exp(RONE))
inf = float('inf')
Inf = inf
nan = float('nan')
NaN = nan
newaxis = None


class ndarray:
    pass


class _DT:
    def __init__(self, n):
        self.n = n

    def __call__(self, x=0.0):
        return x


float64 = double = 'float64'
float32 = 'float32'
int64 = 'int64'
int32 = 'int32'
int16 = 'int16'
int_ = 'int64'
float_ = 'float64'
bool_ = 'bool'
integer = int
floating = float


def isarr(x):
    return isinstance(x, Array)


def norm(x):
    """sequence -> Array / Quantity; scalars unchanged"""
    if isinstance(x, (list, tuple, SymSeq)):
        return array(x)
    return x


def map1(leaf, x):
    if isinstance(x, Array):
        return a_un(leaf, x)
    if isinstance(x, Masked):
        return Masked(a_un(leaf, x.arr), x.mask)
    if isinstance(x, SymBool):
        x = x._s()
    return mksym(tmap(leaf, tree_of(x)))


def _dimless(x):
    if isinstance(x, Quantity):
        try:
            return x.to_value(dimensionless_unscaled), True
        except UnitConversionError:
            raise UnitConversionError('can only apply function to dimensionless quantities')
    return x, False


def _trig(leaf):
    def f(x, **kw):
        x = norm(x)
        if isinstance(x, Quantity):
            if not x.unit.dims:
                v = x.to_value(dimensionless_unscaled)
                raise UnitConversionError('trigonometric function of a dimensionless quantity')
            return Quantity(map1(leaf, x.to_value(U.rad)), dimensionless_unscaled)
        return map1(leaf, x)
    return f


sin = _trig(l_sin)
cos = _trig(l_cos)
tan = _trig(l_tan)


def _arc(leaf):
    def f(x, **kw):
        x = norm(x)
        v, q = _dimless(x)
        r = map1(leaf, v)
        return Quantity(r, U.rad) if q else r
    return f


arccos = acos = _arc(l_arccos)
arcsin = asin = _arc(l_arcsin)


def _el(leaf):
    def f(x, **kw):
        x = norm(x)
        v, q = _dimless(x)
        r = map1(leaf, v)
        return Quantity(r, dimensionless_unscaled) if q else r
    return f


exp = _el(l_exp)
log = _el(l_log)


def l_log10(x):
    r = l_log(x)
    return tmap(lambda t: t if isinstance(t, Special) else t / f_log(rat(10)), r)


log10 = _el(l_log10)
log2 = _el(lambda x: tmap(lambda t: t if isinstance(t, Special) else t / f_log(rat(2)), l_log(x)))
log1p = _el(lambda x: l_log(l_add(x, RONE)))
expm1 = _el(lambda x: l_add(l_exp(x), rat(-1)))


def sqrt(x, **kw):
    x = norm(x)
    if isinstance(x, Quantity):
        return Quantity(map1(l_sqrt, x.value), x.unit ** F(1, 2))
    return map1(l_sqrt, x)


def square(x):
    return norm(x) ** 2


def power(x, n):
    return norm(x) ** n


def float_power(x, n):
    return norm(x) ** n


def hypot(a, b):
    return sqrt(norm(a) ** 2 + norm(b) ** 2)


def abs(x):
    x = norm(x)
    if isinstance(x, Quantity):
        return Quantity(abs(x.value), x.unit)
    return map1(l_abs, x)


absolute = fabs = abs


def deg2rad(x):
    x = norm(x)
    if isinstance(x, Quantity):
        return x.to(U.rad)
    return x * Sym(PI / 180)


radians = deg2rad


def rad2deg(x):
    x = norm(x)
    if isinstance(x, Quantity):
        return x.to(U.deg)
    return x * Sym(rat(180) / PI)


degrees = rad2deg


def _same(leaf):
    def f(x, **kw):
        x = norm(x)
        if isinstance(x, Quantity):
            return Quantity(map1(leaf, x.value), x.unit)
        return map1(leaf, x)
    return f


floor = _same(l_floor)
ceil = _same(lambda x: l_neg(l_floor(l_neg(x))))
trunc = _same(l_trunc)


def sign(x):
    x = norm(x)
    if isinstance(x, Quantity):
        x = x.value
    return map1(lambda t: NAN if t is NAN else RONE if t is PINF else -RONE if t is NINF else
                mk_ite(mk_cmp('>', t), RONE, mk_ite(mk_cmp('<', t), -RONE, RZERO)), x)


def round(x, decimals=0):
    x = norm(x)
    if isinstance(x, Quantity):
        return Quantity(map1(l_round(decimals), x.value), x.unit)
    return map1(l_round(decimals), x)


around = round_ = rint = round


def mod(a, b):
    return norm(a) % b


remainder = mod


def add(a, b):
    return norm(a) + b


def subtract(a, b):
    return norm(a) - b


def multiply(a, b):
    return norm(a) * b


def divide(a, b):
    return U._div(norm(a), b)


true_divide = divide


def negative(a):
    return -norm(a)


def _common(*xs):
    """values of the operands in the unit of the first Quantity; unit or None"""
    unit = None
    for x in xs:
        if isinstance(x, Quantity):
            unit = x.unit
            break
    if unit is None:
        return list(xs), None
    ref = Quantity(1, unit)
    return [(x.value if isinstance(x, Quantity) and x.unit == unit else ref._other(x)) for x in xs], unit


def _wrap(v, unit):
    return v if unit is None else Quantity(v, unit)


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = [norm(x) for x in ab]
    c = norm(c)
    if isinstance(c, Quantity):
        c = c.to_value(dimensionless_unscaled)
    (a, b), unit = _common(a, b)
    return _wrap(a_where(c, a, b), unit)


def select(condlist, choicelist, default=0):
    out = default
    pairs = list(zip(condlist, choicelist))
    for c, v in reversed(pairs):
        out = where(c, v, out)
    return out


def nonzero(c):
    raise Unsupported('nonzero')


def _tmin(less):
    def leaf(a, b):
        if a is NAN or b is NAN:
            return NAN
        c = CMPS['<' if less else '>'](a, b)
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if CTX().entails(CMPS['<=' if less else '>='](a, b)):
            return a
        if CTX().entails(mk_not(c)):
            return b
        return mk_ite(c, a, b)
    return leaf


def CTX():
    return V.ctx()


def _minmax(less):
    leaf = _tmin(less)

    def f(a, b):
        (a, b), unit = _common(norm(a), norm(b))
        if isinstance(a, Array) or isinstance(b, Array):
            return _wrap(a_bin(leaf, a, b), unit)
        return _wrap(mksym(tmap(leaf, tree_of(a), tree_of(b))), unit)
    return f


minimum = fmin = _minmax(True)
maximum = fmax = _minmax(False)


def clip(x, a_min=None, a_max=None, out=None, min=None, max=None):
    if out is not None:
        if not isinstance(out, Array):
            raise Unsupported('clip into another object')
        r = clip(x, a_min, a_max, None, min, max)
        if not isinstance(r, Array) or r.dims != out.dims or r.kind != out.kind:
            raise Unsupported('clip into another shape')
        out.set_fn(snap(r).fn)
        return out
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    x = norm(x)
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


def isnan(x):
    x = norm(x)
    if isinstance(x, Quantity):
        x = x.value

    def leaf(t):
        return TRUE if t is NAN else FALSE
    if isinstance(x, Array):
        if x.kind == 'b':
            return Array(x.dims, lambda ix: FALSE, 'b')
        s = snap(x)
        return Array(x.dims, lambda ix: tform(leaf, s.at(ix)), 'b')
    return mkbool(tform(leaf, tree_of(x)))


def isfinite(x):
    x = norm(x)
    if isinstance(x, Quantity):
        x = x.value

    def leaf(t):
        return FALSE if isinstance(t, Special) else TRUE
    if isinstance(x, Array):
        s = snap(x)
        return Array(x.dims, lambda ix: tform(leaf, s.at(ix)), 'b')
    return mkbool(tform(leaf, tree_of(x)))


def isinf(x):
    x = norm(x)
    if isinstance(x, Quantity):
        x = x.value

    def leaf(t):
        return TRUE if t in (PINF, NINF) else FALSE
    if isinstance(x, Array):
        s = snap(x)
        return Array(x.dims, lambda ix: tform(leaf, s.at(ix)), 'b')
    return mkbool(tform(leaf, tree_of(x)))


def nan_to_num(x, copy=True, nan=0.0, **kw):
    return where(isnan(x), nan, x)


def _sel(x):
    return x if isinstance(x, Masked) else norm(x)


def any(x, axis=None):
    x = _sel(x)
    return a_any(x.value if isinstance(x, Quantity) else x)


def all(x, axis=None):
    x = _sel(x)
    return a_all(x.value if isinstance(x, Quantity) else x)


def sum(x, axis=None, **kw):
    x = _sel(x)
    if isinstance(x, FilteredInts):
        return x.total()
    if isinstance(x, Quantity):
        return Quantity(a_sum(x.value, axis), x.unit)
    return a_sum(x, axis)


nansum = None


def count_nonzero(x):
    x = _sel(x)
    if isinstance(x, Array) and x.kind != 'b':
        x = x != 0
    r = a_sum(x)
    return Sym(r.t, True) if isinstance(r, Sym) else r


def mean(x, axis=None):
    x = _sel(x)
    if isinstance(x, Quantity):
        return Quantity(a_mean(x.value, axis), x.unit)
    return a_mean(x, axis)


def average(x, axis=None, weights=None):
    if weights is None:
        return mean(x, axis)
    x, weights = norm(x), norm(weights)
    return sum(x * weights, axis) / sum(weights, axis)


def max(x, axis=None):
    return _extreme(x, 'max')


def min(x, axis=None):
    return _extreme(x, 'min')


amax, amin = max, min


def _extreme(x, which):
    x = _sel(x)
    if isinstance(x, Quantity):
        return Quantity(_extreme(x.value, which), x.unit)
    if not isinstance(x, (Array, Masked)):
        return x
    raise Unsupported(f'np.{which} of an array')


def percentile(a, q, axis=None, **kw):
    """numpy's linear-interpolation percentile, by its contract: with n selected values and
    f = q/100 in [0,1],  #{v <= P} >= f(n-1)+... and #{v < P} <= f(n-1)+1"""
    if kw or axis is not None:
        raise Unsupported('percentile options')
    if isinstance(q, Quantity):
        q = q.to_value(dimensionless_unscaled)
    if not isinstance(a, Masked):
        if not isinstance(a, Array):
            raise Unsupported('percentile of a scalar')
        a = Masked(a, Array(a.dims, lambda ix: TRUE, 'b'))
    c = V.ctx()
    P = c.fresh('percentile')
    qt = tree_of(q)
    arr, mask = snap(a.arr), snap(a.mask)
    n = a_sum(mask) if True else None
    le = a_sum(a_bool(mk_and, a_cmp('<=', arr, Sym(P)), mask))
    lt = a_sum(a_bool(mk_and, a_cmp('<', arr, Sym(P)), mask))
    f = Sym(tmap(l_mul, qt, rat(F(1, 100))))
    c.oblige('percentile rank in [0,100]', mk_and(t_cmp('>=', qt, RZERO), t_cmp('<=', qt, rat(100))), 'pre')
    c.assume(as_form(le >= f * (n - 1)))
    c.assume(as_form(le >= 1))
    c.assume(as_form(lt <= f * (n - 1) + 1))
    c.notes.append('assumed contract: numpy.percentile (linear interpolation order statistic)')
    c.events.append(('percentile', P, a, q))
    return Sym(P)


def quantile(a, q, **kw):
    return percentile(a, q * 100, **kw)


# --------------------------------------------------------------- constructors
def _shape(shape):
    if isinstance(shape, (int, Sym)):
        shape = (shape,)
    if isinstance(shape, SymSeq):
        shape = tuple(shape)
    out = []
    for d in shape:
        if isinstance(d, Sym) and not d.isint and not _int_term(d.t):
            raise TypeError('float object cannot be interpreted as an integer')
        if isinstance(d, float):
            raise TypeError('float object cannot be interpreted as an integer')
        out.append(dim_rat(d))
    return tuple(out)


def full(shape, v, dtype=None):
    unit = None
    if isinstance(v, Quantity):
        v, unit = v.value, v.unit
    if isinstance(v, bool):
        f = TRUE if v else FALSE
        r = Array(_shape(shape), lambda ix: f, 'b')
        return r if dtype in (None, bool, 'bool') else r.astype(dtype)
    t = tree_of(v)
    return _wrap(Array(_shape(shape), lambda ix: t), unit)


def zeros(shape, dtype='float64', **kw):
    if dtype in (bool, 'bool'):
        return Array(_shape(shape), lambda ix: FALSE, 'b')
    return Array(_shape(shape), lambda ix: RZERO)


def ones(shape, dtype='float64', **kw):
    if dtype in (bool, 'bool'):
        return Array(_shape(shape), lambda ix: TRUE, 'b')
    return Array(_shape(shape), lambda ix: RONE)


def empty(*a, **k):
    raise Unsupported('np.empty')


def _like(v):
    def f(x, dtype=None, **kw):
        x = norm(x)
        unit = None
        if isinstance(x, Quantity):
            x, unit = x.value, x.unit
        if not isinstance(x, Array):
            return _wrap(v, unit)
        if dtype is None and x.kind == 'b' or dtype in (bool, 'bool'):
            return Array(x.dims, lambda ix: (TRUE if v else FALSE), 'b')
        return _wrap(Array(x.dims, lambda ix: rat(v)), unit)
    return f


zeros_like = _like(0)
ones_like = _like(1)


def full_like(x, v, dtype=None):
    unit = None
    if isinstance(x, Quantity):
        x, unit = x.value, x.unit
    if isinstance(v, Quantity):
        v, unit = (v.value, v.unit) if unit is None else (v.to_value(unit), unit)
    return _wrap(full(x.shape, v), unit)


def linspace(a, b, num=50, endpoint=True, **kw):
    if kw:
        raise Unsupported('linspace options')
    (a, b), unit = _common(a, b)
    if isinstance(num, Quantity) or isinstance(num, float) or isinstance(num, Sym) and not num.isint:
        raise TypeError('num must be an integer')
    n = dim_rat(num)
    ta, tb = tree_of(a), tree_of(b)
    den = n - 1 if endpoint else n
    c = n.const()
    if c is not None and c == 1:
        return _wrap(Array((n,), lambda ix: ta), unit)

    def fn(ix):
        return tmap(lambda q, x, y: NAN if q is NAN else l_add(x, l_mul(q, l_add(y, l_neg(x)))), l_div(ix[0], den), ta, tb)
    if endpoint and c is None:
        # the last point is the end value exactly, also for n=1 only the start
        inner = fn

        def fn(ix):
            return mk_ite(mk_cmp('=', ix[0]), ta, inner(ix)) if not CTX().entails(mk_cmp('>=', n - 2)) else inner(ix)
    return _wrap(Array((n,), fn, meta={'linspace': True}), unit)


def arange(*a, **kw):
    if kw and set(kw) - {'dtype'}:
        raise Unsupported('arange options')
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if st != 1 or not all_int(lo) or not all_int(hi):
        raise Unsupported('arange with a step')
    lo = dim_rat(lo)
    n = dim_rat(hi) - lo
    return Array((n,), lambda ix: ix[0] + lo)


def all_int(x):
    return isinstance(x, int) or isinstance(x, Sym) and x.isint


def meshgrid(a, b, indexing='xy', **kw):
    a, b = norm(a), norm(b)
    ua = a.unit if isinstance(a, Quantity) else None
    ub = b.unit if isinstance(b, Quantity) else None
    a = snap(a.value) if ua else snap(a)
    b = snap(b.value) if ub else snap(b)
    na, nb = a.dims[0], b.dims[0]
    if kw:
        raise Unsupported('meshgrid options')
    if indexing == 'xy':
        A = Array((nb, na), lambda ix: a.at((ix[1],)))
        B = Array((nb, na), lambda ix: b.at((ix[0],)))
    else:
        A = Array((na, nb), lambda ix: a.at((ix[0],)))
        B = Array((na, nb), lambda ix: b.at((ix[1],)))
    return VList([_wrap(A, ua), _wrap(B, ub)])


def broadcast_to(a, shape, subok=False):
    a = norm(a)
    unit = a.unit if isinstance(a, Quantity) and subok else None
    a = snap(a.value) if isinstance(a, Quantity) else snap(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims = tuple(V.dim_rat(d) for d in shape)
    if not isinstance(a, Array):
        t = tree_of(a)
        return _wrap(Array(dims, lambda ix: t), unit)
    k = builtins.len(dims) - builtins.len(a.dims)
    if k < 0:
        raise ValueError('input operand has more dimensions than allowed')
    one = []
    for d, e in zip(a.dims, dims[k:]):
        if d == e:
            one.append(False)
        elif d == RONE:
            one.append(True)
        else:
            raise Unsupported('broadcast_to another shape')
    return _wrap(Array(dims, lambda ix: a.at(tuple(RZERO if o else i for o, i in zip(one, ix[k:]))), a.kind), unit)


def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, (Array, Quantity)):
        return x.copy()
    if isinstance(x, FilteredInts):
        return x
    if isinstance(x, (tuple, list)):
        x = VList(list(x))
    if isinstance(x, SymSeq):
        if not x.has_gen():
            vs = [v for _, v in x.segs]
            vs = [norm(v) if isinstance(v, (list, tuple, SymSeq)) else v for v in vs]
            if not vs:
                return Array((RZERO,), lambda ix: RZERO)
            unit = None
            if builtins.any(isinstance(v, Quantity) for v in vs):
                vs, unit = _common(*vs)
            if builtins.all(isinstance(v, (bool, SymBool)) for v in vs):
                fs = [as_form(v) for v in vs]

                def fb(ix):
                    c = ix[0].const()
                    if c is not None:
                        return fs[int(c)]
                    return mk_or(*[mk_and(mk_cmp('=', ix[0] - i), f) for i, f in enumerate(fs)])
                return Array((rat(len(fs)),), fb, 'b')
            if builtins.any(isinstance(v, Array) for v in vs):
                if not builtins.all(isinstance(v, Array) and v.dims == vs[0].dims for v in vs):
                    raise Unsupported('ragged array')
                sub = [snap(v) for v in vs]

                def fa(ix):
                    c = ix[0].const()
                    if c is not None:
                        return sub[int(c)].at(ix[1:])
                    raise Unsupported('symbolic row of a literal array')
                return _wrap(Array((rat(len(sub)),) + sub[0].dims, fa), unit)
            ts = [tree_of(v) for v in vs]

            def fn(ix):
                c = ix[0].const()
                if c is not None:
                    return ts[int(c)]
                t = ts[-1]
                for i in range(len(ts) - 2, -1, -1):
                    t = mk_ite(mk_cmp('=', ix[0] - i), ts[i], t)
                return t
            return _wrap(Array((rat(len(ts)),), fn), unit)
        if len(x.segs) == 1:
            g = x.segs[0]
            if isinstance(g.rep, (S.CatRep, S.MultiRep)) and g.inc and not g.filtered:
                # elements by contract: what is common to everything that was appended
                c = V.ctx()
                ts = [tree_of(v) for v in S.seg_leaves(g)]
                nm = c.fresh_name('flat')
                nn = builtins.all(c.entails(t_cmp('>=', t, RZERO)) for t in ts)
                n = S.seg_count(g)
                return Array((n,), lambda ix: var(nm, *ix, sign='nneg' if nn else 'any'))
            if isinstance(g.rep, (S.CatRep, S.MultiRep)) or not g.inc:
                raise Unsupported('array of a filtered sequence')
            if g.filtered:
                raise Unsupported('array of a filtered sequence')
            v = g.rep
            unit = None
            if isinstance(v, Quantity):
                v, unit = v.value, v.unit
            n = g.n if g.n is not None else var(f'len:{g.src}', sign='nneg', isint=True)
            if isinstance(v, (bool, SymBool)):
                f = as_form(v)
                return Array((n,), lambda ix: subst_form(f, {T.atom_of(g.k).id: ix[0]}), 'b')
            t = tree_of(v)
            return _wrap(Array((n,), lambda ix: t if ix[0] == g.k else tree_subst(t, {T.atom_of(g.k).id: ix[0]})), unit)
        raise Unsupported('array of a mixed sequence')
    if isinstance(x, (Sym, SymBool, bool, int, float)):
        return x
    raise Unsupported(f'np.array of {type(x).__name__}')


def asarray(x, dtype=None, **kw):
    if isinstance(x, (Array, Sym, SymBool, int, float)):
        return x
    if isinstance(x, Quantity):
        return x.value
    return array(x)


def asanyarray(x, **kw):
    return x if isinstance(x, Quantity) else asarray(x)


def copy(x, **kw):
    return V.snap(x) if isinstance(x, Array) else x.copy()


def atleast_1d(x):
    x = norm(x)
    if isinstance(x, (Array, Masked)):
        return x
    if isinstance(x, Quantity):
        if isinstance(x.value, Array):
            return x
        return Quantity(atleast_1d(x.value), x.unit)
    if isinstance(x, (bool, SymBool)):
        f = as_form(x)
        return Array((RONE,), lambda ix: f, 'b')
    t = tree_of(x)
    return Array((RONE,), lambda ix: t)


def ravel(x):
    return x.flatten()


def reshape(x, *a):
    raise Unsupported('reshape')


def shape(x):
    return getattr(x, 'shape', ())


def size(x):
    return getattr(x, 'size', 1)


def ndim(x):
    return getattr(x, 'ndim', 0)


def transpose(x):
    return x.T


def isscalar(x):
    return not isinstance(x, (Array, Quantity, Masked))


def logical_and(a, b):
    return norm(a) & norm(b)


def logical_or(a, b):
    return norm(a) | norm(b)


def logical_not(a):
    a = norm(a)
    if isinstance(a, bool):
        return not a
    return ~a


invert = logical_not


def logical_xor(a, b):
    return norm(a) ^ norm(b)


bitwise_and, bitwise_or = logical_and, logical_or


def equal(a, b):
    return norm(a) == norm(b)


def not_equal(a, b):
    return norm(a) != norm(b)


def less(a, b):
    return norm(a) < norm(b)


def less_equal(a, b):
    return norm(a) <= norm(b)


def greater(a, b):
    return norm(a) > norm(b)


def greater_equal(a, b):
    return norm(a) >= norm(b)


def isclose(*a, **k):
    raise Unsupported('isclose')


allclose = isclose


def argwhere(mask):
    """rows in index order: a generic sequence of the indices where mask holds"""
    if isinstance(mask, Array) and mask.kind != 'b':
        mask = mask != 0
    m = snap(mask)
    p = generic_index(m.dims)
    src = S.new_src('argwhere')
    return ArgWhere(m, p, src)


class ArgWhere(SymSeq):
    def __init__(self, mask, p, src):
        self.mask = mask
        n = a_sum(mask)
        nt = n.t if isinstance(n, Sym) else rat(n)
        g = Gen(None, rat(mk_atom('var', f'#k:{src}', (), 'nneg', True)), GenIndex(p, mask), src)
        g.cnt = nt
        g.facts = [mask.at(p)]
        super().__init__([g], 'argwhere')

    def length(self):
        return Sym(self.segs[0].cnt, True)

    @property
    def shape(self):
        return (self.length(), len(self.mask.dims))

    @property
    def size(self):
        return self.length() * len(self.mask.dims)


def unique(x, **kw):
    """the distinct values, in increasing order"""
    if kw:
        raise Unsupported('unique options')
    x = norm(x)
    unit = None
    if isinstance(x, Quantity):
        x, unit = x.value, x.unit
    if not isinstance(x, Array):
        raise Unsupported('unique of a scalar')
    s = snap(x)
    c = V.ctx()
    nm = c.fresh_name('uniq')
    n = var(f'n{nm}', sign='pos', isint=True)
    src = S.new_src('uniq')
    k = rat(mk_atom('var', f'#k:{src}', (), 'nneg', True))
    v = var(nm, k)
    g = Gen(n, k, _wrap(Sym(v), unit), src)
    g.uniq = (nm, s)
    UNIQ[src] = (nm, s)
    c.notes.append('assumed contract: numpy.unique (each value of the array exactly once)')
    return GIter([g])


UNIQ = {}


def _uniq_sum(s, body):
    """sum over k of body where tau_k are the distinct values of T(p):
    sum_k g(tau_k) * sum_p [T(p)=tau_k] w(p)  =  sum_p g(T(p)) w(p)"""
    nm, arr = UNIQ[s.src]
    tau = T.atom_of(var(nm, s.k)).id
    p = generic_index(arr.dims, '~')
    Tp = arr.at(p)
    if not isinstance(Tp, Rat):
        raise Unsupported('distinct values of a conditional map')
    eqf = mk_cmp('=', Tp - var(nm, s.k))
    eq_id = next(iter(ind(eqf).atoms()))
    bvs = [T.atom_of(r) for r in p]
    key = 'x'.join(show(d) for d in arr.dims)
    out = RZERO
    if body.den:
        for q, e_ in body.den:
            if tau in _all_atoms(Rat(q)):
                raise Unsupported('distinct-value sum with varying denominator')
    for m, cf in body.num.d.items():
        sums = [(i, ex) for i, ex in m if Atom.byid[i].kind == 'sum' and tau in _all_atoms(rat(Atom.byid[i]))]
        if len(sums) != 1 or sums[0][1] != 1:
            raise Unsupported('sum over distinct values')
        a = Atom.byid[sums[0][0]]
        bv, b = a.args
        if a.name != key or tuple(x.id for x in bv) != tuple(x.id for x in bvs):
            raise Unsupported('sum over distinct values of another array')
        nb = RZERO
        for m2, c2 in b.num.d.items():
            es = [ex for i, ex in m2 if i == eq_id]
            if not es:
                raise Unsupported('sum over distinct values without the equality indicator')
            nb = nb + Rat(Poly({tuple((i, ex) for i, ex in m2 if i != eq_id): c2}))
        rest = Rat(Poly({tuple((i, ex) for i, ex in m if i != sums[0][0]): cf}))
        w = nb * rest
        w = subst(w, {tau: Tp, T.atom_of(s.k).id: s.k})
        if tau in _all_atoms(w) or T.atom_of(s.k).id in w.fv():
            raise Unsupported('sum over distinct values: leftover index')
        out = out + sum_over(bvs, key, arr.dims, w)
    for q, e_ in body.den:
        out = out / Rat(q).ipow(e_)
    return out


def _all_atoms(r):
    seen, todo = set(), set(r.atoms())
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for x in Atom.byid[i].args:
            if isinstance(x, Rat):
                todo |= x.atoms()
            elif isinstance(x, Form):
                todo |= form_atoms(x)
    return seen


_old_gen_sum = S.gen_sum


def gen_sum(s, body):
    if s.src in UNIQ:
        return _uniq_sum(s, body)
    return _old_gen_sum(s, body)


S.gen_sum = gen_sum


def argsort(*a, **k):
    raise Unsupported('argsort')


def sort(*a, **k):
    raise Unsupported('sort')


def argmin(*a, **k):
    raise Unsupported('argmin')


argmax = argmin


def trapz(y, x=None, dx=1.0, axis=-1):
    """trapezoid rule: sum over i of (x[i+1]-x[i])*(y[i]+y[i+1])/2"""
    y = norm(y)
    x = norm(x) if x is not None else None
    uy = y.unit if isinstance(y, Quantity) else None
    ux = x.unit if isinstance(x, Quantity) else None
    yv = y.value if uy else y
    xv = x.value if ux else x
    unit = None
    if uy is not None or ux is not None:
        unit = (uy or dimensionless_unscaled) * (ux or dimensionless_unscaled)
    if xv is None:
        raise Unsupported('trapz without abscissa')
    yv, xv = snap(yv), snap(xv)
    if yv.ndim == 2:
        c = V.ctx()
        n = yv.dims[0] if axis == 1 or axis == -1 else yv.dims[1]
        c.events.append(('trapz2', yv, xv, axis))

        def row(ix):
            yy = Array((xv.dims[0],), lambda j: yv.at((ix[0], j[0]) if axis in (1, -1) else (j[0], ix[0])))
            return _trap1(yy, xv)
        return _wrap(Array((n,), row), unit)
    r = _trap1(yv, xv)
    return _wrap(mksym(r), unit)


trapezoid = trapz


def _trap1(yv, xv):
    n = xv.dims[0]
    if not dims_equal(n, yv.dims[0]):
        raise ValueError('operands could not be broadcast')
    c = V.ctx()
    c.notes.append('assumed contract: numpy.trapz (trapezoid sum)')
    # an uninterpreted but congruent value: atom keyed by the generic integrand; facts are derived on demand
    m = n - 1
    def seg(i):
        x0, x1 = xv.at((i,)), xv.at((i + 1,))
        y0, y1 = yv.at((i,)), yv.at((i + 1,))
        return tmap(lambda a, b, p, q: l_mul(l_mul(l_add(b, l_neg(a)), l_add(p, q)), rat(F(1, 2))), x0, x1, y0, y1)
    cm = m.const()
    if cm is not None and cm <= 6:
        t = RZERO
        for i in range(int(cm)):
            t = tmap(l_add, t, seg(rat(i)))
        return t
    with V.sum_index((m,)) as p:
        body = tree_to_rat(seg(p[0]), 'trapz')
    return sum_over([T.atom_of(p[0])], show(m), (m,), body)


def diff(x):
    x = norm(x)
    u_ = x.unit if isinstance(x, Quantity) else None
    v = snap(x.value if u_ else x)
    return _wrap(Array((v.dims[0] - 1,), lambda ix: tmap(lambda a, b: l_add(b, l_neg(a)), v.at((ix[0],)), v.at((ix[0] + 1,)))), u_)


class FilteredInts:
    """integer array known only through contracts (cluster sizes)"""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def total(self):
        raise Unsupported('sum of a filtered array')


def cumsum(x, axis=None):
    """prefix sums; element k is an opaque function with its recurrence known"""
    x = norm(x)
    if isinstance(x, Masked):
        x = x.compress()
    if isinstance(x, Quantity):
        return Quantity(cumsum(x.value), x.unit)
    if not isinstance(x, Array) or x.ndim != 1:
        raise Unsupported('cumsum')
    s = snap(x)
    c = V.ctx()
    nm = c.fresh_name('cumsum')

    def facts(k):
        cur = s.at((k,))
        if not isinstance(cur, Rat):
            return []
        a = var(nm, k)
        out_ = mk_or(mk_cmp('<', k), mk_cmp('>=', k - s.dims[0]))
        out = [mk_or(mk_not(mk_cmp('=', k)), mk_cmp('=', a - cur))]
        if nn:
            # prefix sums of non-negative numbers
            out += [mk_or(out_, mk_and(mk_cmp('>=', a - cur), mk_cmp('>=', cur)))]
        if not busy:
            # c[k] = c[k-1] + x[k], instantiated once (no chain of predecessors)
            busy.append(1)
            try:
                out.append(mk_or(out_, mk_cmp('<', k - 1), mk_cmp('=', a - var(nm, k - 1) - cur)))
            finally:
                busy.pop()
        done.add((k - 1).key)
        return out

    def fam(k):
        if k.key in done:
            cur = s.at((k,))
            return [mk_or(mk_cmp('<', k), mk_cmp('>=', k - s.dims[0]), mk_and(mk_cmp('>=', var(nm, k) - cur), mk_cmp('>=', cur)))] if nn and isinstance(cur, Rat) else []
        return facts(k)
    busy, done = [], set()
    g = V.generic_index(s.dims)
    v0 = s.at(g)
    nn = isinstance(v0, Rat) and c.entails(mk_cmp('>=', v0))
    c.families[nm] = fam
    a = Array((s.dims[0],), lambda ix: var(nm, *ix))
    a.meta['cumsum'] = (nm, s)
    c.events.append(('cumsum', nm, s))
    return a


def _int_term(t):
    """sum of integer multiples of integer variables and of sums of integers"""
    if not isinstance(t, Rat) or t.den:
        return False
    for m, c in t.num.d.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            a = T.Atom.byid[i]
            if e != int(e) or e < 0:
                return False
            if not (a.isint or a.kind == 'ind' or (a.kind == 'sum' and _int_term(a.args[1]))):
                return False
    return True


def _int_leaves(t):
    if isinstance(t, Ite):
        return _int_leaves(t.a) and _int_leaves(t.b)
    if not isinstance(t, Rat):
        return False
    c, a = t.const(), T.atom_of(t)
    return (c is not None and c.denominator == 1) or (a is not None and a.isint)


def append(x, y, axis=None):
    x, y = norm(x), norm(y)
    x, y = [v.compress() if isinstance(v, Masked) else v for v in (x, y)]
    (x, y), unit = _common(x, y)
    x, y = atleast_1d(x), atleast_1d(y)
    x, y = snap(x), snap(y)
    n = x.dims[0]
    if x.ndim == 1 and y.ndim == 1 and n.const() is None and y.dims[0].const() is None and x.kind == y.kind == 'f':
        # both parts of unknown length: elements by contract, total is the sum of the totals
        c = V.ctx()
        nm = c.fresh_name('cat')
        isint = builtins.all(_int_leaves(v.at(V.generic_index(v.dims))) for v in (x, y))
        el = lambda k: var(nm, k, isint=isint)
        c.families[nm] = lambda k: [mk_or(mk_and(mk_cmp('<', k - n), t_cmp('=', el(k), x.at((k,)))), mk_and(mk_cmp('>=', k - n), t_cmp('=', el(k), y.at((k - n,)))))]
        out = Array((n + y.dims[0],), lambda ix: el(ix[0]))
        c.assume(t_cmp('=', tree_of(V.a_sum(out)), tmap(l_add, tree_of(V.a_sum(x)), tree_of(V.a_sum(y)))))
        return _wrap(out, unit)
    return _wrap(Array((n + y.dims[0],), lambda ix: mk_ite(mk_cmp('<', ix[0] - n), x.at(ix), y.at((ix[0] - n,)))), unit)


def concatenate(xs, axis=0):
    r = None
    for x in xs:
        r = x if r is None else append(r, x)
    return r


def stack(*a, **k):
    raise Unsupported('stack')


def interp(*a, **k):
    raise Unsupported('interp')


def dot(a, b):
    return sum(norm(a) * norm(b))


def prod(*a, **k):
    raise Unsupported('prod')


def errstate(**kw):
    import contextlib
    return contextlib.nullcontext()


def vectorize(*a, **k):
    raise Unsupported('vectorize')


def nditer(*a, **k):
    raise Unsupported('nditer')


def ndenumerate(*a, **k):
    raise Unsupported('ndenumerate')


# -------------------------------------------------------------------- random
class Generator:
    """symbolic random generator: every draw is logged; draws are location-scale families of
    fresh standard variates"""
    _n = [0]

    def __init__(self, tag='rng'):
        Generator._n[0] += 1
        self.tag = tag
        self.log = []

    def _arr(self, base, size, sign='any', isint=False, fam=None):
        c = V.ctx()
        nm = c.fresh_name(base)
        lk = tuple(l.cur.k for l in c.loops if l.cur is not None)     # another draw in every iteration
        if fam:
            c.families[nm] = lambda *ix: fam(var(nm, *ix, sign=sign, isint=isint))
        if size is None:
            return nm, Sym(var(nm, *lk, sign=sign, isint=isint), isint)
        dims = _shape(size)
        return nm, Array(dims, lambda ix: var(nm, *lk, *ix, sign=sign, isint=isint))

    def _note(self, method, params, size, nm):
        c = V.ctx()
        loops = list(c.loops)
        self.log.append((method, params, size, nm))
        c.events.append(('draw', self, method, params, size, nm, [l.cur for l in loops]))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if isinstance(loc, Quantity) or isinstance(scale, Quantity):
            loc, _ = _dimless(loc)
            scale, _ = _dimless(scale)
        nm, z = self._arr('z', size)
        self._note('normal', (loc, scale), size, nm)
        sc = tree_of(scale) if not isinstance(scale, Array) else None
        if sc is not None:
            V.ctx().oblige('rng.normal scale is non-negative', t_cmp('>=', sc, RZERO), 'pre')
        return z * scale + loc

    def standard_normal(self, size=None, **kw):
        return self.normal(0, 1, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        if isinstance(mean, Quantity) or isinstance(sigma, Quantity):
            mean, _ = _dimless(mean)
            sigma, _ = _dimless(sigma)
        nm, z = self._arr('z', size)
        self._note('lognormal', (mean, sigma), size, nm)
        return exp(z * sigma + mean)

    def exponential(self, scale=1.0, size=None):
        if isinstance(scale, Quantity):
            raise Unsupported('exponential of a quantity')
        nm, z = self._arr('ez', size, sign='nneg')
        self._note('exponential', (scale,), size, nm)
        if isinstance(scale, (Sym, int, float)):
            V.ctx().oblige('rng.exponential scale is non-negative', t_cmp('>=', tree_of(scale), RZERO), 'pre')
        return z * scale

    def random(self, size=None, **kw):
        nm, z = self._arr('u01', size, sign='nneg', fam=lambda v: [mk_cmp('<', v - 1)])
        self._note('random', (), size, nm)
        return z

    def uniform(self, low=0.0, high=1.0, size=None):
        nm, z = self._arr('u01', size, sign='nneg', fam=lambda v: [mk_cmp('<', v - 1)])
        self._note('uniform', (low, high), size, nm)
        return z * (high - low) + low

    def poisson(self, lam=1.0, size=None):
        if isinstance(lam, Quantity):
            lam, _ = _dimless(lam)
        nm, z = self._arr('pois', size, sign='nneg', isint=True)
        self._note('poisson', (lam,), size, nm)
        if isinstance(lam, (Sym, int, float)):
            V.ctx().oblige('rng.poisson mean is non-negative', t_cmp('>=', tree_of(lam), RZERO), 'pre')
            if isinstance(tree_of(lam), Rat) and tree_of(lam).const() == 0 and size is None:
                return 0
            if size is None:
                c = V.ctx()
                t = tree_of(lam)
                if isinstance(t, Rat):
                    c.assume(mk_or(mk_cmp('!=', t), mk_cmp('=', tree_of(z))))
        return z

    def choice(self, a, size=None, replace=True, p=None):
        vals = [v for v in (a if not isinstance(a, SymSeq) else iter(a))]
        ts = [rat(v) for v in vals]
        fam = lambda v: [mk_or(*[mk_cmp('=', v - t) for t in ts])]
        nm, z = self._arr('choice', size, fam=fam)
        self._note('choice', tuple(vals), size, nm)
        return z

    def integers(self, low, high=None, size=None, **kw):
        raise Unsupported('rng.integers')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'rng.{n}')


class _Random:
    Generator = Generator

    def __init__(self):
        self.RandomState = Generator

    def default_rng(self, seed=None):
        c = V.ctx()
        if isinstance(seed, Generator):
            return seed
        g = Generator('default_rng')
        if c.unit is not None and seed is None:
            c.nondet.append('numpy.random.default_rng() called at run time')
        g.seed = seed
        return g

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            c = V.ctx()
            if c.unit is not None:
                c.nondet.append(f'global numpy.random.{name}')
            if name == 'randint':
                return 12345
            if name == 'seed':
                return None
            g = Generator('global')
            return getattr(g, {'rand': 'random', 'random_sample': 'random', 'randn': 'standard_normal'}.get(name, name))(*a, **k)
        return f


random = _Random()


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported(f'numpy.{name}')
