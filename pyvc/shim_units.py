"""astropy.units stand-in with exact symbolic magnitudes.

A Unit has dimensions (rational exponents of base units) and an exact scale to the base unit;
a Quantity is (value, unit) as in astropy, so `.value`, `.to`, comparison and arithmetic follow
astropy's rules (0, inf and nan may meet any unit; everything else must convert)."""
import math
from fractions import Fraction as F
from terms import *
from values import *
import values as V


class UnitConversionError(ValueError, TypeError):
    pass


UnitsError = UnitConversionError
UnitTypeError = UnitConversionError


class Unit:
    def __init__(self, dims, scale, name=None):
        self.dims = {k: F(v) for k, v in dims.items() if v != 0}
        self.scale = rat(scale)
        self.name = name

    def __repr__(self):
        return self.name or f'Unit({show(self.scale)}, {self.dims})'

    def to_string(self, *_a, **_k):
        return repr(self)

    __str__ = __repr__

    def same_dims(self, o):
        return self.dims == o.dims

    def __mul__(self, o):
        if isinstance(o, Unit):
            d = dict(self.dims)
            for k, v in o.dims.items():
                d[k] = d.get(k, 0) + v
            return Unit(d, self.scale * o.scale)
        if isinstance(o, Quantity):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            import shim_np
            o = shim_np.array(o)
        if hasattr(o, '_as_quantity_value'):
            o = o._as_quantity_value()
        return Quantity(o, self)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, Unit):
            return self * o ** -1
        return Quantity(1 / o, self)

    def __rtruediv__(self, o):
        return Quantity(o, self ** -1)

    def __pow__(self, n):
        if isinstance(n, Sym):
            # symbolic power of a unit: only the scale is tracked, as an opaque dimension
            if not isinstance(n.t, Rat):
                raise Unsupported('conditional unit power')
            return PowUnit(self, n.t)
        n = F(n) if not isinstance(n, float) else F(repr(n))
        sc = pow_rat(self.scale, n)
        return Unit({k: v * n for k, v in self.dims.items()}, sc)

    def __rlshift__(self, o):
        return Quantity(o, self)

    def __eq__(self, o):
        if isinstance(o, str):
            o = UnitFactory(o)
        if not isinstance(o, Unit):
            return False
        return self.dims == o.dims and self.scale == o.scale

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((tuple(sorted(self.dims.items())), self.scale))

    def is_equivalent(self, o):
        return self.dims == o.dims

    def to(self, o, value=1.0):
        if not self.same_dims(o):
            raise UnitConversionError(f'{self} and {o} are not convertible')
        return value * mksym(self.scale / o.scale)

    @property
    def physical_type(self):
        raise Unsupported('physical_type')

    def decompose(self):
        return self


class PowUnit(Unit):
    """unit ** symbolic exponent: dims become symbolic multiples, kept as (base dims, exponent)"""

    def __init__(self, u, e):
        self.parts = [(u, e)]
        dims = {('pw', k, e.key): v for k, v in u.dims.items()}
        if not u.dims and u.scale == RONE:
            dims = {}
        # exponents are tracked linearly: u**(e1) * u**(e2)
        self.dims = {}
        self.sym = {k: e * v for k, v in u.dims.items()}
        self.scale = f_exp(e * f_log(u.scale))
        self.name = None
        self._fix()

    def _fix(self):
        self.sym = {k: v for k, v in self.sym.items() if v != RZERO}

    @staticmethod
    def make(sym, scale):
        r = PowUnit.__new__(PowUnit)
        r.sym = {k: v for k, v in sym.items() if v != RZERO}
        r.scale = scale
        r.name = None
        r.dims = {}
        if all(v.const() is not None for v in r.sym.values()):
            return Unit({k: v.const() for k, v in r.sym.items()}, scale)
        return r

    def _sym(o):
        return o.sym if isinstance(o, PowUnit) else {k: rat(v) for k, v in o.dims.items()}

    def __mul__(self, o):
        if isinstance(o, Unit):
            d = dict(self.sym)
            for k, v in PowUnit._sym(o).items():
                d[k] = d.get(k, RZERO) + v
            return PowUnit.make(d, self.scale * o.scale)
        return Unit.__mul__(self, o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __pow__(self, n):
        n = rat(F(n)) if not isinstance(n, Sym) else n.t
        return PowUnit.make({k: v * n for k, v in self.sym.items()}, f_exp(n * f_log(self.scale)))

    def same_dims(self, o):
        return isinstance(o, PowUnit) and self.sym == o.sym

    def __eq__(self, o):
        return isinstance(o, PowUnit) and self.sym == o.sym and self.scale == o.scale

    def __hash__(self):
        return hash(self.scale)


def _unit_mul(a, b):
    if isinstance(b, PowUnit):
        return b * a
    return a * b


def arbitrary_unit(x):
    """0, inf, nan are compatible with every unit (as in astropy)"""
    if isinstance(x, bool):
        return False
    if isinstance(x, (int, float)):
        return x == 0 or math.isinf(x) or math.isnan(x)
    if isinstance(x, Sym):
        t = x.t
        return isinstance(t, Special) or (isinstance(t, Rat) and t.const() == 0)
    if isinstance(x, Array) and x.kind == 'f':
        try:
            p = generic_index(x.dims)
            t = x.at(p)
        except Unsupported:
            return False
        return isinstance(t, Special) or (isinstance(t, Rat) and t.const() == 0)
    return False


class Quantity:
    __array_priority__ = 1000

    def __new__(cls, *a, **k):
        q = object.__new__(cls)
        Array.SERIAL += 1
        q.serial = Array.SERIAL
        return q

    def __init__(self, value, unit=None, dtype=None, copy=True, **_k):
        if isinstance(value, Label):
            q = value.quantity()
            self.value, self.unit = q.value, q.unit
            if unit is not None:
                q = q.to(unit)
                self.value, self.unit = q.value, q.unit
            return
        if isinstance(value, str):
            num, _, un = value.strip().partition(' ')
            value, unit0 = float(num), UnitFactory(un)
            q = Quantity(value, unit0)
            if unit is not None:
                q = q.to(unit)
            self.value, self.unit = q.value, q.unit
            return
        if isinstance(value, Quantity):
            q = value if unit is None else value.to(unit)
            self.value, self.unit = V.snap(q.value), q.unit
            return
        if isinstance(value, (list, tuple)) or type(value).__name__ in ('VList', 'SymSeq'):
            import shim_np
            arr = shim_np.array(value)
            if isinstance(arr, Quantity):
                q = arr if unit is None else arr.to(unit)
                self.value, self.unit = q.value, q.unit
                return
            value = arr
        self.value = value
        self.unit = dimensionless_unscaled if unit is None else (UnitFactory(unit) if isinstance(unit, str) else unit)

    def __repr__(self):
        return f'<Quantity {self.value!r} {self.unit!r}>'

    def __hash__(self):
        return hash(self.unit)

    # ---- conversion
    def _factor(self, unit):
        if isinstance(unit, str):
            unit = UnitFactory(unit)
        if isinstance(unit, Quantity):
            k = tree_of(unit.value) if not isinstance(unit.value, Array) else None
            if not isinstance(k, Rat):
                raise Unsupported('conversion to a Quantity')
            unit = unit.unit if k == RONE else Unit(unit.unit.dims, unit.unit.scale * k)
        if not (self.unit.same_dims(unit) if isinstance(self.unit, PowUnit) or not isinstance(unit, PowUnit) else unit.same_dims(self.unit)):
            if arbitrary_unit(self.value):
                pass
            raise UnitConversionError(f"'{self.unit}' and '{unit}' are not convertible")
        return unit, self.unit.scale / unit.scale

    def to(self, unit, equivalencies=None, copy=True):
        unit, f = self._factor(unit)
        if f == RONE:
            return Quantity(V.snap(self.value), unit)
        return Quantity(self.value * Sym(f), unit)

    def to_value(self, unit=None, equivalencies=None):
        if unit is None:
            return self.value
        unit, f = self._factor(unit)
        if f == RONE:
            return self.value
        return self.value * Sym(f)

    @property
    def si(self):
        return self.to(Unit(self.unit.dims, 1))

    def decompose(self):
        return self.to(Unit(self.unit.dims, 1))

    @property
    def base(self):
        return None

    # ---- array protocol bits
    @property
    def shape(self):
        return getattr(self.value, 'shape', ())

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return getattr(self.value, 'size', 1)

    @property
    def T(self):
        return Quantity(self.value.T, self.unit)

    @property
    def isscalar(self):
        return not isinstance(self.value, (Array, Masked))

    def __len__(self):
        if self.isscalar:
            raise TypeError('scalar Quantity has no len()')
        return len(self.value)

    def copy(self):
        return Quantity(V.snap(self.value), self.unit)

    def astype(self, *a, **k):
        return Quantity(self.value.astype(*a, **k), self.unit)

    def sum(self, axis=None):
        return Quantity(V.a_sum(self.value, axis), self.unit)

    def mean(self, axis=None):
        return Quantity(V.a_mean(self.value, axis), self.unit)

    def max(self):
        import shim_np
        return shim_np.max(self)

    def min(self):
        import shim_np
        return shim_np.min(self)

    def flatten(self):
        return Quantity(self.value.flatten(), self.unit)

    def item(self):
        return self

    def __getitem__(self, ix):
        if self.isscalar:
            raise TypeError('scalar Quantity is not subscriptable')
        return Quantity(self.value[ix], self.unit)

    def __setitem__(self, ix, v):
        if self.isscalar:
            raise TypeError('scalar Quantity does not support item assignment')
        if isinstance(v, Quantity):
            v = v.to_value(self.unit)
        elif not arbitrary_unit(v) and self.unit != dimensionless_unscaled:
            raise UnitConversionError('cannot assign a plain number')
        self.value[ix] = v

    def __iter__(self):
        return iter([Quantity(x, self.unit) for x in self.value])

    # ---- arithmetic
    def _other(self, o, strict=True):
        """value of o in self.unit for + - and comparison"""
        if isinstance(o, Quantity):
            if self.unit.same_dims(o.unit):
                f = o.unit.scale / self.unit.scale
                return o.value if f == RONE else o.value * Sym(f)
            if arbitrary_unit(o.value) and False:
                return o.value
            raise UnitConversionError(f"'{o.unit}' and '{self.unit}' are not convertible")
        if isinstance(o, Unit):
            return self._other(Quantity(1, o))
        if not (arr_like(o)):
            return None
        if not self.unit.dims and not isinstance(self.unit, PowUnit):
            return o if self.unit.scale == RONE else o * Sym(1 / self.unit.scale)
        if arbitrary_unit(o) or (ZSYM[0] is not None and isinstance(o, ZSYM[0])):
            return o
        raise UnitConversionError(f"can only apply function to dimensionless quantities when other argument is not a quantity ({self.unit})")

    def _pm(self, o, f):
        if not isinstance(o, (Quantity, Unit)) and not arr_like(o):
            return NotImplemented
        if isinstance(o, Quantity) and not self.unit.same_dims(o.unit) and arbitrary_unit(self.value) and not self.unit.dims:
            # 0 (dimensionless) + quantity is an error in astropy for Quantity operands
            raise UnitConversionError(f"'{o.unit}' and '{self.unit}' are not convertible")
        return Quantity(f(self.value, self._other(o)), self.unit)

    def __add__(self, o):
        return self._pm(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._pm(o, lambda a, b: a - b)

    def __radd__(self, o):
        return self._pm(o, lambda a, b: b + a)

    def __rsub__(self, o):
        return self._pm(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, Quantity):
            return Quantity(self.value * o.value, _unit_mul(self.unit, o.unit))
        if isinstance(o, Unit):
            return Quantity(self.value, _unit_mul(self.unit, o))
        if arr_like(o) or isinstance(o, Masked):
            return Quantity(self.value * o, self.unit)
        if isinstance(o, VSeqBase):
            return NotImplemented
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, Unit):
            return Quantity(self.value, _unit_mul(o, self.unit))
        if arr_like(o):
            return Quantity(o * self.value, self.unit)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, Quantity):
            return Quantity(_div(self.value, o.value), _unit_mul(self.unit, o.unit ** -1))
        if isinstance(o, Unit):
            return Quantity(self.value, _unit_mul(self.unit, o ** -1))
        if arr_like(o):
            return Quantity(_div(self.value, o), self.unit)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, Unit):
            return Quantity(_div(1, self.value), _unit_mul(o, self.unit ** -1))
        if arr_like(o):
            return Quantity(_div(o, self.value), self.unit ** -1)
        return NotImplemented

    def __pow__(self, n):
        if isinstance(n, Quantity):
            n = n.to_value(dimensionless_unscaled)
        if isinstance(n, Array):
            if self.unit.dims:
                raise UnitTypeError('array exponent')
            return Quantity(self.to_value(dimensionless_unscaled) ** n, dimensionless_unscaled)
        if isinstance(n, Sym) and isinstance(n.t, Rat) and n.t.const() is not None:
            n2 = n.t.const()
        else:
            n2 = n
        if not self.unit.dims and not isinstance(self.unit, PowUnit):
            return Quantity((self.value * Sym(self.unit.scale) if self.unit.scale != RONE else self.value) ** n, dimensionless_unscaled)
        return Quantity(self.value ** n, self.unit ** n2)

    def __rpow__(self, b):
        return b ** self.to_value(dimensionless_unscaled)

    def __mod__(self, o):
        return Quantity(self.value % self._other(o), self.unit)

    def __neg__(self):
        return Quantity(-self.value, self.unit)

    def __pos__(self):
        return self

    def __abs__(self):
        return Quantity(abs(self.value), self.unit)

    def __iadd__(self, o):
        return self._iop(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._iop(o, lambda a, b: a - b)

    def _iop(self, o, f):
        # astropy updates in place; aliases see the change
        v = f(V.snap(self.value), self._other(o))
        if isinstance(self.value, Array):
            self.value.set_fn(v.fn)
        else:
            self.value = v
            if CTXW() is not None:
                CTXW().append(('quantity', self))
        return self

    def __imul__(self, o):
        return self._iscale(self * o)

    def __itruediv__(self, o):
        return self._iscale(self / o)

    def _iscale(self, r):
        # astropy updates value and unit in place; aliases see the change
        if not isinstance(r, Quantity):
            r = Quantity(r, dimensionless_unscaled)
        if isinstance(self.value, Array):
            if not isinstance(r.value, Array):
                return r
            self.value.set_fn(V.snap(r.value).fn)
        elif isinstance(r.value, Array):
            return r
        else:
            self.value = r.value
        self.unit = r.unit
        if CTXW() is not None:
            CTXW().append(('quantity', self))
        return self

    def _cmp(self, o, f):
        if not isinstance(o, (Quantity, Unit)) and not arr_like(o):
            return NotImplemented
        return f(self.value, self._other(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        try:
            return self._cmp(o, lambda a, b: a == b)
        except UnitConversionError:
            return False

    def __ne__(self, o):
        try:
            return self._cmp(o, lambda a, b: a != b)
        except UnitConversionError:
            return True

    def __bool__(self):
        raise ValueError('The truth value of a Quantity is ambiguous') if self.unit.dims else Unsupported('bool of quantity')

    def __round__(self, k=None):
        return Quantity(round(self.value, k) if k is not None else round(self.value), self.unit)

    def __float__(self):
        raise Unsupported('float(Quantity)')

    def round(self, decimals=0):
        import shim_np
        return Quantity(shim_np.round(self.value, decimals), self.unit)

    def __format__(self, spec):
        return f'<quantity {spec}>'


ZSYM = [None]


def CTXW():
    return V.ctx().writes


def _div(a, b):
    """division that never raises for python numbers (numpy semantics)"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if b == 0:
            return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a)
        if isinstance(a, int) and isinstance(b, int) or all(math.isfinite(x) for x in (a, b)):
            return Sym(rat(a) / rat(b))
        return a / b
    return a / b


class VSeqBase:
    pass


class Label:
    """result of formatting a symbolic quantity/number: equality is equality of the rounded value and unit"""

    def __init__(self, value, unit, spec):
        self.value, self.unit, self.spec = value, unit, spec

    def __hash__(self):
        return hash((self.spec, self.unit))

    def __eq__(self, o):
        if isinstance(o, Label):
            if o.spec != self.spec:
                raise Unsupported('labels of different formats')
            if self.unit != o.unit:
                return False
            return self.value == o.value
        if isinstance(o, str):
            try:
                return self == parse_label(o, self.spec)
            except (ValueError, Unsupported):
                return False
        return NotImplemented

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def quantity(self):
        return Quantity(self.value, self.unit)

    def __repr__(self):
        return f'Label({self.value!r} {self.unit!r} {self.spec})'

    def __str__(self):
        raise Unsupported('string operation on a symbolic label')

    def _no(self, *_a, **_k):
        raise Unsupported('string operation on a symbolic label')

    def split(self, *_a):
        # '<number> <unit>'
        if self.unit is None:
            return [NumText(self.value)]
        return [NumText(self.value), UnitText(self.unit)]

    def partition(self, *_a):
        return (NumText(self.value), ' ', UnitText(self.unit))

    __add__ = __radd__ = replace = strip = startswith = endswith = _no


class NumText:
    def __init__(self, v):
        self.v = v


class UnitText:
    def __init__(self, u):
        self.u = u


def parse_label(s, spec):
    num, _, un = s.strip().partition(' ')
    return Label(rat(F(num)) and Sym(rat(F(num))), UnitFactory(un), spec)


# --------------------------------------------------------------------- units
dimensionless_unscaled = Unit({}, 1, '')
one = dimensionless_unscaled
m = Unit({'m': 1}, 1, 'm')
km = Unit({'m': 1}, 1000, 'km')
cm = Unit({'m': 1}, F(1, 100), 'cm')
s = Unit({'s': 1}, 1, 's')
second = sec = s
min = minute = Unit({'s': 1}, 60, 'min')
hr = hour = h = Unit({'s': 1}, 3600, 'h')
day = d = Unit({'s': 1}, 86400, 'd')
week = Unit({'s': 1}, 86400 * 7, 'wk')
year = yr = Unit({'s': 1}, F('31557600'), 'yr')
K = Unit({'K': 1}, 1, 'K')
kK = Unit({'K': 1}, 1000, 'kK')
rad = radian = Unit({'rad': 1}, 1, 'rad')
deg = degree = Unit({'rad': 1}, PI * F(1, 180), 'deg')
arcmin = Unit({'rad': 1}, PI * F(1, 180 * 60), 'arcmin')
arcsec = Unit({'rad': 1}, PI * F(1, 180 * 3600), 'arcsec')
sr = steradian = Unit({'rad': 2}, 1, 'sr')
kg = Unit({'kg': 1}, 1, 'kg')
g = Unit({'kg': 1}, F(1, 1000), 'g')
J = Unit({'kg': 1, 'm': 2, 's': -2}, 1, 'J')
erg = Unit({'kg': 1, 'm': 2, 's': -2}, F(1, 10 ** 7), 'erg')
W = Unit({'kg': 1, 'm': 2, 's': -3}, 1, 'W')
R_sun = Rsun = solRad = Unit({'m': 1}, 695700000, 'R_sun')
R_earth = Rearth = earthRad = Unit({'m': 1}, 6378100, 'R_earth')
R_jup = jupiterRad = Unit({'m': 1}, 71492000, 'R_jup')
AU = au = Unit({'m': 1}, 149597870700, 'AU')
percent = Unit({}, F(1, 100), '%')
_names = {k: v for k, v in list(globals().items()) if isinstance(v, Unit)}


def UnitFactory(x, *_a, **_k):
    if isinstance(x, Unit):
        return x
    if isinstance(x, UnitText):
        return x.u
    if isinstance(x, Quantity):
        return Unit(x.unit.dims, x.unit.scale * tree_of(x.value))
    if isinstance(x, str):
        x = x.strip()
        if x == '':
            return dimensionless_unscaled
        out = dimensionless_unscaled
        import re
        x = x.replace('/', ' / ').replace('*', ' ')
        sgn = 1
        for tok in x.split():
            if tok == '/':
                sgn = -1
                continue
            mt = re.fullmatch(r'([A-Za-z_]+?)(\^?-?\d+)?', tok)
            if not mt or mt.group(1) not in _names:
                raise ValueError(f'{tok} did not parse as unit')
            e = int((mt.group(2) or '1').lstrip('^'))
            out = out * _names[mt.group(1)] ** (sgn * e)
            sgn = 1
        return out
    if isnum(x):
        return Unit({}, rat(x))
    raise Unsupported(f'Unit({type(x).__name__})')


def def_unit(name, represents=None, **_k):
    if isinstance(represents, Quantity):
        u = Unit(represents.unit.dims, represents.unit.scale * tree_of(represents.value), name)
    elif isinstance(represents, Unit):
        u = Unit(represents.dims, represents.scale, name)
    else:
        u = Unit({name: 1}, 1, name)
    _names[name] = u
    return u


def allclose(*_a, **_k):
    raise Unsupported('u.allclose')


def quantity_input(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f
