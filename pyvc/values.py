"""Symbolic run-time values: Sym, SymBool, Array, and the execution context."""
import math
import operator
from fractions import Fraction as F
from terms import *
import terms as T
import smt


BOUND_DIM = {}      # bound index atom id -> range size
ANYDEF = {}         # key of an any()-atom -> (index, body)


class PathEnd(BaseException):
    """this path stops here (infeasible, or a loop-body path that has been checked)"""


class Ctx:
    """One path of one verification unit."""

    def __init__(self):
        self.assume_list = []
        self.path = []
        self.prefix = []
        self.taken = []
        self.pending = []
        self.obls = []
        self.families = {}
        self.decided = {}
        self.events = []
        self.fresh_n = 0
        self.loops = []
        self.notes = []
        self.samplers = {}
        self.writes = None
        self.ghosts = {}
        self.by_rule = False     # the path relies on a loop body that another path checks
        self.nondet = []
        self.timeout = 4000
        self.effort = 1
        self.stub_calls = []
        self.genidx = {}
        self.anys = []
        self.ndecide = 0
        self.havocs = 0
        self.setattrs = []
        self.fold_specs = []
        self.while_specs = []
        self.unit = None
        self.cands = []
        self.compressed = {}

    # ---- facts
    def hyps(self, forms=()):
        h = list(self.assume_list) + list(self.path) + list(T.TPATH)
        for b, p, f in self.anys:
            h.append(mk_or(b, mk_not(f)))
            for q in [generic_index(tuple(BOUND_DIM[T.atom_of(x).id] for x in p))] + self.cands:
                if len(q) == len(p):
                    h.append(mk_or(b, mk_not(subst_form(f, {T.atom_of(x).id: y for x, y in zip(p, q)}))))
        fam = self.families
        if fam:
            seen = set()
            todo = list(h) + list(forms)
            while todo:
                ids = smt.closure(todo)
                todo = []
                stack = list(ids)
                while stack:            # indices that are themselves members of a family
                    a = Atom.byid[stack.pop()]
                    if a.kind == 'var':
                        for x in a.args:
                            if isinstance(x, Rat):
                                for j in x.atoms():
                                    if j not in ids and Atom.byid[j].kind == 'var':
                                        ids.add(j)
                                        stack.append(j)
                for i in ids:
                    if i in seen:
                        continue
                    seen.add(i)
                    a = Atom.byid[i]
                    fn = fam.get(a.name) if a.kind in ('var', 'fn') else None
                    if fn is not None:
                        fs = [f for f in fn(*a.args) if f != TRUE]
                        h += fs
                        todo += fs
        return h

    def assume(self, f):
        f = as_form(f)
        if f == TRUE:
            return
        if f == FALSE:
            raise PathEnd()
        self.assume_list.append(f)

    def entails(self, f, timeout=700):
        if f == TRUE:
            return True
        if f == FALSE:
            return False
        if any(x == f for x in self.path) or any(x == f for x in self.assume_list):
            return True
        if smt.has_trig(f) and smt.prove(f, [], 1500, effort=0)[0] == 'proved':
            return True
        return smt.prove(f, self.hyps([f]), timeout, effort=0)[0] == 'proved'

    def decide(self, f):
        if f == TRUE:
            return True
        if f == FALSE:
            return False
        self.ndecide += 1
        k = self.decided.get(f.key)
        if k is not None:
            return k
        n = mk_not(f)
        if self.entails(f):
            self.decided[f.key] = True
            return True
        if self.entails(n):
            self.decided[f.key] = False
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(list(self.taken) + [False])
        self.taken.append(v)
        self.decided[f.key] = v
        self.path.append(f if v else n)
        return v

    def oblige(self, name, form, kind='post', via=None):
        self.obls.append((name, as_form(form), kind, self.hyps([as_form(form)]), via))

    def lemma(self, name, form):
        """an auxiliary fact about specification terms: an obligation first, then a hypothesis"""
        self.oblige(name, form, 'lemma')
        self.assume(form)

    def ghost(self, fn, *names):
        """symbols that only the contract `fn` of a callee introduces: a refutation in terms of them means something
        only on paths where the code under verification used that callee"""
        for n in names:
            self.ghosts.setdefault(n, False)

        def g(*a, **k):
            r = fn(*a, **k)
            for n in names:
                self.ghosts[n] = True
            return r
        return g

    def note(self, txt):
        if txt not in self.notes:
            self.notes.append(txt)

    def choose(self, what):
        """explicit nondeterministic fork (used by loop rules)"""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(list(self.taken) + [False])
        self.taken.append(v)
        return v

    def fresh(self, base, *idx, sign='any', isint=False):
        self.fresh_n += 1
        return var(f'{base}!{self.fresh_n}', *idx, sign=sign, isint=isint)

    def fresh_name(self, base):
        self.fresh_n += 1
        return f'{base}!{self.fresh_n}'


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    T.SIGN_HOOK[0] = None
    return c


def ctx():
    return CTX


def as_form(f):
    if isinstance(f, Form):
        return f
    if isinstance(f, SymBool):
        return f.f
    if f is True or f is False:
        return TRUE if f else FALSE
    if type(f).__name__ in ('bool_',):
        return TRUE if f else FALSE
    raise Unsupported(f'not a formula: {type(f).__name__}')


# ------------------------------------------------------------------ leaf ops
def isnum(x):
    return isinstance(x, (int, float, F)) and not isinstance(x, bool) or isinstance(x, bool)


def tree_of(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (Rat, Ite, Special)):
        return x
    if isinstance(x, SymBool):
        return mk_ite(x.f, RONE, RZERO)
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return rat(x)
    if isinstance(x, (int, F)):
        return rat(x)
    raise Unsupported(f'not a number: {type(x).__name__}')


def known_sign(r):
    s = sign_rat(r, hook=False)
    if s is not None:
        return s
    c = CTX
    if c.entails(mk_cmp('>', r), 400):
        return 'pos'
    if c.entails(mk_cmp('<', r), 400):
        return 'neg'
    if c.entails(mk_cmp('>=', r), 400):
        return 'nneg'
    return None


def guard(cond, thunk):
    """value of thunk() where cond holds, NaN elsewhere"""
    if cond == TRUE:
        return thunk()
    if cond == FALSE:
        return NAN
    if CTX.entails(cond):
        return thunk()
    if CTX.entails(mk_not(cond)):
        return NAN
    return mk_ite(cond, thunk(), NAN)


def l_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, Special) or isinstance(b, Special):
        if isinstance(a, Special) and isinstance(b, Special):
            return a if a is b else NAN
        return a if isinstance(a, Special) else b
    return a + b


def l_neg(a):
    if a is NAN:
        return NAN
    if a is PINF:
        return NINF
    if a is NINF:
        return PINF
    return -a


def l_mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, Special) or isinstance(b, Special):
        if isinstance(a, Special) and isinstance(b, Special):
            return PINF if a is b else NINF
        if not isinstance(a, Special):
            a, b = b, a
        s = known_sign(b)
        if s == 'pos':
            return a
        if s == 'neg':
            return l_neg(a)
        if s == 'zero':
            return NAN
        raise Unsupported('infinity times a value of unknown sign')
    return a * b


def l_div(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(b, Special):
        return NAN if isinstance(a, Special) else RZERO
    if isinstance(a, Special):
        return l_mul(a, b)   # sign only
    c = b.const()
    if c is not None:
        if c == 0:
            return NAN
        return a * rat(1 / c)
    s = sign_rat(b, hook=False)
    if s in ('pos', 'neg'):
        return a / b
    if s == 'zero':
        return NAN
    nz = mk_cmp('!=', b)
    if nz == FALSE:
        return NAN
    return guard(nz, lambda: a / b)


def l_pow(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(b, Special):
        c = None if isinstance(a, Special) else a.const()
        if c is not None and c > 0 and c != 1:
            return PINF if (c > 1) == (b is PINF) else RZERO
        raise Unsupported('power with infinite exponent')
    e = b.const()
    if isinstance(a, Special):
        if a is PINF:
            s = known_sign(b)
            if s == 'pos':
                return PINF
            if s == 'neg':
                return RZERO
        if e is not None and e.denominator == 1 and e > 0:
            return PINF if a is PINF or int(e) % 2 == 0 else NINF
        raise Unsupported('power of infinity')
    if e is not None:
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                return a.ipow(n)
            return l_div(RONE, a.ipow(-n))
        if e > 0:
            return guard(mk_cmp('>=', a), lambda: pow_rat(a, e))
        return guard(mk_cmp('>', a), lambda: pow_rat(a, e))
    ac = a.const()
    if ac is not None and ac > 0:
        return f_exp(b * f_log(a))
    return guard(mk_cmp('>', a), lambda: f_exp(b * f_log(a)))


def _cmp_leaf(op):
    def f(a, b):
        if a is NAN or b is NAN:
            return TRUE if op == '!=' else FALSE
        if isinstance(a, Special) or isinstance(b, Special):
            va = {PINF: 1, NINF: -1}.get(a, 0) if isinstance(a, Special) else 0
            vb = {PINF: 1, NINF: -1}.get(b, 0) if isinstance(b, Special) else 0
            r = {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb, '=': va == vb, '!=': va != vb}[op]
            return TRUE if r else FALSE
        return mk_cmp(op, a - b)
    return f


CMPS = {o: _cmp_leaf(o) for o in ('<', '<=', '>', '>=', '=', '!=')}


def t_cmp(op, a, b):
    return tform(CMPS[op], a, b)


# leaf functions of one argument
def l_sin(x):
    return NAN if isinstance(x, Special) else f_sin(x)


def l_cos(x):
    return NAN if isinstance(x, Special) else f_cos(x)


def l_tan(x):
    if isinstance(x, Special):
        return NAN
    s, c = sincos(x)
    return l_div(s, c)


def l_exp(x):
    if x is NAN:
        return NAN
    if x is PINF:
        return PINF
    if x is NINF:
        return RZERO
    return f_exp(x)


def l_log(x):
    if x is NAN or x is NINF:
        return NAN
    if x is PINF:
        return PINF
    c = x.const()
    if c is not None and c == 0:
        return NINF
    return guard(mk_cmp('>', x), lambda: f_log(x))


def l_sqrt(x):
    if x is NAN or x is NINF:
        return NAN
    if x is PINF:
        return PINF
    return guard(mk_cmp('>=', x), lambda: f_sqrt(x))


def _dom(x):
    # -1 <= x <= 1
    if not x.den and len(x.num.d) == 1:
        (m, cc), = x.num.d.items()
        if cc > 0 and all(T.nneg_atom(i) for i, _ in m) and any(
                (T.Atom.byid[i].kind == 'fn' and T.Atom.byid[i].name == 'sqrt') or isinstance(e, F) and e.denominator != 1 for i, e in m):
            return mk_cmp('<=', x * x - 1)
    return mk_and(mk_cmp('<=', x - 1), mk_cmp('<=', -x - 1))


def l_arccos(x):
    if isinstance(x, Special):
        return NAN
    a = T.atom_of(x)
    return guard(_dom(x), lambda: f_arccos(x))


def l_arcsin(x):
    if isinstance(x, Special):
        return NAN
    return guard(_dom(x), lambda: f_arcsin(x))


def l_abs(x):
    if x is NAN:
        return NAN
    if isinstance(x, Special):
        return PINF
    s = known_sign(x)
    if s in ('pos', 'nneg', 'zero'):
        return x
    if s in ('neg', 'npos'):
        return -x
    return mk_ite(mk_cmp('<', x), -x, x)


def l_round(k):
    def f(x):
        if isinstance(x, Special):
            return x
        c = x.const()
        if c is not None:
            return rat(F(round(c * 10 ** k), 10 ** k)) if k else rat(round(c))
        a = T.atom_of(x)
        if a is not None and (a.isint or (a.kind == 'fn' and a.name.startswith('round') and int(a.name[5:]) <= k)):
            return x
        if not x.den and all(c.denominator == 1 and all(Atom.byid[i].isint and isinstance(e, int) and e > 0 for i, e in m)
                             for m, c in x.num.d.items()):
            return x
        return rat(mk_atom('fn', f'round{k}', (x,), 'any', k == 0))
    return f


def l_floor(x):
    if isinstance(x, Special):
        return x
    c = x.const()
    if c is not None:
        return rat(math.floor(c))
    a = T.atom_of(x)
    if a is not None and a.isint:
        return x
    return rat(mk_atom('fn', 'floor', (x,), 'any', True))


def l_trunc(x):
    if isinstance(x, Special):
        raise Unsupported('int() of a non-finite value')
    c = x.const()
    if c is not None:
        return rat(math.trunc(c))
    a = T.atom_of(x)
    if a is not None and a.isint:
        return x
    if not x.den and all(c.denominator == 1 and all(Atom.byid[i].isint and isinstance(e, int) and e > 0 for i, e in m)
                         for m, c in x.num.d.items()):
        return x
    return rat(mk_atom('fn', 'trunc', (x,), 'any', True))


def l_mod(a, b):
    # python/numpy floored modulo
    if isinstance(a, Special) or isinstance(b, Special):
        return NAN
    q = l_div(a, b)
    def g(q):
        if isinstance(q, Special):
            return NAN
        return a - b * l_floor(q)
    return tmap(g, q)


def simp_tree(t):
    """prune branches of an Ite tree refuted by the current hypotheses"""
    if not isinstance(t, Ite):
        return t
    if CTX.entails(t.c):
        return simp_tree(t.a)
    if CTX.entails(mk_not(t.c)):
        return simp_tree(t.b)
    return t


# ---------------------------------------------------------------------- Sym
class Sym:
    """symbolic scalar number"""
    __slots__ = ('t', 'isint', 'bnd')
    __array_priority__ = 1

    def __init__(self, t, isint=False, bnd=None):
        self.t = t
        self.isint = isint
        self.bnd = bnd

    def __repr__(self):
        return f'Sym({self.t!r})'

    def __hash__(self):
        return hash(self.t.key)

    # arithmetic
    def _bin(self, o, leaf, rev=False, ints=False):
        if isinstance(o, SymBool):
            o = Sym(tree_of(o), True)
        if not (isnum(o) or isinstance(o, Sym)):
            return NotImplemented
        a, b = self.t, tree_of(o)
        if rev:
            a, b = b, a
        i = ints and self.isint and (isinstance(o, int) or (isinstance(o, Sym) and o.isint))
        return mksym(tmap(leaf, a, b), i)

    def __add__(self, o):
        return self._bin(o, l_add, ints=True)

    def __radd__(self, o):
        return self._bin(o, l_add, True, ints=True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: l_add(a, l_neg(b)), ints=True)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: l_add(a, l_neg(b)), True, ints=True)

    def __mul__(self, o):
        return self._bin(o, l_mul, ints=True)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, l_mul, True, ints=True)

    def __truediv__(self, o):
        return self._bin(o, l_div)

    def __rtruediv__(self, o):
        return self._bin(o, l_div, True)

    def __pow__(self, o):
        return self._bin(o, l_pow)

    def __rpow__(self, o):
        return self._bin(o, l_pow, True)

    def __mod__(self, o):
        return self._bin(o, l_mod, ints=True)

    def __rmod__(self, o):
        return self._bin(o, l_mod, True, ints=True)

    def __floordiv__(self, o):
        r = self._bin(o, l_div)
        return r if r is NotImplemented else mksym(tmap(l_floor, tree_of(r)), True)

    def __neg__(self):
        return mksym(tmap(l_neg, self.t), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        return mksym(tmap(l_abs, self.t), self.isint)

    def __round__(self, k=None):
        return mksym(tmap(l_round(k or 0), self.t), k is None)

    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = Sym(tree_of(o))
        if not (isnum(o) or isinstance(o, Sym)):
            return NotImplemented
        return mkbool(t_cmp(op, self.t, tree_of(o)))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '=')
        return False if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented and (o is None or isinstance(o, str)) else r

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        c = self.t.const() if isinstance(self.t, Rat) else None
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __format__(self, spec):
        return f'<sym {spec}>'

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self


def mksym(t, isint=False):
    if isinstance(t, Rat):
        c = t.const()
        if c is not None and c.denominator == 1 and isint:
            return int(c)
        if c is not None:
            return Sym(t, isint)
    return Sym(t, isint)


class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f'SymBool({self.f!r})'

    def __bool__(self):
        return CTX.decide(self.f)

    def __hash__(self):
        return hash(self.f)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(mk_and(self.f, as_form(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(mk_or(self.f, as_form(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return mkbool(mk_not(self.f))

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(mk_not(mk_iff(self.f, as_form(o))))
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(mk_iff(self.f, as_form(o)))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(mk_not(mk_iff(self.f, as_form(o))))
        return NotImplemented

    def _s(self):
        return Sym(mk_ite(self.f, RONE, RZERO), True)

    def __mul__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self & o
        return self._s() * o if isinstance(o, Sym) or isnum(o) else NotImplemented

    def __rmul__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self & o
        return o * self._s() if isinstance(o, Sym) or isnum(o) else NotImplemented

    def __add__(self, o):
        return self._s() + (o._s() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def item(self):
        return self


def mkbool(f):
    if f == TRUE:
        return True
    if f == FALSE:
        return False
    return SymBool(f)


# -------------------------------------------------------------------- Array
def dim_rat(d):
    if isinstance(d, Rat):
        return d
    if isinstance(d, Sym):
        t = d.t
        while isinstance(t, Ite):       # e.g. max(2, n): one path per case
            t = t.a if CTX.decide(t.c) else t.b
        if isinstance(t, Rat):
            return t
        raise Unsupported('conditional dimension')
    return rat(d)


def dim_val(d):
    c = d.const()
    return int(c) if c is not None else Sym(d, True)


def dims_equal(a, b):
    if a == b:
        return True
    f = mk_cmp('=', a - b)
    return CTX.decide(f)


class Array:
    """array value: shape + element closure.  kind 'f' (numbers: closure -> tree) or 'b' (closure -> Form)."""
    __slots__ = ('dims', 'fn', 'kind', 'memo', 'bnd', 'meta', 'serial', '__weakref__')
    __array_priority__ = 2
    SERIAL = 0

    def __init__(self, dims, fn, kind='f', bnd=None, meta=None):
        self.dims = tuple(dim_rat(d) for d in dims)
        self.fn = fn
        self.kind = kind
        self.memo = {}
        self.bnd = bnd
        self.meta = meta or {}
        Array.SERIAL += 1
        self.serial = Array.SERIAL

    def __repr__(self):
        return f'Array{tuple(map(show, self.dims))}<{self.kind}>'

    def at(self, idx):
        idx = tuple(idx)
        k = tuple(i.key for i in idx)
        if k not in self.memo:
            self.memo[k] = self.fn(idx)
        return self.memo[k]

    def set_fn(self, fn):
        self.fn = fn
        self.memo = {}
        self.bnd = None
        self.meta = {}
        if CTX.writes is not None:
            CTX.writes.append(('array', self))

    @property
    def shape(self):
        return tuple(dim_val(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = RONE
        for d in self.dims:
            r = r * d
        return dim_val(r)

    @property
    def T(self):
        f = self.fn
        return Array(self.dims[::-1], lambda ix: self.at(ix[::-1]), self.kind)

    @property
    def dtype(self):
        return 'bool' if self.kind == 'b' else 'float64'

    def copy(self):
        f = self.fn
        return Array(self.dims, f, self.kind, self.bnd, dict(self.meta))

    def astype(self, dt, **_k):
        if dt in ('bool', bool) and self.kind == 'f':
            f = self.copy()
            return Array(self.dims, lambda ix: t_cmp('!=', f.at(ix), RZERO), 'b')
        if dt in ('bool', bool):
            return self.copy()
        if dt in ('float', float, 'float64', 'float32', 'double'):
            return asnum(self).copy()
        if dt in ('int', int, 'int64', 'int32', 'int16') and self.kind == 'b':
            return asnum(self)
        raise Unsupported(f'astype {dt}')

    def __len__(self):
        d = dim_val(self.dims[0])
        if isinstance(d, int):
            return d
        raise Unsupported('len() of a symbolic array')

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')

    def __hash__(self):
        return id(self)

    # --- indexing
    def __getitem__(self, ix):
        return a_getitem(self, ix)

    def __setitem__(self, ix, v):
        a_setitem(self, ix, v)

    def __iter__(self):
        d = dim_val(self.dims[0])
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported('iteration over a symbolic array outside an instrumented loop')

    # --- arithmetic
    def _b(self, o, leaf, rev=False):
        if not arr_like(o):
            return NotImplemented
        return a_bin(leaf, o, self) if rev else a_bin(leaf, self, o)

    def __add__(self, o):
        return self._b(o, l_add)

    def __radd__(self, o):
        return self._b(o, l_add, True)

    def __sub__(self, o):
        return self._b(o, lambda a, b: l_add(a, l_neg(b)))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: l_add(a, l_neg(b)), True)

    def __mul__(self, o):
        if self.kind == 'b' and (isinstance(o, (bool, SymBool)) or (isinstance(o, Array) and o.kind == 'b')):
            return a_bool(mk_and, self, o)
        return self._b(o, l_mul)

    def __rmul__(self, o):
        return self._b(o, l_mul, True)

    def __truediv__(self, o):
        return self._b(o, l_div)

    def __rtruediv__(self, o):
        return self._b(o, l_div, True)

    def __pow__(self, o):
        return self._b(o, l_pow)

    def __rpow__(self, o):
        return self._b(o, l_pow, True)

    def __mod__(self, o):
        return self._b(o, l_mod)

    def __neg__(self):
        return a_un(l_neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return a_un(l_abs, self)

    def _inplace(self, r):
        if not all(dims_equal(x, y) for x, y in zip(self.dims, r.dims)) or len(self.dims) != len(r.dims):
            raise ValueError('non-broadcastable output operand')
        self.set_fn(r.fn)
        return self

    def __iadd__(self, o):
        r = self.copy() + o
        return self._inplace(r) if isinstance(r, Array) else r

    def __isub__(self, o):
        r = self.copy() - o
        return self._inplace(r) if isinstance(r, Array) else r

    def __imul__(self, o):
        r = self.copy() * o
        return self._inplace(r) if isinstance(r, Array) else r

    def __itruediv__(self, o):
        r = self.copy() / o
        return self._inplace(r) if isinstance(r, Array) else r

    def _c(self, o, op):
        if not arr_like(o):
            return NotImplemented
        return a_cmp(op, self, o)

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        return self._c(o, '=')

    def __ne__(self, o):
        return self._c(o, '!=')

    def _l(self, o, f):
        if isinstance(o, (bool, SymBool)) or (isinstance(o, Array) and o.kind == 'b'):
            if self.kind != 'b':
                raise TypeError('ufunc bitwise_and not supported for floats')
            return a_bool(f, self, o)
        return NotImplemented

    def __and__(self, o):
        return self._l(o, mk_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._l(o, mk_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._l(o, lambda a, b: mk_not(mk_iff(a, b)))

    def __invert__(self):
        if self.kind != 'b':
            raise TypeError('ufunc invert not supported for floats')
        s = self.copy()
        return Array(self.dims, lambda ix: mk_not(s.at(ix)), 'b')

    # reductions as methods
    def sum(self, axis=None):
        return a_sum(self, axis)

    def any(self):
        return a_any(self)

    def all(self):
        return a_all(self)

    def mean(self, axis=None):
        return a_mean(self, axis)

    def reshape(self, *a):
        raise Unsupported('reshape')

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported('flatten')

    ravel = flatten

    def item(self):
        raise Unsupported('item')


def arr_like(o):
    return isinstance(o, (Array, Sym, SymBool, bool)) or isnum(o)


def asnum(a):
    if isinstance(a, Array) and a.kind == 'b':
        s = a.copy()
        return Array(a.dims, lambda ix: mk_ite(s.at(ix), RONE, RZERO))
    return a


def snap(x):
    """freeze: arrays are mutable, so closures capture a copy of the current element function"""
    if isinstance(x, Array):
        return Array(x.dims, x.fn, x.kind, x.bnd, dict(x.meta))
    return x


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = RONE
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if d == RONE:
                continue
            if cur == RONE:
                cur = d
            elif not dims_equal(cur, d):
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def elem(x, ix, nd):
    """element of x (scalar or array) at broadcast index ix"""
    if isinstance(x, Array):
        off = nd - len(x.dims)
        sub = tuple(RZERO if d == RONE else ix[off + j] for j, d in enumerate(x.dims))
        v = x.at(sub)
        return v
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return tree_of(x)


def num_elem(x, ix, nd):
    v = elem(x, ix, nd)
    if isinstance(v, Form):
        return mk_ite(v, RONE, RZERO)
    return v


def shape_of(x):
    return x.dims if isinstance(x, Array) else ()


def a_bin(leaf, a, b):
    dims = broadcast([shape_of(a), shape_of(b)])
    a, b = snap(a), snap(b)
    n = len(dims)
    return Array(dims, lambda ix: tmap(leaf, num_elem(a, ix, n), num_elem(b, ix, n)))


def a_un(leaf, a, bnd=None):
    a = snap(a)
    n = len(a.dims)
    return Array(a.dims, lambda ix: tmap(leaf, num_elem(a, ix, n)), bnd=bnd)


def a_cmp(op, a, b):
    dims = broadcast([shape_of(a), shape_of(b)])
    a, b = snap(a), snap(b)
    n = len(dims)
    return Array(dims, lambda ix: t_cmp(op, num_elem(a, ix, n), num_elem(b, ix, n)), 'b')


def a_bool(f, a, b):
    dims = broadcast([shape_of(a), shape_of(b)])
    a, b = snap(a), snap(b)
    n = len(dims)
    return Array(dims, lambda ix: f(as_form(elem(a, ix, n)), as_form(elem(b, ix, n))), 'b')


def a_where(c, a, b):
    """elementwise where; scalars allowed"""
    if not any(isinstance(x, Array) for x in (c, a, b)):
        f = as_form(c) if isinstance(c, (SymBool, bool)) else t_cmp('!=', tree_of(c), RZERO)
        return mksym(mk_ite(f, tree_of(a), tree_of(b)))
    dims = broadcast([shape_of(c), shape_of(a), shape_of(b)])
    c, a, b = snap(c), snap(a), snap(b)
    n = len(dims)
    isb = all((isinstance(x, Array) and x.kind == 'b') or isinstance(x, (bool, SymBool)) for x in (a, b))

    def cond(ix):
        v = elem(c, ix, n)
        return v if isinstance(v, Form) else t_cmp('!=', v, RZERO)
    if isb:
        return Array(dims, lambda ix: mk_or(mk_and(cond(ix), as_form(elem(a, ix, n))),
                                            mk_and(mk_not(cond(ix)), as_form(elem(b, ix, n)))), 'b')

    def fn(ix):
        f = cond(ix)
        return mk_ite(f, restrict(num_elem(a, ix, n), f, True), restrict(num_elem(b, ix, n), f, False))
    return Array(dims, fn)


class Masked:
    """arr[mask]: the sub-multiset of elements selected by a boolean array"""

    def __init__(self, arr, mask):
        self.arr, self.mask = snap(arr), snap(mask)

    @property
    def size(self):
        return Sym(tree_to_rat(tree_of(a_sum(self.mask))), True)

    def __len__(self):
        raise Unsupported('length of a masked selection')

    def __repr__(self):
        return 'Masked'

    # reductions and elementwise arithmetic
    def sum(self, axis=None):
        return a_sum(self, axis)

    def mean(self, axis=None):
        return a_mean(self, axis)

    def any(self):
        return a_any(self)

    def all(self):
        return a_all(self)

    def copy(self):
        return self

    def _op(self, o, f):
        if isinstance(o, Masked):
            if self.mask.dims != o.mask.dims:
                return NotImplemented
            g = generic_index(self.mask.dims)
            if self.mask.at(g).key != o.mask.at(g).key:
                raise Unsupported('arithmetic of two selections')
            o = o.arr
        elif not (isnum(o) or isinstance(o, Sym)):
            return NotImplemented
        return Masked(f(self.arr, o), self.mask)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._op(o, lambda a, b: a ** b)

    def __neg__(self):
        return Masked(-self.arr, self.mask)

    def compress(self):
        """the selection as an array of unknown length m: element k is the source element at some selected index"""
        if self.arr.ndim != 1 or self.arr.kind == 'b':
            raise Unsupported('elements of a masked selection')
        c = CTX
        N = self.arr.dims[0]
        g = generic_index((N,))
        src, msk = self.arr.at(g), self.mask.at(g)
        key = ('compress', src.key, msk.key)
        memo = c.compressed
        if key in memo:
            return memo[key]
        nm = c.fresh_name('sel')
        m = var('len:' + nm, sign='nneg', isint=True)
        c.assume(mk_cmp('<=', m - N))
        pi = lambda k: var('at:' + nm, k, sign='nneg', isint=True)
        mask, arr = self.mask, self.arr
        # selected indices are indices of the source at which the mask holds
        c.families['at:' + nm] = lambda k: [mk_or(mk_cmp('<', k), mk_cmp('>=', k - m), mk_and(mk_cmp('<=', pi(k) - N + 1), mask.at((pi(k),))))]
        out = Array((m,), lambda ix: arr.at((pi(ix[0]),)))
        out.meta['selected'] = True
        total = a_sum(out)
        t = tree_of(total)
        c.assume(mk_or(mk_cmp('>=', m - 1), t_cmp('=', t, RZERO)))
        if isinstance(src, Rat) and c.entails(mk_cmp('>=', src)):
            # non-negative elements: the selected ones add up to at most the running total at the last selected index
            for e in c.events:
                if e[0] == 'cumsum' and e[2].ndim == 1 and e[2].dims == self.arr.dims and e[2].at(g).key == src.key:
                    c.assume(mk_or(mk_cmp('<=', m), t_cmp('<=', t, var(e[1], pi(m - 1)))))
        memo[key] = out
        return out

    def __getitem__(self, ix):
        a = self.compress()
        r = a_getitem(a, ix)
        return r.compress() if isinstance(r, Masked) else r

    def __gt__(self, o):
        return self.compress() > o

    def __ge__(self, o):
        return self.compress() >= o

    def __lt__(self, o):
        return self.compress() < o

    def __le__(self, o):
        return self.compress() <= o

    @property
    def dims(self):
        return self.compress().dims

    @property
    def shape(self):
        return self.compress().shape

    def _arith(self, o, f):
        if isinstance(o, Masked):
            if o.mask.fn is not self.mask.fn:
                raise Unsupported('arithmetic on different selections')
            o = o.arr
        if not arr_like(o):
            return NotImplemented
        return Masked(f(self.arr, o), self.mask)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)


def idx_rat(i):
    if isinstance(i, bool):
        raise Unsupported('bool index')
    if isinstance(i, Sym):
        if isinstance(i.t, Rat):
            return i.t
        raise Unsupported('conditional index')
    if isinstance(i, int):
        return rat(i)
    raise Unsupported(f'index {type(i).__name__}')


def a_getitem(a, ix):
    if isinstance(ix, Array) and ix.kind == 'b':
        if len(ix.dims) != len(a.dims):
            raise Unsupported('partial boolean mask')
        for x, y in zip(a.dims, ix.dims):
            if not dims_equal(x, y):
                raise IndexError('boolean index did not match')
        return Masked(a, ix)
    if isinstance(ix, GenIndex):
        ix = ix.idx
        if len(ix) == a.ndim:
            return scal(a, ix)
    if not isinstance(ix, tuple):
        ix = (ix,)
    if len(ix) == 1 and isinstance(ix[0], GenIndex):
        ix = tuple(Sym(r, True) for r in ix[0].idx)
    if any(isinstance(i, slice) or i is None or i is Ellipsis for i in ix):
        full = slice(None)
        if all(i is None or i is Ellipsis or (isinstance(i, slice) and i == full) for i in ix) and sum(i is Ellipsis for i in ix) <= 1:
            nf = sum(isinstance(i, slice) for i in ix)
            if nf > a.ndim:
                raise IndexError('too many indices')
            if Ellipsis not in ix:
                ix = ix + (Ellipsis,)
            k = ix.index(Ellipsis)
            ix = ix[:k] + (full,) * (a.ndim - nf) + ix[k + 1:]
            if None not in ix:
                return a.copy()
            it, dims, src = iter(a.dims), [], []
            for j, i in enumerate(ix):
                if i is None:
                    dims.append(RONE)
                else:
                    dims.append(next(it))
                    src.append(j)
            s = snap(a)
            return Array(tuple(dims), lambda jx: s.at(tuple(jx[j] for j in src)), a.kind)
        if len(ix) == a.ndim and all((isinstance(i, slice) and i == slice(None)) or isinstance(i, (int, Sym)) for i in ix):
            keep = [k for k, i in enumerate(ix) if isinstance(i, slice)]
            s = snap(a)
            fixed = {k: idx_rat(i) for k, i in enumerate(ix) if not isinstance(i, slice)}

            def fn(jx):
                full = []
                it = iter(jx)
                for k in range(len(ix)):
                    full.append(fixed[k] if k in fixed else next(it))
                return s.at(tuple(full))
            return Array([a.dims[k] for k in keep], fn, a.kind)
        raise Unsupported('slicing')
    r = tuple(norm_idx(a.dims[k], i) for k, i in enumerate(ix))
    if len(r) > a.ndim:
        raise IndexError('too many indices')
    if len(r) == a.ndim:
        return scal(a, r)
    s = snap(a)
    return Array(a.dims[len(r):], lambda jx: s.at(r + tuple(jx)), a.kind)


def norm_idx(d, i):
    r = idx_rat(i)
    c = r.const()
    if c is not None and c < 0:
        return d + r
    dc = d.const()
    if c is not None and dc is not None and c >= dc:
        raise IndexError('index out of bounds')
    return r


def scal(a, r):
    v = a.at(r)
    if isinstance(v, Form):
        return mkbool(v)
    at_ = T.atom_of(v) if isinstance(v, Rat) else None
    return mksym(v, at_ is not None and at_.isint)


class GenIndex:
    """one row of np.argwhere: a generic index tuple"""

    def __init__(self, idx, mask=None):
        self.idx = tuple(idx)
        self.mask = mask

    def __iter__(self):
        return iter([Sym(r, True) for r in self.idx])

    def __len__(self):
        return len(self.idx)

    def __getitem__(self, k):
        return Sym(self.idx[k], True)


class GenTuple(tuple):
    """tuple(row of np.argwhere): the same generic index"""
    gi = None


def gi_of(x):
    return x if isinstance(x, GenIndex) else getattr(x, 'gi', None) if isinstance(x, GenTuple) else None


def a_setitem(a, ix, v):
    old = snap(a)
    if isinstance(ix, slice) and ix == slice(None) or ix is Ellipsis:
        r = a_where(Array(a.dims, lambda i: TRUE, 'b'), v, old)
        a.set_fn(r.fn)
        return
    if isinstance(ix, Array) and ix.kind == 'b':
        for x, y in zip(a.dims, ix.dims):
            if not dims_equal(x, y):
                raise IndexError('boolean index did not match')
        if isinstance(v, Masked):
            if v.mask.fn is not ix.fn and v.mask.memo is not ix.memo:
                m1, m2 = v.mask, ix
                p = generic_index(a.dims)
                if m1.at(p) != m2.at(p):
                    raise Unsupported('masked assignment from another mask')
            v = v.arr
        elif isinstance(v, Array) and v.ndim:
            raise Unsupported('masked assignment of an array')
        if a.kind == 'b':
            r = a_where(ix, v if not isnum(v) or isinstance(v, bool) else bool(v), old)
        else:
            r = a_where(ix, v, old)
        a.set_fn(r.fn)
        return
    if isinstance(ix, GenIndex):
        ix = tuple(Sym(r, True) for r in ix.idx)
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(isinstance(i, slice) or i is None for i in ix):
        raise Unsupported('slice assignment')
    if len(ix) == 1 and isinstance(ix[0], GenIndex):
        ix = tuple(Sym(r, True) for r in ix[0].idx)
    r = tuple(norm_idx(a.dims[k], i) for k, i in enumerate(ix))
    if len(r) != a.ndim:
        raise Unsupported('row assignment')
    if isinstance(v, Array):
        raise Unsupported('element assignment of an array')

    def same(jx):
        return mk_and(*[mk_cmp('=', x - y) for x, y in zip(r, jx)])
    if a.kind == 'b':
        fv = as_form(v) if isinstance(v, (bool, SymBool)) else t_cmp('!=', tree_of(v), RZERO)
        a.set_fn(lambda jx: mk_or(mk_and(same(jx), fv), mk_and(mk_not(same(jx)), old.at(jx))))
    else:
        tv = tree_of(v)
        a.set_fn(lambda jx: mk_ite(same(jx), tv, old.at(jx)))
    if CTX.writes is not None:
        CTX.writes[-1] = ('store', a, r)


def generic_index(dims, alt=''):
    """the canonical generic (bound) index for an array shape, with range facts registered"""
    out = []
    for k, d in enumerate(dims):
        b = bound_var((f'{show(d)}.{k}' if len(dims) > 1 else f'{show(d)}') + alt)
        b.isint = True
        BOUND_DIM[b.id] = d
        key = (b.id, d.key)
        if key not in CTX.genidx:
            CTX.genidx[key] = True
            r = rat(b)
            for f in (mk_cmp('>=', r), mk_cmp('<=', r - d + 1)):
                f = mk_or(mk_cmp('<=', d), f)       # an empty array has no index
                if f not in (TRUE, FALSE):
                    CTX.assume_list.append(f)
        out.append(rat(b))
    return tuple(out)


def tree_to_rat(t, why='sum'):
    """Ite tree -> Rat with indicator atoms; non-finite leaves must be unreachable"""
    if isinstance(t, Rat):
        return t
    if isinstance(t, Special):
        raise Unsupported(f'non-finite element in {why}')
    if _has_special(t):
        if CTX.entails(t.c):
            return tree_to_rat(t.a, why)
        if CTX.entails(mk_not(t.c)):
            return tree_to_rat(t.b, why)
    i = ind(t.c)
    a = tree_to_rat(t.a, why)
    b = tree_to_rat(t.b, why)
    return b + i * (a - b)


def _has_special(t):
    return any(isinstance(l, Special) for _, l in tree_leaves(t))


class sum_index:
    """the index bound by a sum: never the generic index of paths, loops and contracts (facts known about that one
    do not hold for every term), one name per nesting depth (no capture)"""
    depth = 0

    def __init__(self, dims):
        self.dims = dims

    def __enter__(self):
        sum_index.depth += 1
        return generic_index(self.dims, '~' * sum_index.depth)

    def __exit__(self, *_a):
        sum_index.depth -= 1


def a_sum(a, axis=None):
    if isinstance(a, Masked):
        if a.arr.kind == 'b':
            a = a_bool(mk_and, a.arr, a.mask)
        else:
            a = a_where(a.mask, a.arr, 0)
    if not isinstance(a, Array):
        return a
    if axis is not None and a.ndim > 1:
        raise Unsupported('sum along an axis')
    conc = [d.const() for d in a.dims]
    if all(c is not None for c in conc) and math.prod(int(c) for c in conc) <= 12:
        import itertools
        tot = RZERO
        for ix in itertools.product(*[range(int(c)) for c in conc]):
            v = a.at(tuple(rat(i) for i in ix))
            tot = tmap(l_add, tot, mk_ite(v, RONE, RZERO) if isinstance(v, Form) else v)
        return mksym(tot)
    with sum_index(a.dims) as p:
        v = a.at(p)
        if isinstance(v, Form):
            v = mk_ite(v, RONE, RZERO)
        body = tree_to_rat(v)
    bvs = [T.atom_of(r) for r in p]
    key = 'x'.join(show(d) for d in a.dims)
    return mksym(sum_over(bvs, key, a.dims, body))


def sum_over(bvs, key, dims, body):
    n = RONE
    for d in dims:
        n = n * d
    for b, d in zip(bvs, dims):
        BOUND_DIM[b.id] = d
    s = mk_sum(bvs, key, body)
    if len(bvs) > 1:
        # a term that does not depend on one of the indices is summed over the others and multiplied by its range
        for i in list(s.atoms()):
            a = Atom.byid[i]
            if a.kind != 'sum' or a.args[0] != tuple(bvs) or a.name != key:
                continue
            b = a.args[1]
            keep = [k for k, v in enumerate(bvs) if v.id in b.fv()]
            if 0 < len(keep) < len(bvs) and 'SUM<' not in show(b):
                m = RONE
                for k, d in enumerate(dims):
                    if k not in keep:
                        m = m * d
                kd = tuple(dims[k] for k in keep)
                nb = generic_index(kd, '~' * max(sum_index.depth, 1))
                sub = subst(b, {bvs[k].id: r for k, r in zip(keep, nb)})
                s = _replace_atom(s, i, m * sum_over([T.atom_of(r) for r in nb], 'x'.join(show(d) for d in kd), kd, sub))
    # Sum of a constant 1 over the index set is its size
    one = Atom.table.get(('sum', key, (tuple(b.id for b in bvs), RONE.key)))
    if one is not None and one.id in s.atoms():
        s = subst(s, {one.id: n}) if False else _replace_atom(s, one.id, n)
    return s


def _replace_atom(r, i, val):
    def rp(p):
        out = RZERO
        for m, c in p.d.items():
            t = rat(c)
            for j, e in m:
                t = t * (val.ipow(int(e)) if j == i else Rat(Poly({((j, e),): F(1)})))
            out = out + t
        return out
    n = rp(r.num)
    for p, e in r.den:
        n = n / rp(p).ipow(e)
    return n


def a_mean(a, axis=None):
    if isinstance(a, Masked):
        cnt = a_sum(Masked(Array(a.mask.dims, lambda ix: RONE), a.mask))
        return a_sum(a) / cnt
    if not isinstance(a, Array):
        return a
    if axis is not None and a.ndim > 1:
        raise Unsupported('mean along an axis')
    n = RONE
    for d in a.dims:
        n = n * d
    return a_sum(a) / mksym(n)


def a_any(a):
    """np.any over a boolean array: witness semantics"""
    if isinstance(a, bool) or isinstance(a, SymBool):
        return a
    if isinstance(a, (Sym,)) or isnum(a):
        return a != 0
    if isinstance(a, Masked):
        a = a_bool(mk_and, a.arr, a.mask)
    if a.kind != 'b':
        s = snap(a)
        a = Array(a.dims, lambda ix: t_cmp('!=', s.at(ix), RZERO), 'b')
    conc = [d.const() for d in a.dims]
    if all(c is not None for c in conc) and math.prod(int(c) for c in conc) <= 12:
        import itertools
        return mkbool(mk_or(*[a.at(tuple(rat(i) for i in ix)) for ix in itertools.product(*[range(int(c)) for c in conc])]))
    p = generic_index(a.dims, '?')
    f = a.at(p)
    if f == FALSE or CTX.entails(mk_not(f), 2500):
        return False
    key = 'any:' + repr(hash(('x'.join(show(d) for d in a.dims), f.key)))
    free = sorted(f.fv() - {T.atom_of(r).id for r in p})
    b = BAtom('any', ()) if False else BAtom(key, tuple(rat(Atom.byid[i]) for i in free if Atom.byid[i].kind == 'var'))
    # any(f) is FALSE  =>  no index satisfies f (instantiated in Ctx.hyps)
    CTX.anys.append((b, p, f))
    ANYDEF[b.key] = (p, f)
    return SymBool(b)


def a_all(a):
    if isinstance(a, (bool, SymBool)):
        return a
    if isinstance(a, Masked):
        s = a
        a = a_bool(lambda x, y: mk_or(x, mk_not(y)), s.arr, s.mask)
    if isinstance(a, Array) and a.kind != 'b':
        s = snap(a)
        a = Array(a.dims, lambda ix: t_cmp('!=', s.at(ix), RZERO), 'b')
    r = a_any(~a)
    return (not r) if isinstance(r, bool) else ~r
