"""Sequences and dictionaries of unbounded size, and the loop rules.

A Gen segment stands for an arbitrary number of elements; `rep` is the element at the generic
index `k`.  A loop over a Gen segment runs its body once, on `rep`, with every loop-carried
variable replaced by a fresh symbol; afterwards the closed form of each carried variable is
read off (additive recurrences become sums over k, per-element stores become element functions,
appended values become Gen segments).  Anything that does not fit raises Unsupported."""
from fractions import Fraction as F
from terms import *
import terms as T
from values import *
import values as V
from shim_units import Quantity, Unit, Label, VSeqBase, UnitConversionError
import shim_units as U

_src = [0]


def new_src(tag='s'):
    _src[0] += 1
    return f'{tag}{_src[0]}'


class Gen:
    """n elements; `rep` is element k; `inc`: on this path the generic element is present"""

    def __init__(self, n, k, rep, src, inc=True, filtered=False, order=None):
        self.n, self.k, self.rep, self.src, self.inc, self.filtered = n, k, rep, src, inc, filtered

    def __repr__(self):
        return f'Gen({self.src},inc={self.inc},{self.rep!r})'


def mk_gen(n, rep_fn, tag='s'):
    """n: Rat count. rep_fn(k Rat) -> element"""
    src = new_src(tag)
    k = mk_atom('var', f'#k:{src}', (), 'nneg', True)
    kr = rat(k)
    return Gen(n, kr, rep_fn(kr), src)


class SymSeq(VSeqBase):
    """immutable-ish sequence with concrete and Gen segments"""

    def __init__(self, segs, kind='tuple'):
        self.segs = list(segs)      # Gen or ('one', value)
        self.kind = kind

    def __repr__(self):
        return f'SymSeq<{self.kind}>{self.segs!r}'

    def has_gen(self):
        return any(isinstance(s, Gen) for s in self.segs)

    def length(self):
        n = RZERO
        for s in self.segs:
            if isinstance(s, Gen):
                if s.filtered:
                    n = n + var(f'len:{s.src}:f', sign='nneg', isint=True)
                else:
                    n = n + seg_count(s)
            else:
                n = n + 1
        return dim_val(n)

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len() of a symbolic sequence')

    def __bool__(self):
        return bool(self.length() > 0)

    def __iter__(self):
        if not self.has_gen():
            return iter([v for _, v in self.segs])
        raise Unsupported('iteration over a symbolic sequence outside an instrumented loop')

    def __getitem__(self, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if i >= 0:
                for n, s in enumerate(self.segs):
                    if isinstance(s, Gen):
                        if n == 0 and i == 0 and False:
                            pass
                        break
                    if n == i:
                        return s[1]
            else:
                for n, s in enumerate(reversed(self.segs)):
                    if isinstance(s, Gen):
                        break
                    if n == -i - 1:
                        return s[1]
        if len(self.segs) == 1 and isinstance(self.segs[0], Gen) and isinstance(i, (int, Sym)) and not isinstance(i, bool):
            g = self.segs[0]
            if g.inc and not g.filtered:
                r = V.idx_rat(i)
                if r == g.k:
                    return g.rep
                return subst_val(g.rep, g.k, r)
        if isinstance(i, slice) and i == slice(None):
            return SymSeq(self.segs, self.kind)
        if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            segs = self.segs
            if not self.has_gen():
                return SymSeq(segs[i], self.kind)
            if len(segs) == 1 and not segs[0].filtered and i.start in (None, 0) and i.step in (None, 1) and i.stop >= 0 and segs[0].inc and not getattr(segs[0], 'facts', None):
                g = segs[0]     # the first elements: those whose index is below the bound
                if g.n is None or not V.ctx().decide(mk_cmp('>=', g.n - 1)):
                    if g.n is None:
                        raise Unsupported('slice of a symbolic sequence')
                    return SymSeq([], self.kind)
                V.ctx().assume(mk_and(*index_facts(g)))
                return SymSeq([Gen(g.n, g.k, g.rep, g.src, bool(V.mkbool(mk_cmp('<', g.k - rat(i.stop)))), True)], self.kind)
        raise Unsupported('indexing a symbolic sequence')

    def __add__(self, o):
        return SymSeq(self.segs + seg_list(o), self.kind)

    def __radd__(self, o):
        return SymSeq(seg_list(o) + self.segs, self.kind)

    def __iadd__(self, o):
        return SymSeq(self.segs + seg_list(o), self.kind)

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic sequences')

    __hash__ = object.__hash__

    def __contains__(self, x):
        if not self.has_gen():
            return any(x is v for _, v in self.segs)
        raise Unsupported('membership in a symbolic sequence')

    def index(self, *_a):
        raise Unsupported('index() in a symbolic sequence')

    def copy(self):
        return SymSeq(self.segs, self.kind)


def subst_val(v, k, r):
    """substitute the generic index inside a value"""
    sub = {T.atom_of(k).id: r}
    if isinstance(v, Sym):
        return V.mksym(tree_subst(v.t, sub), v.isint)
    if isinstance(v, SymBool):
        return V.mkbool(subst_form(v.f, sub))
    if isinstance(v, Quantity):
        return Quantity(subst_val(v.value, k, r), v.unit)
    if isinstance(v, Array):
        s = V.snap(v)

        def fn(ix):
            x = s.at(ix)
            return subst_form(x, sub) if isinstance(x, Form) else tree_subst(x, sub)
        return Array(tuple(subst(d, sub) for d in v.dims), fn, v.kind)
    if isinstance(v, tuple):
        return tuple(subst_val(x, k, r) for x in v)
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    raise Unsupported(f'element of a symbolic sequence at another index ({type(v).__name__})')


class VList(SymSeq):
    """a python list under verification (concrete until a generic loop touches it)"""

    def __init__(self, items=(), segs=None):
        self.born = tuple(id(l) for l in V.ctx().loops)
        super().__init__(segs if segs is not None else [('one', x) for x in items], 'list')

    @property
    def segs(self):
        # inside a generic loop the elements that earlier iterations appended are not known
        for l in V.ctx().loops:
            if l.cur is not None and id(l) not in self.born:
                if id(self) in l.mutated or id(self) in l.appended:
                    raise Unsupported('a list is read in the generic loop that appends to it')
                l.read[id(self)] = self
        return self._segs

    @segs.setter
    def segs(self, v):
        self._segs = v

    def _loop(self):
        extra = self._loops()
        return extra[-1] if extra else None

    def _loops(self):
        return [l for l in V.ctx().loops if id(l) not in self.born]

    def append(self, x):
        l = self._loop()
        if l is None:
            self.segs.append(('one', x))
        else:
            l.appended.setdefault(id(self), []).append(('one', x))
            l.lists[id(self)] = self

    def extend(self, xs):
        l = self._loop()
        if l is None:
            self.segs += seg_list(xs)
        else:
            xs = seg_list(xs)
            if any(isinstance(s, Gen) and (s.filtered or not s.inc or not getattr(s, 'scoped', False)) for s in xs):
                raise Unsupported('extend by a symbolic sequence in a generic loop')
            for s in xs:
                if isinstance(s, Gen):
                    l.appended.setdefault(id(self), []).append(s)
                    l.lists[id(self)] = self
                else:
                    self.append(s[1])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return VList(segs=self.segs + seg_list(o))

    def __radd__(self, o):
        return VList(segs=seg_list(o) + self.segs)

    def __mul__(self, n):
        if isinstance(n, int):
            return VList(segs=self.segs * n)
        if isinstance(n, Sym) and len(self.segs) == 1 and not isinstance(self.segs[0], Gen):
            v = self.segs[0][1]
            if not V.ctx().decide(mk_cmp('>=', V.dim_rat(n))):
                return VList([])
            return VList(segs=[mk_gen(V.dim_rat(n), lambda k: v, 'rpt')])
        if isinstance(n, (Array, Quantity)):
            import shim_np
            return shim_np.norm(self) * n
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def __setitem__(self, i, v):
        if isinstance(i, int) and not self.has_gen() and self._loop() is None:
            self.segs[i] = ('one', v)
            return
        if isinstance(i, slice) and i == slice(None) and self._loop() is None:
            self.segs = seg_list(v)
            return
        raise Unsupported('item assignment in a symbolic list')

    def pop(self, i=-1):
        if self.has_gen() or self._loop() is not None:
            raise Unsupported('pop from a symbolic list')
        return self.segs.pop(i)[1]

    def insert(self, i, x):
        if self.has_gen() or self._loop() is not None:
            raise Unsupported('insert in a symbolic list')
        self.segs.insert(i, ('one', x))

    def remove(self, x):
        raise Unsupported('remove from a symbolic list')

    def clear(self):
        if self._loop() is not None:
            raise Unsupported('clear in a generic loop')
        self.segs = []

    def sort(self, *a, **k):
        raise Unsupported('sort')

    def reverse(self):
        raise Unsupported('reverse')

    def _as_quantity_value(self):
        import shim_np
        return shim_np.array(self)


def seg_list(o):
    if isinstance(o, SymSeq):
        return list(o.segs)
    if isinstance(o, (tuple, list)):
        return [('one', x) for x in o]
    if isinstance(o, GIter):
        return list(o.segs)
    if isinstance(o, (VDict,)):
        return seg_list(o.keys())
    if isinstance(o, (Array, Quantity)):
        return list(gen_iter(o).segs)
    if hasattr(o, '__iter__') and not isinstance(o, (str,)):
        return [('one', x) for x in o]
    raise TypeError(f'{type(o).__name__} object is not iterable')


class GIter(SymSeq):
    """an iterator (zip, enumerate, range, dict views) with generic content"""


# ------------------------------------------------------------ generic iteration
def is_generic_src(x):
    if isinstance(x, SymSeq):
        return x.has_gen()
    if isinstance(x, Array):
        return x.ndim >= 1 and x.dims[0].const() is None
    if isinstance(x, Quantity):
        return is_generic_src(x.value)
    if isinstance(x, VDict):
        return x.has_gen()
    return False


def gen_iter(x):
    """SymSeq view for iteration"""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, VDict):
        return x.keys()
    if isinstance(x, Array) and x.dims[0].const() is None:
        s = V.snap(x)
        kv = V.ctx().arr_k(x.dims[0])
        return GIter([Gen(x.dims[0], kv, s[Sym(kv, True)], f'arr:{show(x.dims[0])}')])
    if isinstance(x, Quantity) and is_generic_src(x.value):
        g = gen_iter(x.value).segs[0]
        return GIter([Gen(g.n, g.k, Quantity(g.rep, x.unit), g.src)])
    return GIter([('one', v) for v in x])


def _arr_k(self, d):
    """one canonical generic index per array length"""
    a = mk_atom('var', f'#k:len({show(d)})', (), 'nneg', True)
    return rat(a)


V.Ctx.arr_k = _arr_k


def elem_at(x, k):
    if isinstance(x, Quantity):
        return Quantity(elem_at(x.value, k), x.unit)
    return x[Sym(k, True)]


def vc_zip(*xs):
    if not any(is_generic_src(x) for x in xs):
        return GIter([('one', t) for t in zip(*[list(gen_iter(x)) if not isinstance(x, (str,)) else x for x in xs])]) \
            if any(isinstance(x, (SymSeq, Array, Quantity, VDict)) for x in xs) else zip(*xs)
    ks = []
    for x in xs:
        if isinstance(x, (SymSeq, VDict)):
            s = gen_iter(x)
            if len(s.segs) != 1 or not isinstance(s.segs[0], Gen):
                raise Unsupported('zip of mixed sequences')
            ks.append(s.segs[0])
    if ks:
        g = ks[0]
        for h in ks[1:]:
            if h.k != g.k:
                raise Unsupported('zip of unrelated symbolic sequences')
        k, n, src = g.k, g.n, g.src
        if any(h.filtered for h in ks):
            if not all(h.filtered and h.src == g.src for h in ks):
                raise Unsupported('zip of filtered sequences')
    else:
        n = None
        for x in xs:
            if isinstance(x, (Array, Quantity)):
                n = V.shape_of(x.value if isinstance(x, Quantity) else x)[0]
                break
        k, src = V.ctx().arr_k(n), f'arr:{show(n)}'
    out = []
    inc = True
    for x in xs:
        if isinstance(x, (SymSeq, VDict)):
            g = gen_iter(x).segs[0]
            if g.n != n and not (g.n is None or n is None) and not V.dims_equal(g.n, n):
                raise Unsupported('zip of different lengths')
            inc = inc and g.inc
            out.append(g.rep)
        elif isinstance(x, (Array, Quantity)):
            d = V.shape_of(x.value if isinstance(x, Quantity) else x)[0]
            if d != n and not V.dims_equal(d, n):
                raise Unsupported('zip of different lengths')
            out.append(elem_at(x, k))
        else:
            raise Unsupported('zip of concrete and symbolic sequences')
    fl = bool(ks) and ks[0].filtered
    return GIter([Gen(n, k, tuple(out), src, inc, fl)])


def vc_enumerate(x, start=0):
    if not is_generic_src(x):
        return enumerate(x, start)
    s = gen_iter(x)
    if len(s.segs) != 1 or s.segs[0].filtered:
        raise Unsupported('enumerate of a mixed sequence')
    g = s.segs[0]
    return GIter([Gen(g.n, g.k, (V.mksym(g.k + rat(start), True), g.rep), g.src, g.inc)])


def vc_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [x if isinstance(x, (int, Sym)) else x for x in a]
    if any(not isinstance(x, (int, Sym)) for x in a):
        raise TypeError('range() needs integers')
    if len(a) == 1:
        lo, hi = rat(0), V.dim_rat(a[0])
    elif len(a) == 2:
        lo, hi = V.dim_rat(a[0]), V.dim_rat(a[1])
    else:
        raise Unsupported('range with a step')
    n = hi - lo
    if not isinstance(a[-1], int) and not getattr(a[-1], 'isint', False):
        raise TypeError('range() argument is not an integer')
    c = n.const()
    if c is not None:
        return GIter([('one', V.mksym(lo + i, True)) for i in range(int(c))])
    k = V.ctx().arr_k(n)
    return GIter([Gen(n, k, V.mksym(k + lo, True), f'arr:{show(n)}')])


class ZSym(Sym):
    """placeholder of a loop-carried accumulator whose initial value is the literal 0"""
    __slots__ = ()


U.ZSYM[0] = ZSym


class Poison:
    """value of a loop-local variable after the loop"""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, a):
        raise Unsupported(f'loop-local variable {self._n} used after the loop')

    def _u(self, *_a, **_k):
        raise Unsupported(f'loop-local variable {object.__getattribute__(self, "_n")} used after the loop')

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __bool__ = _u
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __getitem__ = __iter__ = __call__ = __neg__ = _u
    __hash__ = object.__hash__


class LoopRunner:
    """runs `for` loops; concrete elements natively, Gen segments by the loop rule"""

    def __init__(self, it, where=''):
        self.g = False
        self.where = where
        self.appended, self.lists = {}, {}
        self.mutated, self.read = set(), {}
        self.cur = None          # Gen being iterated
        self.last = None         # Gen whose effects are not yet folded in
        self.saved = {}
        self.skipped = False
        self.scoped = False
        self.segs = None
        if is_generic_src(it):
            self.g = True
            self.segs = list(gen_iter(it).segs)
        elif isinstance(it, (SymSeq, Array, Quantity, VDict)):
            self.segs = list(gen_iter(it).segs)
        else:
            self.native = it

    def __iter__(self):
        if self.segs is None:
            yield from self.native
            return
        c = V.ctx()
        for s in self.segs:
            if not isinstance(s, Gen):
                self.cur = None
                yield s[1]
                continue
            self.scoped = False
            if s.n is not None and not s.filtered:
                if any(l.cur is not None for l in c.loops) and s.inc and not getattr(s, 'facts', None) and c.entails(mk_cmp('>=', s.n)) and not c.entails(mk_cmp('>=', s.n - 1)):
                    # inner loop that may be empty: its body is checked for every index, under facts that end with it
                    self.scoped = True
                elif not c.decide(mk_cmp('>=', s.n - 1)):
                    continue
            if self.last is not None:
                raise Unsupported('loop over several symbolic segments')
            if not s.inc:
                self.last, self.skipped = s, True
                c.by_rule = True
                self.saved = {}
                continue
            if getattr(s, 'facts', None) and not c.decide(mk_and(*s.facts)):
                # the generic index is not visited: its own elements stay, those of visited indices are unknown here
                # (the path on which it is visited decides what may be written)
                self.last, self.skipped = s, True
                c.by_rule = True
                self.saved = {}
                continue
            self.cur = s
            if self.scoped:
                scope = (len(c.taken), dict(c.decided), [f for f in index_facts(s) if f not in c.assume_list])
            self.begin(s)
            yield s.rep
            self.end(s)
            self.cur = None
            if self.scoped:
                if len(c.taken) != scope[0]:
                    raise Unsupported('case distinction inside a nested loop that may be empty')
                c.decided.clear()
                c.decided.update(scope[1])
                for f in scope[2]:
                    if f in c.assume_list:
                        c.assume_list.remove(f)

    def begin(self, s):
        c = V.ctx()
        if any(l.cur is not None and l.cur is not s and l.cur.k == s.k for l in c.loops):
            raise Unsupported('nested loops over index sets of the same size')
        for f in index_facts(s):
            c.assume(f)
        self.saved = {}
        self.appended, self.lists = {}, {}
        self.ndec = c.ndecide
        c.loops.append(self)
        self.w0 = len(c.setattrs)
        self.old_writes = c.writes
        c.writes = self.writes = []
        self.inner_writes = []          # array writes of loops nested in this one
        self.serial0 = V.Array.SERIAL

    def end(self, s):
        c = V.ctx()
        if c.loops and c.loops[-1] is self:
            c.loops.pop()
        c.writes = self.old_writes
        self.check_writes(s)
        self.uniform = (c.ndecide == self.ndec)
        fl = s.filtered or not self.uniform
        for i, l in self.lists.items():
            if i in self.read:
                raise Unsupported('a list is read in the generic loop that appends to it')
            segs = self.appended[i]
            if any(isinstance(x, Gen) for x in segs):
                rep = CatRep(segs)
            else:
                rep = segs[0][1] if len(segs) == 1 else MultiRep([x for _, x in segs])
            g = Gen(s.n, s.k, rep, s.src, True, fl)
            g.scoped = self.scoped
            outer = l._loop()
            if outer is None:
                l.segs.append(g)
            elif fl or not self.scoped:
                raise Unsupported('append under nested generic loops')
            else:
                outer.appended.setdefault(i, []).append(g)
                outer.lists[i] = l
        self.last, self.skipped = s, False

    def check_writes(self, s):
        c = V.ctx()
        own = set()
        collect_ids(s.rep, own)
        log = c.setattrs[self.w0:]
        own |= {id(o) for (o, _n, had, _old, _new, fresh) in log if fresh}
        for (o, name, had, old, new, fresh) in log:
            if id(o) in own or (had and old is new):
                continue
            if depends_on_loop(new, s, own) or not had or not same_value(old, new):
                # (a value that changes may be read back by the next iteration)
                raise Unsupported(f'loop writes attribute {name} of an object outside the loop')
        # arrays that existed before the iteration may be written only through the variables the loop rule carries
        carried = {id(x) for v in self.saved.values() for p in v[:2] for x in (p, getattr(p, 'value', None))
                   if isinstance(x, (Array, Quantity))}
        arrs = [w[1] for w in self.writes + self.inner_writes]
        if c.loops:
            c.loops[-1].inner_writes.extend(arrs_to_writes(arrs))
        for a in arrs:
            if a.serial <= self.serial0 and id(a) not in carried and id(a) not in own:
                raise Unsupported('array from outside a generic loop modified in place inside it')

    def brk(self):
        if self.cur is not None:
            raise Unsupported('break/return inside a loop over a symbolic sequence')
        return True

    def step(self, name, val, mutated, live=True):
        """at loop-body entry, for every possibly modified name; live: the body may read the value of the previous iteration"""
        if self.last is not None:
            val = self.fin(name, val, mutated)
        if self.cur is not None:
            if mutated and isinstance(val, VList):
                self.mutated.add(id(val))
            val = self.havoc(name, val, live, mutated)
        return val

    def stepdone(self):
        if self.cur is None:
            self.last = None

    def havoc(self, name, val, live=True, mutated=False):
        c = V.ctx()
        ph, pf = val, None
        if isinstance(val, (bool, SymBool)):
            if live:
                ph = SymBool(BAtom(c.fresh_name(f'carry_{name}'), ()))
        elif isnum(val) or isinstance(val, Sym):
            f = c.fresh(f'carry_{name}')
            ph = ZSym(f) if (isnum(val) and val == 0) else Sym(f, isinstance(val, int) or getattr(val, 'isint', False))
        elif isinstance(val, Quantity):
            if isinstance(val.value, Array):
                a = self.hav_arr(name, val.value)
                ph, pf = Quantity(a, val.unit), a.fn
            else:
                ph = Quantity(Sym(c.fresh(f'carry_{name}')), val.unit)
                pf = ph.value
        elif isinstance(val, Array):
            ph = self.hav_arr(name, val)
            pf = ph.fn
        elif isinstance(val, VDict):
            ph = val.havoc(self, name)
        elif live and not mutated and not isinstance(val, Poison):
            raise Unsupported(f'loop-carried variable {name} ({type(val).__name__})')
        self.saved[name] = (val, ph, pf)
        return ph

    def hav_arr(self, name, a):
        nm = V.ctx().fresh_name(f'carry_{name}')
        if a.kind == 'b':
            return Array(a.dims, lambda ix: BAtom(nm, ix), 'b')
        return Array(a.dims, lambda ix: var(nm, *ix))

    def fin(self, name, val, mutated):
        """after the loop (or before a following concrete element): closed form"""
        s = self.last
        if s is None:
            return val
        if isinstance(val, VList):
            if mutated and id(val) not in self.appended and id(val) not in getattr(self, 'noted', {}):
                self.noted = getattr(self, 'noted', {})
                self.noted[id(val)] = True
                if val._loop() is not None:
                    raise Unsupported('conditional append under nested generic loops')
                val.segs.append(Gen(s.n, s.k, None, s.src, False, True))
            return val
        if self.skipped:
            gi = V.gi_of(s.rep)
            if gi is not None and isinstance(val, Array) and val.kind == 'f' and len(val.dims) == len(gi.mask.dims):
                nm, v0 = V.ctx().fresh_name('stored'), V.snap(val)
                return Array(val.dims, lambda ix: mk_ite(gi.mask.at(ix), var(nm, *ix), v0.at(ix)))
            if isinstance(val, (Sym, Quantity, Array, VDict)) or isnum(val):
                return Poison(name)
            return val
        if name not in self.saved:
            return Poison(name) if val is not None and not callable(val) else val
        init, ph, pf = self.saved[name]
        if isinstance(ph, VDict) and ph is not init:
            if val is not ph:
                raise Unsupported('dictionary rebound in a loop')
            return ph.finish(init, self, s)
        if isinstance(init, VList):
            raise Unsupported('list rebound in a generic loop')
        if val is ph and not changed(ph, pf) and not split_on(s):
            return init
        if isinstance(ph, SymBool):
            return init if val is ph else Poison(name)
        if val is init and ph is init and not isinstance(init, (Quantity, Array, Sym)) and not isnum(init):
            return init
        for fs in V.ctx().fold_specs:
            r = fs(self, name, init, ph, pf, val, s)
            if r is not None:
                return r
        r = pointwise(self, init, ph, pf, val, s)
        if r is None:
            r = additive(init, ph, pf, val, s)
        return Poison(name) if r is None else r


def arrs_to_writes(arrs):
    return [('inner', a) for a in arrs]


class MultiRep:
    """several values appended per iteration"""

    def __init__(self, items):
        self.items = items


class CatRep:
    """values and whole inner sequences appended per iteration (nested loops)"""

    def __init__(self, segs):
        self.segs = segs

    def count(self):
        n = RZERO
        for s in self.segs:
            n = n + (seg_count(s) if isinstance(s, Gen) else 1)
        return n


def seg_count(s):
    """number of elements of an unfiltered segment"""
    n = s.n if s.n is not None else var(f'len:{s.src}:', sign='nneg', isint=True)
    if isinstance(s.rep, MultiRep):
        return n * len(s.rep.items)
    if isinstance(s.rep, CatRep):
        t = s.rep.count()
        kid = T.atom_of(s.k).id
        if kid not in t.fv():
            return n * t
        return V.a_sum(Array((n,), lambda ix: subst(t, {kid: ix[0]}))).t
    return n


def seg_leaves(s):
    """the values a segment consists of, at their generic indices"""
    if not isinstance(s, Gen):
        return [s[1]]
    if not s.inc or s.filtered:
        raise Unsupported('filtered segment')
    if isinstance(s.rep, MultiRep):
        return list(s.rep.items)
    if isinstance(s.rep, CatRep):
        return [v for x in s.rep.segs for v in seg_leaves(x)]
    return [s.rep]


def changed(ph, pf):
    if isinstance(ph, Array):
        return ph.fn is not pf
    if isinstance(ph, Quantity):
        return (ph.value.fn is not pf) if isinstance(ph.value, Array) else (ph.value is not pf)
    return False


def index_facts(s):
    out = [mk_cmp('>=', s.k)]
    if s.n is not None:
        out.append(mk_cmp('<=', s.k - s.n + 1))
    return [f for f in out if f not in (TRUE,)]


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Quantity) and isinstance(b, Quantity):
        return a.unit == b.unit and same_value(a.value, b.value)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t == b.t
    if isinstance(a, (int, float, str, type(None))) and isinstance(b, (int, float, str, type(None))):
        return a == b
    return False


def collect_ids(v, out, depth=0):
    out.add(id(v))
    if isinstance(v, (tuple, list)) and depth < 3:
        for x in v:
            collect_ids(x, out, depth + 1)
    elif isinstance(v, Quantity):
        collect_ids(v.value, out, depth + 1)
    elif depth < 2 and hasattr(v, '__dict__') and not isinstance(v, (VList, VDict, type)) and not callable(v):
        for x in list(vars(v).values()):
            if isinstance(x, (Array, Quantity)):
                collect_ids(x, out, depth + 1)


def depends_on_loop(v, s, own):
    """could the value differ between iterations?"""
    k = T.atom_of(s.k).id
    if id(v) in own:
        return True
    if isinstance(v, Sym):
        return any(k in l.fv() for _, l in tree_leaves(v.t) if isinstance(l, Rat)) or \
            any(k in c.fv() for p, _ in tree_leaves(v.t) for c in p)
    if isinstance(v, Quantity):
        return depends_on_loop(v.value, s, own)
    if isinstance(v, (int, float, str, bool, type(None))):
        return False
    if isinstance(v, (Array, SymBool)):
        return True
    return False


def _free_of(r, ids):
    return not (r.fv() & ids)


def tree_fv(t):
    s = set()
    if isinstance(t, Form):
        return set(t.fv()) | {Atom.byid[i].name for i in smt_names(t)}
    for p, l in tree_leaves(t):
        for c in p:
            s |= c.fv()
        if isinstance(l, Rat):
            s |= l.fv()
    return s


def smt_names(f):
    return form_atoms(f)


def tree_mentions(t, name):
    """does variable `name` (possibly indexed) occur in tree/form t"""
    import smt
    forms = []
    ids = set()
    if isinstance(t, Form):
        forms.append(t)
    else:
        for p, l in tree_leaves(t):
            forms += list(p)
            if isinstance(l, Rat):
                ids |= l.atoms()
    seen = set()
    todo = set(ids)
    for f in forms:
        todo |= form_atoms(f)
        if _form_batom(f, name):
            return True
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = Atom.byid[i]
        if a.kind == 'var' and a.name == name:
            return True
        for x in a.args:
            if isinstance(x, Rat):
                todo |= x.atoms()
            elif isinstance(x, Form):
                todo |= form_atoms(x)
                if _form_batom(x, name):
                    return True
            elif isinstance(x, tuple):
                pass
    return False


def _form_batom(f, name):
    if isinstance(f, BAtom):
        return f.name == name
    if isinstance(f, Not):
        return _form_batom(f.a, name)
    if isinstance(f, NAry):
        return any(_form_batom(x, name) for x in f.xs)
    return False


def arr_ph_name(fn, dims):
    v = fn(tuple(rat(0) for _ in dims))
    if isinstance(v, BAtom):
        return v.name
    a = T.atom_of(v)
    return a.name if a is not None else None


def gen_sum(s, body):
    """Sum over the segment's index of Rat body"""
    if s.filtered:
        # sum over a filtered subsequence: indicator of membership
        raise Unsupported('sum over a filtered sequence')
    n = s.n if s.n is not None else var(f'len:{s.src}', sign='nneg', isint=True)
    k = T.atom_of(s.k)
    if n.const() is None and 'SUM<' not in show(body):
        # the same sum as over an array of that length
        (p,) = V.generic_index((n,), '~')
        return V.sum_over([T.atom_of(p)], show(n), (n,), T.subst(body, {k.id: p}))
    return V.sum_over([k], f'seq:{s.src}', (n,), body)


def split_on(s):
    """did this path fix a condition on the generic index (so that `rep` no longer stands for every element)?"""
    k = T.atom_of(s.k).id
    return any(k in f.fv() for f in V.ctx().path)


def additive(init, ph, pf, val, s):
    """closed form of x' = x + delta(k), or None"""
    if split_on(s):
        return None
    if isinstance(ph, Sym):
        name = T.atom_of(ph.t).name
        if isinstance(val, Quantity) and isinstance(ph, ZSym):
            r = additive(init, ph, pf, val.value, s)
            return None if r is None else Quantity(r, val.unit)
        if not (isinstance(val, Sym) or isnum(val)):
            return None
        d = tmap(lambda a, b: l_add(a, l_neg(b)), tree_of(val), ph.t)
        if tree_mentions(d, name):
            return None
        body = tree_to_rat(d, 'loop accumulation')
        return V.mksym(tmap(l_add, tree_of(init), gen_sum(s, body)))
    if isinstance(ph, Quantity):
        if not isinstance(val, Quantity):
            return None
        v = val if val.unit == ph.unit else val.to(ph.unit)
        if isinstance(ph.value, Array):
            r = additive(init.value, ph.value, pf, v.value, s)
        else:
            r = additive(init.value, pf, None, v.value, s)
        return None if r is None else Quantity(r, ph.unit)
    if isinstance(ph, Array) and isinstance(val, Array) and val.kind == 'f':
        init0, v0 = V.snap(init), V.snap(val)
        p = V.generic_index(ph.dims)
        d = tmap(lambda a, b: l_add(a, l_neg(b)), v0.at(p), pf(p))
        nm = arr_ph_name(pf, ph.dims)
        if nm is None or tree_mentions(d, nm):
            return None

        def fn(ix):
            dd = tmap(lambda a, b: l_add(a, l_neg(b)), v0.at(ix), pf(ix))
            return tmap(l_add, init0.at(ix), gen_sum(s, tree_to_rat(dd, 'loop accumulation')))
        return Array(ph.dims, fn)
    return None


def pointwise(loop, init, ph, pf, val, s):
    """array stores at the loop's own index: arr[k] = v_k"""
    if isinstance(ph, Quantity):
        if val is not ph or not isinstance(ph.value, Array):
            return None
        r = pointwise(loop, init.value, ph.value, pf, ph.value, s)
        return None if r is None else Quantity(r, ph.unit)
    if not isinstance(ph, Array) or val is not ph:
        return None
    ws = [w for w in loop.writes if w[1] is ph]
    if not ws or any(w[0] != 'store' for w in ws):
        return None
    r = ws[0][2]
    if any(w[2] != r for w in ws):
        return None
    mask = None
    gis = [V.gi_of(x) for x in ([s.rep] + list(s.rep) if isinstance(s.rep, tuple) else [s.rep])]
    gis = [x for x in gis if x is not None]
    if gis:
        gi = gis[0]
        if tuple(gi.idx) != tuple(r):
            return None
        mask = gi.mask
    elif not (len(r) == 1 and r[0] == s.k):
        return None
    v = V.snap(ph).at(r)
    init0 = V.snap(init)
    if ph.kind == 'b':
        return None
    if tree_mentions(v, arr_ph_name(pf, ph.dims)):
        return None
    c = V.ctx()
    nm = c.fresh_name('stored')
    c.oblige('loop-stored element is a finite number', t_finite(v), 'loop')
    uniform = loop.uniform and not s.filtered and mask is None and not split_on(s)
    kid = T.atom_of(s.k).id if mask is None else None

    def fn(ix):
        if tuple(x.key for x in ix) == tuple(x.key for x in r):
            return v
        if uniform:
            return tree_subst(v, {kid: ix[0]})
        other = var(nm, *ix)
        if mask is not None:
            return mk_ite(mask.at(ix), other, init0.at(ix))
        return other
    a = Array(ph.dims, fn)
    a.meta['stored'] = nm
    return a


def t_finite(t):
    return mk_and(*[mk_or(*[mk_not(x) for x in p]) for p, l in tree_leaves(t) if isinstance(l, Special)])


# --------------------------------------------------------------------- VDict
class VDict:
    """dictionary under verification.

    items    concrete part: list of [key, value] (keys may be symbolic quantities / labels)
    gens     list of GenMap, older than items
    """

    def __init__(self, items=(), default=None):
        self.items_ = []
        self.gens = []
        self.default = default
        self.hav = None
        self.born = tuple(id(l) for l in V.ctx().loops)
        for k, v in items:
            self[k] = v

    def has_gen(self):
        return bool(self.gens)

    def __repr__(self):
        return f'VDict({self.items_!r},{self.gens!r})'

    @staticmethod
    def keq(a, b):
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Quantity) != isinstance(b, Quantity) or isinstance(a, (Label, str)) != isinstance(b, (Label, str)):
            if isinstance(a, (Label, str)) or isinstance(b, (Label, str)):
                return False
        try:
            return a == b
        except UnitConversionError:
            return False

    def _find(self, k):
        for e in reversed(self.items_):
            if bool(self.keq(e[0], k)):
                return e
        return None

    def _check_loop(self):
        extra = [l for l in V.ctx().loops if id(l) not in self.born]
        if extra and self.hav is None:
            raise Unsupported('dictionary updated inside a generic loop')

    def present(self, k):
        """SymBool/bool: key present in the generic part"""
        if self.hav is not None:
            return self.hav.present(k)
        if not self.gens:
            return False
        if any(g.at_index(k) is not None for g in self.gens):
            return True
        return SymBool(BAtom(f'present:{id(self)}', key_rats(k)))

    def gen_value(self, k):
        if len(self.gens) == 1 and self.gens[0].table:
            i = self.gens[0].at_index(k)
            if i is not None:
                return self.gens[0].val_at(i)
        tot = None
        for g in self.gens:
            v = g.value(k)
            tot = v if tot is None else tot + v
        return tot

    def __contains__(self, k):
        if self._find(k) is not None:
            return True
        return bool(self.present(k))

    def __getitem__(self, k):
        e = self._find(k)
        if e is not None:
            return e[1]
        if self.hav is not None:
            if bool(self.hav.present(k)):
                return self.hav.read(k)
            if self.default is not None:
                v = self.default()
                self.items_.append([k, v])
                self.hav.absent_read = True
                return v
            raise KeyError(k)
        if self.gens:
            if bool(self.present(k)):
                return self.gen_value(k)
            if any(g.table for g in self.gens):
                raise Unsupported('lookup of another key in a symbolic table')
            V.ctx().path.append(TRUE)
        if self.default is not None:
            v = self.default()
            self.items_.append([k, v])
            return v
        raise KeyError(k)

    def get(self, k, default=None):
        e = self._find(k)
        if e is not None:
            return e[1]
        if self.hav is not None:
            if isnum(default) and default == 0:
                # value 0 when absent: one symbolic read covers both cases
                return self.hav.read(k)
            if bool(self.hav.present(k)):
                return self.hav.read(k)
            return default
        if self.gens:
            if isnum(default) and default == 0 and all(g.additive for g in self.gens):
                return self.gen_value(k)
            if bool(self.present(k)):
                return self.gen_value(k)
        return default

    def __setitem__(self, k, v):
        self._check_loop()
        e = self._find(k)
        if e is not None:
            e[1] = v
        else:
            self.items_.append([k, v])

    def setdefault(self, k, d=None):
        self._check_loop()
        e = self._find(k)
        if e is not None:
            return e[1]
        if self.hav is not None:
            v = self.hav.read(k) if isnum(d) and d == 0 else None
            if v is None:
                raise Unsupported('setdefault with a non-zero default')
            self.items_.append([k, v])
            return v
        if self.gens:
            if isnum(d) and d == 0 and all(g.additive for g in self.gens):
                v = self.gen_value(k)
                self.items_.append([k, v])
                return v
            raise Unsupported('setdefault on a symbolic dictionary')
        self.items_.append([k, d])
        return d

    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def pop(self, k, *d):
        e = self._find(k)
        if e is not None and not self.gens:
            self.items_.remove(e)
            return e[1]
        raise Unsupported('pop from a symbolic dictionary')

    def __delitem__(self, k):
        self.pop(k)

    def __len__(self):
        if self.gens or self.hav:
            raise Unsupported('len of a symbolic dictionary')
        return len(self.items_)

    def __iter__(self):
        return iter(self.keys())

    def _view(self, f, gf):
        if self.hav is not None:
            raise Unsupported('view of a dictionary inside a generic loop')
        if self.gens:
            if self.items_ or len(self.gens) != 1 or not self.gens[0].table:
                raise Unsupported('iteration over a symbolic dictionary')
            g = self.gens[0]
            return GIter([Gen(g.s.n, g.s.k, gf(g), g.s.src)])
        return VList([f(e) for e in self.items_])

    def keys(self):
        return self._view(lambda e: e[0], lambda g: g.key)

    def values(self):
        return self._view(lambda e: e[1], lambda g: g.val)

    def items(self):
        return self._view(lambda e: (e[0], e[1]), lambda g: (g.key, g.val))

    def copy(self):
        d = VDict()
        d.items_ = [list(e) for e in self.items_]
        d.gens = list(self.gens)
        d.default = self.default
        return d

    def __eq__(self, o):
        raise Unsupported('comparison of dictionaries')

    __hash__ = object.__hash__

    # --- generic loop protocol
    def havoc(self, loop, name):
        d = VDict()
        d.default = self.default
        d.born = tuple(id(l) for l in V.ctx().loops)
        d.hav = HavDict(V.ctx().fresh_name(f'dict_{name}'))
        return d

    def finish(self, init, loop, s):
        """self: the placeholder after one generic iteration"""
        if not self.items_:
            return init
        if len(self.items_) != 1:
            raise Unsupported('several dictionary keys written per iteration')
        k, v = self.items_[0]
        rd = self.hav.reads
        out = init
        base = None
        for kk, sym in rd:
            if kk is k or VDict.keq(kk, k) is True:
                base = sym
        if base is not None:
            d = v - base
            nm = T.atom_of(tree_of(base)).name
            if tree_mentions(tree_of(d.value if isinstance(d, Quantity) else d), nm):
                raise Unsupported('dictionary recurrence not additive')
            out.gens.append(GenMap(s, k, d, True))
        elif self.hav.decided_absent(k):
            out.gens.append(GenMap(s, k, v, True))
        else:
            out.gens.append(GenMap(s, k, v, False))
        return out


class HavDict:
    def __init__(self, name):
        self.name = name
        self.reads = []
        self.pres = []
        self.absent_read = False

    def present(self, k):
        b = SymBool(BAtom(self.name + ':has', key_rats(k)))
        self.pres.append((k, b))
        return b

    def read(self, k):
        for kk, s in self.reads:
            if VDict.keq(kk, k) is True:
                return s
        s = Sym(var(self.name, *key_rats(k)))
        self.reads.append((k, s))
        return s

    def decided_absent(self, k):
        c = V.ctx()
        for kk, b in self.pres:
            if VDict.keq(kk, k) is True and c.decided.get(b.f.key) is False:
                return True
        return self.absent_read


def key_rats(k):
    if isinstance(k, Label):
        t = tree_of(k.value)
        if isinstance(t, Rat):
            return (t,)
        raise Unsupported('conditional key')
    if isinstance(k, Quantity):
        t = tree_of(k.value)
        if isinstance(t, Rat):
            return (t,)
        raise Unsupported('conditional key')
    if isinstance(k, (int, Sym)):
        t = tree_of(k)
        if isinstance(t, Rat):
            return (t,)
    raise Unsupported(f'symbolic dictionary key {type(k).__name__}')


class GenMap:
    """generic part of a dictionary: additive  val(K) = sum_k [key_k = K] delta_k,
    or a table with pairwise distinct keys"""

    def __init__(self, s, key, val, additive, table=False):
        self.s, self.key, self.val, self.additive, self.table = s, key, val, additive, table

    def at_index(self, K):
        """the index whose key is syntactically K, if it is that of a running generic loop"""
        try:
            a, b = key_rats(self.key), key_rats(K)
        except Unsupported:
            return None
        if isinstance(K, Label) != isinstance(self.key, Label) or self.s.filtered:
            return None
        if isinstance(K, Label) and (K.spec, K.unit) != (self.key.spec, self.key.unit):
            return None
        if isinstance(K, Quantity) and K.unit != self.key.unit:
            return None
        k = T.atom_of(self.s.k).id
        for l in V.ctx().loops:
            c = getattr(l, 'cur', None)
            if c is not None and not c.filtered and c.n is not None and self.s.n is not None and c.n == self.s.n:
                if tuple(T.subst(x, {k: c.k}) for x in a) == b:
                    return c.k
        return None

    def val_at(self, i):
        k = T.atom_of(self.s.k).id
        v = self.val
        sub = lambda t: t if i == self.s.k else T.tree_subst(t, {k: i})
        if isinstance(v, Quantity):
            return Quantity(V.mksym(sub(tree_of(v.value))), v.unit)
        return V.mksym(sub(tree_of(v)))

    def value(self, K):
        if not self.additive:
            raise Unsupported('lookup in an overwritten symbolic dictionary')
        eq = VDict.keq(self.key, K)
        f = V.as_form(eq)
        d = tree_to_rat(tree_of(self.val), 'dictionary value')
        return V.mksym(gen_sum(self.s, ind(f) * d))

    def total(self):
        d = tree_to_rat(tree_of(self.val), 'dictionary value')
        return V.mksym(gen_sum(self.s, d))

    def __repr__(self):
        return f'GenMap({self.key!r}: {self.val!r})'
