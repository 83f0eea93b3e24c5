"""C13  aging and cleaning of collections, adding features"""
from lib import *
from c11 import mk_spot
from c12 import mk_fac

SP = dict(cls='spots.SpotCollection', attr='spots', add='add_spot')
FA = dict(cls='faculae.FaculaCollection', attr='faculae', add='add_faculae')


def stub_age(P, c, which):
    """contract of StarSpot.age / Facula.age for the collection: it may give the feature any size and
    growing flag its law (C11/C12) allows -- what has stopped growing stays so and does not get larger --
    and touches nothing else; the call is recorded"""
    log = []
    mod, name, attr = ('spots', 'StarSpot', 'area_current') if which == 'spot' else ('faculae', 'Facula', 'radius')
    cls = getattr(getattr(P, mod), name)

    def age(self, time):
        log.append((self, si(time) if has_kind(time, U.s) else None))
        tag = self.__dict__['_tag']
        n = sum(1 for o, _ in log if o is self)
        x = var(f'size{n}' + tag[0], *tag[1], sign='nneg')
        self.__dict__['_new'] = x
        un = self.__dict__[attr].unit
        was, old = as_form(self.__dict__['is_growing']), si(self.__dict__[attr])
        c.assume(mk_or(was, mk_and(mk_not(BAtom(f'growing{n}' + tag[0], tag[1])), fle(x, old))))
        self.__dict__[attr] = Quantity(Sym(x / un.scale), un)
        g = BAtom(f'growing{n}' + tag[0], tag[1])
        self.__dict__['_grow'] = g
        self.is_growing = SymBool(g)
    c.patch.set(cls, 'age', age)
    return log


class Tagged:
    pass


def feature(P, c, which, tag, k=()):
    """a spot/facula in an arbitrary state; k: index when it is the generic element of a collection"""
    o = (P.spots.StarSpot if which == 'spot' else P.faculae.Facula)
    f = o.__new__(o)
    d = f.__dict__
    d['_tag'] = (tag, tuple(k))
    v = lambda n, s='any': var(n + tag, *k, sign=s)
    q = lambda n, base, s: Quantity(Sym(v(n, s) / base.scale), base)
    msh = P.config.MSH
    if which == 'spot':
        d['area_max'] = q('amax', msh, 'pos')
        d['area_current'] = q('acur', U.km ** 2, 'nneg')
        d['growth_rate'] = q('grate', U.day ** -1, 'nneg')
        d['decay_rate'] = q('drate', msh / U.day, 'nneg')
        d['coords'] = VDict([('lat', q('slat', U.rad, 'any')), ('lon', q('slon', U.rad, 'any'))])
    else:
        d['r_max'] = q('rmax', U.km, 'pos')
        d['radius'] = q('rcur', U.m, 'pos')
        d['lifetime'] = q('life', U.hr, 'pos')
        d['lat'], d['lon'] = q('flat', U.rad, 'any'), q('flon', U.rad, 'any')
    d['is_growing'] = SymBool(BAtom('growing' + tag, tuple(k)))
    d['gridmaker'] = None
    return f


def gone(which, f):
    """Form: the feature has to be dropped"""
    g = as_form(f.__dict__['is_growing'])
    if which == 'spot':
        return mk_and(mk_not(g), fle(si(f.__dict__['area_current']), RZERO))
    return mk_and(mk_not(g), fle(si(f.__dict__['radius']), tmap(lambda r: r / f_exp(rat(2)), si(f.__dict__['r_max']))))


def collection(P, c, which, kind, segs):
    cfg = SP if which == 'spot' else FA
    cls = P.spots.SpotCollection if which == 'spot' else P.faculae.FaculaCollection
    col = cls.__new__(cls)
    col.__dict__['gridmaker'] = mk_grid(P, c)
    col.__dict__[cfg['attr']] = SymSeq(segs, 'tuple') if kind == 'tuple' else VList(segs=segs)
    return col, cfg['attr']


def generic(P, c, which, tag):
    n = var('count' + tag, sign='nneg', isint=True)
    return mk_gen(n, lambda k: feature(P, c, which, tag, (k,)), tag)


for _w in ('spot', 'fac'):
    for _kind in ('tuple', 'list'):
        def _mk(w, kind):
            names = (['spots.SpotCollection.age', 'spots.SpotCollection.clean_spotlist'] if w == 'spot'
                     else ['faculae.FaculaCollection.age', 'faculae.FaculaCollection.clean_faclist'])

            def gen_age(P, c):
                log = stub_age(P, c, w)
                g = generic(P, c, w, 'g')
                c.assume(mk_cmp('>=', g.n - 1))
                col, attr = collection(P, c, w, kind, [g])
                t, TT = qty('t', U.s, 'nneg')
                ft = freeze(t)
                col.age(t)
                f = g.rep
                c.oblige('the generic feature is aged exactly once', TRUE if [o for o, _ in log] == [f] else FALSE)
                c.oblige('by exactly the given time', feq(log[0][1], TT) if log and log[0][1] is not None else FALSE)
                c.oblige('the time is not modified', frozen_eq(ft, freeze(t)), 'frame')
                segs = seq_of(col.__dict__[attr])
                ok = len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].src == g.src
                kept = ok and segs[0].inc and segs[0].rep is f
                dropped = len(segs) == 0 or (ok and not segs[0].inc)
                if not kept and not dropped:
                    raise Unsupported('shape of the cleaned collection')
                c.oblige('dropped exactly when not growing and used up', mk_iff(gone(w, f), TRUE if dropped else FALSE))
                c.oblige('size and growing flag are those left by aging', mk_and(feq(si(f.__dict__['area_current' if w == 'spot' else 'radius']), f.__dict__['_new']),
                                                                               mk_iff(as_form(f.is_growing), f.__dict__['_grow'])))
            unit('C13', f'{names[0]} keeps exactly the live features of any collection ({kind})', names)(gen_age)

            def few(n):
                def few_(P, c):
                    log = stub_age(P, c, w)
                    fs = [feature(P, c, w, f'f{i}') for i in range(n)]
                    col, attr = collection(P, c, w, kind, [('one', f) for f in fs])
                    t, TT = qty('t', U.s, 'nneg')
                    col.age(t)
                    c.oblige('every feature aged exactly once', TRUE if sorted(id(o) for o, _ in log) == sorted(id(f) for f in fs) else FALSE)
                    c.oblige('by exactly the given time', mk_and(*[feq(x, TT) if x is not None else FALSE for _, x in log]))
                    left = items(col.__dict__[attr])
                    for i, f in enumerate(fs):
                        c.oblige(f'feature {i} dropped exactly when used up', mk_iff(gone(w, f), FALSE if any(f is x for x in left) else TRUE))
                    c.oblige('same objects in the same order', TRUE if [id(x) for x in left] == [id(f) for f in fs if any(f is x for x in left)] else FALSE)
                return few_
            for n in (0, 1, 2, 3):
                unit('C13', f'{names[0]} on {n} features ({kind})', names, kind='instance of the contract')(few(n))
        _mk(_w, _kind)


def seq_of(x):
    if isinstance(x, SymSeq):
        return x.segs
    if isinstance(x, (tuple, list)):
        return [('one', v) for v in x]
    raise Unsupported('collection attribute')


def items(x):
    segs = seq_of(x)
    if any(isinstance(s, Gen) for s in segs):
        raise Unsupported('symbolic part in a concrete collection')
    return [s[1] for s in segs]


@unit('C13', 'Star.age ages both collections', ['star.Star.age', 'spots.SpotCollection.age', 'faculae.FaculaCollection.age'])
def star_age(P, c):
    ls, lf = stub_age(P, c, 'spot'), stub_age(P, c, 'fac')
    s, f = [feature(P, c, 'spot', f's{i}') for i in range(2)], [feature(P, c, 'fac', f'f{i}') for i in range(2)]
    star = P.star.Star.__new__(P.star.Star)
    star.__dict__['spots'] = cs = collection(P, c, 'spot', 'tuple', [('one', x) for x in s])[0]
    star.__dict__['faculae'] = cf = collection(P, c, 'fac', 'tuple', [('one', x) for x in f])[0]
    t, TT = qty('t', U.s, 'nneg')
    star.age(t)
    for log, fs, nm in ((ls, s, 'spot'), (lf, f, 'facula')):
        c.oblige(f'every {nm} aged exactly once', TRUE if sorted(id(o) for o, _ in log) == sorted(id(x) for x in fs) else FALSE)
        c.oblige(f'{nm}: by exactly the given time', mk_and(*[feq(x, TT) if x is not None else FALSE for _, x in log]))
    for fs, col, attr, w in ((s, cs, 'spots', 'spot'), (f, cf, 'faculae', 'fac')):
        left = items(col.__dict__[attr])
        for i, x in enumerate(fs):
            c.oblige(f'{attr} {i} dropped exactly when used up', mk_iff(gone(w, x), FALSE if any(x is y for y in left) else TRUE))
        c.oblige(f'{attr}: same objects in the same order', TRUE if [id(x) for x in left] == [id(y) for y in fs if any(y is x for x in left)] else FALSE)
    c.oblige('the collections stay', TRUE if star.spots is cs and star.faculae is cf else FALSE)


for _w in ('spot', 'fac'):
    for _old in ('tuple', 'list'):
        for _new in ('single', 'tuple', 'list'):
            def _mk(w, old, new):
                cfg = SP if w == 'spot' else FA
                fn = f"{cfg['cls']}.{cfg['add']}"

                def add(P, c):
                    g = generic(P, c, w, 'old')
                    first = feature(P, c, w, 'first')
                    col, attr = collection(P, c, w, old, [('one', first), g])
                    if w == 'spot':
                        c.patch.set(P.spots.StarSpot, 'set_gridmaker', lambda self, gm: self.__dict__.__setitem__('gridmaker', gm))
                    if new == 'single':
                        h = feature(P, c, w, 'new')
                        arg, want = h, [h]
                    else:
                        x, y = feature(P, c, w, 'new0'), feature(P, c, w, 'new1')
                        h = generic(P, c, w, 'new')
                        segs = [('one', x), h, ('one', y)]
                        arg = SymSeq(segs, 'tuple') if new == 'tuple' else VList(segs=list(segs))
                        want = [x, h.rep, y]
                    frs = [Frame(o, ('gridmaker', 'r')) for o in [first, g.rep] + want]
                    getattr(col, cfg['add'])(arg)
                    got = [s.rep if isinstance(s, Gen) else s[1] for s in seq_of(col.__dict__[attr])]
                    segs = seq_of(col.__dict__[attr])
                    if any(isinstance(s, Gen) and (not s.inc or s.filtered) for s in segs):
                        raise Unsupported('filtered')
                    c.oblige('old features followed by the new ones, in order', TRUE if [id(o) for o in got] == [id(o) for o in [first, g.rep] + want] else FALSE)
                    for fr in frs:
                        fr.check(c, 'adding')
                unit('C13', f'{fn} appends ({new} to {old})', [fn])(add)
            _mk(_w, _old, _new)


@unit('C13', 'Star.add_spot and Star.add_fac append to the collections of the star', ['star.Star.add_spot', 'star.Star.add_fac'])
def star_add(P, c):
    c.patch.set(P.spots.StarSpot, 'set_gridmaker', lambda self, gm: self.__dict__.__setitem__('gridmaker', gm))
    star = P.star.Star.__new__(P.star.Star)
    gs, gf = generic(P, c, 'spot', 'os'), generic(P, c, 'fac', 'of')
    star.__dict__['spots'] = cs = collection(P, c, 'spot', 'tuple', [gs])[0]
    star.__dict__['faculae'] = cf = collection(P, c, 'fac', 'tuple', [gf])[0]
    star.__dict__['gridmaker'] = cs.gridmaker
    s, f = feature(P, c, 'spot', 'ns'), feature(P, c, 'fac', 'nf')
    s2, f2 = feature(P, c, 'spot', 'ns2'), feature(P, c, 'fac', 'nf2')
    star.add_spot(s)
    star.add_spot(VList([s2]))
    star.add_fac(f)
    star.add_fac(VList([f2]))
    for col, attr, want in ((cs, 'spots', [gs.rep, s, s2]), (cf, 'faculae', [gf.rep, f, f2])):
        got = [x.rep if isinstance(x, Gen) else x[1] for x in seq_of(col.__dict__[attr])]
        c.oblige(f'{attr}: appended in order', TRUE if [id(o) for o in got] == [id(o) for o in want] else FALSE)
