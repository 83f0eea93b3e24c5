"""C10  surface map of a collection of spots"""
from lib import *
from c13 import seq_of

CLS = 'spots.SpotCollection'


def mk(P, c, grid, tag, k=()):
    """a spot with arbitrary footprint distances, any state; umbra no hotter than penumbra"""
    st = grid.__dict__['_stub']
    S_ = P.spots.StarSpot
    f = S_.__new__(S_)
    v = lambda n, s='any': var(n + tag, *k, sign=s)
    q = lambda n, base, s: Quantity(Sym(v(n, s) / base.scale), base)
    d = f.__dict__
    d['area_max'] = q('amax', U.km ** 2, 'pos')
    d['area_current'] = q('acur', U.km ** 2, 'nneg')
    d['teff_umbra'] = q('tu', U.K, 'pos')
    d['teff_penumbra'] = q('tp', U.K, 'pos')
    d['total_area_over_umbra_area'] = Sym(v('ratio', 'pos'))
    d['is_growing'] = SymBool(BAtom('grow' + tag, tuple(k)))
    d['gridmaker'] = grid
    d['r'] = Quantity(Array(st.dims, lambda ix: var('dist' + tag, *k, *ix, sign='nneg')), U.rad)
    d['coords'] = VDict([('lat', q('slat', U.rad, 'any')), ('lon', q('slon', U.rad, 'any'))])
    c.families['tu' + tag] = lambda *ix: [mk_cmp('<=', var('tu' + tag, *ix, sign='pos') - var('tp' + tag, *ix, sign='pos'))]
    c.families['ratio' + tag] = lambda *ix: [mk_cmp('>=', var('ratio' + tag, *ix, sign='pos') - 1)]
    # contract of the cap radius (C09): some angle
    return f


def stub_radius(P, c):
    rad = {}

    def angular_radius(self, star_rad):
        a = self.__dict__['area_current']
        nm = T.atom_of(a.value.t * a.unit.scale) if isinstance(a.value.t, Rat) else None
        if nm is None:
            raise Unsupported('area of the spot')
        return Quantity(Sym(var('capradius', rat(nm), sign='nneg')), U.rad)
    c.patch.set(P.spots.StarSpot, 'angular_radius', angular_radius)


def contrib(spot, R, p):
    """temperature of the coolest region of the spot that contains pixel p, +inf outside (footprint: C09)"""
    d = spot.map_pixels(R)
    pen, umb = form_of(at(d[spot.teff_penumbra], p)), form_of(at(d[spot.teff_umbra], p))
    TP, TU = si(spot.teff_penumbra), si(spot.teff_umbra)
    # with equal temperatures the single mask is both regions
    return tmap(lambda x: x, mk_ite(umb, TU, mk_ite(pen, TP, PINF)))


def mk_ite(f, a, b):
    if f == TRUE:
        return a
    if f == FALSE:
        return b
    return Ite(f, a, b)


def coll(P, c, grid, segs, kind='tuple'):
    C = P.spots.SpotCollection
    col = C.__new__(C)
    col.__dict__['gridmaker'] = grid
    col.__dict__['spots'] = SymSeq(segs, 'tuple') if kind == 'tuple' else VList(segs=segs)
    return col


for _n in (0, 1, 2):
    for _two in (False, True):
        def _mk(n, two):
            def few(P, c):
                stub_radius(P, c)
                g = mk_grid(P, c, two_d=two)
                st = g.__dict__['_stub']
                sp = [mk(P, c, g, f's{i}') for i in range(n)]
                col = coll(P, c, g, [('one', s) for s in sp])
                R, _ = qty('rstar', U.m, 'pos')
                TS, T0 = qty('tstar', U.K, 'pos')
                frs = [Frame(s) for s in sp]
                ft = freeze(TS)
                m = col.map_pixels(R, TS)
                p = gp(st)
                want = T0
                for s in sp:
                    want = pick(c, tmin(want, pick(c, contrib(s, R, p))))
                c.oblige('a temperature map', TRUE if has_kind(m, U.K) else FALSE)
                c.oblige('shape of the grid', same_shape(m, st.dims))
                c.oblige('minimum of photosphere and all regions containing the pixel', feq(pick(c, at(m, p)), pick(c, want)))
                for i, f in enumerate(frs):
                    f.check(c, f'map_pixels: spot {i}')
                c.oblige('photosphere temperature not modified', frozen_eq(ft, freeze(TS)), 'frame')
                c.oblige('the collection still holds the same spots', TRUE if [x[1] for x in seq_of(col.__dict__['spots'])] == sp else FALSE, 'frame')
            unit('C10', f"map_pixels of {n} spots is the pixelwise minimum ({'two' if two else 'one'}-dimensional grid)", [CLS + '.map_pixels', 'spots.StarSpot.map_pixels'], kind='instance of the contract')(few)

            def cover(P, c):
                stub_radius(P, c)
                g = mk_grid(P, c, two_d=two)
                st = g.__dict__['_stub']
                sp = [mk(P, c, g, f's{i}') for i in range(n)]
                col = coll(P, c, g, [('one', s) for s in sp])
                R, _ = qty('rstar', U.m, 'pos')
                frs = [Frame(s) for s in sp]
                p = gp(st)
                area = Array(st.dims, lambda ix: var('garea', *ix, sign='nneg'))
                tot = V.a_sum(area)
                c.assume(mk_cmp('>', tree_of(tot)))       # the grid has a positive area (C07)
                cov = col.get_coverage(R)
                ind = []
                for s in sp:
                    d = s.map_pixels(R)
                    ind.append((V.snap(d[s.teff_penumbra]), V.snap(d[s.teff_umbra])))

                def inside(ix):
                    return mk_or(FALSE, *[mk_or(form_of(a.at(ix)), form_of(b.at(ix))) for a, b in ind])
                want = V.a_sum(Array(st.dims, lambda ix: V.tree_to_rat(mk_ite(inside(ix), var('garea', *ix, sign='nneg'), RZERO))))
                t = tr(cov.value if isinstance(cov, Quantity) else cov)
                c.oblige('share of the area inside any spot', feq(tmap(lambda z: l_mul(z, tree_of(tot)), t), tr(want)))
                for i, f in enumerate(frs):
                    f.check(c, f'get_coverage: spot {i}')
            unit('C10', f"get_coverage of {n} spots is the area share of the covered pixels ({'two' if two else 'one'}-dimensional grid)", [CLS + '.get_coverage', CLS + '.map_pixels'], kind='instance of the contract')(cover)
        _mk(_n, _two)


class MinFold:
    """loop invariant of map_pixels: after j spots the map is min(photosphere, f_0 .. f_{j-1}) at every pixel.
    Checked: base (initial map) and step (new map = min(old map, f_k)) for a generic spot k and pixel p."""

    def __init__(self, c, gen, R, T0, dims):
        self.c, self.gen, self.R, self.T0, self.dims = c, gen, R, T0, dims
        self.used = 0
        c.ghosts['MINFOLD'] = False

    def __call__(self, loop, name, init, ph, pf, val, s):
        c = self.c
        if not (isinstance(ph, Quantity) and isinstance(ph.value, Array) and isinstance(val, Quantity) and isinstance(val.value, Array)):
            return None
        if s.src != self.gen.src or len(val.value.dims) != len(self.dims):
            return None
        p = gp(self.dims)
        old, new, ini = at(Quantity(Array(self.dims, pf), ph.unit), p), at(val, p), at(init, p)
        fk = contrib(self.gen.rep, self.R, p)
        base, step = feq(ini, self.T0), feq(new, tmin(old, fk))
        if not (c.entails(base) and c.entails(step)):
            return None
        c.oblige(f'loop invariant of {name}: base', base, 'inv')
        c.oblige(f'loop invariant of {name}: step', step, 'inv')
        self.used += 1
        c.ghosts['MINFOLD'] = True
        return Quantity(Array(self.dims, lambda ix: var('MINFOLD', *ix)), U.K)


@unit('C10', 'map_pixels of any number of spots is the pixelwise minimum', [CLS + '.map_pixels', 'spots.StarSpot.map_pixels'])
def many(P, c):
    stub_radius(P, c)
    g = mk_grid(P, c)
    st = g.__dict__['_stub']
    n = var('nspots', sign='nneg', isint=True)
    gen = mk_gen(n, lambda k: mk(P, c, g, 'k', (k,)), 'spots')
    col = coll(P, c, g, [gen])
    R, _ = qty('rstar', U.m, 'pos')
    TS, T0 = qty('tstar', U.K, 'pos')
    mf = MinFold(c, gen, R, T0, st.dims)
    c.fold_specs.append(mf)
    fr = Frame(gen.rep)
    m = col.map_pixels(R, TS)
    p = gp(st)
    if c.entails(mk_cmp('<', n - 1)):
        c.oblige('no spots: the photosphere', feq(at(m, p), T0))
        return
    c.oblige('a temperature map', TRUE if has_kind(m, U.K) else FALSE)
    c.oblige('shape of the grid', same_shape(m, st.dims))
    c.oblige('the result is the pixelwise minimum (value of the loop invariant at the end)', feq(at(m, p), var('MINFOLD', *p)))
    fr.check(c, 'map_pixels: any spot')


@unit('C10', 'get_coverage is the area share of the covered pixels for any number of spots', [CLS + '.get_coverage'])
def coverage(P, c):
    g = mk_grid(P, c)
    st = g.__dict__['_stub']
    n = var('nspots', sign='nneg', isint=True)
    gen = mk_gen(n, lambda k: mk(P, c, g, 'k', (k,)), 'spots')
    col = coll(P, c, g, [gen])
    R, _ = qty('rstar', U.m, 'pos')

    def map_pixels(self, star_rad, star_teff):
        # contract of map_pixels (unit above): min of star_teff and the regions; COVERED(p): some region contains p
        t = si(star_teff)
        return Quantity(Array(st.dims, lambda ix: mk_ite(BAtom('COVERED', ix), tmin(t, var('COOLEST', *ix, sign='pos')), t)), U.K)
    c.patch.set(P.spots.SpotCollection, 'map_pixels', c.ghost(map_pixels, 'COVERED', 'COOLEST'))
    tot = V.a_sum(Array(st.dims, lambda ix: var('garea', *ix, sign='nneg')))
    c.assume(mk_cmp('>', tree_of(tot)))
    fr = Frame(gen.rep)
    cov = col.get_coverage(R)
    t = tr(cov.value if isinstance(cov, Quantity) else cov)
    s = lambda f: tree_of(V.a_sum(Array(st.dims, lambda ix: V.tree_to_rat(mk_ite(f(ix), var('garea', *ix, sign='nneg'), RZERO)))))
    share, rest = s(lambda ix: BAtom('COVERED', ix)), s(lambda ix: mk_not(BAtom('COVERED', ix)))
    # sums of non-negative terms are non-negative and the two parts add up to the whole
    c.lemma('covered and uncovered area add up', feq(share + rest, tree_of(tot)))
    c.lemma('both parts are non-negative', mk_and(fle(RZERO, share), fle(RZERO, rest)))
    c.oblige('share of the area inside any spot', feq(tmap(lambda z: l_mul(z, tree_of(tot)), t), share))
    c.oblige('between 0 and 1', mk_and(fle(RZERO, t), fle(t, RONE)))
    fr.check(c, 'get_coverage: any spot')


@unit('C10', 'Star.map is the map of its spots over its own photosphere', ['star.Star.map'])
def star_map(P, c):
    stub_radius(P, c)
    g = mk_grid(P, c)
    st = g.__dict__['_stub']
    sp = [mk(P, c, g, 's0'), mk(P, c, g, 's1')]
    R, _ = qty('rstar', U.m, 'pos')
    TS, T0 = qty('tstar', U.K, 'pos')
    star = P.star.Star.__new__(P.star.Star)
    star.__dict__.update(spots=coll(P, c, g, [('one', s) for s in sp]), radius=R, teff=TS, gridmaker=g)
    m = star.map
    p = gp(st)
    want = T0
    for s in sp:
        want = pick(c, tmin(want, pick(c, contrib(s, R, p))))
    c.oblige('minimum of photosphere and all regions containing the pixel', feq(pick(c, at(m, p)), pick(c, want)))
