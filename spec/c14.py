"""C14  every feature lives on the grid of its star / collection"""
from lib import *
from c17 import mk_spotgen, mk_facgen
from c13 import feature, generic, collection, seq_of


def nl(tag):
    # at least three latitudes
    return Sym(var('nlat' + tag, sign='nneg', isint=True) + 3, True)


def real_grid(P, c, kind, tag):
    if kind == 'spiral':
        return P.coordinate_grid.SpiralGrid(num('npt' + tag, 'pos', True))
    return P.coordinate_grid.RectangularGrid(nl(tag), num('nlon' + tag, 'pos', True))


def params(P, kind, tag):
    return num('npt' + tag, 'pos', True) if kind == 'spiral' else (nl(tag), num('nlon' + tag, 'pos', True))


def on(P, f, grid):
    """puts a feature on a grid (its footprint distances included), by its own code"""
    if type(f) is P.spots.StarSpot:
        P.spots.StarSpot.set_gridmaker(f, grid)
    else:
        f.gridmaker = grid
    return f


def same_grid(P, a, b):
    """Form: equal grids (same kind, same counts)"""
    if a is b:
        return TRUE
    R, Sp = P.coordinate_grid.RectangularGrid, P.coordinate_grid.SpiralGrid
    if isinstance(a, R) and isinstance(b, R):
        return mk_and(feq(tr(a.nlat), tr(b.nlat)), feq(tr(a.nlon), tr(b.nlon)))
    if isinstance(a, Sp) and isinstance(b, Sp):
        return feq(tr(a.n_points), tr(b.n_points))
    return FALSE


def lives_on(P, c, f, grid, what):
    sg = same_grid(P, f.gridmaker, grid)
    c.oblige(f'{what} uses the grid', sg)
    if sg != FALSE and c.entails(sg):
        grid = f.gridmaker      # an equal grid has the same coordinates (they are a function of kind and counts, C07)
    # distances of the grid: those of a feature that was created on it
    if type(f) is P.spots.StarSpot:
        ref = P.spots.StarSpot.__new__(P.spots.StarSpot)
        ref.__dict__['coords'] = f.__dict__['coords']
        P.spots.StarSpot.set_gridmaker(ref, grid)
        want, got = ref.__dict__['r'], f.__dict__['r']
    else:
        ref = P.faculae.Facula.__new__(P.faculae.Facula)
        ref.__dict__.update(lat=f.lat, lon=f.lon, gridmaker=grid)
        want, got = ref._r, f._r
    dims = want.value.dims
    c.oblige(f'{what}: distances have the shape of the grid', same_shape(got, dims))
    if isinstance(got, Quantity) and isinstance(got.value, Array) and len(got.value.dims) == len(dims):
        p = gp(dims)
        c.oblige(f'{what}: distances are those of the grid', same(at(got, p), at(want, p)))


KINDS = ('spiral', 'rect')


for _w in ('spot', 'fac'):
    for _k1 in KINDS:
        for _k2 in KINDS:
            def _mk(w, k1, k2):
                cls = 'spots.SpotCollection' if w == 'spot' else 'faculae.FaculaCollection'

                def setg(P, c):
                    old, new = real_grid(P, c, k1, 'o'), real_grid(P, c, k2, 'n')
                    g = generic(P, c, w, 'g')
                    c.assume(mk_cmp('>=', g.n - 1))
                    on(P, g.rep, old)
                    one = on(P, feature(P, c, w, 'one'), old)
                    col, attr = collection(P, c, w, 'tuple', [g, ('one', one)])
                    col.__dict__['gridmaker'] = old
                    col.set_gridmaker(new)
                    c.oblige('the collection uses the new grid', same_grid(P, col.gridmaker, new))
                    lives_on(P, c, g.rep, new, 'any feature')
                    lives_on(P, c, one, new, 'a feature')
                unit('C14', f'{cls}.set_gridmaker moves every feature ({k1} to {k2})', [cls + '.set_gridmaker', 'spots.StarSpot.set_gridmaker' if w == 'spot' else 'faculae.Facula._r'])(setg)

                def add(P, c):
                    old, new = real_grid(P, c, k1, 'o'), real_grid(P, c, k2, 'n')
                    col, attr = collection(P, c, w, 'tuple', [])
                    col.__dict__['gridmaker'] = new
                    g = generic(P, c, w, 'g')
                    c.assume(mk_cmp('>=', g.n - 1))
                    on(P, g.rep, old)
                    f = on(P, feature(P, c, w, 'single'), old)
                    ad = col.add_spot if w == 'spot' else col.add_faculae
                    ad(f)
                    ad(SymSeq([g], 'tuple'))
                    lives_on(P, c, f, new, 'an added feature')
                    lives_on(P, c, g.rep, new, 'any of several added features')
                    c.oblige('the collection keeps its grid', is_(col.gridmaker, new))
                unit('C14', f'{cls}: added features move to its grid ({k1} to {k2})', [cls + ('.add_spot' if w == 'spot' else '.add_faculae')])(add)

                def ctor(P, c):
                    old, new = real_grid(P, c, k1, 'o'), real_grid(P, c, k2, 'n')
                    f, h = [on(P, feature(P, c, w, t), old) for t in ('a', 'b')]
                    C = P.spots.SpotCollection if w == 'spot' else P.faculae.FaculaCollection
                    col = C(f, h, gridmaker=new)
                    c.oblige('the collection uses the given grid', same_grid(P, col.gridmaker, new))
                    lives_on(P, c, f, new, 'first')
                    lives_on(P, c, h, new, 'second')
                    col = C(f, h, grid_params=params(P, k1, 'q'))
                    q = real_grid(P, c, k1, 'q')
                    c.oblige('the collection builds its grid from grid_params', same_grid(P, col.gridmaker, q))
                    lives_on(P, c, f, q, 'first')
                    lives_on(P, c, h, q, 'second')
                unit('C14', f'{cls}: constructor ({k1} to {k2})', [cls + '.__init__'])(ctor)
            _mk(_w, _k1, _k2)


def mk_star(P, c, kind, old, gens=True, nspots=1):
    """a star through its real constructor, from collections with arbitrary features on another grid"""
    gs, gf = generic(P, c, 'spot', 'gs'), generic(P, c, 'fac', 'gf')
    c.assume(mk_and(mk_cmp('>=', gs.n - 1), mk_cmp('>=', gf.n - 1)))
    on(P, gs.rep, old)
    on(P, gf.rep, old)
    cs, cf = collection(P, c, 'spot', 'tuple', [gs])[0], collection(P, c, 'fac', 'tuple', [gf])[0]
    cs.__dict__['gridmaker'] = cf.__dict__['gridmaker'] = old
    kw = {}
    rng = NP.Generator('rng')
    if gens:
        SG = mk_spotgen(P, c, grid=old, rng=rng, anyunit=False)[0]
        FG = mk_facgen(P, c, grid=old, rng=rng, anyunit=False)[0]
        kw = dict(spot_generator=SG, fac_generator=FG)
    T, _ = qty('Tstar', U.K, 'pos', False)
    Rs, _ = qty('Rstar', U.m, 'pos')
    per, _ = qty('Pstar', U.s, 'pos')
    star = P.star.Star(T, Rs, per, cs, cf, grid_params=params(P, kind, 'n'), rng=rng, **kw)
    return star, gs.rep, gf.rep


for _k1 in KINDS:
    for _k2 in KINDS:
        for _gens in (True, False):
            def _mk(k1, k2, gens):
                def ctor(P, c):
                    old, new = real_grid(P, c, k1, 'o'), real_grid(P, c, k2, 'n')
                    star, s, f = mk_star(P, c, k2, old, gens)
                    c.oblige('the star has the requested grid', same_grid(P, star.gridmaker, new))
                    for x, nm in ((star.spots, 'spot collection'), (star.faculae, 'facula collection'), (star.spot_generator, 'spot generator'), (star.fac_generator, 'facula generator')):
                        c.oblige(f'the {nm} uses it', same_grid(P, x.gridmaker, star.gridmaker))
                    lives_on(P, c, s, star.gridmaker, 'any spot')
                    lives_on(P, c, f, star.gridmaker, 'any facula')
                unit('C14', f'Star.__init__ ({k1} to {k2}, {"given" if gens else "default"} generators)', ['star.Star.__init__', 'star.Star.set_spot_grid', 'star.Star.set_fac_grid'])(ctor)
            _mk(_k1, _k2, _gens)


def births(P, c, star, other):
    """contract of the generators: they return any number of features, on whatever grid they hold"""
    gs, gf, gm = generic(P, c, 'spot', 'bs'), generic(P, c, 'fac', 'bf'), generic(P, c, 'spot', 'ms')
    for g in (gs, gf, gm):
        c.assume(mk_cmp('>=', g.n - 1))
        on(P, g.rep, other)
    log = []

    def rec(nm, seq):
        def f(self, *a, **k):
            log.append((nm, self, a, k))
            return seq
        return f
    c.patch.set(P.spots.SpotGenerator, 'birth_spots', rec('birth_spots', SymSeq([gs], 'tuple')))
    c.patch.set(P.faculae.FaculaGenerator, 'birth_faculae', rec('birth_faculae', SymSeq([gf], 'tuple')))
    c.patch.set(P.spots.SpotGenerator, 'generate_mature_spots', rec('mature', VList(segs=[gm])))
    return log, gs.rep, gf.rep, gm.rep


for _k1 in KINDS:
    for _k2 in KINDS:
        def _mk(k1, k2):
            def ops(P, c):
                old, new = real_grid(P, c, k1, 'o'), real_grid(P, c, k2, 'n')
                star, s, f = mk_star(P, c, k2, old)
                log, bs, bf, ms = births(P, c, star, old)
                t, _ = qty('t', U.s, 'nneg')
                star.birth_spots(t)
                star.birth_faculae(t)
                star.generate_mature_spots(num('cov', 'nneg'))
                xs, xf = on(P, feature(P, c, 'spot', 'xs'), old), on(P, feature(P, c, 'fac', 'xf'), old)
                star.add_spot(xs)
                star.add_fac(xf)
                c.oblige('born and matured features are added to the star', TRUE if {n for n, *_ in log} == {'birth_spots', 'birth_faculae', 'mature'} and len(log) == 3 and
                         [id(x) for x in reps(star.spots.spots)] == [id(x) for x in (s, bs, ms, xs)] and [id(x) for x in reps(star.faculae.faculae)] == [id(x) for x in (f, bf, xf)] else FALSE)
                for x, nm in ((s, 'old spot'), (bs, 'born spot'), (ms, 'mature spot'), (xs, 'added spot'), (f, 'old facula'), (bf, 'born facula'), (xf, 'added facula')):
                    lives_on(P, c, x, star.gridmaker, nm)
                c.oblige('generators still use it', mk_and(same_grid(P, star.spot_generator.gridmaker, star.gridmaker), same_grid(P, star.fac_generator.gridmaker, star.gridmaker)))
            unit('C14', f'adding, birthing and maturing features keeps them on the grid of the star ({k1} to {k2})',
                 ['star.Star.birth_spots', 'star.Star.birth_faculae', 'star.Star.generate_mature_spots', 'star.Star.add_spot', 'star.Star.add_fac'])(ops)
        _mk(_k1, _k2)


def reps(x):
    return [s.rep if isinstance(s, Gen) else s[1] for s in seq_of(x)]
