"""C07  grids"""
from lib import *
from c14 import real_grid, KINDS

CG = 'coordinate_grid.'
RG, SP = CG + 'RectangularGrid.', CG + 'SpiralGrid.'
AREA = {'rect': [RG + '_area', RG + '_grid', RG + 'oned', CG + 'get_lat_points', CG + 'get_lon_points', CG + 'CoordinateGrid.area'],
        'spiral': [SP + '_area', SP + '_grid', SP + '_zeros', CG + 'CoordinateGrid.area']}


def counts(g, kind):
    return (tr(g.n_points),) if kind == 'spiral' else (tr(g.nlon), tr(g.nlat))


def is_nan(t):
    fs = [mk_and(*p) for p, l in tree_leaves(t) if isinstance(l, Special)]
    return mk_or(*fs) if fs else FALSE


def sum_atoms(t, out):
    for _p, l in tree_leaves(t):
        if isinstance(l, Rat):
            for i in smt_closure(l):
                a = Atom.byid[i]
                if a.kind == 'sum' and a not in out:
                    out.append(a)
    return out


def smt_closure(r):
    import smt
    return smt.closure([mk_cmp('=', r)])


def positive_sums(c, t, N):
    """finite sums of non-negative terms, one of them (second latitude, first elsewhere) positive, are positive"""
    for a in sum_atoms(t, []):
        bvs, body = a.args
        if not c.entails(fle(RZERO, body)):
            continue
        for first in (0, 1, 2):
            w = {b.id: rat(min(first, 1) if V.BOUND_DIM[b.id].key == N[-1].key else 0) if first < 2 else rat(0) for b in bvs}
            ok = all(c.entails(mk_cmp('<', w[b.id] - V.BOUND_DIM[b.id])) for b in bvs)
            if ok and c.entails(flt(RZERO, subst(body, w))):
                c.lemma('sum: the terms are non-negative', fle(RZERO, body))
                c.lemma('sum: one of the terms is positive', flt(RZERO, subst(body, w)))
                c.assume(mk_cmp('>', rat(a)))
                c.note('a finite sum of non-negative terms, one of them positive, is positive')
                break


for _kind in KINDS:
    def _mk(kind):
        def coords(P, c):
            g = real_grid(P, c, kind, '')
            fr = Frame(g)
            N = counts(g, kind)
            la, lo = g.grid()
            c.oblige('shape of the coordinates', mk_and(same_shape(la, N), same_shape(lo, N)))
            c.oblige('latitude and longitude are angles', TRUE if has_kind(la, U.rad) and has_kind(lo, U.rad) else FALSE)
            p = gp(N)
            LA, LO = at(la, p), at(lo, p)
            c.oblige('latitude in [-90,90] degrees', mk_and(fle(-PI / 2, LA), fle(LA, PI / 2)))
            c.oblige('longitude in [0,360) degrees', mk_and(fle(RZERO, LO), flt(LO, PI * 2)))
            if kind == 'spiral':
                i, n = p[0], N[0]
                # the sine of the latitude runs through the midpoints of n equal intervals, the longitude advances by the golden angle
                c.oblige('equal-area latitudes', feq(tmap(f_sin, LA), RONE - (i * 2 + 1) / n))
                phi = (RONE + f_sqrt(rat(5))) / 2
                turns = tmap(lambda l: l_mul(l_add(l, l_neg(PI * 2 * i / phi)), RONE / (PI * 2)), LO)
                c.oblige('golden-angle longitudes', feq(tmap(V.l_floor, turns), turns))
            else:
                j, i = p
                nlon, nlat = N
                c.oblige('evenly spaced latitudes from pole to pole', feq(LA, PI * i / (nlat - 1) - PI / 2))
                c.oblige('evenly spaced longitudes', feq(LO, PI * 2 * j / nlon))
                a, b = g.oned()
                c.oblige('one-dimensional coordinates', mk_and(same_shape(a, (nlat,)), same_shape(b, (nlon,))))
                c.oblige('latitudes of the rows', feq(at(a, (i,)), LA))
                c.oblige('longitudes of the columns', feq(at(b, (j,)), LO))
                c.oblige('spacings', mk_and(feq(si(g.dlat), PI / (nlat - 1)), feq(si(g.dlon), PI * 2 / nlon)))
            fr.check(c, 'grid')
        unit('C07', f'coordinates ({kind})', AREA[kind][1:-1] + ([RG + 'dlat', RG + 'dlon'] if kind == 'rect' else []) + [CG + 'CoordinateGrid.grid'])(coords)

        def zeros(P, c):
            g = real_grid(P, c, kind, '')
            N = counts(g, kind)
            p = gp(N)
            for dt in ('float32', 'float64', 'bool', None):
                z = g.zeros() if dt is None else g.zeros(dtype=dt)
                c.oblige(f'shape of a zero map ({dt})', same_shape(z, N))
                v = at(z, p)
                c.oblige(f'zero everywhere ({dt})', mk_not(v) if isinstance(v, Form) else feq(v, RZERO))
                c.oblige(f'type ({dt})', TRUE if (z.kind == 'b') == (dt == 'bool') else FALSE)
        unit('C07', f'zero maps ({kind})', [(SP if kind == 'spiral' else RG) + '_zeros', CG + 'CoordinateGrid.zeros'])(zeros)

        def area(P, c):
            g = real_grid(P, c, kind, '')
            fr = Frame(g)
            N = counts(g, kind)
            A = g.area
            c.oblige('shape of the areas', same_shape(A, N))
            la, lo = g.grid()
            p = gp(N)
            v = at(A, p)
            positive_sums(c, v, N)
            c.oblige('a number', mk_not(is_nan(v)))
            c.oblige('non-negative', fle(RZERO, v))
            q = tuple(var('other' + str(k), sign='nneg', isint=True) for k in range(len(N)))
            for x, n in zip(q, N):
                c.assume(mk_cmp('<=', x - n + 1))
            w = at(A, q)
            if kind == 'spiral':
                c.oblige('equal areas', feq(v, w))
            else:
                c.oblige('proportional to the cosine of the latitude', feq(tmap(lambda a, b: l_mul(a, f_cos(b)), v, at(la, q)), tmap(lambda a, b: l_mul(a, f_cos(b)), w, at(la, p))))
            c.oblige('add up to 1', feq(tr(NP.sum(A)), RONE))
            fr.check(c, 'grid')
        unit('C07', f'areas ({kind})', AREA[kind])(area)
    _mk(_kind)


# ------------------------------------------------------------------ construction and equality
@unit('C07', 'dispatch on the parameters', [CG + 'CoordinateGrid.new', RG + '__init__', SP + '__init__'])
def new(P, c):
    K = P.coordinate_grid
    n, a, b = num('n', 'pos', True), num('a', 'pos', True), num('b', 'pos', True)
    g = K.CoordinateGrid.new(n)
    c.oblige('an int gives a spiral', TRUE if type(g) is K.SpiralGrid else FALSE)
    if type(g) is K.SpiralGrid:
        c.oblige('with as many points', feq(tr(g.n_points), tr(n)))
    g = K.CoordinateGrid.new((a, b))
    c.oblige('a tuple gives a rectangular grid', TRUE if type(g) is K.RectangularGrid else FALSE)
    if type(g) is K.RectangularGrid:
        c.oblige('(latitude, longitude) counts', mk_and(feq(tr(g.nlat), tr(a)), feq(tr(g.nlon), tr(b))))


for _bad in ('list', 'text', 'none', 'real', 'realtuple'):
    def _mk(bad):
        def rej(P, c):
            a, b = num('a', 'pos', True), num('b', 'pos', True)
            x = dict(list=[a, b], text='100', none=None, real=1.5, realtuple=(a, 2.5))[bad]
            expect_raise(c, 'rejected', TypeError, lambda: P.coordinate_grid.CoordinateGrid.new(x))
        unit('C07', f'other parameters are rejected ({bad})', [CG + 'CoordinateGrid.new'], kind='instance of the contract')(rej)
    _mk(_bad)

for _k1 in KINDS:
    for _k2 in KINDS:
        def _mk(k1, k2):
            def eq(P, c):
                a, b = real_grid(P, c, k1, 'a'), real_grid(P, c, k2, 'b')
                r = (a == b)
                want = FALSE if k1 != k2 else mk_and(*[mk_cmp('=', x - y) for x, y in zip(counts(a, k1), counts(b, k2))])
                c.oblige('equal exactly with equal counts', mk_iff(form_of(r), want))
                r = (a != b)
                c.oblige('unequal otherwise', mk_iff(form_of(r), mk_not(want)))
            unit('C07', f'equality of grids ({k1}, {k2})', [(SP if k1 == 'spiral' else RG) + '__eq__'])(eq)
        _mk(_k1, _k2)


for _kind in KINDS:
    def _mk(kind):
        def alien(P, c):
            g = real_grid(P, c, kind, '')
            expect_raise(c, 'comparison with something else is an error', TypeError, lambda: g == 5)
        unit('C07', f'comparison with something else ({kind})', [(SP if kind == 'spiral' else RG) + '__eq__'], kind='instance of the contract')(alien)
    _mk(_kind)
