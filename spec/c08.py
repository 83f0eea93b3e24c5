"""C08  resampling"""
from lib import *
import smt


def walk(r, out=None):
    """ids of all atoms of a Rat, those below functions, indices and sums included"""
    out = set() if out is None else out
    for i in r.atoms():
        if i not in out:
            out.add(i)
            a = Atom.byid[i]
            for x in ((a.args[1],) if a.kind == 'sum' else a.args):
                if isinstance(x, Rat):
                    walk(x, out)
    return out


def smt_closure(r):
    return walk(r)


CG = 'coordinate_grid.'
RG, SP = CG + 'RectangularGrid.', CG + 'SpiralGrid.'
FNS = [SP + '_display_grid', CG + 'CoordinateGrid.display_grid', SP + '_grid', RG + 'oned', RG + '__init__']


def mu_contract(P, c):
    """contract of cos_angle_from_disk_center (C05, C06): an array of the shape of the grid holding the cosine of the
    angular distance, a function of the two directions with values in [-1, 1]"""
    c.families['mu'] = lambda *a: [mk_cmp('<=', var('mu', *a) - 1), mk_cmp('>=', var('mu', *a) + 1)]

    def cosang(self, lat0, lon0):
        la, lo = self.grid()
        if not has_kind(lat0, U.rad) or not has_kind(lon0, U.rad):
            raise Unsupported('angles')
        a, b = [V.tree_to_rat(si(x), 'angle') for x in (lat0, lon0)]
        A, B = si(la), si(lo)
        return Array(la.value.dims, lambda ix: tmap(lambda x, y: var('mu', a, b, x, y), A(ix), B(ix)))
    c.patch.set(P.coordinate_grid.CoordinateGrid, 'cos_angle_from_disk_center', c.ghost(cosang, 'mu'))


def keeps_unit(c, v, un):
    if not isinstance(v, Quantity):
        c.oblige('unit is preserved', FALSE)
        return False
    c.oblige('unit is preserved', mk_and(TRUE if v.unit.same_dims(un) else FALSE, mk_cmp('=', v.unit.scale - un.scale)))
    return True


def size():
    return Sym(var('nlat', sign='nneg', isint=True) + 2, True), num('nlon', 'pos', True)


def mk_data(c, N, kind, body):
    a = Array((N,), body)
    if kind == 'plain':
        return a, RONE, U.dimensionless_unscaled
    un = sunit('data', U.K)
    return Quantity(a, un), un.scale, un


def split(c, t, tag='d'):
    """a value that is linear in the data: (coefficient of the k-th datum, bound index, dimension)"""
    leaves = [l for p, l in tree_leaves(t) if not isinstance(l, Special)]
    if len(leaves) != 1 or not isinstance(leaves[0], Rat):
        raise Unsupported('resampled value by cases')
    r = leaves[0]
    for p, e in r.den:
        for i in smt_closure(Rat(p)):
            if Atom.byid[i].kind == 'var' and Atom.byid[i].name == tag:
                raise Unsupported('the data occur in the denominator')
    rest, out, bv, key = RZERO, RZERO, None, None
    D = Rat(PONE, r.den)
    for m, cf in r.num.d.items():
        hit = [(i, e) for i, e in m if any(Atom.byid[j].kind == 'var' and Atom.byid[j].name == tag for j in smt_closure(Rat(Poly({((i, 1),): F(1)}))))]
        if not hit:
            rest = rest + Rat(Poly({m: cf})) * D
            continue
        if len(hit) != 1 or hit[0][1] != 1 or Atom.byid[hit[0][0]].kind != 'sum':
            raise Unsupported('not linear in the data')
        s = Atom.byid[hit[0][0]]
        bvs, body = s.args
        if len(bvs) != 1 or (bv is not None and bvs[0] is not bv):
            raise Unsupported('sum over something else')
        bv, key = bvs[0], s.name
        dk = var(tag, rat(bv))
        w = body / dk
        if any(Atom.byid[j].kind == 'var' and Atom.byid[j].name == tag for j in smt_closure(w)):
            raise Unsupported('not linear in the data')
        other = tuple((i, e) for i, e in m if i != hit[0][0])
        out = out + Rat(Poly({other: cf})) * D * w
    if bv is None:
        raise Unsupported('the data do not occur')
    return out, rest, bv, key


for _kind in ('with a unit', 'plain'):
    def _mk(kind):
        def resample(P, c):
            mu_contract(P, c)
            n = num('n', 'pos', True)
            N = tr(n)
            g = P.coordinate_grid.SpiralGrid(n)
            fr = Frame(g)
            nlat, nlon = size()
            NLAT, NLON = tr(nlat), tr(nlon)
            lo_, hi_ = var('lo'), var('hi')
            c.families['d'] = lambda k: [mk_cmp('>=', var('d', k) - lo_), mk_cmp('<=', var('d', k) - hi_)]
            data, sc, un = mk_data(c, N, kind, lambda ix: var('d', *ix))
            fz = freeze(data)
            la, lo, v = g.display_grid(nlat, nlon, data)
            if not keeps_unit(c, v, un):
                return
            c.oblige('shape', same_shape(v, (NLON, NLAT)))
            c.oblige('the data are not changed', frozen_eq(fz, freeze(data)), 'frame')
            fr.check(c, 'grid')
            c.oblige('shape of the coordinates', mk_and(same_shape(la, (NLAT,)), same_shape(lo, (NLON,))))
            p = gp((NLON, NLAT))
            c.oblige('latitudes from pole to pole, in radians', feq(at(la, p[1:]), PI * p[1] / (NLAT - 1) - PI / 2))
            c.oblige('longitudes once around, in radians', feq(at(lo, p[:1]), PI * 2 * p[0] / NLON))
            val = at(v.value, p)
            for a in sums(val):
                bvs, body = a.args
                if c.entails(flt(RZERO, body)):
                    c.lemma('sum: the terms are positive', flt(RZERO, body))
                    c.assume(mk_cmp('>', rat(a)))
                    c.note('a sum of at least one term, all positive, is positive')
            c.oblige('a number', S.t_finite(val))
            w, rest, bv, key = split(c, val)
            c.oblige('nothing is added to the weighted data', mk_cmp('=', rest))
            c.oblige('every weight is positive', mk_cmp('>', w))
            k = rat(bv)
            sm = lambda f: V.sum_over([bv], key, (N,), f)
            c.oblige('the weights add up to 1', mk_cmp('=', sm(w) - 1))
            for nm, f in (('least', w * (var('d', k) - lo_)), ('greatest', w * (hi_ - var('d', k)))):
                c.lemma(f'weighted distance from the {nm} datum is non-negative', mk_cmp('>=', f))
                c.assume(mk_cmp('>=', sm(f)))
            c.note('a finite sum of non-negative terms is non-negative')
            c.oblige('not below the least datum', fle(lo_, val))
            c.oblige('not above the greatest datum', fle(val, hi_))
            # weights decrease with the angular distance
            glat, glon = g.grid()
            i, j = [var(x, sign='nneg', isint=True) for x in ('near', 'far')]
            for x in (i, j):
                c.assume(mk_cmp('<=', x - N + 1))
            m = [var('mu', at(glat, (x,)), at(glon, (x,)), at(la, p[1:]), at(lo, p[:1])) for x in (i, j)]
            wi, wj = [subst(w, {bv.id: x}) for x in (i, j)]
            a = [T.f_arccos(x) for x in m]
            c.lemma('the nearer point has the smaller angle', mk_implies(mk_cmp('>', m[0] - m[1]), mk_cmp('<', a[0] - a[1])))
            sq = lambda x, y: mk_implies(Cmp('<', x - y), mk_cmp('<', N * x * x / PI - N * y * y / PI))
            c.oblige('squares increase', sq(var('x_any', sign='nneg'), var('y_any', sign='nneg')), 'lemma')
            c.assume(sq(*a))
            # the weights are positive (above), so they are compared by their quotient
            c.oblige('the nearer of two points has the greater weight', mk_implies(mk_cmp('>', m[0] - m[1]), mk_cmp('<', wj / wi - 1)))
            c.oblige('points at the same distance have the same weight', mk_implies(mk_cmp('=', m[0] - m[1]), mk_cmp('=', wi - wj)))
        unit('C08', f'resampling is a weighted average (data {kind})', FNS)(resample)

        def const(P, c):
            mu_contract(P, c)
            n = num('n', 'pos', True)
            N = tr(n)
            g = P.coordinate_grid.SpiralGrid(n)
            nlat, nlon = size()
            K = var('K')
            data, sc, un = mk_data(c, N, kind, lambda ix: K)
            la, lo, v = g.display_grid(nlat, nlon, data)
            if not keeps_unit(c, v, un):
                return
            p = gp((tr(nlon), tr(nlat)))
            val = at(v.value, p)
            for a in sums(val):
                if c.entails(flt(RZERO, a.args[1])):
                    c.lemma('sum: the terms are positive', flt(RZERO, a.args[1]))
                    c.assume(mk_cmp('>', rat(a)))
            c.oblige('a constant map stays constant', feq(val, K))
        unit('C08', f'a constant map stays constant (data {kind})', FNS)(const)

        def rect(P, c):
            nlat, nlon = size()
            NLAT, NLON = tr(nlat), tr(nlon)
            g = P.coordinate_grid.RectangularGrid(nlat, nlon)
            a = Array((NLON, NLAT), lambda ix: var('d', *ix))
            un = sunit('data', U.K) if kind != 'plain' else U.dimensionless_unscaled
            data = Quantity(a, un) if kind != 'plain' else a
            fz = freeze(data)
            la, lo, v = g.display_grid(nlat, nlon, data)
            if not keeps_unit(c, v, un):
                return
            c.oblige('shape', same_shape(v, (NLON, NLAT)))
            p = gp((NLON, NLAT))
            c.oblige('data unchanged', feq(at(v.value, p), var('d', *p)))
            c.oblige('the given data are not changed', frozen_eq(fz, freeze(data)), 'frame')
            c.oblige('shape of the coordinates', mk_and(same_shape(la, (NLAT,)), same_shape(lo, (NLON,))))
            c.oblige('latitudes of the grid', feq(at(la, p[1:]), PI * p[1] / (NLAT - 1) - PI / 2))
            c.oblige('longitudes of the grid', feq(at(lo, p[:1]), PI * 2 * p[0] / NLON))
        unit('C08', f'rectangular data come back unchanged (data {kind})', [RG + '_display_grid', CG + 'CoordinateGrid.display_grid', RG + 'oned'])(rect)
    _mk(_kind)


def sums(t):
    out = []
    for _p, l in tree_leaves(t):
        ids = smt.closure(list(_p) + ([mk_cmp('=', l)] if isinstance(l, Rat) else []))
        if True:
            for i in sorted(ids):
                a = Atom.byid[i]
                if a.kind == 'sum' and a not in out:
                    out.append(a)
    return out


for _nm, _bad in (('another number of longitudes', lambda a, b: (var('other', sign='pos', isint=True), a)), ('another number of latitudes', lambda a, b: (b, var('other', sign='pos', isint=True))),
                  ('one dimension', lambda a, b: (a * b,)), ('three dimensions', lambda a, b: (b, a, RONE))):
    def _mk(nm, bad):
        def rej(P, c):
            nlat, nlon = size()
            g = P.coordinate_grid.RectangularGrid(nlat, nlon)
            dims = bad(tr(nlat), tr(nlon))
            if len(dims) == 2:
                c.assume(mk_or(mk_cmp('!=', dims[0] - tr(nlon)), mk_cmp('!=', dims[1] - tr(nlat))))
            expect_raise(c, 'error', (TypeError, ValueError), lambda: g.display_grid(nlat, nlon, Array(dims, lambda ix: RONE)))
        unit('C08', f'rectangular data of another shape are rejected ({nm})', [RG + '_display_grid'])(rej)
    _mk(_nm, _bad)

for _nm, _bad in (('another number of points', lambda n: (var('other', sign='pos', isint=True),)), ('two dimensions', lambda n: (n, RONE))):
    def _mk(nm, bad):
        def rej(P, c):
            mu_contract(P, c)
            nlat, nlon = size()
            n = num('n', 'pos', True)
            dims = bad(tr(n))
            if len(dims) == 1:
                c.assume(mk_cmp('!=', dims[0] - tr(n)))
            g = P.coordinate_grid.SpiralGrid(n)
            expect_raise(c, 'error', (TypeError, ValueError), lambda: g.display_grid(nlat, nlon, Array(dims, lambda ix: RONE)))
        unit('C08', f'spiral data of another shape are rejected ({nm})', [SP + '_display_grid'])(rej)
    _mk(_nm, _bad)
