"""C06  great-circle distances"""
from lib import *
from c12 import mk_fac
from c11 import mk_spot


def is_angle(c, name, q, t, mu):
    c.oblige(f'{name}: is an angle', TRUE if has_kind(q, U.rad) else FALSE)
    c.oblige(f'{name}: finite', finite(t))
    c.oblige(f'{name}: its cosine is that of the angle between the unit vectors', t_cmp('=', tmap(V.l_cos, t), mu))
    c.oblige(f'{name}: at least 0', fle(RZERO, t))
    c.oblige(f'{name}: at most 180 degrees', fle(t, PI))


@unit('C06', 'get_angle_between is the great-circle distance', ['helpers.get_angle_between'])
def gab(P, c):
    q = [angle(n) for n in ('lat1', 'lon1', 'lat2', 'lon2')]
    a = P.helpers.get_angle_between(*[x[0] for x in q])
    x = [v for _, v in q]
    is_angle(c, 'angle', a, si(a), mu_true(*x))
    b = P.helpers.get_angle_between(q[2][0], q[3][0], q[0][0], q[1][0])
    c.oblige('symmetric', feq(si(a), si(b)))


@unit('C06', 'get_angle_between of a point with itself is zero', ['helpers.get_angle_between'])
def gab0(P, c):
    la, x = angle('lat1')
    lo, y = angle('lon1')
    a = P.helpers.get_angle_between(la, lo, la, lo)
    c.oblige('zero', feq(si(a), RZERO))


for _two in (False, True):
    def _mk(two):
        def cosmap(P, c):
            g = mk_grid(P, c, two_d=two, real_mu=True)
            la, x = angle('lat0')
            lo, y = angle('lon0')
            m = g.cos_angle_from_disk_center(la, lo)
            st = g.__dict__['_stub']
            p = gp(st)
            c.oblige('plain array', TRUE if isinstance(m, Array) else FALSE)
            c.oblige('has the shape of the grid', same_shape(m, st.dims))
            c.oblige('cosine of the angle between the unit vectors', feq(at(m, p), mu_true(x, y, st.lat(p), st.lon(p))))

        def dist(P, c):
            g = mk_grid(P, c, two_d=two)
            st = g.__dict__['_stub']
            s, v = mk_spot(P, c, True, grid=g)
            p = gp(st)
            la, lo = var('slat'), var('slon')
            is_angle(c, 'spot pixel distance', s.r, at(s.r, p), mu_true(la, lo, st.lat(p), st.lon(p)))
            f, v = mk_fac(P, c, True, grid=g)
            is_angle(c, 'facula pixel distance', f._r, at(f._r, p), mu_true(var('flat'), var('flon'), st.lat(p), st.lon(p)))
        return cosmap, dist
    _a, _b = _mk(_two)
    _n = 'two-dimensional' if _two else 'one-dimensional'
    unit('C06', f'cos_angle_from_disk_center on any {_n} grid', ['coordinate_grid.CoordinateGrid.cos_angle_from_disk_center'])(_a)
    unit('C06', f'pixel distances of spots and faculae on any {_n} grid', ['spots.StarSpot.set_gridmaker', 'faculae.Facula._r'])(_b)
