"""C09  spot footprint"""
from lib import *
from c11 import mk_spot


def rho(A, R):
    """angular radius of the spherical cap of area A on a sphere of radius R (the sphere if larger)"""
    x = RONE - A / (PI * 2 * R * R)
    return tmap(V.l_arccos, tmax(x, rat(-1)))


@unit('C09', 'angular_radius is the radius of the cap with the area of the spot', ['spots.StarSpot.angular_radius'])
def radius(P, c):
    s, v = mk_spot(P, c, False, bounded=False)
    R, RR = qty('rstar', U.m, 'pos')
    fr = Frame(s)
    a = s.angular_radius(R)
    t = si(a)
    c.oblige('an angle', TRUE if has_kind(a, U.rad) else FALSE)
    c.oblige('finite', finite(t))
    c.oblige('between 0 and 180 degrees', mk_and(fle(RZERO, t), fle(t, PI)))
    small = mk_cmp('<=', v['A0'] - PI * 4 * RR * RR)
    c.oblige('the cap of that radius has the area of the spot', mk_implies(small, feq(tmap(lambda z: PI * 2 * RR * RR * (RONE - f_cos(z)), t), v['A0'])))
    c.oblige('a spot as large as the star covers all of it', mk_implies(mk_not(mk_cmp('<', v['A0'] - PI * 4 * RR * RR)), feq(t, PI)))
    fr.check(c, 'angular_radius')


for _two in (False, True):
    def _mk(two):
        def pixels(P, c):
            g = mk_grid(P, c, two_d=two)
            st = g.__dict__['_stub']
            s, v = mk_spot(P, c, False, grid=g, bounded=False)
            R, RR = qty('rstar', U.m, 'pos')
            c.assume(mk_not(mk_cmp('=', var('tu', sign='pos') - var('tp', sign='pos'))))
            fr = Frame(s)
            d = s.map_pixels(R)
            p = gp(st)
            dist = at(s.r, p)
            ra = rho(v['A0'], RR)
            k = var('ratio', sign='pos')
            pen, umb = d[s.teff_penumbra], d[s.teff_umbra]
            c.oblige('two regions', TRUE if len(list(d.keys())) == 2 else FALSE)
            c.oblige('masks have the shape of the grid', mk_and(same_shape(pen, st.dims), same_shape(umb, st.dims)))
            c.oblige('penumbra mask: exactly the pixels closer than the angular radius', mk_iff(form_of(at(pen, p)), flt(dist, ra)))
            c.oblige('umbra mask: exactly the pixels closer than the angular radius over the root of the area ratio',
                     mk_iff(form_of(at(umb, p)), flt(dist, tmap(lambda z: z / f_sqrt(k), ra))))
            fr.check(c, 'map_pixels')
        return pixels
    unit('C09', f"map_pixels selects the pixels of the cap ({'two' if _two else 'one'}-dimensional grid)",
         ['spots.StarSpot.map_pixels', 'spots.StarSpot.angular_radius', 'spots.StarSpot.set_gridmaker'])(_mk(_two))


@unit('C09', 'umbra and penumbra of equal temperature: the whole cap is kept', ['spots.StarSpot.map_pixels'])
def equal_teff(P, c):
    g = mk_grid(P, c)
    st = g.__dict__['_stub']
    s, v = mk_spot(P, c, False, grid=g, bounded=False)
    s.teff_umbra = s.teff_penumbra
    R, RR = qty('rstar', U.m, 'pos')
    c.assume(mk_cmp('>=', var('ratio', sign='pos') - 1))
    d = s.map_pixels(R)
    p = gp(st)
    c.oblige('the single mask is the penumbra', mk_iff(form_of(at(d[s.teff_penumbra], p)), flt(at(s.r, p), rho(v['A0'], RR))))


@unit('C09', 'the footprint does not depend on units', ['spots.StarSpot.map_pixels', 'spots.StarSpot.angular_radius'], kind='lemma over the real code')
def units_(P, c):
    g = mk_grid(P, c)
    st = g.__dict__['_stub']
    s, v = mk_spot(P, c, False, grid=g, bounded=False)
    R, RR = qty('rstar', U.m, 'pos')
    d1 = s.angular_radius(R)
    s.area_current = s.area_current.to(U.km ** 2)
    d2 = s.angular_radius(R.to(U.R_sun))
    c.oblige('same angular radius', feq(si(d1), si(d2)))
