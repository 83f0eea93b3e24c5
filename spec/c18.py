"""C18  generated features"""
from lib import *
from c13 import seq_of, items
from c17 import mk_spotgen, mk_facgen
import c11

SG, FG = 'spots.SpotGenerator.', 'faculae.FaculaGenerator.'


def draws(c, rng, method):
    return [e for e in c.events if e[0] == 'draw' and e[2] == method and e[1] is rng]


def whole(segs, cls):
    """the generated features as one symbolic segment"""
    if len(segs) != 1 or not isinstance(segs[0], Gen) or not segs[0].inc or segs[0].filtered or not isinstance(segs[0].rep, cls):
        raise Unsupported('shape of the generated features')
    return segs[0]


def angles(c, la, lo, iso=True):
    c.oblige('latitude and longitude are angles', TRUE if has_kind(la, U.rad) and has_kind(lo, U.rad) else FALSE)
    LA, LO = si(la), si(lo)
    c.oblige('longitude in [0,360) degrees', mk_and(fle(RZERO, LO), flt(LO, PI * 2)))
    if iso:
        c.oblige('latitude in [-90,90] degrees', mk_and(fle(-PI / 2, LA), fle(LA, PI / 2)))


def isotropic(c, rng, la, lo, k):
    d = draws(c, rng, 'random')
    if len(d) != 2:
        raise Unsupported('other draws')
    a, b = [var(e[5], *k, sign='nneg') for e in d]
    s = tmap(f_sin, la)
    lon = lambda u_: feq(lo, u_ * PI * 2)
    lat = lambda u_: mk_or(feq(s, u_ * 2 - 1), feq(s, RONE - u_ * 2))
    c.oblige('longitude and sine of the latitude are independent uniform variates', mk_or(mk_and(lon(a), lat(b)), mk_and(lon(b), lat(a))))


def owns(c, rng):
    for e in c.events:
        if e[0] == 'draw':
            c.oblige(f'{e[2]}: drawn from the own random generator', is_(e[1], rng))


def coords_spec(mk, fn, kinds):
    def coords(P, c):
        s = mk(P, c)
        n = var('n', sign='pos', isint=True)
        la, lo = getattr(s, fn)(Sym(n, True))
        p = gp((n,))
        c.oblige('exactly n', mk_and(same_shape(la, (n,)), same_shape(lo, (n,))))
        c.oblige('latitude and longitude are angles', TRUE if has_kind(la, U.rad) and has_kind(lo, U.rad) else FALSE)
        LA, LO = at(la, p), at(lo, p)
        c.oblige('longitude in [0,360) degrees', mk_and(fle(RZERO, LO), flt(LO, PI * 2)))
        if kinds == 'iso':
            c.oblige('latitude in [-90,90] degrees', mk_and(fle(-PI / 2, LA), fle(LA, PI / 2)))
            isotropic(c, s.rng, LA, LO, p)
        owns(c, s.rng)
    return coords


unit('C18', 'isotropic coordinates of spots', [SG + 'get_coordinates'])(coords_spec(lambda P, c: mk_spotgen(P, c)[0], 'get_coordinates', 'iso'))
unit('C18', 'solar coordinates of spots', [SG + 'get_coordinates'])(coords_spec(lambda P, c: mk_spotgen(P, c, dist='solar')[0], 'get_coordinates', 'solar'))
unit('C18', 'isotropic coordinates of faculae', [FG + 'get_coords'])(coords_spec(lambda P, c: mk_facgen(P, c)[0], 'get_coords', 'iso'))


def spot_fields(P, c, sg, v, x):
    MSH = P.config.MSH
    c.oblige('growing', as_form(x.is_growing) if isinstance(x.is_growing, (bool, SymBool)) else FALSE)
    c.oblige('starts at the configured initial area', mk_and(TRUE if has_kind(x.area_current, U.m ** 2) else FALSE, feq(si(x.area_current), v['A0'])))
    c.oblige('maximum area is positive', mk_and(TRUE if has_kind(x.area_max, U.m ** 2) else FALSE, flt(RZERO, si(x.area_max))))
    c.oblige('configured temperatures', mk_and(feq(si(x.teff_umbra), v['TU']), feq(si(x.teff_penumbra), v['TP'])))
    c.oblige('configured rates', mk_and(feq(si(x.growth_rate), v['G']), feq(si(x.decay_rate), v['D'])))
    c.oblige('penumbra ratio is positive', flt(RZERO, tr(x.total_area_over_umbra_area)))
    angles(c, x.coords['lat'], x.coords['lon'], sg.distribution == 'iso')


for _dist in ('iso', 'solar'):
    def _mk(dist):
        def spots(P, c):
            sg, v = mk_spotgen(P, c, dist=dist)
            fr = Frame(sg, ('rng',))
            n = var('n', sign='pos', isint=True)
            g = whole(seq_of(sg.generate_spots(Sym(n, True))), P.spots.StarSpot)
            c.oblige('exactly n', feq(S.seg_count(g), n))
            c.cands.append((g.k,))
            spot_fields(P, c, sg, v, g.rep)
            d = draws(c, sg.rng, 'lognormal')
            if len(d) == 1:
                c.oblige('maximum area log-normal as configured', feq(si(g.rep.area_max), v['AM'] * f_exp(v['SG'] * var(d[0][5], g.k))))
            owns(c, sg.rng)
            fr.check(c, 'generator')
        unit('C18', f'n spots ({dist})', [SG + 'generate_spots', SG + 'get_coordinates', 'spots.StarSpot.__init__'])(spots)

        def few(P, c):
            sg, v = mk_spotgen(P, c, dist=dist)
            c.oblige('none', TRUE if not items(sg.generate_spots(0)) else FALSE)
            r = items(sg.generate_spots(2))
            c.oblige('exactly two different spots', TRUE if len(r) == 2 and r[0] is not r[1] and all(isinstance(x, P.spots.StarSpot) for x in r) else FALSE)
            for x in r:
                spot_fields(P, c, sg, v, x)
        unit('C18', f'no spots and two spots ({dist})', [SG + 'generate_spots'], kind='instance of the contract')(few)
    _mk(_dist)


@unit('C18', 'unknown distributions are rejected', [SG + 'get_coordinates', FG + '__init__'])
def unknown(P, c):
    sg, v = mk_spotgen(P, c, dist='somewhere')
    expect_raise(c, 'error for spots', ValueError, lambda: sg.generate_spots(Sym(var('n', sign='pos', isint=True), True)))


def fac_fields(P, c, fg, v, x):
    c.oblige('growing', as_form(x.is_growing) if isinstance(x.is_growing, (bool, SymBool)) else FALSE)
    c.oblige('maximum radius is positive', mk_and(TRUE if has_kind(x.r_max, U.m) else FALSE, flt(RZERO, si(x.r_max))))
    c.oblige('starts at 1/e^2 of its maximum radius', mk_and(TRUE if has_kind(x.radius, U.m) else FALSE, feq(tmap(lambda a: l_mul(a, f_exp(rat(2))), si(x.radius)), si(x.r_max))))
    c.oblige('positive lifetime', mk_and(TRUE if has_kind(x.lifetime, U.s) else FALSE, flt(RZERO, si(x.lifetime))))
    c.oblige('configured depth', feq(si(x.depth), v['DP']))
    c.oblige('configured temperatures', mk_and(feq(si(x.floor_teff_slope), v['FS']), feq(si(x.floor_teff_min_rad), v['MR']), feq(si(x.floor_teff_base_dteff), v['FB']),
                                               feq(si(x.wall_teff_slope), v['WS']), feq(si(x.wall_teff_intercept), v['WI'])))
    angles(c, x.lat, x.lon)


@unit('C18', 'n faculae', [FG + 'generate_faculae', FG + 'get_coords', 'faculae.Facula.__init__'])
def faculae(P, c):
    fg, v = mk_facgen(P, c)
    fr = Frame(fg, ('rng',))
    n = var('n', sign='pos', isint=True)
    g = whole(seq_of(fg.generate_faculae(Sym(n, True))), P.faculae.Facula)
    c.oblige('exactly n', feq(S.seg_count(g), n))
    x = g.rep
    fac_fields(P, c, fg, v, x)
    d = draws(c, fg.rng, 'normal')
    if len(d) == 1:
        z = var(d[0][5], g.k)
        L10 = f_log(rat(10))
        c.oblige('maximum radius log-normal as configured', feq(si(x.r_max), v['RP'] * f_exp(L10 * v['RS'] * z)))
        c.oblige('lifetime log-normal as configured, growing with the radius', feq(si(x.lifetime), v['LT'] * f_exp(L10 * v['LS'] * z)))
    owns(c, fg.rng)
    fr.check(c, 'generator')


@unit('C18', 'no faculae and two faculae', [FG + 'generate_faculae'], kind='instance of the contract')
def fewf(P, c):
    fg, v = mk_facgen(P, c)
    c.oblige('none', TRUE if not items(fg.generate_faculae(0)) else FALSE)
    r = items(fg.generate_faculae(2))
    c.oblige('exactly two different faculae', TRUE if len(r) == 2 and r[0] is not r[1] and all(isinstance(x, P.faculae.Facula) for x in r) else FALSE)
    for x in r:
        fac_fields(P, c, fg, v, x)


# ------------------------------------------------------------------ births
for _w in ('spots', 'faculae'):
    def _mk(w):
        mod, cls, nexp, gen, birth = (('spots', 'SpotGenerator', 'get_n_spots_to_birth', 'generate_spots', 'birth_spots') if w == 'spots'
                                      else ('faculae', 'FaculaGenerator', 'get_n_faculae_expected', 'generate_faculae', 'birth_faculae'))

        def births(P, c):
            o = (mk_spotgen if w == 'spots' else mk_facgen)(P, c)[0]
            K = getattr(getattr(P, mod), cls)
            lam = var('lam', sign='nneg')
            asked, made = [], []
            c.patch.set(K, nexp, lambda self, time, rad_star: (asked.append((self, si(time), si(rad_star))), Sym(lam))[1])
            ret = ('features',)
            c.patch.set(K, gen, lambda self, n: (made.append((self, tree_of(n))), ret)[1])
            t, TT = qty('t', U.s, 'nneg')
            R, RR = qty('rstar', U.m, 'pos')
            r = getattr(o, birth)(t, R)
            d = [e for e in c.events if e[0] == 'draw' and e[2] == 'poisson' and e[4] is None]
            if len(d) != 1 or len(made) != 1 or not asked:
                raise Unsupported('births by other means')
            c.oblige('expected number for the given time and radius', mk_and(*[mk_and(is_(s, o), feq(a, TT), feq(b, RR)) for s, a, b in asked]))
            c.oblige('Poisson with the expected number as mean', feq(tree_of(d[0][3][0]), lam))
            c.oblige('drawn from the own random generator', is_(d[0][1], o.rng))
            c.oblige('as many as drawn', feq(made[0][1], var(d[0][5], sign='nneg', isint=True)))
            c.oblige('the generated features are returned', is_(r, ret))
        unit('C18', f'births of {w}', [f'{mod}.{cls}.{birth}'])(births)
    _mk(_w)


# ------------------------------------------------------------------ mature spots
class GhostList(VList):
    """spots collected so far: unknown number, what is appended in one iteration is recorded"""


class Mature:
    """loop contract: `acc` is the solid angle of the spots collected so far; every spot collected is in range;
    a spot is only added while acc is below the target"""

    def __init__(self, c, R, target):
        self.c, self.R, self.target = c, R, target
        self.list = self.acc = None
        self.bodies = 0

    def havoc(self, w, name, val):
        if type(val) is VList and not val.segs and self.list is None:
            self.list = name
            self.ghost = GhostList([])
            return self.ghost
        if isinstance(val, Quantity) and val.unit.same_dims(U.rad ** 2) and not isinstance(val.value, Array) and self.acc is None:
            if not self.c.entails(feq(si(val), RZERO)):
                raise Unsupported('the loop does not start from zero')
            self.acc = name
            self.W = var('omega', sign='nneg')
            return Quantity(Sym(self.W / val.unit.scale), val.unit)
        return None

    def init(self, w):
        return []

    def inv(self, w, vals):
        if self.list is None or self.acc is None:
            raise Unsupported('loop over other variables')
        if vals is w.hav:
            return []
        self.bodies += 1
        L, A = vals.get(self.list), vals.get(self.acc)
        if L is not self.ghost or len(L.segs) != 1 or isinstance(L.segs[0], Gen) or not isinstance(A, Quantity):
            raise Unsupported('not one spot per iteration')
        x = L.segs[0][1]
        om = tmap(lambda a: l_mul(l_mul(a, a), PI), si(x.angular_radius(self.R)))
        return [('only while the coverage is not reached', flt(self.W, self.target)),
                ('the solid angle of the new spot is added', feq(si(A), tmap(lambda a: l_add(a, self.W), om))),
                ('area of the new spot between zero and its maximum', mk_and(TRUE if has_kind(x.area_current, U.m ** 2) else FALSE, fle(RZERO, si(x.area_current)), fle(si(x.area_current), x.__dict__['_AM'])))]


for _static in (True, False):
    def _mk(static):
        def mature(P, c):
            sg, v = mk_spotgen(P, c, static=static)
            cov = num('cov', 'nneg')
            COV = var('cov', sign='nneg')
            c.assume(mk_cmp('<=', COV - 1))
            c.assume(mk_cmp('<=', v['A0'] - v['AM']))
            R, RR = qty('rstar', U.m, 'pos')
            fr = Frame(sg, ('rng',))

            def gen(self, n):
                # contract of generate_spots (above), for the maximum areas that are at least the initial area
                if n != 1:
                    raise Unsupported('several spots at once')
                am = var(c.fresh_name('amax'), sign='pos')
                c.assume(mk_cmp('>=', am - v['A0']))
                x = P.spots.StarSpot.__new__(P.spots.StarSpot)
                d = x.__dict__
                d['_AM'] = am
                d['area_max'], d['area_current'] = Quantity(Sym(am), U.m ** 2), Quantity(Sym(v['A0']), U.m ** 2)
                d['is_growing'] = True
                d['growth_rate'], d['decay_rate'] = sg.growth_rate, sg.decay_rate
                return (x,)
            c.patch.set(P.spots.SpotGenerator, 'generate_spots', gen)

            def age(self, time):
                # contract of StarSpot.age (C11): any time >= 0 leaves an area in [0, maximum]
                c.oblige('aged by a non-negative time', mk_and(TRUE if has_kind(time, U.s) else FALSE, fle(RZERO, si(time))), 'pre')
                a = var(c.fresh_name('aged'), sign='nneg')
                c.assume(mk_cmp('<=', a - self.__dict__['_AM']))
                self.__dict__['area_current'] = Quantity(Sym(a), U.m ** 2)
            c.patch.set(P.spots.StarSpot, 'age', age)
            # axiom instance: log is increasing
            c.assume(mk_cmp('>=', f_log(v['AM']) - f_log(v['A0'])))
            m = Mature(c, R, PI * 4 * COV)
            c.while_specs.append(m)
            r = sg.generate_mature_spots(cov, R)
            if m.list is None:
                c.oblige('nothing only when nothing is asked for', mk_implies(TRUE if not items(r) else FALSE, mk_cmp('=', COV)))
                if items(r):
                    raise Unsupported('spots without a loop')
                return
            if m.acc is None:
                raise Unsupported('loop over other variables')
            c.oblige('the collected spots are returned', TRUE if r is m.ghost and not m.ghost.segs else FALSE)
            c.oblige('the requested coverage is reached', fle(PI * 4 * COV, m.W))
            fr.check(c, 'generator')
            owns(c, sg.rng)
        unit('C18', 'mature spots ' + ('(static)' if static else '(aging)'), [SG + 'generate_mature_spots', SG + 'mean_lifetime', SG + 'is_static'])(mature)

        def reject(P, c):
            sg, v = mk_spotgen(P, c, static=static)
            cov = num('cov')
            c.assume(mk_or(mk_cmp('<', var('cov')), mk_cmp('>', var('cov') - 1)))
            R, RR = qty('rstar', U.m, 'pos')
            c.while_specs.append(Mature(c, R, PI * 4 * var('cov')))
            c.patch.set(P.spots.SpotGenerator, 'generate_spots', lambda self, n: (P.spots.StarSpot.__new__(P.spots.StarSpot),))
            expect_raise(c, 'error', ValueError, lambda: sg.generate_mature_spots(cov, R))
        unit('C18', 'coverage outside [0,1] is rejected ' + ('(static)' if static else '(aging)'), [SG + 'generate_mature_spots'])(reject)
    _mk(_static)
