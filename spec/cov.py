"""Shared contracts of the coverage tables (C01, C02, C03, C25)"""
from lib import *

FN = ['star.Star.calc_coverage', 'star.Star.ld_mask_for_plotting', 'star.Star.area_projection_coefficient', 'star.Star.get_mu', 'star.Star.get_jacobian']


class Gran:
    """Granulation as seen by the coverage code: its temperature difference"""

    def __init__(self, d):
        self.dteff = d
        self.params = VDict([('mean', num('gmean')), ('scale', num('gscale')), ('dteff', d)])


def mk_ite(f, a, b):
    return a if f == TRUE else b if f == FALSE else Ite(f, a, b)


class Scene:
    """a star seen from anywhere: arbitrary surface map (contract of C16), arbitrary occultation mask in [0,1] that is
    zero on the far side (contract of C03), arbitrary grid (contract of C07: non-negative areas), cosine map by contract"""

    def __init__(self, P, c, two_d=False, boolmask=False, nomu=False):
        self.P, self.c = P, c
        self.epoch = None
        g = self.g = mk_grid(P, c, two_d=two_d)
        st = self.st = g.__dict__['_stub']
        self.dims = st.dims
        la, self.LA = angle('lat0')
        lo, self.LO = angle('lon0')
        self.coords = VDict([('lat', la), ('lon', lo)])
        c.families['mu'] = lambda *ix: [mk_cmp('<=', var('mu', *ix) - 1), mk_cmp('>=', var('mu', *ix) + 1)]
        self.mu = lambda ix: var('mu', *ix)

        def cosang(self_, a, b):
            if self.epoch is None and c.entails(mk_and(feq(si(a), si(la)), feq(si(b), si(lo)))):
                return Array(st.dims, self.mu)
            if self.epoch is not None and c.entails(mk_and(feq(si(a), si(self.epoch['lat'])), feq(si(b), si(self.epoch['lon'])))):
                return Array(st.dims, lambda ix: var('muA', *ix))
            return mu_array(st, si(a), si(b))
        c.patch.set(type(g), 'cos_angle_from_disk_center', c.ghost(cosang, 'mu'))
        star = self.star = P.star.Star.__new__(P.star.Star)
        R, _ = qty('rstar', U.m, 'pos')
        TS, self.T0 = qty('tstar', U.K, 'pos', False)
        D, self.D = qty('gdteff', U.K, 'any', False)
        u1, u2 = num('u1'), num('u2')
        self.u1, self.u2 = u1.t, u2.t
        star.__dict__.update(gridmaker=g, radius=R, teff=TS, granulation=Gran(D), u1=u1, u2=u2)
        self.orb, _ = qty('orbit', U.m, 'pos')
        self.prad, _ = qty('prad', U.m, 'pos')
        self.ph, _ = angle('phase')
        self.inc, _ = angle('incl')
        self.gf = num('gfrac')
        c.assume(mk_and(mk_cmp('>=', self.gf.t), mk_cmp('<=', self.gf.t - 1)))
        if boolmask:
            self.cov = lambda ix: ind(BAtom('maskb', tuple(ix)))
            marr = lambda: Array(st.dims, lambda ix: BAtom('maskb', tuple(ix)), 'b')
        else:
            c.families['mask'] = lambda *ix: [mk_cmp('<=', var('mask', *ix, sign='nneg') - 1), mk_implies(mk_cmp('<=', var('mu', *ix)), mk_cmp('=', var('mask', *ix, sign='nneg')))]
            self.cov = lambda ix: var('mask', *ix, sign='nneg')
            marr = lambda: Array(st.dims, self.cov)
        self.tmap = lambda ix: var('tmap', *ix, sign='pos')
        self.plf = num('plfrac')
        same_c = lambda a, b: c.entails(mk_and(feq(si(a), si(la)), feq(si(b), si(lo))))

        def faculae(self_, lat0, lon0):
            if self.epoch is not None:
                return Quantity(Array(st.dims, lambda ix: var('tmapA', *ix, sign='pos')), U.K)
            if not same_c(lat0, lon0):
                raise Unsupported('surface map seen from another point')
            return Quantity(Array(st.dims, self.tmap), U.K)

        def transit(self_, lat0, lon0, orbit_radius, radius, phase, inclination):
            if self.epoch is not None:
                return Array(st.dims, lambda ix: var('maskA', *ix, sign='nneg')), num('plfracA')
            c.oblige('the occultation is asked for the geometry of this call',
                     mk_and(*[same(si(x), si(y)) for x, y in ((lat0, la), (lon0, lo), (orbit_radius, self.orb), (radius, self.prad), (phase, self.ph), (inclination, self.inc))]), 'pre')
            return marr(), self.plf
        c.patch.set(P.star.Star, 'add_faculae_to_map', c.ghost(faculae, 'tmap'))
        c.patch.set(P.star.Star, 'get_transit_mask', c.ghost(transit, 'mask', 'maskb', 'plfrac'))
        c.note('surface map by the contracts of C10/C16, occultation mask by the contract of C03, grid by the contract of C07')

    def earlier(self):
        """one arbitrary earlier call on the same star, seen from elsewhere, in another state"""
        c, d = self.c, self.star.__dict__
        c.families['muA'] = lambda *ix: [mk_cmp('<=', var('muA', *ix) - 1), mk_cmp('>=', var('muA', *ix) + 1)]
        now = {k: d[k] for k in ('teff', 'u1', 'u2', 'granulation')}
        d.update(teff=qty('tstarA', U.K, 'pos', False)[0], u1=num('u1A'), u2=num('u2A'), granulation=Gran(qty('gdteffA', U.K, 'any', False)[0]))
        self.epoch = VDict([('lat', angle('lat0A')[0]), ('lon', angle('lon0A')[0])])
        dA = lambda ix: RONE - var('muA', *ix)
        c.assume(mk_cmp('>', self.sum(lambda ix: ind(mk_cmp('>', var('muA', *ix))) * var('garea', *ix, sign='nneg') * var('muA', *ix) * (RONE - var('u1A') * dA(ix) - var('u2A') * dA(ix) * dA(ix)))))
        self.star.calc_coverage(self.epoch, num('gfracA'), self.orb, self.prad, self.ph, self.inc)
        self.epoch = None
        d.update(now)

    def call(self):
        return self.star.calc_coverage(self.coords, self.gf, self.orb, self.prad, self.ph, self.inc)

    def ld(self, ix):
        d = RONE - self.mu(ix)
        return RONE - self.u1 * d - self.u2 * d * d

    def weight(self, ix):
        """light-weight of a pixel by definition"""
        m = self.mu(ix)
        return ind(mk_cmp('>', m)) * var('garea', *ix, sign='nneg') * m * self.ld(ix)

    def sum(self, fn):
        return tree_of(V.a_sum(Array(self.dims, fn)))

    def total_weight(self):
        return self.sum(self.weight)

    def nonneg_ld(self):
        """precondition: the limb-darkening law is non-negative on the disk"""
        self.c.families['garea'] = lambda *ix: [mk_implies(mk_cmp('>', self.mu(ix)), mk_cmp('>=', self.ld(ix)))]

    def label(self, t):
        return loader_format(Quantity(V.mksym(t), U.K), '.2f')


def loader_format(q, spec):
    return U.Label(NP.round(q.value, int(spec[1:-1])), q.unit, spec)


def labels_of(table):
    if not isinstance(table, VDict):
        raise Unsupported('table is not a dictionary')
    return table


def gen_at(table, K):
    t = RZERO
    for g in table.gens:
        t = l_add(t, tree_to_rat(tree_of(g.value(K)), 'table'))
    return t


def lookup(table, K):
    """the value of the entry labelled K, 0 where there is none"""
    t = gen_at(table, K)
    for k, v in table.items_:
        f = V.as_form(VDict.keq(k, K))
        t = mk_ite(f, tree_of(v), t)
    return t


def total(table):
    """the sum of all entries"""
    t = RZERO
    for g in table.gens:
        t = tmap(l_add, t, tree_of(g.total()))
    for k, v in table.items_:
        t = tmap(l_add, t, tmap(lambda a, b: l_add(a, l_neg(b)), tree_of(v), gen_at(table, k)))
    return t


def generic_label(tag='L'):
    """any label with two decimals"""
    return U.Label(Sym(var('label' + tag)), U.K, '.2f')


def sum_nonneg(c, sc, name, fn):
    """sum of pixelwise non-negative terms: pixelwise obligation, then the sum is non-negative"""
    c.oblige(name, fle(RZERO, fn(gp(sc.dims))), 'lemma')
    c.assume(fle(RZERO, sc.sum(fn)))
    c.note('a finite sum of non-negative terms is non-negative')
