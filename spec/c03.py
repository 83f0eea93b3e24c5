"""C03  occultation"""
from cov import *
import c15
import math

TM = 'star.Star.get_transit_mask'


def setup(P, c, two_d=False):
    g = mk_grid(P, c, two_d=two_d)
    st = g.__dict__['_stub']
    la, LA = angle('lat0')
    lo, LO = angle('lon0')
    c.families['mu'] = lambda *ix: [mk_cmp('<=', var('mu', *ix) - 1), mk_cmp('>=', var('mu', *ix) + 1)]
    mu = lambda ix: var('mu', *ix)
    here = lambda a, b: c.entails(mk_and(feq(si(a), LA), feq(si(b), LO)))

    def cosang(self_, a, b):
        return Array(st.dims, mu) if here(a, b) else mu_array(st, si(a), si(b))

    def proj(lat0, lon0, lats, lons):
        """contract of C05: NaN behind the limb, some coordinates on the disk"""
        if not here(lat0, lon0):
            raise Unsupported('projection about another point')
        q = gp(st)
        if not c.entails(mk_and(feq(at(lats, q), st.lat(q)), feq(at(lons, q), st.lon(q)))):
            raise Unsupported('projection of other points')
        f = lambda n: Array(st.dims, lambda ix: mk_ite(mk_cmp('>=', mu(ix)), var(n, *ix), NAN))
        return f('projx'), f('projy')
    c.patch.set(type(g), 'cos_angle_from_disk_center', c.ghost(cosang, 'mu'))
    c.patch.set(P.star, 'proj_ortho', c.ghost(proj, 'projx', 'projy'))
    star = P.star.Star.__new__(P.star.Star)
    R, RS = qty('rstar', U.m, 'pos')
    star.__dict__.update(gridmaker=g, radius=R)
    orb, OR = qty('orbit', U.m, 'pos')
    prad, PR = qty('prad', U.m, 'pos')
    ph, PH = angle('phase')
    inc, IN = angle('incl')
    c.assume(mk_cmp('<=', PR - RS))
    x = OR / RS * f_sin(PH - PI)
    y = OR / RS * f_cos(PH - PI) * f_cos(IN)
    c.note('projection by the contract of C05, overlap of circles by the contract of C04, cosine map by the contract of C06')
    return star, g, st, mu, (la, lo, orb, prad, ph, inc), (OR, PR, RS, PH, IN), (x, y)


def planet_xy(v):
    OR, PR, RS, PH, IN = v
    return OR / RS * f_sin(PH - PI), OR / RS * f_cos(PH - PI) * f_cos(IN)


def vis(c, PH, x, y, r):
    """1 on the near half (cos phase <= 0), 1 - eclipsed part on the far half"""
    return mk_ite(mk_cmp('>', f_cos(PH)), tmap(lambda t: RONE - t, c15.overlap_tree(f_sqrt(x * x + y * y), r)), RONE)


@unit('C03', 'visible fraction of the planet', ['star.Star.get_pl_frac'])
def plfrac(P, c):
    star, g, st, mu, a, v, (x, y) = setup(P, c)
    c15.stub_overlap(P, c, [P.star])
    am, A = angle('past')
    OR, PR, RS, PH, IN = v
    x = OR / RS * f_sin(A)
    y = OR / RS * f_cos(A) * f_cos(IN)
    f = star.get_pl_frac(am, a[2], a[3], a[5])
    t = tree_of(f)
    c.oblige('one minus the part of the planet disk inside the stellar disk', feq(t, tmap(lambda z: RONE - z, c15.overlap_tree(f_sqrt(x * x + y * y), PR / RS))))
    c.oblige('within [0,1]', mk_and(fle(RZERO, t), fle(t, RONE)))


@unit('C03', 'planet behind the star or off the disk', [TM, 'star.Star.get_pl_frac'])
def notransit(P, c):
    star, g, st, mu, a, v, (x, y) = setup(P, c)
    c15.stub_overlap(P, c, [P.star])
    OR, PR, RS, PH, IN = v
    d = f_sqrt(x * x + y * y)
    far = mk_cmp('>', f_cos(PH))
    off = mk_cmp('>', d - 1 - PR / RS * 2)
    c.assume(mk_or(far, off))
    m, f = star.get_transit_mask(*a)
    p = gp(st)
    c.oblige('mask has the shape of the grid', same_shape(m, st.dims))
    mp = m.at(p)
    z = mk_not(mp) if isinstance(mp, Form) else feq(mp, RZERO)
    c.oblige('no pixel is occulted', z)
    t = tree_of(f)
    c.oblige('visible fraction within [0,1]', mk_and(fle(RZERO, t), fle(t, RONE)))
    c.oblige('fully visible on the near half of the orbit', mk_implies(mk_not(far), feq(t, RONE)))
    c.oblige('otherwise one minus the eclipsed part', mk_implies(far, feq(t, tmap(lambda q: RONE - q, c15.overlap_tree(d, PR / RS)))))


for _two in (False, True):
    def _mk(two, loc):
        def transit(P, c):
            star, g, st, mu, a, v, (x, y) = setup(P, c, two)
            OR, PR, RS, PH, IN = v
            d = f_sqrt(x * x + y * y)
            c.assume(mk_and(mk_cmp('<=', f_cos(PH)), mk_cmp('<=', d - 1 - PR / RS * 2)))
            p = gp(st)
            # a pixel without projected size exactly on the edge of the planet is left out
            pd = f_sqrt((var('projx', *p) - x) * (var('projx', *p) - x) + (var('projy', *p) - y) * (var('projy', *p) - y))
            size0 = mk_or(mk_cmp('=', mu(p)), mk_cmp('=', var('garea', *p, sign='nneg')))
            c.assume(mk_and(mk_cmp('>', mu(p)), mk_not(size0)) if loc else mk_implies(size0, mk_not(mk_cmp('=', pd - PR / RS))))
            quadrature(c, st, mu)
            m, f = star.get_transit_mask(*a)
            c.oblige('fully visible on the near half of the orbit', feq(tree_of(f), RONE))
            c.oblige('mask has the shape of the grid', same_shape(m, st.dims))
            mp = m.at(p)
            if isinstance(mp, Form):
                mp = ind(mp)
            c.oblige('a pixel of the far hemisphere is not occulted', mk_implies(mk_cmp('<', mu(p)), feq(mp, RZERO)))
            c.oblige('occulted part of a pixel within [0,1]', mk_and(fle(RZERO, mp), fle(mp, RONE)))
            if not loc:
                return
            pix2 = pow_rat(var('garea', *p, sign='nneg'), F(1, 2)) * 4 * mu(p)
            c.oblige('a pixel outside the planet disk by more than two pixel radii is not occulted', mk_implies(mk_cmp('>', pd - PR / RS - pix2), feq(mp, RZERO)))
            c.oblige('a pixel inside the planet disk by more than two pixel radii is fully occulted', mk_implies(mk_cmp('<', pd - PR / RS + pix2), feq(mp, RONE)))
        unit('C03', f"{'position of the transit' if loc else 'transit mask'} ({'two' if two else 'one'}-dimensional grid)", [TM])(transit)
    _mk(_two, False)
    _mk(_two, True)


def gauss_bound():
    """max over 0 <= m <= 1 of the two-dimensional trapezoid sum of the Gaussian weights on the 100 x 100 nodes
    t = -3 + 6 i/99 of each side, the second side scaled by m.  Interval argument on 2000 pieces [a, b] of m:
    m exp(-(m t)^2/2) <= b exp(-(a t)^2/2) (double precision, margin far above rounding)"""
    t = [-3 + 6 * i / 99 for i in range(100)]
    w = [(0.5 if i in (0, 99) else 1.0) * 6 / 99 for i in range(100)]
    A = sum(wi * math.exp(-ti * ti / 2) for wi, ti in zip(w, t)) / math.sqrt(2 * math.pi)
    B = 0
    for k in range(2000):
        a, b = k / 2000, (k + 1) / 2000
        B = max(B, b * sum(wi * math.exp(-(a * ti) ** 2 / 2) for wi, ti in zip(w, t)) / math.sqrt(2 * math.pi))
    return A * B


def quadrature(c, st, mu):
    """np.trapz by contract: a sum with non-negative weights (increasing nodes), hence monotone in the integrand"""
    real = NP.trapz
    p = gp(st)
    SY = pow_rat(var('garea', *p, sign='nneg'), F(1, 2)) * 2
    m = mu(p)
    fz = gauss_bound()

    def trapz(y, x=None, dx=1.0, axis=-1):
        if not (isinstance(y, Array) and isinstance(x, Array) and len(x.dims) == 1 and x.dims[0].const() == 100 and fz < 1 - 1e-6):
            return real(y, x, dx, axis)
        if len(y.dims) == 2:
            i, j = [rat(mk_atom('var', '#quad%d' % k, (), 'nneg', True)) for k in (0, 1)]
            for k in (i, j):
                c.assume(mk_cmp('<=', k - 99))
            tt = lambda k: k * F(6, 99) - 3
            S = SY * m
            G = lambda a, b: RONE / (PI * 2 * S * SY) * f_exp(-(tt(a) * tt(a)) / 2) * f_exp(-(m * m * tt(b) * tt(b)) / 2)
            v = y.at((i, j))
            if c.entails(mk_and(mk_cmp('>', m), mk_cmp('>', SY))) and c.entails(feq(x.at((i,)), S * tt(i))):
                lv = [(q, l) for q, l in tree_leaves(v)]
                for g in (G(j, i), G(i, j)):
                    bad = [q for q, l in lv if not (isinstance(l, Rat) and (l == RZERO or l == g)) and not c.entails(mk_not(mk_and(*q)))]
                    if not bad:
                        c.oblige('quadrature: the integrand is a Gaussian weight or zero', mk_implies(mk_not(nan_form(v)), mk_and(fle(RZERO, v), fle(v, g))), 'lemma')
                        out = Array((y.dims[0],), lambda ix: var('quadrow', *p, *ix))
                        out.meta['quad'] = True
                        return out
        elif y.meta.get('quad'):
            c.note(f'quadrature: numpy.trapz with increasing nodes is monotone in the integrand; the weights of the full Gaussian add up to at most {fz:.6f} for every pixel (interval evaluation)')
            q = var('quad', *p, sign='nneg')
            c.assume(mk_cmp('<=', q - 1))
            return Sym(q)
        return real(y, x, dx, axis)
    c.patch.set(NP, 'trapz', trapz)
    c.patch.set(NP, 'trapezoid', trapz)


def nan_form(t):
    return tform(lambda l: TRUE if isinstance(l, Special) else FALSE, t)


for _two in (False, True):
    for _bool in (False, True):
        def _mk2(two, boolm):
            def tables(P, c):
                sc = Scene(P, c, two, boolm)
                sc.nonneg_ld()
                W = sc.total_weight()
                c.assume(mk_cmp('>', W))
                tot, cov, pl = sc.call()
                KT, KG, L = sc.label(sc.T0), sc.label(sc.T0 - sc.D), generic_label()
                eq = c.decide(V.as_form(VDict.keq(KT, KG)))
                for k in (KT, KG):
                    c.assume(mk_not(V.as_form(VDict.keq(L, k))))
                for K in (KT, KG, L):
                    has = lambda ix, K=K: ind(V.as_form(VDict.keq(sc.label(sc.tmap(ix)), K))) * sc.weight(ix)
                    sum_nonneg(c, sc, 'occulted light of the pixels of one label is non-negative', lambda ix: has(ix) * sc.cov(ix))
                    sum_nonneg(c, sc, 'and not more than their light', lambda ix: has(ix) * (RONE - sc.cov(ix)))
                for K in (KT, KG, L):
                    if K is KG and eq:
                        continue
                    a, b = lookup(cov, K), lookup(tot, K)
                    c.oblige('occulted fraction is non-negative', fle(RZERO, a))
                    c.oblige('occulted fraction at most the total fraction', fle(a, b))
            unit('C03', f"occulted table ({'two-dimensional' if two else 'one-dimensional'} grid, {'boolean' if boolm else 'numeric'} mask)", FN)(tables)
        _mk2(_two, _bool)
