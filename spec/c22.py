"""C22  flare series"""
from lib import *
from c13 import seq_of, items
from c19 import mk_flaregen

FG = 'flares.FlareGenerator.'


@unit('C22', 'get_peaks gives exactly n non-negative times in non-decreasing order, whatever the cluster sizes', [FG + 'get_peaks'])
def peaks(P, c):
    cl = num('cluster', 'nneg')
    f, v = mk_flaregen(P, c, cluster=cl)
    fr = Frame(f, ('rng',))
    n = var('nflares', sign='pos', isint=True)
    r = f.get_peaks(Sym(n, True))
    c.oblige('a plain array', TRUE if isinstance(r, Array) else FALSE)
    c.oblige('exactly n', same_shape(r, (n,)))
    k = gp((n,))[0]
    c.oblige('not negative', mk_implies(mk_cmp('<', k - n), fle(RZERO, at(r, (k,)))))
    c.oblige('non-decreasing', mk_implies(mk_cmp('<', k + 1 - n), fle(at(r, (k,)), at(r, (k + 1,)))))
    fr.check(c, 'generator')


def index_stubs(P, c, f, n):
    """helpers by contract: they return one value per flare; families named after them"""
    calls = []
    one = lambda nm, s='any': Array((n,), lambda ix: var(nm, *ix, sign=s))
    arr = lambda nm, un, s='any': Quantity(one(nm, s), un)
    cls = P.flares.FlareGenerator

    def st(name, ret):
        def g(self, n_flares, *a, **k):
            calls.append((name, tree_of(n_flares) if not isinstance(n_flares, Array) else n_flares.dims[0]))
            return ret()
        c.patch.set(cls, name, g)
    st('get_peaks', lambda: one('xpeak', 'nneg'))
    st('gen_fwhm', lambda: arr('xfwhm', U.day, 'pos'))
    st('gen_teffs', lambda: arr('xteff', U.K))
    st('gen_coords', lambda: (arr('xlat', U.rad), arr('xlon', U.rad, 'nneg')))
    st('quantile_func', lambda: arr('xen', U.erg, 'pos'))
    return calls


def drawn(c, f):
    d = [e for e in c.events if e[0] == 'draw' and e[2] == 'poisson' and e[4] is None]
    if len(d) != 1:
        raise Unsupported('number of flares is not one Poisson draw')
    return d[0]


@unit('C22', 'a series has exactly the Poisson number of flares, each with the values of its own index', [FG + 'generate_flare_series'])
def assembly(P, c):
    f, v = mk_flaregen(P, c)
    t, TT = qty('t', U.s, 'nneg')
    ft = freeze(t)
    lam = var('lam', sign='nneg')
    asked = []

    def ntot(self, time):
        asked.append(si(time))
        return Sym(lam)
    c.patch.set(P.flares.FlareGenerator, 'get_ntotal', ntot)
    holder = {}
    orig = NP.Generator.poisson

    def poisson(self, lam=1.0, size=None):
        z = orig(self, lam, size)
        if size is None:
            holder['n'] = tree_of(z)
            holder['calls'] = index_stubs(P, c, f, tree_of(z))
        return z
    c.patch.set(NP.Generator, 'poisson', poisson)
    r = f.generate_flare_series(t)
    if 'n' not in holder:
        raise Unsupported('number of flares is not a Poisson draw')
    n = holder['n']
    d = drawn(c, f)
    c.oblige('drawn from the own random generator', is_(d[1], f.rng))
    c.oblige('with the expected number as mean', feq(tree_of(d[3][0]), lam))
    c.oblige('expected for the whole duration', mk_and(*[feq(x, TT) for x in asked]))
    segs = seq_of(r)
    c.oblige('the duration is not modified', frozen_eq(ft, freeze(t)), 'frame')
    if not segs:
        c.oblige('nothing only when none is drawn', mk_cmp('=', n))
        return
    if len(segs) != 1 or not isinstance(segs[0], Gen) or not segs[0].inc or segs[0].filtered or not isinstance(segs[0].rep, P.flares.StellarFlare):
        raise Unsupported('shape of the series')
    g = segs[0]
    c.oblige('exactly the drawn number', feq(S.seg_count(g), n))
    for nm, cnt in holder['calls']:
        c.oblige(f'{nm} is asked for as many', feq(cnt, n))
    x, k = g.rep, (g.k,)
    seen = {nm for nm, _ in holder['calls']}

    def own(what, helper, q, want, base):
        if helper not in seen:
            raise Unsupported(f'{helper} is not used')
        c.oblige(what, mk_and(TRUE if has_kind(q, base) else FALSE, feq(si(q), want)))
    own('peak time: own multiple of the duration', 'get_peaks', x.tpeak, var('xpeak', *k, sign='nneg') * TT, U.s)
    own('own FWHM', 'gen_fwhm', x.fwhm, var('xfwhm', *k, sign='pos') * U.day.scale, U.s)
    own('own temperature', 'gen_teffs', x.Teff, var('xteff', *k), U.K)
    own('own latitude', 'gen_coords', x.lat, var('xlat', *k), U.rad)
    own('own longitude', 'gen_coords', x.lon, var('xlon', *k, sign='nneg'), U.rad)
    own('own energy', 'quantile_func', x.energy, var('xen', *k, sign='pos') * U.erg.scale, U.J)


@unit('C22', 'energies of a series are at least the minimum energy', [FG + 'generate_flare_series', FG + 'quantile_func'])
def energies(P, c):
    f, v = mk_flaregen(P, c)
    t, TT = qty('t', U.s, 'nneg')
    c.patch.set(P.flares.FlareGenerator, 'get_ntotal', lambda self, time: Sym(var('lam', sign='nneg')))
    c.patch.set(P.flares.FlareGenerator, 'get_peaks', lambda self, n: Array((V.dim_rat(n),), lambda ix: var('xpeak', *ix, sign='nneg')))
    r = f.generate_flare_series(t)
    segs = seq_of(r)
    if not segs:
        return
    if len(segs) != 1 or not isinstance(segs[0], Gen) or not segs[0].inc or segs[0].filtered or not isinstance(segs[0].rep, P.flares.StellarFlare):
        raise Unsupported('shape of the series')
    x = segs[0].rep
    # axiom instances: log(y) <= 0 for y in (0,1]
    for e in [e for e in c.events if e[0] == 'draw' and e[2] == 'random']:
        c.assume(mk_cmp('<=', f_log(RONE - var(e[5], segs[0].k, sign='nneg'))))
    c.oblige('an energy', TRUE if has_kind(x.energy, U.J) else FALSE)
    c.oblige('at least the minimum', fle(v['EM'], si(x.energy)))
    c.oblige('FWHM positive', mk_and(TRUE if has_kind(x.fwhm, U.s) else FALSE, flt(RZERO, si(x.fwhm))))
    c.oblige('longitude in [0,360) degrees', mk_and(fle(RZERO, si(x.lon)), flt(si(x.lon), PI * 2)))
    c.oblige('latitude in [-90,90] degrees', mk_and(fle(-PI / 2, si(x.lat)), fle(si(x.lat), PI / 2)))
    c.oblige('peak time not negative', fle(RZERO, si(x.tpeak)))
    for e in c.events:
        if e[0] == 'draw':
            c.oblige(f'{e[2]}: drawn from the own random generator', is_(e[1], f.rng))


@unit('C22', 'no flares when the minimum energy is infinite', [FG + 'generate_flare_series', FG + 'get_ntotal', FG + 'off'])
def off(P, c):
    t, TT = qty('t', U.s, 'nneg')
    f, v = mk_flaregen(P, c, emin=Quantity(float('inf'), U.erg))
    c.oblige('none', TRUE if not seq_of(f.generate_flare_series(t)) else FALSE)
    g = P.flares.FlareGenerator.off(rng=NP.Generator('r'))
    c.oblige('none when switched off', TRUE if not seq_of(g.generate_flare_series(t)) else FALSE)


def nvar():
    n = var('nflares', sign='pos', isint=True)
    return n, Sym(n, True), gp((n,))


def draws(c, rng, method):
    return [e for e in c.events if e[0] == 'draw' and e[2] == method and e[1] is rng]


@unit('C22', 'FWHMs are positive and log-normal as configured', [FG + 'gen_fwhm'])
def fwhm(P, c):
    f, v = mk_flaregen(P, c)
    n, N, p = nvar()
    fr = Frame(f, ('rng',))
    r = f.gen_fwhm(N)
    c.oblige('times', TRUE if has_kind(r, U.s) else FALSE)
    c.oblige('exactly n', same_shape(r, (n,)))
    c.oblige('positive', flt(RZERO, at(r, p)))
    fr.check(c, 'generator')
    d = draws(c, f.rng, 'normal')
    if len(d) != 1:
        raise Unsupported('other draws')
    z = var(d[0][5], *p)
    c.oblige('median x 10^(sigma z)', feq(at(r, p), v['FW'] * f_exp(f_log(rat(10)) * v['SIG'] * z)))


@unit('C22', 'temperatures are normal as configured', [FG + 'gen_teffs'])
def teffs(P, c):
    f, v = mk_flaregen(P, c)
    n, N, p = nvar()
    fr = Frame(f, ('rng',))
    r = f.gen_teffs(N)
    c.oblige('temperatures', TRUE if has_kind(r, U.K) else FALSE)
    c.oblige('exactly n', same_shape(r, (n,)))
    fr.check(c, 'generator')
    d = draws(c, f.rng, 'normal')
    if len(d) != 1:
        raise Unsupported('other draws')
    c.oblige('mean + sigma z', feq(at(r, p), v['TM'] + v['TS'] * var(d[0][5], *p)))


@unit('C22', 'coordinates are isotropic', [FG + 'gen_coords'])
def coords(P, c):
    f, v = mk_flaregen(P, c)
    n, N, p = nvar()
    fr = Frame(f, ('rng',))
    la, lo = f.gen_coords(N)
    c.oblige('angles', TRUE if has_kind(la, U.rad) and has_kind(lo, U.rad) else FALSE)
    c.oblige('exactly n', mk_and(same_shape(la, (n,)), same_shape(lo, (n,))))
    LA, LO = at(la, p), at(lo, p)
    c.oblige('longitude in [0,360) degrees', mk_and(fle(RZERO, LO), flt(LO, PI * 2)))
    c.oblige('latitude in [-90,90] degrees', mk_and(fle(-PI / 2, LA), fle(LA, PI / 2)))
    fr.check(c, 'generator')
    d = draws(c, f.rng, 'random')
    if len(d) != 2:
        raise Unsupported('other draws')
    a, b = [var(e[5], *p, sign='nneg') for e in d]
    U1 = lambda x: tmap(lambda t: f_sin(t), x)
    lon_from = lambda u_: mk_or(feq(LO, u_ * PI * 2))
    lat_from = lambda u_: mk_or(feq(U1(LA), u_ * 2 - 1), feq(U1(LA), RONE - u_ * 2))
    c.oblige('longitude and sine of the latitude are independent uniform variates', mk_or(mk_and(lon_from(a), lat_from(b)), mk_and(lon_from(b), lat_from(a))))
