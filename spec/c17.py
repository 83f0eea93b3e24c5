"""C17  birth rates"""
from lib import *


def mk_spotgen(P, c, static=False, tag='', anyunit=True, grid=None, growing=True, dist='iso', **kw):
    am, AM = qty('dist_area' + tag, U.m ** 2, 'pos', anyunit)
    a0, A0 = qty('init_area' + tag, U.m ** 2, 'pos', anyunit)
    if growing:
        g, G = qty('sgrowth' + tag, U.s ** -1, 'pos', anyunit)
    else:
        g, G = qty('sgrowth' + tag, U.s ** -1, 'nneg', anyunit)
    if static:
        d, D = Quantity(0, U.m ** 2 / U.day), RZERO
    else:
        d, D = qty('sdecay' + tag, U.m ** 2 / U.s, 'pos', anyunit)
    tu, TU = qty('gtu' + tag, U.K, 'pos', False)
    tp, TP = qty('gtp' + tag, U.K, 'pos', False)
    cov = num('coverage' + tag, 'nneg')
    sg = num('logsigma' + tag, 'nneg')
    g_ = grid or mk_grid(P, c)
    s = P.spots.SpotGenerator(am, sg, tu, tp, growth_rate=g, decay_rate=d, init_area=a0, distribution=dist, coverage=cov, gridmaker=g_,
                              rng=kw.get('rng') or NP.Generator('rng' + tag))
    return s, dict(AM=AM, A0=A0, G=G, D=D, TU=TU, TP=TP, COV=var('coverage' + tag, sign='nneg'), SG=var('logsigma' + tag, sign='nneg'))


def mk_facgen(P, c, tag='', anyunit=True, grid=None, **kw):
    rp, RP = qty('dist_r' + tag, U.m, 'pos', anyunit)
    dp, DP = qty('fdepth' + tag, U.m, 'nneg', anyunit)
    lt, LT = qty('dist_life' + tag, U.s, 'pos', anyunit)
    fs, FS = qty('gfloor_slope' + tag, U.K / U.m, 'any', anyunit)
    mr, MR = qty('gfloor_min' + tag, U.m, 'nneg', anyunit)
    fb, FB = qty('gfloor_base' + tag, U.K, 'any', False)
    ws, WS = qty('gwall_slope' + tag, U.K / U.m, 'any', anyunit)
    wi, WI = qty('gwall_int' + tag, U.K, 'any', False)
    g_ = grid or mk_grid(P, c)
    f = P.faculae.FaculaGenerator(dist_r_peak=rp, dist_r_logsigma=num('rsig' + tag, 'nneg'), depth=dp, dist_life_peak=lt, dist_life_logsigma=num('lsig' + tag, 'nneg'),
                                  floor_teff_slope=fs, floor_teff_min_rad=mr, floor_teff_base_dteff=fb, wall_teff_slope=ws, wall_teff_intercept=wi,
                                  coverage=num('fcoverage' + tag, 'nneg'), dist='iso', gridmaker=g_, rng=kw.get('rng') or NP.Generator('frng' + tag))
    return f, dict(RP=RP, DP=DP, LT=LT, FS=FS, MR=MR, FB=FB, WS=WS, WI=WI, COV=var('fcoverage' + tag, sign='nneg'), RS=var('rsig' + tag, sign='nneg'), LS=var('lsig' + tag, sign='nneg'))


def val(x):
    return si(x)


@unit('C17', 'spots: expected births sustain the coverage', ['spots.SpotGenerator.get_n_spots_to_birth', 'spots.SpotGenerator.mean_area', 'spots.SpotGenerator.mean_lifetime'])
def spots(P, c):
    s, v = mk_spotgen(P, c)
    c.assume(mk_cmp('<=', v['A0'] - v['AM']))
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    fr = Frame(s)
    n = s.get_n_spots_to_birth(t, R)
    c.oblige('a plain number', TRUE if not isinstance(n, Quantity) else FALSE)
    life = v['AM'] / v['D'] + (f_log(v['AM']) - f_log(v['A0'])) / v['G']
    area = ((v['AM'] - v['A0']) / v['G'] + v['AM'] * v['AM'] / (v['D'] * 2)) / life
    ml, ma = s.mean_lifetime, s.mean_area
    c.oblige('mean lifetime is a time', TRUE if has_kind(ml, U.s) else FALSE)
    c.oblige('mean area is an area', TRUE if has_kind(ma, U.m ** 2) else FALSE)
    c.oblige('mean lifetime is the duration of growth plus decay', feq(si(ml), life))
    c.oblige('mean lifetime is positive', flt(RZERO, si(ml)))
    c.oblige('mean area is the time average of the area over the life of the spot', feq(si(ma), area))
    c.oblige('mean area is positive', flt(RZERO, si(ma)))
    x = v['A0'] / v['AM']
    c.assume(mk_cmp('<=', f_log(v['A0']) - f_log(v['AM']) - x + 1))     # axiom instance: log(x) <= x - 1 for x > 0
    c.oblige('mean area does not exceed the peak area', fle(si(ma), v['AM']))
    lhs = tmap(lambda a, b, d: a * b * d, tr(n), si(ma), si(ml))
    c.oblige('births x mean area x mean lifetime = coverage x surface x time', feq(lhs, v['COV'] * PI * 4 * RR * RR * TT))
    c.oblige('not negative', fle(RZERO, tr(n)))
    fr.check(c, 'rates')


@unit('C17', 'spots: births are proportional to time and coverage and vanish with them', ['spots.SpotGenerator.get_n_spots_to_birth'], kind='lemma over the real code')
def prop(P, c):
    s, v = mk_spotgen(P, c)
    c.assume(mk_cmp('<=', v['A0'] - v['AM']))
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    k, kk = num('k', 'nneg'), var('k', sign='nneg')
    n = s.get_n_spots_to_birth(t, R)
    n2 = s.get_n_spots_to_birth(t * k, R)
    c.oblige('proportional to time', feq(tr(n2), tmap(lambda a: a * kk, tr(n))))
    s.coverage = s.coverage * k
    n3 = s.get_n_spots_to_birth(t, R)
    c.oblige('proportional to coverage', feq(tr(n3), tmap(lambda a: a * kk, tr(n))))
    s.coverage = 0
    c.oblige('zero for zero coverage', feq(tr(s.get_n_spots_to_birth(t, R)), RZERO))


@unit('C17', 'spots: a static generator gives birth to nothing', ['spots.SpotGenerator.get_n_spots_to_birth', 'spots.SpotGenerator.is_static', 'spots.SpotGenerator.mean_area', 'spots.SpotGenerator.mean_lifetime'])
def static(P, c):
    s, v = mk_spotgen(P, c, static=True, growing=False)
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    c.oblige('is static', as_form(s.is_static))
    c.oblige('mean area is the peak area', feq(si(s.mean_area), v['AM']))
    c.oblige('mean lifetime is infinite', feq(si(s.mean_lifetime), PINF))
    c.oblige('zero', feq(tr(s.get_n_spots_to_birth(t, R)), RZERO))


@unit('C17', 'spots: static exactly when the decay rate is zero', ['spots.SpotGenerator.is_static'])
def isstatic(P, c):
    s, v = mk_spotgen(P, c)
    d, D = qty('dr', U.m ** 2 / U.s, 'nneg')
    s.decay_rate = d
    c.oblige('iff', mk_iff(as_form(s.is_static), mk_cmp('=', D)))


@unit('C17', 'spots: a generator switched off gives birth to nothing', ['spots.SpotGenerator.off', 'spots.SpotGenerator.get_n_spots_to_birth'])
def off(P, c):
    s = P.spots.SpotGenerator.off(gridmaker=mk_grid(P, c), rng=NP.Generator('r'))
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    c.oblige('zero', feq(tr(s.get_n_spots_to_birth(t, R)), RZERO))


@unit('C17', 'faculae: expected births sustain the coverage', ['faculae.FaculaGenerator.get_n_faculae_expected', 'faculae.FaculaGenerator.mean_area'])
def fac(P, c):
    s, v = mk_facgen(P, c)
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    fr = Frame(s)
    n = s.get_n_faculae_expected(t, R)
    c.oblige('a plain number', TRUE if not isinstance(n, Quantity) else FALSE)
    ma = s.mean_area
    # facula radius r0 e^{-2|x|/tau} for |x| < tau: mean of pi r^2 over the life 2 tau
    area = PI * v['RP'] * v['RP'] * (RONE - f_exp(rat(-2))) / 2
    c.oblige('mean area is an area', TRUE if has_kind(ma, U.m ** 2) else FALSE)
    c.oblige('mean area as documented', feq(si(ma), area))
    c.oblige('mean area does not exceed the peak area', fle(si(ma), PI * v['RP'] * v['RP']))
    c.oblige('births x mean area x mean lifetime = coverage x surface x time', feq(tmap(lambda a, b: a * b * v['LT'] * 2, tr(n), si(ma)), v['COV'] * PI * 4 * RR * RR * TT))
    c.oblige('not negative', fle(RZERO, tr(n)))
    fr.check(c, 'rates')


@unit('C17', 'faculae: births are proportional to time and coverage and vanish with them', ['faculae.FaculaGenerator.get_n_faculae_expected', 'faculae.FaculaGenerator.off'], kind='lemma over the real code')
def fprop(P, c):
    s, v = mk_facgen(P, c)
    t, TT = qty('t', U.s, 'nneg')
    R, RR = qty('rstar', U.m, 'pos')
    k, kk = num('k', 'nneg'), var('k', sign='nneg')
    n = s.get_n_faculae_expected(t, R)
    c.oblige('proportional to time', feq(tr(s.get_n_faculae_expected(t * k, R)), tmap(lambda a: a * kk, tr(n))))
    s.coverage = s.coverage * k
    c.oblige('proportional to coverage', feq(tr(s.get_n_faculae_expected(t, R)), tmap(lambda a: a * kk, tr(n))))
    o = P.faculae.FaculaGenerator.off(gridmaker=mk_grid(P, c), rng=NP.Generator('r'))
    c.oblige('zero when switched off', feq(tr(o.get_n_faculae_expected(t, R)), RZERO))
