"""C19  flare energies"""
from lib import *

FL = 'flares.FlareGenerator.'
ERG = rat(F(1, 10 ** 7))


def mk_flaregen(P, c, tag='', emin=None, **kw):
    tm, TM = qty('fteff' + tag, U.K, 'pos', False)
    ts, TS = qty('fteffs' + tag, U.K, 'nneg', False)
    fw, FW = qty('ffwhm' + tag, U.s, 'pos')
    if emin is None:
        em, EM = qty('emin' + tag, U.J, 'pos')
    else:
        em, EM = emin, None
    al = num('alpha' + tag)
    AL = var('alpha' + tag)
    c.assume(mk_cmp('<', AL))
    be = num('beta' + tag)
    f = P.flares.FlareGenerator(tm, ts, fw, num('fsig' + tag, 'nneg'), alpha=al, beta=be, min_energy=em, cluster_size=kw.get('cluster', 2), rng=kw.get('rng') or NP.Generator('flrng' + tag))
    return f, dict(TM=TM, TS=TS, FW=FW, EM=EM, AL=AL, BE=var('beta' + tag), SIG=var('fsig' + tag, sign='nneg'))


def pw(x, e):
    return f_exp(e * f_log(x))


def plain(c, x, what):
    c.oblige(f'{what} is a plain number', TRUE if not isinstance(x, Quantity) else FALSE)
    return tr(x)


@unit('C19', 'cdf is that of the power law, and pdf is its derivative', [FL + 'cdf', FL + 'pdf'])
def cdf(P, c):
    f, v = mk_flaregen(P, c)
    fr = Frame(f)
    e, E = qty('energy', U.J, 'pos')
    g = plain(c, f.cdf(e), 'cdf')
    c.oblige('cdf of the power law', feq(g, RONE - pw(E, v['AL']) / pw(v['EM'], v['AL'])))
    d = plain(c, f.pdf(e), 'pdf')
    if isinstance(g, Rat):
        # per erg: derivative with respect to energy in J, times J per erg
        c.oblige('pdf is the derivative of cdf, per erg', feq(d, deriv(g, E) * ERG))
    c.oblige('density of the power law', feq(d, -v['AL'] / E * pw(E, v['AL']) / pw(v['EM'], v['AL']) * ERG))
    c.oblige('pdf is not negative', fle(RZERO, d))
    fr.check(c, 'cdf/pdf')


@unit('C19', 'quantile_func maps [0,1) to energies above the minimum and is inverse to cdf', [FL + 'quantile_func', FL + 'cdf'])
def quantile(P, c):
    f, v = mk_flaregen(P, c)
    n = var('nX', sign='pos', isint=True)
    X = Array((n,), lambda ix: var('X', *ix))
    c.families['X'] = lambda k: [mk_cmp('>=', var('X', k)), mk_cmp('<', var('X', k) - 1)]
    q = f.quantile_func(X)
    p = gp((n,))
    x = var('X', *p)
    c.oblige('an energy', TRUE if has_kind(q, U.J) else FALSE)
    c.oblige('one per variable', same_shape(q, (n,)))
    e = at(q, p)
    c.oblige('quantile of the power law', feq(e, v['EM'] * pw(RONE - x, v['AL'].inv())))
    c.assume(mk_cmp('<=', f_log(RONE - x)))     # axiom instance: log(y) <= 0 for y in (0,1]
    c.oblige('never below the minimum energy', fle(v['EM'], e))
    g = f.cdf(q)
    c.oblige('cdf of the quantile', feq(at(g, p), x))


@unit('C19', 'quantiles increase with the variable', [FL + 'quantile_func'], kind='lemma over the real code')
def increasing(P, c):
    f, v = mk_flaregen(P, c)
    x, y = num('X1', 'nneg'), num('X2', 'nneg')
    A, B = var('X1', sign='nneg'), var('X2', sign='nneg')
    c.assume(mk_and(mk_cmp('<', A - B), mk_cmp('<', B - 1), mk_cmp('<', A - 1)))
    a, b = f.quantile_func(x), f.quantile_func(y)
    p = (RZERO,)
    c.assume(mk_cmp('<', f_log(RONE - B) - f_log(RONE - A)))     # axiom instance: log is strictly increasing
    c.oblige('increasing', flt(at(a, p), at(b, p)))


@unit('C19', 'quantile_func is inverse to cdf the other way round', [FL + 'quantile_func', FL + 'cdf'], kind='lemma over the real code')
def inverse(P, c):
    f, v = mk_flaregen(P, c)
    e, E = qty('energy', U.J, 'pos')
    c.assume(mk_cmp('>=', E - v['EM']))
    c.assume(mk_cmp('>=', f_log(E) - f_log(v['EM'])))     # axiom instance: log is increasing
    g = f.cdf(e)
    G = tr(g)
    c.oblige('cdf in [0,1)', mk_and(fle(RZERO, G), flt(G, RONE)))
    q = f.quantile_func(g)
    c.oblige('quantile of the cdf', feq(at(q, (RZERO,)), E))


@unit('C19', 'variables outside [0,1) are rejected', [FL + 'quantile_func'])
def reject(P, c):
    f, v = mk_flaregen(P, c)
    n = var('nX', sign='pos', isint=True)
    k = gp((n,))[0]
    X = Array((n,), lambda ix: var('X', *ix))
    c.assume(mk_or(mk_cmp('<', var('X', k)), mk_cmp('>=', var('X', k) - 1)))
    expect_raise(c, 'error raised', Exception, lambda: f.quantile_func(X))


@unit('C19', 'variables outside [0,1) are rejected (scalar)', [FL + 'quantile_func'])
def reject1(P, c):
    f, v = mk_flaregen(P, c)
    x = num('X1')
    c.assume(mk_or(mk_cmp('<', var('X1')), mk_cmp('>=', var('X1') - 1)))
    expect_raise(c, 'error raised', Exception, lambda: f.quantile_func(x))


@unit('C19', 'expected numbers follow the frequency law and are consistent with the cdf', [FL + 'frequency_greater_than', FL + 'get_nexp_greater_than', FL + 'get_ntotal', FL + 'cdf'])
def rates(P, c):
    f, v = mk_flaregen(P, c)
    e, E = qty('energy', U.J, 'pos')
    t, TT = qty('t', U.s, 'nneg')
    fr = Frame(f)
    n = plain(c, f.get_nexp_greater_than(e, t), 'expected number')
    law = pw(rat(10), v['BE']) * pw(E / ERG, v['AL']) * TT / DAY
    c.oblige('10^beta E^alpha per day', feq(n, law))
    q = f.frequency_greater_than(e)
    c.oblige('frequency', mk_and(TRUE if has_kind(q, U.s ** -1) else FALSE, feq(si(q), pw(rat(10), v['BE']) * pw(E / ERG, v['AL']) / DAY)))
    nt = plain(c, f.get_ntotal(t), 'total number')
    c.oblige('total is the number above the minimum energy', feq(nt, pw(rat(10), v['BE']) * pw(v['EM'] / ERG, v['AL']) * TT / DAY))
    c.oblige('total x (1 - cdf) is the number above', feq(tmap(lambda a, b: a * (RONE - b), nt, tr(f.cdf(e))), n))
    fr.check(c, 'rates')


@unit('C19', 'no flares when the minimum energy is infinite', [FL + 'get_ntotal', FL + 'off'])
def off(P, c):
    t, TT = qty('t', U.s, 'nneg')
    f, v = mk_flaregen(P, c, emin=Quantity(float('inf'), U.erg))
    c.oblige('zero', feq(tr(f.get_ntotal(t)), RZERO))
    g = P.flares.FlareGenerator.off(rng=NP.Generator('r'))
    c.oblige('zero when switched off', feq(tr(g.get_ntotal(t)), RZERO))
