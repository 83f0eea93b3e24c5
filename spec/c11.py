"""C11  spot aging"""
from lib import *


def mk_spot(P, c, growing, tag='', anyunit=True, grid=None, static=False, bounded=True):
    MSH = P.config.MSH
    am, AM = qty('area_max' + tag, U.m ** 2, 'pos', anyunit)
    a0, A0 = qty('area0' + tag, U.m ** 2, 'pos' if growing else 'nneg', anyunit)
    g, G = qty('growth' + tag, U.s ** -1, 'nneg', anyunit)
    d, D = qty('decay' + tag, U.m ** 2 / U.s, 'nneg', anyunit)
    lat, _ = angle('slat' + tag, anyunit)
    lon, _ = angle('slon' + tag, anyunit)
    if bounded:
        c.assume(fle(A0, AM))
    g_ = grid or mk_grid(P, c)
    s = P.spots.StarSpot(lat, lon, am, a0, qty('tu' + tag, U.K, 'pos', False)[0], qty('tp' + tag, U.K, 'pos', False)[0],
                         area_over_umbra_area=num('ratio' + tag, 'pos'), is_growing=growing, growth_rate=g, decay_rate=d, gridmaker=g_)
    return s, dict(AM=AM, A0=A0, G=G, D=D)


def law(c, growing, v, t):
    """the documented law -> (area tree, growing Form) after time t (SI)"""
    AM, A0, G, D = v['AM'], v['A0'], v['G'], v['D']
    if not growing:
        return tmax(A0 - D * t, RZERO), FALSE
    tau = f_log(G * DAY + 1)
    return tau, None


def growth_area(v, t):
    return v['A0'] * f_exp(f_log(v['G'] * DAY + 1) * t / DAY)


def t_max(v):
    return (f_log(v['AM']) - f_log(v['A0'])) / f_log(v['G'] * DAY + 1) * DAY


@unit('C11', 'StarSpot.age on a growing spot follows the growth-then-decay law', ['spots.StarSpot.age', 'spots.StarSpot.__init__'])
def grow(P, c):
    s, v = mk_spot(P, c, True)
    t, TT = qty('t', U.s, 'nneg')
    fr = Frame(s)
    ft = freeze(t)
    s.age(t)
    A = si(s.area_current)
    g0 = mk_cmp('=', v['G'])
    pos = mk_cmp('>', v['G'])
    c.oblige('area stays an area', TRUE if has_kind(s.area_current, U.m ** 2) else FALSE)
    c.oblige('growing flag stays a bool', TRUE if isinstance(s.is_growing, (bool, SymBool)) else FALSE)
    gr = as_form(s.is_growing)
    # no growth: nothing happens
    c.oblige('a spot with zero growth rate keeps its area and goes on growing', mk_implies(g0, mk_and(gr, feq(A, v['A0']))))
    if c.entails(g0):
        return
    c.assume(pos)
    tm = t_max(v)
    before = mk_cmp('<', TT - tm)
    c.oblige('still growing exactly before the maximum is reached', mk_iff(gr, before))
    c.oblige('exponential growth before the maximum', mk_implies(before, feq(A, growth_area(v, TT))))
    c.oblige('linear decay to zero after the maximum', mk_implies(mk_not(before), feq(A, tmax(v['AM'] - v['D'] * (TT - tm), RZERO))))
    c.oblige('area is non-negative', fle(RZERO, A))
    c.oblige('area never exceeds the maximum area', fle(A, v['AM']))
    fr.check(c, 'age', ('area_current', 'is_growing'))
    c.oblige('the time argument is not modified', frozen_eq(ft, freeze(t)), 'frame')


@unit('C11', 'StarSpot.age on a decaying spot follows the decay law', ['spots.StarSpot.age'])
def decay(P, c):
    s, v = mk_spot(P, c, False)
    t, TT = qty('t', U.s, 'nneg')
    fr = Frame(s)
    s.age(t)
    A = si(s.area_current)
    c.oblige('a decaying spot never grows again', mk_not(as_form(s.is_growing)))
    c.oblige('linear decay that stops at zero', feq(A, tmax(v['A0'] - v['D'] * TT, RZERO)))
    c.oblige('area is non-negative', fle(RZERO, A))
    c.oblige('area never exceeds the maximum area', fle(A, v['AM']))
    fr.check(c, 'age', ('area_current', 'is_growing'))


@unit('C11', 'aging by t1 then t2 equals aging by t1+t2 (growing spot)', ['spots.StarSpot.age'], kind='lemma over the real code')
def split_grow(P, c):
    g = mk_grid(P, c)
    s1, v = mk_spot(P, c, True, grid=g)
    s2, _ = mk_spot(P, c, True, grid=g)
    c.assume(mk_cmp('>', v['G']))
    a, A = qty('t1', U.s, 'nneg')
    b, B = qty('t2', U.s, 'nneg')
    s1.age(a)
    s1.age(b)
    s2.age(a + b)
    c.oblige('same growing flag', mk_iff(as_form(s1.is_growing), as_form(s2.is_growing)))
    c.oblige('same area', feq(si(s1.area_current), si(s2.area_current)))


@unit('C11', 'aging by t1 then t2 equals aging by t1+t2 (decaying spot)', ['spots.StarSpot.age'], kind='lemma over the real code')
def split_decay(P, c):
    g = mk_grid(P, c)
    s1, v = mk_spot(P, c, False, grid=g)
    s2, _ = mk_spot(P, c, False, grid=g)
    a, A = qty('t1', U.s, 'nneg')
    b, B = qty('t2', U.s, 'nneg')
    s1.age(a)
    s1.age(b)
    s2.age(a + b)
    c.oblige('same growing flag', mk_iff(as_form(s1.is_growing), as_form(s2.is_growing)))
    c.oblige('same area', feq(si(s1.area_current), si(s2.area_current)))
