"""C12  facula aging"""
from lib import *


def mk_fac(P, c, growing, tag='', anyunit=True, grid=None, teffs=True):
    rm, RM = qty('r_max' + tag, U.m, 'pos', anyunit)
    r0, R0 = qty('r_init' + tag, U.m, 'pos', anyunit)
    dp, DP = qty('depth' + tag, U.m, 'nneg', anyunit)
    lt, LT = qty('lifetime' + tag, U.s, 'pos', anyunit)
    fs, FS = qty('floor_slope' + tag, U.K / U.m, 'any', anyunit)
    mr, MR = qty('floor_min_rad' + tag, U.m, 'nneg', anyunit)
    fb, FB = qty('floor_base' + tag, U.K, 'any', False)
    ws, WS = qty('wall_slope' + tag, U.K / U.m, 'any', anyunit)
    wi, WI = qty('wall_intercept' + tag, U.K, 'any', False)
    lat, LA = angle('flat' + tag, anyunit)
    lon, LO = angle('flon' + tag, anyunit)
    c.assume(fle(R0, RM))
    g_ = grid or mk_grid(P, c)
    f = P.faculae.Facula(lat, lon, rm, r0, dp, lt, fs, mr, fb, ws, wi, growing=growing, gridmaker=g_)
    return f, dict(RM=RM, R0=R0, DP=DP, LT=LT, FS=FS, MR=MR, FB=FB, WS=WS, WI=WI, LA=LA, LO=LO)


@unit('C12', 'Facula.age on a growing facula follows the law', ['faculae.Facula.age', 'faculae.Facula.__init__'])
def grow(P, c):
    f, v = mk_fac(P, c, True)
    t, TT = qty('t', U.s, 'nneg')
    fr = Frame(f)
    ft = freeze(t)
    f.age(t)
    R = si(f.radius)
    c.oblige('radius stays a length', TRUE if has_kind(f.radius, U.m) else FALSE)
    gr = as_form(f.is_growing)
    tm = (f_log(v['RM']) - f_log(v['R0'])) * v['LT'] / 2
    before = mk_cmp('<', TT - tm)
    c.oblige('growing exactly before the maximum is reached', mk_iff(gr, before))
    c.oblige('exponential growth before the maximum', mk_implies(before, feq(R, v['R0'] * f_exp(TT * 2 / v['LT']))))
    c.oblige('exponential decay after the maximum', mk_implies(mk_not(before), feq(R, v['RM'] * f_exp(-(TT - tm) * 2 / v['LT']))))
    c.oblige('radius is positive', flt(RZERO, R))
    c.oblige('radius never exceeds the maximum', fle(R, v['RM']))
    fr.check(c, 'age', ('radius', 'is_growing'))
    c.oblige('the time argument is not modified', frozen_eq(ft, freeze(t)), 'frame')


@unit('C12', 'Facula.age on a decaying facula follows the law', ['faculae.Facula.age'])
def decay(P, c):
    f, v = mk_fac(P, c, False)
    t, TT = qty('t', U.s, 'nneg')
    fr = Frame(f)
    ft = freeze(t)
    f.age(t)
    R = si(f.radius)
    c.oblige('a decaying facula never grows again', mk_not(as_form(f.is_growing)))
    c.oblige('exponential decay', feq(R, v['R0'] * f_exp(-TT * 2 / v['LT'])))
    c.oblige('radius is positive', flt(RZERO, R))
    c.oblige('radius never exceeds the maximum', fle(R, v['RM']))
    fr.check(c, 'age', ('radius', 'is_growing'))
    c.oblige('the time argument is not modified', frozen_eq(ft, freeze(t)), 'frame')


for _gr, _nm in ((True, 'growing'), (False, 'decaying')):
    def _mk(gr):
        def split(P, c):
            g = mk_grid(P, c)
            s1, v = mk_fac(P, c, gr, grid=g)
            s2, _ = mk_fac(P, c, gr, grid=g)
            a, A = qty('t1', U.s, 'nneg')
            b, B = qty('t2', U.s, 'nneg')
            s1.age(a)
            s1.age(b)
            s2.age(a + b)
            c.oblige('same growing flag', mk_iff(as_form(s1.is_growing), as_form(s2.is_growing)))
            c.oblige('same radius', feq(si(s1.radius), si(s2.radius)))
        return split
    unit('C12', f'aging by t1 then t2 equals aging by t1+t2 ({_nm} facula)', ['faculae.Facula.age'], kind='lemma over the real code')(_mk(_gr))
