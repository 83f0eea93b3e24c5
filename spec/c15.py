"""C15  facula wall and floor"""
from lib import *
from c12 import mk_fac
import c04


def overlap_tree(d, r):
    """the overlap fraction of C04: 0 if disjoint, 1 if contained, the lens area over the circle area otherwise"""
    L = c04.lens(d, r)
    return mk_ite(mk_cmp('>', d - 1 - r), RZERO, mk_ite(mk_cmp('<=', d - 1 + r), RONE, L))


def stub_overlap(P, c, mods):
    """callers of calc_circ_fraction_inside_unit_circle are checked against its contract (C04)"""
    def contract(x, y, r):
        if isinstance(x, Quantity) or isinstance(y, Quantity) or isinstance(r, Quantity):
            x, y, r = [z.to_value(U.dimensionless_unscaled) if isinstance(z, Quantity) else z for z in (x, y, r)]
        X, Y, R = as_rat(c, x), as_rat(c, y), as_rat(c, r)
        c.oblige('precondition of the overlap fraction: radius in (0,1]', mk_and(mk_cmp('>', R), mk_cmp('<=', R - 1)), 'precondition')
        d = f_sqrt(X * X + Y * Y)
        t = overlap_tree(d, R)
        c.assume(mk_and(fle(RZERO, t), fle(t, RONE)))
        return Sym(t)
    for m in mods:
        c.patch.set(m, 'calc_circ_fraction_inside_unit_circle', contract)


def as_rat(c, x):
    t = tree_of(x)
    while isinstance(t, T.Ite):
        t = t.a if c.decide(t.c) else t.b
    if not isinstance(t, Rat):
        raise Unsupported('argument of the overlap fraction is not a single expression')
    return t


def teffs(v):
    WD = v['WS'] * v['R0'] + v['WI']
    FD = (v['R0'] - v['MR']) * v['FS'] + v['FB']
    return WD, FD


def keys(d):
    return [k for k in d.keys()]


def setup(P, c, hi):
    f, v = mk_fac(P, c, True)
    a, A = qty('angle', U.rad, 'nneg')
    c.assume(hi(A))
    stub_overlap(P, c, [P.faculae])
    return f, v, a, A


def rounded(c, name, k, x):
    c.oblige(f'{name} is a temperature', TRUE if has_kind(k, U.K) else FALSE)
    c.oblige(f'{name} is within half a kelvin of the offset', mk_and(fle(tmap(lambda z: z - x, si(k)), rat(F(1, 2))), fle(tmap(lambda z: x - z, si(k)), rat(F(1, 2)))))
    c.oblige(f'{name} is a whole number of kelvin', feq(si(k), tmap(V.l_floor, si(k))))


@unit('C15', 'effective_area splits the projected area between wall and floor', ['faculae.Facula.effective_area', 'faculae.Facula.wall_dteff', 'faculae.Facula.floor_dteff', 'helpers.round_teff'])
def eff(P, c):
    f, v, a, A = setup(P, c, lambda A: mk_cmp('<', A - PI / 2))
    c.assume(mk_cmp('>', f_cos(A)))
    c.assume(mk_cmp('>=', f_sin(A)))
    WD, FD = teffs(v)
    c.assume(mk_not(mk_cmp('=', WD - FD)))
    fr = Frame(f)
    d = f.effective_area(a)
    ks = keys(d)
    proj = PI * v['R0'] * v['R0'] * f_cos(A)
    c.oblige('one or two regions', TRUE if len(ks) in (1, 2) else FALSE)
    rounded(c, 'the wall key', ks[0], WD)
    rounded(c, 'the floor key', ks[-1], FD)
    areas = [d[k] for k in ks]
    for i, x in enumerate(areas):
        c.oblige(f'area {i} is an area', TRUE if has_kind(x, U.m ** 2) else FALSE)
        c.oblige(f'area {i} is not negative', fle(RZERO, si(x)))
    tot = si(areas[0]) if len(ks) == 1 else tmap(lambda x, y: x + y, si(areas[0]), si(areas[1]))
    c.oblige('wall and floor add up to the projected area', feq(tot, proj))
    if len(ks) == 2:
        D = v['DP'] / v['R0'] * f_sin(A) / f_cos(A)
        ov = overlap_tree(f_sqrt(D * D), RONE)
        small = mk_cmp('<', v['R0'] - v['MR'])
        c.oblige('a facula below the minimum floor radius is all wall', mk_implies(small, feq(si(areas[1]), RZERO)))
        c.oblige('the floor is the overlap of the rim and the displaced floor circle', mk_implies(mk_not(small), feq(si(areas[1]), tmap(lambda z: z * proj, ov))))
    fr.check(c, 'effective_area')


@unit('C15', 'equal wall and floor offsets are rejected', ['faculae.Facula.effective_area'])
def reject(P, c):
    f, v, a, A = setup(P, c, lambda A: mk_cmp('<', A - PI / 2))
    WD, FD = teffs(v)
    c.assume(mk_cmp('=', WD - FD))
    expect_raise(c, 'error raised', Exception, lambda: f.effective_area(a))


for _lo in (True, False):
    def _mk(lo):
        def frac(P, c):
            f, v, a, A = setup(P, c, (lambda A: mk_cmp('<', A - PI / 2)) if lo else (lambda A: mk_and(mk_cmp('>', A - PI / 2), mk_cmp('<=', A - PI))))
            c.note('the angle of exactly 90 degrees (cosine exactly zero) does not occur in floating point and is left to the bounded stand-in')
            c.assume(mk_cmp('>' if lo else '<', f_cos(A)))
            c.assume(mk_cmp('>=', f_sin(A)))
            WD, FD = teffs(v)
            c.assume(mk_not(mk_cmp('=', WD - FD)))
            fr = Frame(f)
            d = f.fractional_effective_area(a)
            ks = keys(d)
            c.oblige('one or two regions', TRUE if len(ks) in (1, 2) else FALSE)
            rounded(c, 'the wall key', ks[0], WD)
            rounded(c, 'the floor key', ks[-1], FD)
            for k in ks:
                c.oblige('fraction is dimensionless', TRUE if has_kind(d[k], U.dimensionless_unscaled) else FALSE)
                c.oblige('fraction in [0,1]', mk_and(fle(RZERO, si(d[k])), fle(si(d[k]), RONE)))
            tot = si(d[ks[0]]) if len(ks) == 1 else tmap(lambda x, y: x + y, si(d[ks[0]]), si(d[ks[1]]))
            c.oblige('fractions add up to one', feq(tot, RONE))
            if len(ks) == 2:
                D = v['DP'] / v['R0'] * f_sin(A) / f_cos(A)
                ov = overlap_tree(f_sqrt(D * D), RONE)
                small = mk_cmp('<', v['R0'] - v['MR'])
                c.oblige('floor share', feq(si(d[ks[1]]), mk_ite(small, RZERO, ov)))
            fr.check(c, 'fractional_effective_area')
        return frac
    unit('C15', f"fractional areas are shares of one ({'below' if _lo else 'above'} 90 degrees)", ['faculae.Facula.fractional_effective_area', 'faculae.Facula.effective_area'])(_mk(_lo))


@unit('C15', 'temperature offsets are linear in the radius', ['faculae.Facula.wall_dteff', 'faculae.Facula.floor_dteff'])
def offsets(P, c):
    f, v = mk_fac(P, c, True)
    WD, FD = teffs(v)
    c.oblige('wall offset', feq(si(f.wall_dteff), WD))
    c.oblige('floor offset', feq(si(f.floor_dteff), FD))
    c.oblige('in kelvin', TRUE if f.wall_dteff.unit == U.K and f.floor_dteff.unit == U.K else FALSE)
