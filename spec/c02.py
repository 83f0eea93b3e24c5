"""C02  each disk fraction is the visible weighted area at its temperature"""
from cov import *

for _two in (False, True):
    for _bool in (False, True):
        def _mk(two, boolm, again=False):
            def frac(P, c):
                sc = Scene(P, c, two, boolm)
                W = sc.total_weight()
                c.assume(mk_cmp('>', W))
                if again:
                    sc.earlier()
                tot, cov, pl = sc.call()
                KT, KG = sc.label(sc.T0), sc.label(sc.T0 - sc.D)
                g = sc.gf.t
                eq = c.decide(V.as_form(VDict.keq(KT, KG)))
                L = generic_label()
                for k in (KT, KG):  # labels of the photosphere and of the granulation: the cases of their own
                    c.assume(mk_not(V.as_form(VDict.keq(L, k))))
                c.oblige('the visible fraction of the planet is passed on', same(tree_of(pl), sc.plf.t))
                for nm, table, w in (('total', tot, sc.weight), ('occulted', cov, lambda ix: sc.weight(ix) * sc.cov(ix))):
                    base = lambda K: sc.sum(lambda ix: ind(V.as_form(VDict.keq(sc.label(sc.tmap(ix)), K))) * w(ix)) / W
                    q = base(KT)
                    if eq:
                        c.oblige(f'{nm}: photosphere (granulation of the same label)', feq(lookup(table, KT), q))
                    else:
                        c.oblige(f'{nm}: photosphere keeps the share 1-g of its light', feq(lookup(table, KT), q * (RONE - g)))
                        c.oblige(f'{nm}: granulation gets the share g of the photosphere on top of its own', feq(lookup(table, KG), base(KG) + q * g))
                    c.oblige(f'{nm}: the entry of any other label is its share of the light', feq(lookup(table, L), base(L)))
            unit('C02', f"table entries ({'two-dimensional' if two else 'one-dimensional'} grid, {'boolean' if boolm else 'numeric'} mask{', after an earlier call from anywhere' if again else ''})", FN)(frac)
        _mk(_two, _bool)
_mk(False, False, True)


@unit('C02', 'limb darkening and projection by definition', ['star.Star.ld_mask_for_plotting', 'star.Star.area_projection_coefficient', 'star.Star.get_mu', 'star.Star.get_jacobian'])
def laws(P, c):
    sc = Scene(P, c)
    mu = sc.star.get_mu(sc.coords['lat'], sc.coords['lon'])
    p = gp(sc.st)
    c.oblige('cosine of the angle from the disk center', feq(at(mu, p), sc.mu(p)))
    ap = sc.star.area_projection_coefficient(mu)
    ld = sc.star.ld_mask_for_plotting(sc.star.get_mu(sc.coords['lat'], sc.coords['lon']))
    c.oblige('projection coefficient: positive part of the cosine', feq(at(ap, p), mk_ite(mk_cmp('>', sc.mu(p)), sc.mu(p), RZERO)))
    c.oblige('limb darkening law on the disk', mk_implies(mk_cmp('>', sc.mu(p)), feq(at(ld, p), sc.ld(p))))
    c.oblige('nothing from the far side', mk_implies(mk_cmp('<', sc.mu(p)), feq(at(ld, p), RZERO)))
    c.oblige('pixel areas of the grid', feq(at(sc.star.get_jacobian(), p), var('garea', *p, sign='nneg')))
