"""C01  the reported fractions are a complete budget"""
from cov import *

for _two in (False, True):
    for _bool in (False, True):
        def _mk(two, boolm, again=False):
            def budget(P, c):
                sc = Scene(P, c, two, boolm)
                sc.nonneg_ld()
                W = sc.total_weight()
                c.assume(mk_cmp('>', W))
                if again:
                    sc.earlier()
                tot, cov, pl = sc.call()
                c.oblige('the fractions add up to one', feq(total(tot), RONE))
                has = lambda K: (lambda ix: ind(V.as_form(VDict.keq(sc.label(sc.tmap(ix)), K))) * sc.weight(ix))
                for K in (sc.label(sc.T0), sc.label(sc.T0 - sc.D), generic_label()):
                    sum_nonneg(c, sc, 'light of the pixels of one label is non-negative', has(K))
                L = generic_label()
                c.oblige('every fraction is non-negative', fle(RZERO, gen_at(tot, L)))
                for i, (k, v) in enumerate(tot.items_):
                    c.oblige('photosphere and granulation fractions are non-negative', fle(RZERO, tree_of(v)))
            unit('C01', f"budget ({'two-dimensional' if two else 'one-dimensional'} grid, {'boolean' if boolm else 'numeric'} mask{', after an earlier call from anywhere' if again else ''})", FN)(budget)
        _mk(_two, _bool)
_mk(False, False, True)
