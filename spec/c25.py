"""C25  bolometric mean"""
from cov import *

AV = ['star.Star.average_teff']


def setup(P, c, entries):
    """calc_coverage by the contracts of C01/C02: a table of non-negative fractions"""
    star = P.star.Star.__new__(P.star.Star)
    la, lo = angle('lat0')[0], angle('lon0')[0]
    coords = VDict([('lat', la), ('lon', lo)])
    calls = []

    def calc(self, sub_obs_coords, *a, **k):
        if a or k:
            raise Unsupported('coverage with further arguments')
        calls.append(sub_obs_coords)
        t = entries()
        return t, VDict([]), Sym(RONE)
    c.patch.set(P.star.Star, 'calc_coverage', calc)
    c.note('coverage table by the contracts of C01 and C02')
    return star, coords, calls


def lab(t):
    return U.Label(Sym(t), U.K, '.2f')


def p4(t):
    return t * t * t * t


@unit('C25', 'fourth root of the weighted mean of the fourth powers, any number of temperatures', AV)
def mean(P, c):
    n = var('nlab', sign='pos', isint=True)
    g = mk_gen(n, lambda k: (lab(var('T', k, sign='pos')), Sym(var('w', k, sign='nneg'))), 'labels')

    def entries():
        t = VDict()
        gm = S.GenMap(g, g.rep[0], g.rep[1], False, True)
        t.gens.append(gm)
        return t
    star, coords, calls = setup(P, c, entries)
    la, lo = coords['lat'], coords['lon']
    W = S.gen_sum(g, var('w', g.k, sign='nneg'))
    M = S.gen_sum(g, var('w', g.k, sign='nneg') * p4(var('T', g.k, sign='pos')))
    c.assume(mk_cmp('>', W))
    # sums of non-negative terms with a positive one
    c.assume(mk_cmp('>', M))
    c.note('a sum of non-negative terms is non-negative')
    r = star.average_teff(coords)
    c.oblige('a temperature', TRUE if has_kind(r, U.K) else FALSE)
    t = si(r)
    c.oblige('seen from the point asked for', mk_and(*[mk_and(feq(si(x['lat']), si(la)), feq(si(x['lon']), si(lo))) for x in calls]) if calls else FALSE)
    c.oblige('positive', flt(RZERO, t))
    c.oblige('its fourth power is the mean of T^4 weighted by the fractions', feq(tmap(lambda a: p4(a) * W, t), M))
    lo, hi = var('Tlo', sign='pos'), var('Thi', sign='pos')
    # bounds of the labels with a non-zero fraction
    w, T_ = var('w', g.k, sign='nneg'), var('T', g.k, sign='pos')
    c.oblige('terms of the bounds', mk_implies(mk_and(mk_cmp('<=', lo - T_), mk_cmp('<=', T_ - hi)), mk_and(mk_cmp('<=', w * p4(lo) - w * p4(T_)), mk_cmp('<=', w * p4(T_) - w * p4(hi)))), 'lemma')
    c.assume(mk_and(mk_cmp('<=', W * p4(lo) - M), mk_cmp('<=', M - W * p4(hi))))
    c.note('bounds: the pixelwise inequalities above summed over the labels')
    c.oblige('not below the coolest temperature present', fle(lo, t))
    c.oblige('not above the hottest temperature present', fle(t, hi))


for _n in (1, 2, 3):
    def _mk(n):
        def few(P, c):
            Ts = [var(f'T{i}', sign='pos') for i in range(n)]
            ws = [var(f'w{i}', sign='nneg') for i in range(n)]
            star, coords, calls = setup(P, c, lambda: VDict([(lab(t), Sym(w)) for t, w in zip(Ts, ws)]))
            for i in range(n):
                for j in range(i):
                    c.assume(mk_not(mk_cmp('=', Ts[i] - Ts[j])))
            W = sum(ws, RZERO)
            c.assume(mk_cmp('>', W))
            t = si(star.average_teff(coords))
            c.oblige('its fourth power is the mean of T^4 weighted by the fractions', mk_and(flt(RZERO, t), feq(tmap(lambda a: p4(a) * W, t), sum([w * p4(x) for w, x in zip(ws, Ts)], RZERO))))
            if n == 1:
                c.oblige('a star of one temperature has that temperature', feq(t, Ts[0]))
        unit('C25', f'{n} temperature{"s" if n > 1 else ""}', AV)(few)
    _mk(_n)
