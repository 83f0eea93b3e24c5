from starbox import *


def expected(spots, R, T, g):
    LA, LO = grid_rad(g)
    exp = np.full(LA.shape, T)
    unc = np.zeros(LA.shape, bool)
    for s in spots:
        U_, P_, c_ = spot_masks(s, R, LA, LO)
        tu, tp = spot_params(s)[3:5]
        exp = np.where(P_, np.minimum(exp, tp), exp)
        exp = np.where(U_, np.minimum(exp, tu), exp)
        unc |= c_
    return exp, unc


@battery('C10', 'collections of up to 9 spots with random, equal and extreme temperatures, random grids and orders')
def run(r):
    rng = r.rng
    for k in r.loop(160):
        g = rand_grid(rng)
        R = lu(rng, 1e8, 1e10)
        n = int(rng.integers(0, 10))
        pool = list(rng.uniform(2000, 4500, 3))
        spots = []
        for _ in range(n):
            tp = pick(rng, pool) if rng.random() < 0.5 else rng.uniform(1500, 5000)
            tu = pick(rng, [tp, tp - rng.uniform(0, 800), min(pool), 0.0])
            tu = min(tu, tp)
            spots.append(rand_spot(rng, g, R, tu=tu, tp=tp, frac=pick(rng, [rng.uniform(0.01, 0.4), lu(rng, 1e-5, 0.2), 0.0])))
        T = pick(rng, [rng.uniform(2500, 4000), pool[0]])
        if k % 8 == 5:        # hot stars
            f_ = lu(rng, 2, 20)
            T *= f_
            for s in spots:
                s.teff_umbra, s.teff_penumbra = s.teff_umbra * f_, s.teff_penumbra * f_
        r.put(grid=str(vars(g)), n=n, T=T, R=R, spots=[spot_params(s) for s in spots])
        coll = sp.SpotCollection(*spots, gridmaker=g)
        before = [snapshot(s) for s in spots]
        tq = T * u.K
        ok, m = r.call('map_pixels', coll.map_pixels, conv(R * u.m, rng, LENGTHS), tq)
        if not ok:
            continue
        LA, LO = grid_rad(g)
        exp = np.full(LA.shape, T)
        inside = np.zeros(LA.shape, bool)
        unc = np.zeros(LA.shape, bool)
        for s in spots:
            U_, P_, c_ = spot_masks(s, R, LA, LO)
            tu, tp = spot_params(s)[3:5]
            exp = np.where(P_, np.minimum(exp, tp), exp)
            exp = np.where(U_, np.minimum(exp, tu), exp)
            inside |= P_
            unc |= c_
        mv = m.to_value(u.K)
        if r.check(mv.shape == LA.shape, 'surface map has the wrong shape'):
            bad = (np.abs(mv - exp) > 1e-9 * T) & ~unc
            j = np.argmax(bad)
            r.check(not bad.any(), 'pixel temperature is not the minimum over the regions that contain it', got=mv.flat[j], expected=exp.flat[j], lat=LA.flat[j], lon=LO.flat[j])
            r.check(np.all(mv <= T), 'a spot warms a pixel')
            p = rng.permutation(n)
            c2 = sp.SpotCollection(*[spots[i] for i in p], gridmaker=g)
            ok, m2 = r.call('map_pixels', c2.map_pixels, R * u.m, tq)
            if ok:
                r.check(np.all((m2.to_value(u.K) == mv) | unc), 'the map depends on the order of the spots', order=p)
        ok, cov = r.call('get_coverage', coll.get_coverage, conv(R * u.m, rng, LENGTHS))
        if ok:
            a = np.asarray(g.area, float)
            lo_, hi_ = a[inside & ~unc].sum() / a.sum(), a[inside | unc].sum() / a.sum()
            cov = u.Quantity(cov).to_value(u.dimensionless_unscaled)
            r.check(np.ndim(cov) == 0 and -1e-12 <= cov <= 1 + 1e-12, 'coverage is not a number in [0,1]', got=cov)
            r.check(np.all((lo_ - 1e-6 <= cov) & (cov <= hi_ + 1e-6)), 'coverage is not the area share of the pixels inside any spot', got=cov, expected=lo_)
        df = [d for d in (diff(b, snapshot(s)) for b, s in zip(before, spots)) if d]
        r.check(not df, f'mapping changes the spots: {df}')
        if k % 4 == 0:
            star = mk_star(rng, spots, gp_=(g.n_points if isinstance(g, cg.SpiralGrid) else (g.nlat, g.nlon)), R=R, teff=T)
            ok, m3 = r.call('Star.map', lambda: star.map)
            if ok:
                r.check(np.all((np.abs(m3.to_value(u.K) - exp) < 1e-9 * T) | unc), 'Star.map differs from the spot map')


@battery('C10', 'stars with a history of painting faculae, aging, resizing, recolouring and new spots')
def history(r):
    rng = r.rng
    for k in r.loop(60):
        star, so, kw, g_, d = scene(rng)
        ops = []
        r.data.update(d)
        for step in range(4):
            R, T = star.radius.to_value(u.m), star.teff.to_value(u.K)
            exp, unc = expected(star.spots.spots, R, T, star.gridmaker)
            r.put(history=list(ops), now=[spot_params(s) for s in star.spots.spots])
            for nm, fn in (('Star.map', lambda: star.map), ('map_pixels', lambda: star.spots.map_pixels(star.radius, star.teff))):
                ok, m = r.call(nm, fn)
                if ok:
                    m = m.to_value(u.K)
                    r.check(m.shape == exp.shape and np.all((np.abs(m - exp) < 1e-9 * T) | unc), f'{nm} of a star with a history is not the minimum over the regions that contain a pixel')
            ok, c = r.call('get_coverage', star.spots.get_coverage, star.radius)
            if rng.random() < 0.5:
                star.add_faculae_to_map(so['lat'], so['lon'])
                ops.append('paint faculae')
            if rng.random() < 0.2:
                for s in star.spots.spots:
                    s.teff_umbra = s.teff_umbra * 0.97
                ops.append('recolour')
            else:
                so, x = perturb(rng, star, so, {})
                ops.append(x['after'])
