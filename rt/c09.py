from common import *


@battery('C09', 'spot areas from 1e-9 of the sphere to the whole sphere, random grids, mixed area and length units')
def run(r):
    rng = r.rng
    for k in r.loop(250):
        g = rand_grid(rng)
        R = r.val('R', lu(rng, 1e6, 1e12))
        if not np.isfinite(R) or R <= 0:
            continue
        frac = pick(rng, [lu(rng, 1e-9, 1), rng.random(), 1.0, 0.5, 0.0])
        s = rand_spot(rng, g, R, frac=frac)
        if 'area0' in r.hint:
            s.area_current = r.val('area0', 0.) * u.m ** 2
        s.total_area_over_umbra_area = r.val('ratio', pick(rng, [rng.uniform(1, 9), 1.0, lu(rng, 1, 1e3), lu(rng, 0.2, 1)]))
        if s.total_area_over_umbra_area <= 0 or not 0 <= s.area_current.to_value(u.m ** 2) <= 4 * np.pi * R ** 2 * (1 + 1e-9):
            continue
        if rng.random() < 0.2:        # the footprint depends on the current area alone
            s.area_max = s.area_current * rng.random()
        if rng.random() < 0.2:
            s.teff_umbra = s.teff_penumbra
        rq = conv(R * u.m, rng, LENGTHS)
        A = s.area_current.to_value(u.m ** 2)
        r.put(R=R, A=A, ratio=s.total_area_over_umbra_area, grid=str(vars(g)))
        ok, a = r.call('angular_radius', s.angular_radius, rq)
        if not ok:
            continue
        a = a.to_value(u.rad)
        rho = cap(A, R)
        tol = 1e-10 * rho + min(5e-8, 4e-15 / max(rho, 1e-12)) + (2e-7 if rho > 3.1 else 0)
        r.close(a, rho, 'angular radius is not that of the cap with the area of the spot', rtol=0, atol=tol)
        before = snapshot(s)
        ok, m = r.call('map_pixels', s.map_pixels, rq)
        if not ok:
            continue
        r.check(not diff(before, snapshot(s)), 'map_pixels changes the spot')
        LA, LO = grid_rad(g)
        U_, P_, unc = spot_masks(s, R, LA, LO)
        if s.teff_umbra != s.teff_penumbra:
            r.check(len(m) == 2, 'map_pixels does not have one entry for umbra and one for penumbra')
        if s.teff_penumbra not in m or s.teff_umbra not in m:
            r.check(False, 'map_pixels lacks the umbra or penumbra temperature', keys=list(m))
            continue
        mp = np.asarray(m[s.teff_penumbra])
        if r.check(mp.shape == LA.shape, 'footprint has the wrong shape'):
            r.check(np.all((mp.astype(bool) == P_) | unc), 'pixels of the spot are not those within its angular radius', n=int(np.sum((mp != P_) & ~unc)))
        if s.teff_umbra != s.teff_penumbra:
            mu_ = np.asarray(m[s.teff_umbra])
            if r.check(mu_.shape == LA.shape, 'umbra has the wrong shape'):
                r.check(np.all((mu_.astype(bool) == U_) | unc), 'pixels of the umbra are not those within its angular radius', n=int(np.sum((mu_ != U_) & ~unc)))
        if k % 5 == 0:        # a spot without area exactly on a pixel has no pixel
            la_, lo_ = [np.ravel(q.to_value(u.deg)) for q in np.broadcast_arrays(*g.grid(), subok=True)]
            j = int(rng.integers(la_.size))
            s0 = sp.StarSpot(la_[j] * u.deg, lo_[j] * u.deg, s.area_max, 0 * s.area_max, s.teff_umbra, s.teff_penumbra, gridmaker=g)
            ok, m0 = r.call('map_pixels', s0.map_pixels, rq)
            if ok:
                r.check(not any(np.any(v) for v in m0.values()), 'a spot without area covers a pixel', pixel=(la_[j], lo_[j]))
        # units do not matter
        s2 = sp.StarSpot(s.coords['lat'].to(u.rad), s.coords['lon'].to(u.arcmin), s.area_max.to(u.km ** 2), s.area_current.to(pick(rng, AREAS)), s.teff_umbra, s.teff_penumbra, area_over_umbra_area=s.total_area_over_umbra_area, gridmaker=g)
        ok, m2 = r.call('map_pixels', s2.map_pixels, conv(R * u.m, rng, LENGTHS))
        if ok:
            r.check(np.all((np.asarray(m2[s.teff_penumbra]) == mp) | unc), 'footprint depends on units')
        # the same spot later: other area, other grid, other star
        s.area_current = s.area_current * rng.random()
        if rng.random() < 0.5:
            g = rand_grid(rng)
            s.set_gridmaker(g)
        if rng.random() < 0.3:
            R = R * rng.uniform(1, 2)
        LA, LO = grid_rad(g)
        U_, P_, unc = spot_masks(s, R, LA, LO)
        ok, m3 = r.call('map_pixels', s.map_pixels, conv(R * u.m, rng, LENGTHS))
        if ok:
            m3 = np.asarray(m3[s.teff_penumbra])
            r.check(m3.shape == LA.shape and np.all((m3 == P_) | unc), 'pixels of the spot are not those within its angular radius after its area, grid or star changed')
