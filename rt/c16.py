from starbox import *

LOW, HIGH = 2300., 3900.


@battery('C16', 'stars with up to 5 faculae and 3 spots on random grids, random sub-observer points, photospheres near both temperature limits')
def run(r):
    rng = r.rng
    for k in r.loop(220):
        R = lu(rng, 1e8, 1e10)
        gp_ = rand_grid_params(rng)
        nf = int(rng.integers(0, 6))
        facs = [rand_fac(rng, cg.SpiralGrid(5), R, ang=pick(rng, [rng.uniform(0.05, 0.8), lu(rng, 1e-3, 0.3), rng.uniform(0.5, 3)])) for _ in range(nf)]
        for f in facs:
            if rng.random() < 0.15:
                f.floor_teff_slope = f.wall_teff_slope = 0 * u.K / u.km
                f.wall_teff_intercept = 50.2 * u.K
                f.floor_teff_base_dteff = 49.9 * u.K
        spots = [rand_spot(rng, cg.SpiralGrid(5), R) for _ in range(rng.integers(0, 4))]
        T = pick(rng, [rng.uniform(2900, 3500), 2350., 3850.])
        star = mk_star(rng, spots, facs, gp_=gp_, R=R, teff=T)
        for step in range(2 if k % 2 else 1):
            if step:        # the same star later
                op = pick(rng, ['age', 'view', 'grow', 'move', 'teff'])
                r.put(after=op)
                if op == 'age':
                    star.age(lu(rng, 10, 1e5) * u.s)
                    facs, spots = list(star.faculae.faculae), list(star.spots.spots)
                elif op == 'grow':
                    for f in facs:
                        f.radius = f.radius * rng.uniform(0.3, 1.5)
                elif op == 'move':
                    for f in facs:
                        f.lat, f.lon = [x * u.deg for x in lat_lon(rng)]
                elif op == 'teff':
                    T = T - 30.
                    star.teff = T * u.K
            la, lo = lat_lon(rng)
            LA, LO = grid_rad(star.gridmaker)
            base_ = clone(star).map.to_value(u.K)
            mu = np.sin(np.radians(la)) * np.sin(LA) + np.cos(np.radians(la)) * np.cos(LA) * np.cos(np.radians(lo) - LO)
            before = [snapshot(o) for o in spots + facs]
            ql, qo = conv(la * u.deg, rng, [u.deg, u.rad]), conv(lo * u.deg, rng, [u.deg, u.rad])
            ok, m = r.call('add_faculae_to_map', star.add_faculae_to_map, ql, qo)
            if not ok:
                continue
            r.put(grid=gp_, lat0=la, lon0=lo, T=T, R=R, faculae=[(f.lat, f.lon, f.radius.to(u.km), f.depth.to(u.km)) for f in facs])
            m = m.to_value(u.K)
            if not r.check(m.shape == LA.shape, 'map has the wrong shape'):
                continue
            exp_w = base_.copy()
            exp_f = base_.copy()
            unc = np.zeros(LA.shape, bool)
            owner = np.full(LA.shape, -1)
            info = []
            for i, f in enumerate(facs):
                ins, c_ = fac_masks(f, R, LA, LO)
                ok, pm = r.call('Facula.map_pixels', f.map_pixels, star.radius)
                if ok:
                    r.check(np.shape(pm) == LA.shape and np.all((np.asarray(pm) == ins) | c_), 'pixels of a facula are not those within its angular radius')
                    ins = np.where(c_, np.asarray(pm), ins)
                ang = true_angle(np.radians(la), np.radians(lo), f.lat.to_value(u.rad), f.lon.to_value(u.rad))
                share, wl, fl_ = wall_floor(f, ang)
                rad, minr = f.radius.to_value(u.km), f.floor_teff_min_rad.to_value(u.km)
                vague = abs(rad - minr) <= 1e-9 * minr
                from math import fabs
                tw = {float(np.clip(T + x, LOW, HIGH)) for x in {np.floor(wl + .5 - 1e-6), np.floor(wl + .5 + 1e-6), np.rint(wl)}}
                tf = {float(np.clip(T + x, LOW, HIGH)) for x in {np.floor(fl_ + .5 - 1e-6), np.floor(fl_ + .5 + 1e-6), np.rint(fl_)}}
                owner = np.where(ins, i, owner)
                info.append((ins, share, tw, tf, vague))
            never = owner < 0
            r.check(np.all(m[never] == base_[never]), 'painting changes a pixel outside every facula')
            for i, (ins, share, tw, tf, vague) in enumerate(info):
                own = owner == i
                isw = np.any([np.abs(m - t) < 1e-6 for t in tw], axis=0)
                isf = np.any([np.abs(m - t) < 1e-6 for t in tf], axis=0)
                r.check(np.all((isw | isf)[own]), 'a pixel of the last painted facula has neither its wall nor its floor temperature', expected=(tw, tf), got=m[own & ~(isw | isf)][:3], facula=i)
                if any(abs(a - b) < 1e-3 for a in tw for b in tf):
                    continue
                if own.any() and isw[own].any() and isf[own].any():
                    r.check(mu[own & isw].max() <= mu[own & isf].min() + 1e-9, 'a floor pixel is nearer to the limb than a wall pixel', facula=i)
                if vague or not np.array_equal(own, ins) or not ins.any():
                    continue
                n = int(ins.sum())
                kw = int((ins & isw).sum())
                if kw:
                    bmu = mu[ins & isw].max()
                    ties = int((ins & (np.abs(mu - bmu) < 1e-9)).sum()) - 1
                else:
                    ties = 0
                r.check(abs(kw - share * n) <= 1 + ties + 1e-6 * n, 'the number of wall pixels does not match the wall share', facula=i, got=kw, expected=share * n, ties=ties)
            df = [d for d in (diff(b, snapshot(o)) for b, o in zip(before, spots + facs)) if d]
            r.check(not df, f'painting changes the features: {df}')
            ok, m2 = r.call('map', lambda: star.map)
            if ok:
                r.check(np.array_equal(m2.to_value(u.K), base_), 'the spot map after painting is not that of the spots')
            m3 = clone(star).add_faculae_to_map(ql, qo).to_value(u.K)
            r.check(np.array_equal(m, m3), 'painting on a star with a history differs from painting on a fresh star in the same state')
    for k in range(60):
        t = pick(rng, [rng.uniform(1500, 5000), LOW, HIGH, LOW - 1e-9, HIGH + 1e-9])
        ok, c = r.call('clip_teff', hp.clip_teff, t * u.K)
        if ok:
            r.check(c.to_value(u.K) == min(max(t, LOW), HIGH), 'clip_teff does not limit to the supported bounds', got=c, teff=t)
