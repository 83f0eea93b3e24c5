from starbox import *
from c04 import exact


@battery('C03', 'planets of 0.01 to 1 stellar radii on random orbits, transits, eclipses and grazing positions; random stars and views')
def run(r):
    rng = r.rng
    for k in r.loop(120):
        star, so, kw, g, d = scene(rng)
        if 'phase' not in kw:
            continue
        for step in range(3):
            if step == 2:   # a planet just off the disk, in any direction
                rp = 10. ** rng.uniform(-3, -0.5)
                D = (1 + 2 * rp) * (1 + 10. ** rng.uniform(-4, -0.4))
                th = rng.uniform(0, 2 * np.pi)
                a2 = D * rng.uniform(1.001, 20)
                ph = np.pi + np.arcsin(D * np.cos(th) / a2)
                kw.update(orbit_radius=(a2 * star.radius).to(u.AU), planet_radius=(rp * star.radius).to(u.km), phase=np.degrees(ph) * u.deg,
                          inclination=np.degrees(np.arccos(np.clip(D * np.sin(th) / (a2 * np.cos(ph - np.pi)), -1, 1))) * u.deg)
            if step == 1:   # the same star and planet at another time, from another side
                a2 = kw['orbit_radius'].to_value(u.m) / star.radius.to_value(u.m)
                kw['phase'] = (pick(rng, [0., 180., 540.]) + np.degrees(rng.normal() / a2)) * u.deg
                if rng.random() < 0.3:        # a close orbit around quadrature
                    kw['orbit_radius'] = rng.uniform(0.3, 1.1) * star.radius
                    kw['phase'] = (pick(rng, [90., -90., 270.]) + pick(rng, [-1, 1]) * 10. ** rng.uniform(-3, 0.5)) * u.deg
                if rng.random() < 0.5:
                    la, lo = lat_lon(rng)
                    so = {'lat': la * u.deg, 'lon': lo * u.deg}
                d = dict(d, second=True, lat0=str(so['lat']), lon0=str(so['lon']))
            w, mu = weights(star, so)
            R = star.radius.to_value(u.m)
            a, rp = kw['orbit_radius'].to_value(u.m) / R, kw['planet_radius'].to_value(u.m) / R
            ph, inc = kw['phase'].to_value(u.rad), kw['inclination'].to_value(u.rad)
            if rp > 1 or abs(np.cos(ph)) < 1e-9:
                continue
            x, y = a * np.sin(ph - np.pi), a * np.cos(ph - np.pi) * np.cos(inc)
            dist = np.hypot(x, y)
            if abs(dist - (1 + 2 * rp)) < 1e-9:
                continue
            r.data.update(d)
            r.put(a=a, rp=rp, phase=ph, inclination=inc, x=x, y=y)
            ok, out = r.call('get_transit_mask', star.get_transit_mask, so['lat'], so['lon'], kw['orbit_radius'], kw['planet_radius'], kw['phase'], kw['inclination'])
            if not ok:
                continue
            mask, pf = np.asarray(out[0], float), float(out[1])
            near = np.cos(ph) < 0
            if r.check(mask.shape == mu.shape, 'mask has the wrong shape'):
                r.check(np.all(np.isfinite(mask)) and np.all((mask >= 0) & (mask <= 1 + 1e-9)), 'mask outside [0,1]', got=(mask.min(), mask.max()))
                if not near:
                    r.check(np.all(mask == 0), 'pixels are occulted although the planet is behind the star')
                if dist > 1 + 2 * rp:
                    r.check(np.all(mask == 0), 'pixels are occulted although the planet is off the disk')
                r.check(np.all(mask[mu < -1e-9] == 0), 'a hidden pixel is occulted')
            r.check(np.isfinite(pf) and -1e-12 <= pf <= 1 + 1e-12, 'visible planet fraction outside [0,1]', got=pf)
            if near:
                r.check(pf == 1, 'planet in front of the star is not fully visible', got=pf)
            else:
                e = 1 - exact(x, y, rp)
                r.check(abs(pf - e) < 1e-7 + 5e-14 / rp ** 3, 'visible planet fraction is not 1 minus the eclipsed part of the disk', got=pf, expected=e)
            # deep inside the planet disk everything is covered; far outside nothing is
            if near and mask.shape == mu.shape:
                LA, LO = grid_rad(star.gridmaker)
                la, lo = so['lat'].to_value(u.rad), so['lon'].to_value(u.rad)
                px = np.cos(LA) * np.sin(LO - lo)
                py = np.cos(la) * np.sin(LA) - np.sin(la) * np.cos(LA) * np.cos(LO - lo)
                pd = np.hypot(px - x, py - y)
                psz = 2 * np.sqrt(star.gridmaker.area) * mu
                if dist <= 1 + 2 * rp:
                    r.check(np.all(mask[(mu > 1e-9) & (pd + 2 * psz < rp - 1e-6)] > 0.999), 'a pixel deep inside the planet disk is not occulted')
                r.check(np.all(mask[(mu > 1e-9) & (pd - 2 * psz > rp + 1e-6)] == 0), 'a pixel far from the planet disk is occulted')
            if w.sum() < 1e-6:
                continue
            ok, out = r.call('calc_coverage', star.calc_coverage, so, **kw)
            if ok:
                tot, cov, pf2 = out
                r.check(float(pf2) == pf, 'calc_coverage reports another visible planet fraction', got=pf2, expected=pf)
                r.check(set(tot) == set(cov), 'occulted table has other temperatures')
                for key in set(tot) & set(cov):
                    r.check(-1e-15 <= float(cov[key]) <= float(tot[key]) + 1e-9, 'occulted fraction is not between 0 and the total fraction', temperature=key, got=cov[key], total=tot[key])
                if np.all(mask == 0):
                    r.check(all(float(v) == 0 for v in cov.values()), 'something is occulted although the mask is zero')
            e2, pr = conv(ph * u.rad, rng, [u.deg, u.rad]), kw['planet_radius']
            ok, f2 = r.call('get_pl_frac', star.get_pl_frac, e2 - 180 * u.deg, kw['orbit_radius'], pr, kw['inclination'])
            if ok:
                e = 1 - exact(x, y, rp)
                r.check(abs(float(f2) - e) < 1e-7 + 5e-14 / rp ** 3, 'get_pl_frac is not 1 minus the part of the disk inside the star', got=f2, expected=e)
