from starbox import *


@battery('C02', 'random stars, views, limb darkening and granulation fractions; table recomputed from the surface map and the definition of the weights')
def run(r):
    rng = r.rng
    for k in r.loop(160):
        star, so, kw, g, d = scene(rng)
        for so, d in lives(rng, star, so, d):
            w, mu = weights(star, so)
            if w.sum() < 1e-6:
                continue
            r.data.update(d)
            m = star.add_faculae_to_map(so['lat'], so['lon']).to_value(u.K)
            mask, _ = star.get_transit_mask(so['lat'], so['lon'], kw.get('orbit_radius', 1 * u.AU), kw.get('planet_radius', 1 * u.R_earth), kw.get('phase', 90 * u.deg), kw.get('inclination', 0 * u.deg))
            ok, out = r.call('calc_coverage', star.calc_coverage, so, **kw)
            if not ok:
                continue
            ref = clone(star).calc_coverage(so, **kw)
            r.check(same_table(out[0], ref[0]) and same_table(out[1], ref[1]), 'a star with a history reports other fractions than a fresh star in the same state', got=out[0], expected=ref[0])
            T, dt = star.teff.to_value(u.K), star.granulation.dteff.to_value(u.K)
            for nm, table, wt in (('total', out[0], w), ('occulted', out[1], w * np.asarray(mask, float))):
                exp = {}
                for t in np.unique(m):
                    exp[label(t)] = exp.get(label(t), 0) + wt[m == t].sum() / w.sum()
                ph = exp.get(label(T), 0)
                exp.setdefault(label(T), 0)
                exp.setdefault(label(T - dt), 0)
                exp[label(T)] -= ph * g
                exp[label(T - dt)] += ph * g
                got = {}
                for a, b in table.items():
                    got[label(K(a))] = got.get(label(K(a)), 0) + float(b)
                for a in set(got) | set(exp):
                    r.check(abs(got.get(a, 0) - exp.get(a, 0)) < 1e-6, f'{nm} fraction is not the visible weighted area at that temperature', temperature=a, got=got.get(a), expected=exp.get(a), g=g)
            ok, ld = r.call('ld_mask_for_plotting', star.ld_mask_for_plotting, mu.copy())
            if ok:
                vis, hid = mu > 1e-12, mu < -1e-12
                r.check(np.all(np.abs(ld - (1 - star.u1 * (1 - mu) - star.u2 * (1 - mu) ** 2))[vis] < 1e-9), 'limb darkening is not 1-u1(1-mu)-u2(1-mu)^2')
                r.check(np.all(ld[hid] == 0), 'limb darkening of hidden pixels is not zero')
            ok, ap = r.call('area_projection_coefficient', star.area_projection_coefficient, mu)
            if ok:
                r.check(np.all(ap == np.where(mu > 0, mu, 0)), 'projection coefficient is not the positive part of the cosine')
