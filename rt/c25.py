from starbox import *


@battery('C25', 'random spotted and unspotted stars and views')
def run(r):
    rng = r.rng
    for k in r.loop(120):
        star, so, kw, g, d = scene(rng)
        w, mu = weights(star, so)
        if w.sum() < 1e-6:
            continue
        if k % 6 == 0:
            star.spots.spots, star.faculae.faculae = (), ()
            d['spots'], d['n_faculae'] = [], 0
        for so, d in lives(rng, star, so, d, 1 if k % 6 == 0 else 2):
            w, mu = weights(star, so)
            if w.sum() < 1e-6:
                continue
            r.data.update(d)
            ok, t = r.call('average_teff', star.average_teff, so)
            if not ok:
                continue
            tab = star.calc_coverage(so)[0]
            T = np.array([K(a) for a in tab])
            v = np.array([float(b) for b in tab.values()])
            t = t.to_value(u.K)
            r.close(t, (np.sum(T ** 4 * v) / np.sum(v)) ** 0.25, 'average temperature is not the bolometric mean of the reported table', rtol=1e-9)
            pos = v > 1e-300
            r.check(T[pos].min() * (1 - 1e-12) <= t <= T[pos].max() * (1 + 1e-12), 'average temperature outside the range of temperatures', got=t)
            if k % 6 == 0:
                r.close(t, K(label(star.teff.to_value(u.K))), 'average temperature of an unspotted star is not its own', rtol=1e-9)
            t2 = clone(star).average_teff(so).to_value(u.K)
            r.close(t, t2, 'a star with a history has another average temperature than a fresh star in the same state', rtol=1e-9)
            # from the surface itself
            m = star.add_faculae_to_map(so['lat'], so['lon']).to_value(u.K)
            r.close(t, (np.sum(m ** 4 * w) / w.sum()) ** 0.25, 'average temperature does not match the surface', rtol=1e-4, atol=0.02)
