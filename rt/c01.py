from starbox import *


@battery('C01', 'random stars (up to 4 spots, 3 faculae, colliding labels, whole-star spots), random views, granulation fractions and planet positions')
def run(r):
    rng = r.rng
    for k in r.loop(160):
        star, so, kw, g, d = scene(rng)
        for so, d in lives(rng, star, so, d):
            w, mu = weights(star, so)
            if w.sum() < 1e-6:
                continue
            r.data.update(d)
            ok, out = r.call('calc_coverage', star.calc_coverage, so, **kw)
            if not ok:
                continue
            tot = {a: float(b) for a, b in out[0].items()}
            r.check(all(np.isfinite(v) and v >= -1e-15 for v in tot.values()), 'a disk fraction is negative or not a number', got=tot)
            r.close(sum(tot.values()), 1.0, 'disk fractions do not add up to 1', rtol=1e-9, table=tot)
            ok, out2 = r.call('calc_coverage', star.calc_coverage, so, **kw)
            if ok:
                r.check({a: float(b) for a, b in out2[0].items()} == tot, 'asking twice gives another table')
