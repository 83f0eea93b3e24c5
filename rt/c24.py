from common import *
import random
import copy


def desc(o):
    """all the data of a feature"""
    out = []
    for k, v in sorted(vars(o).items()):
        if isinstance(v, dict):
            v = tuple(v.values())
        if isinstance(v, u.Quantity):
            out.append((k, np.array(v.value).tobytes(), str(v.unit)))
        elif isinstance(v, tuple) and v and isinstance(v[0], u.Quantity):
            out.append((k, tuple(x.to_value(x.unit) for x in v)))
        elif isinstance(v, (int, float, bool, np.generic)):
            out.append((k, float(v)))
    return out


def script(r, seed, ops, which, g, star_seed=None):
    rng = np.random.default_rng(12345)
    if which == 'spot':
        o = spot_gen(rng, g, seed=seed, dist_area_mean=500 * MSH, init_area=10 * MSH, coverage=0.2)
    elif which == 'spot_static':
        o = spot_gen(rng, g, seed=seed, dist_area_mean=500 * MSH, init_area=10 * MSH, decay_rate=0 * MSH / u.day)
    elif which == 'fac':
        o = fac_gen(rng, g, seed=seed, dist_r_peak=3e4 * u.km)
    else:
        o = fl.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3, alpha=-0.8, beta=np.log10(5.) + 0.8 * 33, min_energy=1e33 * u.erg, cluster_size=3, rng=np.random.default_rng(seed))
    out = []
    R = 5e8 * u.m
    for op, n in ops:
        if which.startswith('spot'):
            if op == 0:
                x = o.generate_spots(n)
            elif op == 1:
                one = o.get_n_spots_to_birth(1 * u.day, R)
                x = o.birth_spots((4 / one if one else 1.) * u.day, R)
            elif op == 2:
                x = o.generate_mature_spots(0.003, R)
            else:
                x = []
                la, lo = o.get_coordinates(n)
                out.append((la.value.tobytes(), lo.value.tobytes()))
        elif which == 'fac':
            if op == 0:
                x = o.generate_faculae(n)
            elif op == 1:
                x = o.birth_faculae(4 / o.get_n_faculae_expected(1 * u.day, R) * u.day, R)
            else:
                x = []
                la, lo = o.get_coords(n)
                out.append((la.value.tobytes(), lo.value.tobytes()))
        else:
            if op == 0:
                x = []
                out.append(np.asarray(o.get_peaks(n + 1)).tobytes())
            elif op == 1:
                x = o.generate_flare_series((2 if n else 60) * u.day)
            elif op == 2:
                x = []
                out.append((o.gen_fwhm(n).value.tobytes(), o.gen_teffs(n).value.tobytes()))
            else:
                x = []
                la, lo = o.gen_coords(n)
                out.append((la.value.tobytes(), lo.value.tobytes()))
        out.append([desc(f) for f in x])
    return out


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


@battery('C24', 'scripts of up to 6 calls per generator kind; global random states perturbed between the two runs')
def run(r):
    rng = r.rng
    g = cg.SpiralGrid(7)
    for k in r.loop(48):
        which = ['spot', 'fac', 'flare', 'spot_static'][k % 4]
        seed = int(rng.integers(1 << 30))
        ops = [(int(rng.integers(4)), int(rng.integers(0, 5))) for _ in range(int(rng.integers(1, 7)))]
        if k % 6 == 5:
            ops = [(o, n * 12) for o, n in ops]
        r.put(generator=which, seed=seed, ops=ops)
        np.random.seed(1)
        random.seed(1)
        before = gstate()
        ok, a = r.call('script', script, r, seed, ops, which, g)
        if not ok:
            continue
        r.check(gstate() == before, 'global random state is disturbed')
        np.random.seed(int(rng.integers(1 << 30)))
        random.seed(int(rng.integers(1 << 30)))
        # another generator of the same kind is used in between: no shared state
        script(r, seed + 1, ops, which, g)
        ok, b = r.call('script', script, r, seed, ops, which, g)
        if ok:
            r.check(a == b, 'two equally seeded generators differ')
        ok, c = r.call('script', script, r, seed + 1, [(1, 3)] * 3, which if which != 'spot_static' else 'spot', g)
        ok2, c2 = r.call('script', script, r, seed + 2, [(1, 3)] * 3, which if which != 'spot_static' else 'spot', g)
        if ok and ok2:
            r.check(c != c2, 'the seed has no influence')


@battery('C24', 'granulation: 4 seeds; stars: generators made by the star itself')
def others(r):
    rng = r.rng
    for k in r.loop(4, 12):
        seed = int(rng.integers(1 << 30))
        t = np.arange(12) * 7. * u.hr
        np.random.seed(3)
        random.seed(3)
        before = gstate()
        mk = lambda: gr.Granulation(0.4, 0.5, 20 * u.hr, 200 * u.K, seed=seed)
        g1 = mk()
        a = g1.get_coverage(t)
        r.check(gstate() == before, 'granulation disturbs the global random state')
        np.random.seed(9)
        b = mk().get_coverage(t)
        a2 = g1.get_coverage(t)
        c = gr.Granulation(0.4, 0.5, 20 * u.hr, 200 * u.K, seed=seed + 1).get_coverage(t)
        r.put(seed=seed)
        r.check(np.array_equal(a, b, equal_nan=True), 'granulation with one seed differs between objects')
        r.check(np.array_equal(a, a2, equal_nan=True), 'granulation with one seed differs between calls')
        r.check(not np.array_equal(a, c, equal_nan=True) or np.all(np.isnan(a)), 'the seed has no influence on granulation')
    for k in r.loop(6, 20):
        q = np.random.default_rng(k)
        kw = {}
        if k % 3 == 1:
            kw['spot_generator'] = spot_gen(rng, cg.SpiralGrid(5))
        if k % 3 == 2:
            kw['fac_generator'] = fac_gen(rng, cg.SpiralGrid(5))
        keep = {n: o.rng for n, o in kw.items()}
        star = st.Star(3300 * u.K, 7e8 * u.m, 1 * u.day, sp.SpotCollection(gridmaker=cg.SpiralGrid(5)), fa.FaculaCollection(gridmaker=cg.SpiralGrid(5)), grid_params=11, rng=q, **kw)
        r.check(star.rng is q, 'the star does not keep its random generator')
        for n in ('spot_generator', 'fac_generator', 'flare_generator'):
            if n in kw:
                r.check(getattr(star, n) is kw[n] and kw[n].rng is keep[n], f'{n}: the random generator of a given generator is replaced')
            else:
                r.check(getattr(star, n).rng is q, f'{n} made by the star does not use its random generator')


def fields(o):
    if isinstance(o, sp.StarSpot):
        return [o.coords['lat'].value, o.coords['lon'].value, o.area_max.value, o.total_area_over_umbra_area]
    if isinstance(o, fa.Facula):
        return [o.lat.value, o.lon.value, o.r_max.value, o.lifetime.value]
    return [o.lat.value, o.lon.value, o.energy.value, o.fwhm.value, o.Teff.value, o.tpeak.value]


@battery('C24', 'differently seeded generators: every drawn quantity comes from the given random generator')
def seeds(r):
    rng = r.rng
    g = cg.SpiralGrid(3)
    for k in r.loop(6, 20):
        r.cases += 1
        n = int(pick(rng, [1, 8, 40]))
        res = []
        for seed in (k, k + 1000):
            if k % 3 == 0:
                x = spot_gen(np.random.default_rng(7), g, seed=seed, dist_area_mean=500 * MSH, dist_area_logsigma=0.4, init_area=10 * MSH, distribution=['iso', 'solar'][k % 2]).generate_spots(n)
            elif k % 3 == 1:
                x = fac_gen(np.random.default_rng(7), g, seed=seed, dist_r_peak=3e4 * u.km, dist_r_logsigma=0.4, dist_life_logsigma=0.4).generate_faculae(n)
            else:
                x = fl.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3, alpha=-0.8, beta=np.log10(5.) + 0.8 * 33, min_energy=1e33 * u.erg, cluster_size=3, rng=np.random.default_rng(seed)).generate_flare_series(n * u.day)
            res.append([fields(o) for o in x])
        r.put(kind=['spot', 'facula', 'flare'][k % 3], n=n)
        for a, b in zip(*res):
            r.check(all(p != q for p, q in zip(a, b)), 'a drawn quantity does not depend on the given random generator', one=a, other=b)
