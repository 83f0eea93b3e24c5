from common import *
from scipy import stats
from c18 import iso_test


def fgen(rng, **kw):
    d = dict(dist_teff_mean=9000 * u.K, dist_teff_sigma=500 * u.K, dist_fwhm_mean=conv(pick(rng, [lu(rng, 0.1, 20), lu(rng, 0.1, 20), lu(rng, 1e-12, 0.1)]) * u.hr, rng, TIMES), dist_fwhm_logsigma=rng.uniform(0, 0.6), alpha=-rng.uniform(0.3, 1.5), beta=0.,
             min_energy=conv(lu(rng, 1e30, 1e34) * u.erg, rng, [u.erg, u.J]), cluster_size=pick(rng, [1, 2, 5, 20, 0.1, 0]), rng=np.random.default_rng(int(rng.integers(1 << 30))))
    d.update(kw)
    f = fl.FlareGenerator(**d)
    return f


def set_rate(f, per_day):
    """choose beta so that the expected number per day is per_day"""
    f.beta = np.log10(per_day) - f.alpha * np.log10(f.min_energy.to_value(u.erg))


@battery('C22', 'cluster sizes from 0 to 20, up to 400 flares per series')
def run(r):
    rng = r.rng
    for k in r.loop(150):
        f = fgen(rng)
        if k % 3 == 1:
            f.rng = EdgeRng(int(rng.integers(1 << 30)))
        n = int(pick(rng, [1, 2, 3, rng.integers(1, 60), rng.integers(1, 400)]))
        r.put(n=n, cluster_size=f.cluster_size)
        ok, p = r.call('get_peaks', f.get_peaks, n)
        if ok:
            p = np.asarray(p, float)
            if r.check(p.shape == (n,), 'not exactly n peak times', got=p.shape):
                r.check(np.all(p >= 0) and np.all(np.isfinite(p)), 'negative peak time')
                r.check(np.all(np.diff(p) >= 0), 'peak times decrease')
        lam = pick(rng, [0.0, 0.5, 5., 60.])
        T = lu(rng, 0.1, 100)
        if lam:
            set_rate(f, lam / T)
        else:
            f.min_energy = np.inf * u.erg
        tq = conv(T * u.day, rng, TIMES)
        f.rng = rec = EdgeRng(int(rng.integers(1 << 30)))
        ok, s = r.call('generate_flare_series', f.generate_flare_series, tq)
        if not ok:
            continue
        drawn = [v for l, v in rec.counts if lam and abs(l - lam) < 1e-6 * lam]
        if len(drawn) == 1:
            r.check(len(s) == drawn[0], 'the series does not have the drawn number of flares', got=len(s), expected=drawn[0])
        if lam == 0:
            r.check(len(s) == 0, 'flares although disabled')
            continue
        tp = np.array([x.tpeak.to_value(u.day) for x in s])
        r.check(np.all(tp >= 0) and np.all(np.diff(tp) >= 0), 'peak times are negative or not ordered')
        r.check(all(x.energy.to_value(u.erg) >= f.min_energy.to_value(u.erg) * (1 - 1e-12) for x in s), 'energy below the minimum')
        r.check(all(x.fwhm.to_value(u.day) > 0 for x in s), 'FWHM not positive')
        r.check(all(0 <= x.lon.to_value(u.deg) < 360 and -90 <= x.lat.to_value(u.deg) <= 90 for x in s), 'coordinates out of range')
        r.check(all(np.shape(x.tpeak.value) == () and np.shape(x.energy.value) == () for x in s), 'a flare is not scalar')
        r.check(all(x.Teff.unit.is_equivalent(u.K) for x in s), 'wrong temperature')


@battery('C22', 'assembly with prescribed per-index arrays (skipped when the helpers are not used)')
def assembly(r):
    rng = r.rng
    for k in r.loop(40):
        f = fgen(rng)
        T = lu(rng, 0.1, 1e5)
        set_rate(f, pick(rng, [1., 8.]) / T)
        calls = {}
        pk = lu(rng, 0.01, 3)

        def stub(name, fn):
            def g(n, *a, **kw):
                calls[name] = n
                return fn(int(n))
            return g
        sh = lambda n: np.random.default_rng(n).permutation(n)
        f.get_peaks = stub('p', lambda n: np.arange(n) * pk)
        f.gen_fwhm = stub('f', lambda n: (1 + sh(n)) * u.hr)
        f.gen_teffs = stub('t', lambda n: (8000 + sh(n)) * u.K)
        f.gen_coords = stub('c', lambda n: (sh(n) * 0.01 * u.deg, sh(n) * 0.1 * u.deg))
        qs = []

        def qf(X):
            qs.append((1 + sh(len(np.atleast_1d(X)))) * 1e33 * u.erg)
            return qs[-1]
        f.quantile_func = qf
        ok, s = r.call('generate_flare_series', f.generate_flare_series, T * u.day)
        if not ok:
            continue
        n = len(s)
        if set(calls.values()) - {n} and calls:
            r.check(all(v == n for v in calls.values()), 'helpers are asked for another number of flares', got=dict(calls), n=n)
            continue
        i = np.arange(n)
        j = sh(n)
        if len(qs) == 1 and len(qs[0]) == n:
            r.close([x.energy.to_value(u.erg) for x in s], qs[0].to_value(u.erg), 'energy of another index')
        if 'p' in calls:
            r.close([x.tpeak.to_value(u.day) for x in s], i * pk * T, 'peak time of another index', atol=1e-9 * T)
        if 'f' in calls:
            r.close([x.fwhm.to_value(u.hr) for x in s], j + 1, 'FWHM of another index')
        if 't' in calls:
            r.close([x.Teff.to_value(u.K) for x in s], 8000 + j, 'temperature of another index')
        if 'c' in calls:
            r.close([x.lat.to_value(u.deg) for x in s], j * 0.01, 'latitude of another index', atol=1e-9)
            r.close([x.lon.to_value(u.deg) for x in s], j * 0.1, 'longitude of another index', atol=1e-9)


@battery('C22', 'statistics of the number, energies, FWHM, temperatures and coordinates at significance 1e-7')
def stat(r):
    rng = r.rng
    for k in r.loop(2, 5):
        f = fgen(rng, cluster_size=2, dist_fwhm_logsigma=0.3)
        set_rate(f, 6.)
        cnt, fls = [], []
        for _ in range(150):
            s = f.generate_flare_series(1 * u.day)
            cnt.append(len(s))
            fls += s
        x = np.array(cnt)
        r.check(abs(x.sum() - 900) < 6 * 30 + 1, 'the number of flares does not have the expected number as mean', got=x.mean(), expected=6)
        d = ((x - 6) ** 2).sum() / 6
        r.check(stats.chi2.sf(d, 150) > 1e-8 and stats.chi2.cdf(d, 150) > 1e-8, 'the number of flares is not Poisson', dispersion=d / 150)
        iso_test(r, np.array([y.lat.to_value(u.rad) for y in fls]), np.array([y.lon.to_value(u.rad) for y in fls]), 'flares')
        e = np.array([y.energy.to_value(u.erg) for y in fls]) / f.min_energy.to_value(u.erg)
        r.check(stats.kstest(1 - e ** f.alpha, 'uniform').pvalue > 1e-7, 'energies do not follow the power law')
        w = np.log10([y.fwhm.to_value(u.day) for y in fls])
        r.check(stats.kstest(w, 'norm', (np.log10(f.dist_fwhm_mean.to_value(u.day)), f.dist_fwhm_logsigma)).pvalue > 1e-7, 'FWHMs are not log-normal as configured')
        t = [y.Teff.to_value(u.K) for y in fls]
        r.check(stats.kstest(t, 'norm', (9000, 500)).pvalue > 1e-7, 'temperatures are not normal as configured')
