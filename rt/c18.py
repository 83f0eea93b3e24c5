from common import *
from scipy import stats


def iso_test(r, lat, lon, what):
    if len(lat) < 200:
        return
    p = stats.kstest((np.sin(lat) + 1) / 2, 'uniform').pvalue
    r.check(p > 1e-7, f'{what}: the sine of the latitude is not uniform', p=p)
    p = stats.kstest(lon / (2 * np.pi), 'uniform').pvalue
    r.check(p > 1e-7, f'{what}: the longitude is not uniform', p=p)
    rho, p = stats.spearmanr(lat, lon)
    r.check(p > 1e-7, f'{what}: latitude and longitude are correlated', rho=rho)


@battery('C18', 'n in {0,1,2,random up to 40, 1500}, random settings; statistical tests at significance 1e-7')
def spots(r):
    rng = r.rng
    g = cg.SpiralGrid(5)
    for k in r.loop(40):
        sg = spot_gen(rng, g)
        if k % 3 == 2:
            sg.init_area = sg.dist_area_mean * rng.uniform(0.5, 1.2)
        if k % 3 == 1:
            sg.rng = EdgeRng(int(rng.integers(1 << 30)))
        n = int(pick(rng, [0, 1, 2, rng.integers(0, 40)]) if k % 3 != 1 else rng.integers(1, 40)) if k else 1500
        if k == 0:
            sg.distribution = 'iso'
        r.put(n=n, distribution=sg.distribution)
        ok, ss = r.call('generate_spots', sg.generate_spots, n)
        if not ok:
            continue
        if not r.check(len(ss) == n and len({id(s) for s in ss}) == n, 'not exactly n spots', got=len(ss)):
            continue
        for s in ss:
            lon = s.coords['lon'].to_value(u.deg)
            lat = s.coords['lat'].to_value(u.deg)
            r.check(isinstance(s, sp.StarSpot) and bool(s.is_growing), 'a generated spot is not growing')
            r.check(s.area_current.to_value(MSH) == sg.init_area.to_value(MSH), 'a generated spot does not start at the initial area', got=s.area_current)
            r.check(s.teff_umbra == sg.umbra_teff and s.teff_penumbra == sg.penumbra_teff, 'wrong temperatures', got=(s.teff_umbra, s.teff_penumbra))
            r.check(s.growth_rate == sg.growth_rate and s.decay_rate == sg.decay_rate, 'wrong rates')
            r.check(s.area_max.to_value(MSH) > 0 and s.total_area_over_umbra_area > 0, 'maximum size not positive')
            r.check(0 <= lon < 360, 'longitude outside [0,360)', got=lon)
            if sg.distribution == 'iso':
                r.check(-90 <= lat <= 90, 'latitude outside [-90,90]', got=lat)
        if n == 1500:
            iso_test(r, np.array([s.coords['lat'].to_value(u.rad) for s in ss]), np.array([s.coords['lon'].to_value(u.rad) for s in ss]), 'spots')
            p = stats.kstest(np.log([s.area_max.to_value(MSH) for s in ss]), 'norm', (np.log(sg.dist_area_mean.to_value(MSH)), sg.dist_area_logsigma)).pvalue
            r.check(p > 1e-7, 'maximum areas are not log-normal as configured', p=p)
            if True:
                sg2 = spot_gen(rng, g, distribution='solar')
                ss = sg2.generate_spots(1500)
                x = np.array([s.coords['lat'].to_value(u.deg) for s in ss])
                r.check(stats.kstest(np.abs(x), lambda y: stats.norm.cdf(y, 15, 5) - stats.norm.cdf(-y, 15, 5)).pvalue > 1e-7, 'solar latitudes are not as documented')
                r.check(abs((x > 0).sum() - 750) < 120, 'solar hemispheres are not balanced')
        # mature
        cov = pick(rng, [0.0, rng.uniform(0, 0.05), rng.uniform(0, 0.05)])
        R = 3e8
        sg3 = spot_gen(rng, g, dist_area_mean=lu(rng, 200, 5000) * MSH, dist_area_logsigma=0.3, init_area=5 * MSH, decay_rate=pick(rng, [0., lu(rng, 10, 200)]) * MSH / u.day)
        r.put(coverage=cov, static=bool(sg3.is_static))
        ok, ms = r.call('generate_mature_spots', sg3.generate_mature_spots, cov, R * u.m)
        if ok:
            om = np.array([s.angular_radius(R * u.m).to_value(u.rad) ** 2 * np.pi for s in ms])
            tgt = 4 * np.pi * cov
            r.check(om.sum() >= tgt * (1 - 1e-12), 'mature spots do not reach the requested coverage', got=om.sum(), expected=tgt)
            if len(om):
                r.check(om[:-1].sum() < tgt * (1 + 1e-12), 'mature spots go on after the coverage is reached', got=om[:-1].sum(), expected=tgt)
            else:
                r.check(tgt == 0, 'no mature spots')
            for s in ms:
                a, b = s.area_current.to_value(MSH), s.area_max.to_value(MSH)
                r.check(0 <= a <= b * (1 + 1e-9), 'mature spot area outside [0, maximum]', got=a, maximum=b)
        for bad in (-1e-9, 1 + 1e-9, 2, -0.5):
            r.raises(ValueError, f'coverage {bad} is accepted', sg3.generate_mature_spots, bad, R * u.m)


@battery('C18', '')
def faculae(r):
    rng = r.rng
    g = cg.SpiralGrid(5)
    for k in r.loop(40):
        fg = fac_gen(rng, g)
        if k % 3 == 1:
            fg.rng = EdgeRng(int(rng.integers(1 << 30)))
        n = int(pick(rng, [0, 1, 2, rng.integers(0, 40)]) if k % 3 != 1 else rng.integers(1, 40)) if k else 1500
        r.put(n=n)
        ok, fs = r.call('generate_faculae', fg.generate_faculae, n)
        if not ok:
            continue
        if not r.check(len(fs) == n and len({id(s) for s in fs}) == n, 'not exactly n faculae', got=len(fs)):
            continue
        for f in fs:
            lon, lat = f.lon.to_value(u.deg), f.lat.to_value(u.deg)
            r.check(bool(f.is_growing), 'a generated facula is not growing')
            rm, r0 = f.r_max.to_value(u.km), f.radius.to_value(u.km)
            r.check(rm > 0, 'maximum radius not positive')
            r.close(r0, rm * np.exp(-2), 'a facula does not start at 1/e^2 of its maximum radius', rtol=1e-9)
            r.check(f.depth == fg.depth and f.floor_teff_slope == fg.floor_teff_slope and f.floor_teff_min_rad == fg.floor_teff_min_rad and f.floor_teff_base_dteff == fg.floor_teff_base_dteff
                    and f.wall_teff_slope == fg.wall_teff_slope and f.wall_teff_intercept == fg.wall_teff_intercept, 'wrong temperature settings')
            r.check(f.lifetime.to_value(u.hr) > 0, 'lifetime not positive')
            r.check(0 <= lon < 360, 'longitude outside [0,360)', got=lon)
            r.check(-90 <= lat <= 90, 'latitude outside [-90,90]', got=lat)
        if n == 1500:
            iso_test(r, np.array([f.lat.to_value(u.rad) for f in fs]), np.array([f.lon.to_value(u.rad) for f in fs]), 'faculae')
            p = stats.kstest(np.log10([f.r_max.to_value(u.km) for f in fs]), 'norm', (np.log10(fg.dist_r_peak.to_value(u.km)), fg.dist_r_logsigma)).pvalue
            r.check(p > 1e-7, 'maximum radii are not log-normal as configured', p=p)
            p = stats.kstest(np.log10([f.lifetime.to_value(u.hr) for f in fs]), 'norm', (np.log10(fg.dist_life_peak.to_value(u.hr)), fg.dist_life_logsigma)).pvalue
            r.check(p > 1e-7, 'lifetimes are not log-normal as configured', p=p)


@battery('C18', 'births: 150 draws of mean about 6')
def births(r):
    rng = r.rng
    g = cg.SpiralGrid(5)
    for k in r.loop(2, 6):
        for nm, mk, nexp, birth in (('spots', spot_gen, 'get_n_spots_to_birth', 'birth_spots'), ('faculae', fac_gen, 'get_n_faculae_expected', 'birth_faculae')):
            o = mk(rng, g, coverage=0.2)
            R = 5e8 * u.m
            one = getattr(o, nexp)(1 * u.day, R)
            t = 6 / one * u.day
            N = 150
            x = np.array([len(getattr(o, birth)(t, R)) for _ in range(N)])
            r.check(abs(x.sum() - 6 * N) < 6 * np.sqrt(6 * N) + 1, f'births of {nm} do not have the expected number as mean', got=x.mean(), expected=6)
            d = ((x - 6) ** 2).sum() / 6
            r.check(stats.chi2.sf(d, N) > 1e-8 and stats.chi2.cdf(d, N) > 1e-8, f'births of {nm} are not Poisson', dispersion=d / N)
            ok, z = r.call(birth, getattr(mk(rng, g, coverage=0.0), birth), t, R)
            if ok:
                r.check(len(z) == 0, 'births without coverage')
