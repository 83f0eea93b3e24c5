"""random stars and the definition of the coverage table"""
from common import *


def scene(rng, planet=True):
    R = lu(rng, 1e8, 2e9)
    T = pick(rng, [rng.uniform(2900, 3700), 3000.0, 3310.007, rng.uniform(2900, 3700), lu(rng, 1500, 30000)])
    gp_ = rand_grid_params(rng) if rng.random() < 0.8 else pick(rng, [(3, 7), (12, 24), 50])
    spots = []
    pool = [T, T - 0.001, 2500., 2500.004, T - 100]
    many = rng.random() < 0.04
    if many:
        gp_ = int(rng.integers(900, 2500))
    for _ in range(int(rng.integers(0, 5)) if not many else 45):
        tp = pick(rng, [rng.uniform(0.7 * T, T), pick(rng, pool), rng.uniform(0.7 * T, T), rng.uniform(510, T)])
        spots.append(rand_spot(rng, cg.SpiralGrid(5), R, tu=tp - pick(rng, [0., 100., 0.003, rng.uniform(0, 500)]), tp=tp, frac=pick(rng, [rng.uniform(0, 0.3), 1.0 if rng.random() < 0.2 else 0.1]) if not many else rng.uniform(0.003, 0.008)))
    facs = [rand_fac(rng, cg.SpiralGrid(5), R, ang=rng.uniform(0.05, 0.6)) for _ in range(int(rng.integers(0, 4)))]
    dt = pick(rng, [0., 100., T - 2500., rng.uniform(1, 400), 0.001, -rng.uniform(1, 400)])
    gran = pick(rng, [None, gr.Granulation(0.2, 0.1, 5 * u.hr, dt * u.K, seed=1)])
    star = mk_star(rng, spots, facs, gp_=gp_, R=R, teff=T, gran=gran)
    la, lo = lat_lon(rng)
    so = {'lat': conv(la * u.deg, rng, [u.deg, u.rad]), 'lon': conv(lo * u.deg, rng, [u.deg, u.rad])}
    kw = {}
    g = 0.0
    if rng.random() < 0.7:
        g = pick(rng, [0., 1., rng.random()])
        kw['granulation_fraction'] = g
    if planet and rng.random() < 0.8:
        rp = pick(rng, [rng.uniform(0.05, 0.4), lu(rng, 0.01, 1.0)])
        a = pick(rng, [rng.uniform(1.5, 30), rng.uniform(1 + rp, 1.5 + rp), rng.uniform(1.5, 30), rng.uniform(0.2, 1.5)])
        ph = pick(rng, [rng.uniform(0, 360), rng.uniform(-800, 1200), 180 + np.degrees(rng.normal() * 1.0 / a), np.degrees(rng.normal() / a), 180., 0., 540., -180., 720., -360.])
        if rng.random() < 0.15:
            ph = pick(rng, [90., -90., 270.]) + pick(rng, [-1, 1]) * 10. ** rng.uniform(-4, 1)
        inc = pick(rng, [90., np.degrees(np.arccos(np.clip(rng.uniform(0, 1.3) / a, 0, 1))), rng.uniform(0, 180)])
        kw.update(orbit_radius=conv(a * R * u.m, rng, LENGTHS), planet_radius=conv(rp * R * u.m, rng, LENGTHS), phase=conv(ph * u.deg, rng, [u.deg, u.rad]), inclination=conv(inc * u.deg, rng, [u.deg, u.rad]))
    desc = dict(grid=gp_, T=T, R=R, u1=star.u1, u2=star.u2, lat0=la, lon0=lo, granulation_dteff=star.granulation.dteff, args={k: str(v) for k, v in kw.items()}, spots=[spot_params(s) for s in spots], n_faculae=len(facs))
    return star, so, kw, g, desc


def weights(star, so):
    LA, LO = grid_rad(star.gridmaker)
    la, lo = so['lat'].to_value(u.rad), so['lon'].to_value(u.rad)
    mu = np.sin(la) * np.sin(LA) + np.cos(la) * np.cos(LA) * np.cos(lo - LO)
    if isinstance(star.gridmaker, cg.SpiralGrid):
        area = np.full(LA.shape, 1 / LA.size)
    else:
        area = np.cos(LA) / np.cos(LA).sum()
    w = np.where(mu > 0, area * mu * (1 - star.u1 * (1 - mu) - star.u2 * (1 - mu) ** 2), 0)
    return w, mu


def label(T):
    return f'{T * u.K:.2f}'


def K(key):
    return u.Quantity(key).to_value(u.K)


def perturb(rng, star, so, d):
    """one more step in the life of a star (same object): whatever was computed before must not linger"""
    R = star.radius.to_value(u.m)
    T = star.teff.to_value(u.K)
    op = pick(rng, ['age', 'add_spot', 'add_fac', 'ld', 'view', 'unit', 'resize', 'teff'])
    if op == 'age':
        star.age(lu(rng, 1e2, 1e6) * u.s)
    elif op == 'add_spot':
        star.add_spot(rand_spot(rng, cg.SpiralGrid(5), R, tu=0.75 * T, tp=0.85 * T, frac=0.2))
    elif op == 'add_fac':
        star.add_fac(rand_fac(rng, cg.SpiralGrid(5), R, ang=0.5))
    elif op == 'ld':
        star.u1, star.u2 = rng.uniform(0, 0.5), rng.uniform(0, 0.4)
    elif op == 'view':
        la, lo = lat_lon(rng)
        so = {'lat': la * u.deg, 'lon': lo * u.deg}
    elif op == 'unit':      # the same numbers in another unit
        un = {u.deg: u.rad, u.rad: u.deg}
        la = so['lat'].value * un.get(so['lat'].unit, u.rad)
        la = la if abs(la.to_value(u.deg)) <= 90 else so['lat']
        so = {'lat': la, 'lon': so['lon'].value * un.get(so['lon'].unit, u.rad)}
    elif op == 'resize':
        for s in star.spots.spots:
            s.area_current = s.area_current * rng.uniform(0.1, 1)
    else:
        star.teff = star.teff - 37 * u.K
    return so, dict(d, after=op)


def lives(rng, star, so, d, n=2):
    yield so, d
    for _ in range(n - 1):
        so, d = perturb(rng, star, so, d)
        yield so, d


def clone(star):
    """a fresh star in the same state: new objects made by the constructors from the public attributes"""
    g5 = cg.SpiralGrid(5)
    ss = [sp.StarSpot(s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.teff_umbra, s.teff_penumbra, area_over_umbra_area=s.total_area_over_umbra_area, is_growing=s.is_growing,
                      growth_rate=s.growth_rate, decay_rate=s.decay_rate, gridmaker=g5) for s in star.spots.spots]
    ff = [fa.Facula(f.lat, f.lon, f.r_max, f.radius, f.depth, f.lifetime, f.floor_teff_slope, f.floor_teff_min_rad, f.floor_teff_base_dteff, f.wall_teff_slope, f.wall_teff_intercept,
                    growing=f.is_growing, gridmaker=g5) for f in star.faculae.faculae]
    return st.Star(star.teff, star.radius, star.period, sp.SpotCollection(*ss, gridmaker=g5), fa.FaculaCollection(*ff, gridmaker=g5), grid_params=star.grid_params,
                   granulation=star.granulation, u1=star.u1, u2=star.u2)


def same_table(a, b, tol=1e-9):
    return all(abs(float(a.get(k, 0)) - float(b.get(k, 0))) < tol for k in set(a) | set(b))
