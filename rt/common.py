import numpy as np
from astropy import units as u
from base import battery, R, short, Stop
from vspec_vsm.config import MSH
import vspec_vsm.coordinate_grid as cg
import vspec_vsm.helpers as hp
import vspec_vsm.spots as sp
import vspec_vsm.faculae as fa
import vspec_vsm.star as st
import vspec_vsm.flares as fl
import vspec_vsm.granules as gr
import vspec_vsm.xoflares as xo

TIMES = [u.s, u.min, u.hr, u.day, u.yr]
AREAS = [MSH, u.km ** 2, u.m ** 2, u.R_sun ** 2]
ANGLES = [u.deg, u.rad, u.arcsec]
LENGTHS = [u.km, u.m, u.R_sun, u.R_jup, u.AU]


def lu(rng, lo, hi):
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def conv(q, rng, units):
    return q.to(pick(rng, units))


def vec(lat, lon):
    lat, lon = np.broadcast_arrays(np.asarray(lat, float), np.asarray(lon, float))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def true_angle(lat1, lon1, lat2, lon2):
    """angle between unit vectors, accurate everywhere"""
    a, b = vec(lat1, lon1), vec(lat2, lon2)
    a, b = np.broadcast_arrays(a, b)
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), np.sum(a * b, -1))


def rand_grid(rng, small=True):
    x = rng.random()
    if x < 0.05:
        return cg.RectangularGrid(int(rng.integers(3, 520)), int(rng.integers(3, 9)))
    if x < 0.5:
        return cg.RectangularGrid(int(rng.integers(3, 30)), int(rng.integers(3, 40)))
    return cg.SpiralGrid(int(rng.integers(20, 900)))


def snapshot(o, skip=()):
    out = {}
    for k, v in vars(o).items():
        if k in skip or k.startswith('_'):       # private names are representation, not observable state
            continue
        if isinstance(v, u.Quantity):
            out[k] = ('q', np.array(v.value, copy=True), str(v.unit))
        elif isinstance(v, np.ndarray):
            out[k] = ('a', v.copy(), '')
        elif isinstance(v, (list, tuple)):
            out[k] = ('l', [id(x) for x in v], '')
        elif isinstance(v, dict):
            out[k] = ('d', repr(v), '')
        elif isinstance(v, (bool, int, float, str, type(None), np.bool_)):
            out[k] = ('v', v, '')
        else:
            out[k] = ('o', id(v), '')
    return out


def diff(a, b):
    """names of attributes present in both snapshots that differ"""
    out = []
    for k in a:
        if k not in b:
            continue
        x, y = a[k], b[k]
        if x[0] != y[0] or x[2] != y[2]:
            out.append(k)
        elif x[0] in ('q', 'a'):
            if x[1].shape != y[1].shape or not np.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind == 'f'):
                out.append(k)
        elif x[1] != y[1] and not (x[1] != x[1] and y[1] != y[1]):
            out.append(k)
    return out


def lat_lon(rng):
    lat = float(np.degrees(np.arcsin(rng.uniform(-1, 1)))) if rng.random() < 0.9 else float(pick(rng, [-90., 90., 0.]))
    x = rng.random()
    return lat, float(rng.uniform(0, 360)) if x < 0.75 else float(rng.uniform(-400, 800)) if x < 0.9 else 0.


def rand_spot(rng, grid, R=7e8, frac=None, tu=None, tp=None, growing=None):
    """R in m; current area as a fraction of the sphere"""
    la, lo = lat_lon(rng)
    if rng.random() < 0.1:
        lo = pick(rng, [359.7, 359.999, -0.3, 360.2, 180.0, 179.9])
    f = frac if frac is not None else pick(rng, [lu(rng, 1e-6, 0.3), rng.uniform(0.001, 0.2)])
    A = f * 4 * np.pi * R ** 2
    if tp is None:
        tp = rng.uniform(2000, 4500)
    if tu is None:
        tu = tp - pick(rng, [0., rng.uniform(0, 500)])
    return sp.StarSpot(la * u.deg, lo * u.deg, conv(max(A, 1.) * rng.uniform(1, 2) * u.m ** 2, rng, AREAS), conv(A * u.m ** 2, rng, AREAS), tu * u.K, tp * u.K,
                       area_over_umbra_area=rng.uniform(1, 9), is_growing=bool(rng.random() < 0.5) if growing is None else growing,
                       growth_rate=rng.uniform(0, 1) / u.day, decay_rate=rng.uniform(0, 50) * MSH / u.day, gridmaker=grid)


def rand_fac(rng, grid, R=7e8, ang=None, growing=None, rr=None):
    """ang: angular radius in rad"""
    la, lo = lat_lon(rng)
    ang = ang if ang is not None else lu(rng, 1e-3, 0.7)
    rad = ang * R
    wall = rng.uniform(20, 900)
    floor = -rng.uniform(20, 900)
    if rng.random() < 0.2:
        wall, floor = floor, wall
    rk = rad / 1e3
    minr = pick(rng, [rk * 0.5, rk * rng.uniform(0, 2), 0.0, rk * 3])
    return fa.Facula(la * u.deg, lo * u.deg, conv(rad * (1 + rng.random()) * u.m, rng, LENGTHS), conv(rad * u.m, rng, LENGTHS), conv(rad * pick(rng, [lu(rng, 1e-3, 3.), rng.uniform(0, 1)]) * u.m, rng, LENGTHS),
                     lu(rng, 1, 1000) * u.hr, rng.uniform(-50, 50) / rk * u.K / u.km, minr * u.km, floor * u.K,
                     rng.uniform(-50, 50) / rk * u.K / u.km, wall * u.K, growing=bool(rng.random() < 0.5) if growing is None else growing, gridmaker=grid)


def cap(A, R):
    """angular radius of the cap of area A on a sphere of radius R (SI), accurate for small areas"""
    return 2 * np.arcsin(np.sqrt(np.clip(A / (4 * np.pi * R ** 2), 0, 1)))


def grid_rad(g):
    la, lo = g.grid()
    return la.to_value(u.rad), lo.to_value(u.rad)


def lens(d):
    """overlap share of two unit circles at distance d"""
    d = abs(d)
    if d >= 2:
        return 0.0
    return float(2 / np.pi * (np.arccos(d / 2) - d / 2 * np.sqrt(1 - d * d / 4)))


def spot_params(s):
    return (s.coords['lat'].to_value(u.rad), s.coords['lon'].to_value(u.rad), s.area_current.to_value(u.m ** 2), s.teff_umbra.to_value(u.K), s.teff_penumbra.to_value(u.K), float(s.total_area_over_umbra_area))


def spot_masks(s, R, LA, LO):
    """(umbra, penumbra, uncertain) masks by the definition"""
    la, lo, A, tu, tp, q = spot_params(s)
    w = true_angle(la, lo, LA, LO)
    rho = cap(A, R)
    ru = rho / np.sqrt(q)
    tol = 1e-9 + min(3e-8, 4e-15 / max(rho, 1e-12)) + 1e-9 * rho
    tol = tol + np.where(w > 3.1, 3e-7, 0)
    return w < ru, w < rho, (np.abs(w - ru) < tol) | (np.abs(w - rho) < tol)


def fac_masks(f, R, LA, LO):
    w = true_angle(f.lat.to_value(u.rad), f.lon.to_value(u.rad), LA, LO)
    rho = f.radius.to_value(u.m) / R
    return w <= rho, np.abs(w - rho) < 1e-9 + 1e-9 * rho + np.where(w > 3.1, 3e-7, 0)


def wall_floor(f, angle):
    """wall share, wall offset, floor offset by the definition (offsets not rounded)"""
    rad = f.radius.to_value(u.km)
    fl_ = (rad - f.floor_teff_min_rad.to_value(u.km)) * f.floor_teff_slope.to_value(u.K / u.km) + f.floor_teff_base_dteff.to_value(u.K)
    wl = rad * f.wall_teff_slope.to_value(u.K / u.km) + f.wall_teff_intercept.to_value(u.K)
    if rad < f.floor_teff_min_rad.to_value(u.km):
        share = 1.0
    else:
        share = 1 - lens(f.depth.to_value(u.km) / rad * np.tan(angle))
    return share, wl, fl_


def rand_grid_params(rng, big=False):
    if rng.random() < 0.5:
        return (int(rng.integers(3, 60 if big else 30)), int(rng.integers(3, 80 if big else 40)))
    return int(rng.integers(20, 3000 if big else 900))


def spot_gen(rng, grid=None, seed=None, **kw):
    d = dict(dist_area_mean=lu(rng, 50, 2000) * MSH, dist_area_logsigma=rng.uniform(0.05, 0.5), umbra_teff=rng.uniform(2000, 3000) * u.K, penumbra_teff=rng.uniform(3000, 3500) * u.K,
             growth_rate=lu(rng, 0.05, 2) / u.day, decay_rate=lu(rng, 1, 200) * MSH / u.day, init_area=lu(rng, 1, 20) * MSH, distribution=pick(rng, ['iso', 'solar']),
             coverage=rng.uniform(0, 0.4), rng=np.random.default_rng(int(rng.integers(1 << 30)) if seed is None else seed))
    if grid is not None:
        d['gridmaker'] = grid
    d.update(kw)
    return sp.SpotGenerator(**d)


def fac_gen(rng, grid=None, seed=None, **kw):
    d = dict(dist_r_peak=lu(rng, 50, 5e4) * u.km, dist_r_logsigma=rng.uniform(0.01, 0.5), depth=lu(rng, 10, 1e3) * u.km, dist_life_peak=lu(rng, 1, 500) * u.hr, dist_life_logsigma=rng.uniform(0, 0.5),
             floor_teff_slope=rng.normal() * 1e-2 * u.K / u.km, floor_teff_min_rad=lu(rng, 1, 1e3) * u.km, floor_teff_base_dteff=-rng.uniform(50, 200) * u.K, wall_teff_slope=rng.normal() * 1e-2 * u.K / u.km,
             wall_teff_intercept=rng.uniform(50, 200) * u.K, coverage=float(rng.uniform(0, 0.3)), dist='iso', rng=np.random.default_rng(int(rng.integers(1 << 30)) if seed is None else seed))
    if grid is not None:
        d['gridmaker'] = grid
    d.update(kw)
    return fa.FaculaGenerator(**d)


def mk_star(rng, spots=(), facs=(), gp_=None, R=7e8, teff=None, u1=None, u2=None, gran=None, **kw):
    gp_ = gp_ if gp_ is not None else rand_grid_params(rng)
    if u1 is None:
        u1 = pick(rng, [0., rng.uniform(0, 0.6), rng.uniform(0, 0.6), rng.uniform(-0.5, 0)])
    if u2 is None:
        u2 = pick(rng, [0., rng.uniform(-0.3, 1 - max(u1, 0) - 1e-3), rng.uniform(-0.3, 1 - max(u1, 0) - 1e-3), 1 - u1 if 0 <= u1 <= 1 else 0.])
    teff = teff if teff is not None else rng.uniform(2900, 3800)
    return st.Star(teff * u.K, conv(R * u.m, rng, [u.km, u.m, u.R_sun, u.R_jup]), 10 * u.day, sp.SpotCollection(*spots, gridmaker=cg.SpiralGrid(5)), fa.FaculaCollection(*facs, gridmaker=cg.SpiralGrid(5)), grid_params=gp_, u1=u1, u2=u2, granulation=gran, rng=np.random.default_rng(int(rng.integers(1 << 30))), **kw)


class EdgeRng(np.random.Generator):
    """a generator whose draws include the extremes of their distributions"""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.k = (0, 2)[seed % 2]
        self.counts = []

    def poisson(self, lam=1.0, size=None):
        v = super().poisson(lam, size)
        if np.ndim(v) == 0:
            self.counts.append((float(lam), int(v)))
        return v

    def _mix(self, v, edges, p=0.3):
        v = np.array(v, dtype=float)
        m = super().random(v.shape) < p
        e = np.asarray(edges, float)[super().integers(len(edges), size=v.shape)]
        v = np.where(m, e, v)
        return float(v) if v.ndim == 0 else v

    def random(self, size=None, *a, **k):
        return self._mix(super().random(size, *a, **k), [0., 1 - 2. ** -53, 0.5, 1e-300])

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        v = super().normal(loc, scale, size)
        self.k += 1
        # extremes only now and then, so that a caller that draws again gets other values
        return v if self.k % 3 else self._mix(v, [loc - 6 * np.abs(scale), loc + 6 * np.abs(scale)])

    def standard_normal(self, size=None, *a, **k):
        return self.normal(0.0, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        return self._mix(super().exponential(scale, size), [0., 40 * scale])
