from common import *


def tie(x):
    return abs((x % 1) - 0.5) < 1e-6


@battery('C15', 'radii and depths over 6 decades, slopes of either sign, angles over [0,180] incl. 0, 90 and 180 degrees, mixed units')
def run(r):
    rng = r.rng
    g = cg.SpiralGrid(5)
    for k in r.loop(900):
        f = rand_fac(rng, g, R=1e6, ang=lu(rng, 1e-2, 1e4))
        if k % 5 == 0:        # equal or nearly equal offsets
            f.floor_teff_slope = f.wall_teff_slope = 0 * u.K / u.km
            x = rng.uniform(-300, 300)
            f.wall_teff_intercept = x * u.K
            f.floor_teff_base_dteff = (x + pick(rng, [0., 0.2, -0.3, 1.0, 1e-3])) * u.K
        if 'radius' in r.hint:
            f.radius = r.val('radius', 1.) * u.m
        if 'depth' in r.hint:
            f.depth = r.val('depth', 1.) * u.m
        if k % 9 == 4:
            f.floor_teff_min_rad = f.radius
        rad = f.radius.to_value(u.km)
        if not np.isfinite(rad) or rad <= 0:
            continue
        ang = r.val('angle', pick(rng, [0., rng.uniform(0, np.pi / 2), rng.uniform(0, np.pi / 2), rng.uniform(np.pi / 2, np.pi), np.pi, np.pi / 2 - 10. ** rng.uniform(-12, -1)]))
        if not 0 <= ang <= np.pi:
            continue
        if k % 3 == 1 and not r.hint:        # floor partly visible, whatever the ratio of depth and radius
            ratio = lu(rng, 1e-2, 1e3)
            f.depth = (ratio * f.radius).to(f.depth.unit)
            ang = float(np.arctan(rng.uniform(0, 2.2) / ratio))
        q = conv(ang * u.rad, rng, [u.deg, u.rad])
        ang = q.to_value(u.rad)
        share, wl, fl_ = wall_floor(f, ang)
        minr = f.floor_teff_min_rad.to_value(u.km)
        if rad != minr and abs(rad - minr) < 1e-9 * minr:
            continue
        r.put(radius=rad, depth=f.depth.to_value(u.km), min_floor_radius=minr, wall=wl, floor=fl_, angle=ang)
        eqv = f.floor_dteff == f.wall_dteff
        r.close(f.floor_dteff.to_value(u.K), fl_, 'floor temperature offset is not linear in the radius as configured', rtol=1e-9, atol=1e-9)
        r.close(f.wall_dteff.to_value(u.K), wl, 'wall temperature offset is not linear in the radius as configured', rtol=1e-9, atol=1e-9)
        if fl_ == wl and k % 5 == 0:
            r.raises(ValueError, 'equal wall and floor temperatures are accepted', f.effective_area, q)
            continue
        if tie(wl) or tie(fl_):
            continue
        before = snapshot(f)
        kw, kf = int(np.rint(wl)), int(np.rint(fl_))
        tot = np.pi * (rad * 1e3) ** 2 * np.cos(ang)
        if ang < np.pi / 2:
            ok, ea = r.call('effective_area', f.effective_area, q)
            if ok:
                r.check({kk.to_value(u.K) for kk in ea} == {kw, kf}, 'areas are not keyed by the rounded wall and floor offsets', keys=list(ea), expected=(kw, kf))
                v = {kk.to_value(u.K): a.to_value(u.m ** 2) for kk, a in ea.items()}
                r.check(all(a >= 0 for a in v.values()), 'negative wall or floor area', got=v)
                r.close(sum(v.values()), tot, 'wall and floor do not add up to the projected area', rtol=1e-9)
                if kw != kf and kw in v and kf in v:
                    slack = 1e-9 * (1 + f.depth.to_value(u.km) / rad * (np.tan(ang) + 1 / np.cos(ang) ** 2))
                    r.close(v[kf], (1 - share) * tot, 'floor area is not the overlap of the displaced circles', rtol=1e-9, atol=tot * min(slack, 1))
        ok, fe = r.call('fractional_effective_area', f.fractional_effective_area, q)
        if ok:
            v = {kk.to_value(u.K): u.Quantity(a).to_value(u.dimensionless_unscaled) for kk, a in fe.items()}
            r.check(set(v) == {kw, kf}, 'fractions are not keyed by the rounded wall and floor offsets', keys=list(v), expected=(kw, kf))
            r.check(all(np.isfinite(a) and -1e-12 <= a <= 1 + 1e-12 for a in v.values()), 'fraction outside [0,1]', got=v)
            r.close(sum(v.values()), 1, 'fractions do not add up to 1', rtol=1e-9)
            if kw != kf and kf in v:
                slack = 1e-9 * (1 + f.depth.to_value(u.km) / rad * (abs(np.tan(ang)) + 1 / np.cos(ang) ** 2))
                r.close(v[kf], 1 - share, 'floor fraction is not the overlap of the displaced circles', rtol=1e-9, atol=min(slack, 1))
        r.check(not diff(before, snapshot(f)), 'computing areas changes the facula')
