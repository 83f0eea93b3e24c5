from common import *


def pts(rng):
    la = pick(rng, [rng.uniform(-90, 90), 0., 90., -90., pick(rng, [-1, 1]) * (90 - 10. ** rng.uniform(-14, 0))])
    lo = pick(rng, [rng.uniform(0, 360), 0., 180., rng.uniform(-400, 800), 360 - 10. ** rng.uniform(-3, 0), -10. ** rng.uniform(-3, 0), 180 + rng.normal() * 0.1])
    return np.radians(la), np.radians(lo)


def angerr(got, want):
    """great-circle formulas based on arccos resolve angles near 0 and pi only to ~1e-7"""
    return np.abs(got - want) <= 1e-9 + np.where((want < 1e-3) | (want > np.pi - 1e-3), 2e-7, 0) + np.where((want < 1e-1) | (want > np.pi - 1e-1), 3e-12, 0)


@battery('C06', 'random pairs of points incl. identical, antipodal, polar and nearly coincident ones, mixed angle units')
def pairs(r):
    rng = r.rng
    for k in r.loop(1200):
        a = pts(rng)
        kind = k % 5
        if kind == 0:
            b = a
        elif kind == 1:
            b = (-a[0], a[1] + np.pi)
        elif kind == 2:
            e = 10. ** rng.uniform(-12, -1)
            b = (float(np.clip(a[0] + e * rng.normal(), -np.pi / 2, np.pi / 2)), a[1] + e * rng.normal())
        else:
            b = pts(rng)
        v = [r.val(nm, x) for nm, x in zip(('lat1', 'lon1', 'lat2', 'lon2'), (*a, *b))]
        q = [conv(x * u.rad, rng, ANGLES) for x in v]
        v = [x.to_value(u.rad) for x in q]
        ok, g = r.call('get_angle_between', hp.get_angle_between, *q)
        if not ok:
            continue
        ok, g2 = r.call('get_angle_between', hp.get_angle_between, q[2], q[3], q[0], q[1])
        g = u.Quantity(g)
        g, g2 = g.to_value(u.rad), u.Quantity(g2).to_value(u.rad)
        if not r.check(np.isfinite(g) and 0 <= g <= np.pi * (1 + 1e-15), 'angle is not finite in [0,180] degrees', got=g):
            continue
        w = true_angle(*v)
        r.check(angerr(g, w), 'angle differs from the angle between the unit vectors', got=g, expected=w)
        r.check(abs(g - g2) <= 1e-7, 'angle is not symmetric', got=g, swapped=g2)


@battery('C06', 'random grids (3..30 x 3..40 rectangular, 20..900 spiral) and random centers; spots and faculae on them')
def grids(r):
    rng = r.rng
    for k in r.loop(60):
        g = rand_grid(rng)
        la0, lo0 = pts(rng)
        LA, LO = [q.to_value(u.rad) for q in g.grid()]
        if rng.random() < 0.4:
            j = int(rng.integers(LA.size))
            la0, lo0 = float(LA.flat[j]), float(LO.flat[j])
            if rng.random() < 0.5:
                la0, lo0 = -la0, lo0 + np.pi
        la0, lo0 = r.val('lat0', la0), r.val('lon0', lo0)
        qa, qo = conv(la0 * u.rad, rng, ANGLES), conv(lo0 * u.rad, rng, ANGLES)
        la0, lo0 = qa.to_value(u.rad), qo.to_value(u.rad)
        r.put(grid=type(g).__name__ + str(vars(g)))
        w = true_angle(la0, lo0, LA, LO)
        ok, mu = r.call('cos_angle_from_disk_center', g.cos_angle_from_disk_center, qa, qo)
        if ok and r.check(np.shape(mu) == LA.shape, 'cosine map has the wrong shape'):
            r.check(np.all(np.abs(mu - np.cos(w)) < 1e-12), 'cosine map differs from the cosine of the true angle')
        if abs(la0) > np.pi / 2:
            continue
        args = (1e3 * u.km, 1e3 * u.km, 1e2 * u.km, 1 * u.day, 0 * u.K / u.km, 1 * u.km, -1 * u.K, 0 * u.K / u.km, 1 * u.K)
        fac = fa.Facula(qa, qo, *args, gridmaker=g)
        spot = sp.StarSpot(qa, qo, 10 * MSH, 10 * MSH, 2500 * u.K, 2700 * u.K, gridmaker=g)
        for nm, o in (('spot', lambda: spot.r), ('facula', lambda: fac._r)):
            ok, d = r.call(f'distance of pixels from a {nm}', o)
            if not ok:
                continue
            d = u.Quantity(d).to_value(u.rad)
            if not r.check(np.shape(d) == LA.shape, f'{nm} distance map has the wrong shape'):
                continue
            j = np.argmax(~np.isfinite(d))
            if not r.check(np.all(np.isfinite(d)) and np.all(d >= 0) and np.all(d <= np.pi * (1 + 1e-15)), f'{nm}: pixel distance not finite in [0,180] degrees', got=d.flat[j]):
                continue
            e = np.abs(d - w)
            j = np.argmax(e)
            r.check(np.all(e <= 1e-9 + np.where(w > np.pi - 1e-3, 2e-7, 0) + np.where(w > np.pi - .1, 1e-10, 0)), f'{nm}: pixel distance differs from the true angle', got=d.flat[j], expected=w.flat[j], lat=LA.flat[j], lon=LO.flat[j])
