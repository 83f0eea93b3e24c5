from common import *
from decimal import Decimal as D, getcontext
getcontext().prec = 50
DPI = D('3.14159265358979323846264338327950288419716939937510')


def dacos(x):
    """arccos in 50 digits (Newton on cos from a float start)"""
    if x >= 1:
        return D(0)
    if x <= -1:
        return DPI
    # arccos(x) = 2 atan( sqrt((1-x)/(1+x)) )
    return 2 * datan(((1 - x) / (1 + x)).sqrt())


def datan(z):
    k = 0
    while z > D('0.05'):
        z = z / (1 + (1 + z * z).sqrt())
        k += 1
    s, t, n, z2 = D(0), z, 1, z * z
    while abs(t) > D(10) ** -48 and n < 200:
        s += t / n if n % 4 == 1 else -t / n
        t *= z2
        n += 2
    return s * 2 ** k


def exact(x, y, r):
    x, y, r = D(float(x)), D(float(y)), D(float(r))
    d = (x * x + y * y).sqrt()
    if d >= 1 + r:
        return 0.0
    if d <= 1 - r:
        return 1.0

    def seg(R, h):
        c = h / R
        c = max(D(-1), min(D(1), c))
        return R * R * (dacos(c) - c * (1 - c * c).sqrt())
    d1 = (d * d - r * r + 1) / (2 * d)
    d2 = (d * d + r * r - 1) / (2 * d)
    return float((seg(D(1), d1) + seg(r, d2)) / (DPI * r * r))


@battery('C04', 'centers up to distance 3, radii from 1e-12 to 1, tangent and nearly tangent circles')
def run(r):
    rng = r.rng
    f = hp.calc_circ_fraction_inside_unit_circle
    for k in r.loop(700):
        rad = r.val('r', pick(rng, [1.0, lu(rng, 1e-3, 1), rng.random() or 1.0, lu(rng, 1e-12, 1), 0.5, 0.25]))
        kind = int(rng.integers(7))
        d = [rng.uniform(0, 3), 1 - rad, 1 + rad, 1 - rad + pick(rng, [-1, 1]) * 10. ** rng.uniform(-16, -1), 1 + rad + pick(rng, [-1, 1]) * 10. ** rng.uniform(-16, -1),
             1 + rad * rng.uniform(-1, 1), pick(rng, [0.0, 10. ** rng.uniform(-300, -1), 1.0])][kind]
        th = rng.uniform(0, 2 * np.pi) if rng.random() < 0.6 else pick(rng, [0, np.pi / 2, np.pi, -np.pi / 2])
        x = r.val('x', float(d * np.cos(th)))
        y = r.val('y', float(d * np.sin(th)))
        if not np.isfinite([x, y, rad]).all() or rad <= 0:
            continue
        if rad > 1:
            r.raises(ValueError, 'a radius above 1 is accepted', f, x, y, rad)
            continue
        ok, v = r.call('overlap fraction', f, x, y, rad)
        if not ok:
            continue
        v = float(v)
        r.put(d=d)
        if not r.check(np.isfinite(v) and 0 <= v <= 1, 'overlap fraction is not in [0,1]', got=v):
            continue
        tol = 1e-9 + 5e-15 / rad ** 3 + (1e-12 / rad) + (min(1e-7, 2e-15 / np.hypot(x, y)) if np.hypot(x, y) > 0 else 0)
        if tol < 0.1:
            e = exact(x, y, rad)
            r.check(abs(v - e) <= tol, 'overlap fraction differs from the exact lens area', got=v, expected=e)
        d = np.hypot(x, y)
        if d < 1 - rad - 1e-12:
            r.check(v == 1, 'contained circle does not have fraction 1', got=v)
        if d > 1 + rad + 1e-12:
            r.check(v == 0, 'disjoint circle does not have fraction 0', got=v)
        a = rng.uniform(0, 2 * np.pi)
        x2, y2 = x * np.cos(a) - y * np.sin(a), x * np.sin(a) + y * np.cos(a)
        if tol < 1e-3:
            ok, v2 = r.call('overlap fraction', f, x2, y2, rad)
            if ok:
                r.check(abs(v - float(v2)) <= 4 * tol, 'overlap fraction depends on more than the distance', got=v, rotated=v2)
        ok, v2 = r.call('overlap fraction', f, -x, -y, rad)
        if ok:
            r.check(abs(v - float(v2)) <= tol, 'overlap fraction changes under reflection', got=v, other=v2)
        bad = 1 + lu(rng, 1e-12, 1e3)
        r.raises(ValueError, f'a radius of {bad} is accepted', f, x, y, bad)
