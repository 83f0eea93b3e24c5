from common import *


@battery('C05', 'random centers incl. poles and near-poles, random points incl. points near the center, the antipode and the limb; arrays of 1 and 2 dimensions')
def run(r):
    rng = r.rng
    for k in r.loop(400):
        lat0 = r.val('lat0', pick(rng, [rng.uniform(-np.pi / 2, np.pi / 2), 0.0, np.pi / 2, -np.pi / 2, pick(rng, [-1, 1]) * (np.pi / 2 - 10. ** rng.uniform(-16, -1))]))
        lon0 = r.val('lon0', pick(rng, [rng.uniform(0, 2 * np.pi), 0.0, rng.uniform(-7, 14), np.pi]))
        lat0 = float(np.clip(lat0, -np.pi / 2, np.pi / 2))
        kind = k % 5
        if kind == 0:
            g = rand_grid(rng)
            la, lo = [q.to_value(u.rad) for q in g.grid()]
        else:
            n = int(rng.integers(1, 60))
            la = np.arcsin(rng.uniform(-1, 1, n))
            lo = rng.uniform(0, 2 * np.pi, n)
            if kind == 1:
                la = np.clip(lat0 + 10. ** rng.uniform(-9, -1) * rng.normal(size=n), -np.pi / 2, np.pi / 2)
                lo = lon0 + 10. ** rng.uniform(-9, -1) * rng.normal(size=n)
            elif kind == 2:
                lo = lon0 + np.pi * rng.integers(-2, 3, n)
                la = np.where(rng.random(n) < 0.2, lat0, la)
            elif kind == 3:
                la = np.where(rng.random(n) < 0.3, pick(rng, [-1, 1]) * np.pi / 2, la)
                lo = np.where(rng.random(n) < 0.3, lon0, lo)
        if 'glat[_p]' in r.hint or 'glat' in r.hint:
            pass
        aunits = [u.rad, u.deg]
        q = [conv(v * u.rad, rng, aunits) for v in (lat0, lon0, la, lo)]
        la0, lo0, la, lo = [v.to_value(u.rad) for v in q]
        old = [np.array(v.value, copy=True) for v in q]
        ok, out = r.call('proj_ortho', hp.proj_ortho, *q)
        if not ok:
            continue
        r.check(all(np.array_equal(a, b.value) for a, b in zip(old, q)), 'proj_ortho modifies its arguments')
        x, y = out
        r.put(lat0=la0, lon0=lo0)
        if not r.check(np.shape(x) == la.shape and np.shape(y) == la.shape, 'projected coordinates have the wrong shape'):
            continue
        c0 = vec(la0, lo0)
        p = vec(la, lo)
        mu = p @ c0
        e = vec(0, lo0 + np.pi / 2)
        nrm = np.array([-np.sin(la0) * np.cos(lo0), -np.sin(la0) * np.sin(lo0), np.cos(la0)])
        tx, ty = p @ e, p @ nrm
        front, back = mu > 1e-9, mu < -1e-9
        bad = np.isnan(x) | np.isnan(y)
        j = np.argmax(front & bad)
        r.check(not np.any(front & bad), 'a point of the facing hemisphere projects to NaN', lat=la.flat[j], lon=lo.flat[j])
        j = np.argmax(back & ~(np.isnan(x) & np.isnan(y)))
        r.check(np.all(np.isnan(x[back]) & np.isnan(y[back])), 'a hidden point does not project to NaN', lat=la.flat[j], lon=lo.flat[j])
        err = np.where(front & ~bad, np.hypot(x - tx, y - ty), 0)
        j = np.argmax(err)
        r.check(err.max(initial=0) < 1e-7, 'projected coordinates differ from the orthographic ones', lat=la.flat[j], lon=lo.flat[j], got=(x.flat[j], y.flat[j]), expected=(tx.flat[j], ty.flat[j]))
        ang = true_angle(la0, lo0, la, lo)
        err = np.where(front & ~bad, np.abs(np.hypot(x, y) - np.sin(ang)), 0)
        r.check(err.max(initial=0) < 1e-7, 'distance from the disk center is not the sine of the angular distance')
        if k < 8:
            for i in range(4):
                w = list(q)
                w[i] = w[i].value
                r.raises(TypeError, f'argument {i} without unit is accepted', hp.proj_ortho, *w)
