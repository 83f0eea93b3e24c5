from common import *


@battery('C08', 'spiral grids of 1..900 points resampled to 3..20 x 3..25, random, constant, extreme and dimensionful data; rectangular grids with matching and mismatching shapes')
def run(r):
    rng = r.rng
    for k in r.loop(120):
        un = pick(rng, [u.K, u.dimensionless_unscaled, u.W / u.m ** 2, None, u.mK, u.km, u.percent, u.erg / u.s])
        if k % 2:
            n = int(pick(rng, [1, 2, rng.integers(1, 300), rng.integers(300, 900)]))
            g = cg.SpiralGrid(n)
            nlat, nlon = int(rng.integers(3, 20)), int(rng.integers(3, 25))
            kind = int(rng.integers(4))
            d = [rng.normal(size=n) * 1e3, np.full(n, rng.uniform(-5, 5000)), (rng.random(n) < 0.1).astype(float), 10. ** rng.uniform(-10, 10, n)][kind]
            data = d if un is None else d * un
            r.put(n=n, nlat=nlat, nlon=nlon, kind=kind)
            ok, out = r.call('display_grid', g.display_grid, nlat, nlon, data)
            if not ok:
                continue
            la, lo, v = out
            r.check(getattr(v, 'unit', None) == (un or u.dimensionless_unscaled), 'unit is not preserved')
            v = v.value
            if not r.check(v.shape == (nlon, nlat), 'resampled map has the wrong shape', got=v.shape):
                continue
            s = np.max(np.abs(d))
            r.check(np.all(np.isfinite(v)), 'resampled value is not finite')
            r.check(np.all((v >= d.min() - 1e-9 * s) & (v <= d.max() + 1e-9 * s)), 'resampled value outside the range of the data', got=(v.min(), v.max()), data=(d.min(), d.max()))
            if kind == 1:
                r.check(np.all(np.abs(v - d[0]) <= 1e-9 * s), 'a constant map does not stay constant')
            r.check(np.allclose(la, np.linspace(-np.pi / 2, np.pi / 2, nlat)) and np.allclose(lo, np.arange(nlon) * 2 * np.pi / nlon), 'coordinates of the resampled map are wrong')
            # linear in the data with weights that decrease with the distance
            if n >= 2:
                LA, LO = grid_rad(g)
                i, j = rng.choice(n, 2, replace=False)
                if rng.random() < 0.3:
                    i = pick(rng, [0, n - 1, int(np.argmax(LA))])
                    j = (i + 1 + int(rng.integers(min(n - 1, 6)))) % n if rng.random() < 0.5 else j
                    j = (j + 1) % n if i == j else j
                W = []
                for q in (i, j):
                    e = np.zeros(n)
                    e[q] = 1.
                    W.append(g.display_grid(nlat, nlon, e)[2].value)
                la2, lo2 = np.meshgrid(np.linspace(-np.pi / 2, np.pi / 2, nlat), np.arange(nlon) * 2 * np.pi / nlon)
                di, dj = true_angle(LA[i], LO[i], la2, lo2), true_angle(LA[j], LO[j], la2, lo2)
                ell = np.sqrt(4 * np.pi / n)
                big = (di < 5 * ell) | (dj < 5 * ell)
                r.check(np.all(W[0] >= 0) and np.all(W[1] >= 0), 'negative weight')
                if n <= 300:        # no underflow
                    r.check(np.all(W[0] > 0) and np.all(W[1] > 0), 'a weight is zero')
                r.check(np.all((W[0] >= W[1] * (1 - 1e-9))[(di < dj - 1e-6) & big]) and np.all((W[1] >= W[0] * (1 - 1e-9))[(dj < di - 1e-6) & big]), 'weights do not decrease with the distance')
                r.check(np.all((W[0] > W[1])[(di < dj - 1e-2) & big & (W[0] > 1e-200)]), 'weights do not decrease with the distance')
                x = g.display_grid(nlat, nlon, d + 2 * (np.arange(n) == i))[2].value
                r.check(np.all(np.abs(x - v - 2 * W[0]) < 1e-9 * (s + 2)), 'resampling is not linear in the data')
            for bad in (np.zeros(n + 1), np.zeros((n, 1)), np.zeros(max(n - 1, 0)) if n > 1 else np.zeros(3)):
                r.raises(Exception, 'data of the wrong shape are accepted', g.display_grid, nlat, nlon, bad)
        else:
            nlat, nlon = int(rng.integers(3, 20)), int(rng.integers(3, 25))
            g = cg.RectangularGrid(nlat, nlon)
            d = rng.normal(size=(nlon, nlat))
            data = d if un is None else d * un
            old = d.copy()
            r.put(nlat=nlat, nlon=nlon)
            ok, out = r.call('display_grid', g.display_grid, nlat, nlon, data)
            if ok:
                la, lo, v = out
                r.check(v.shape == d.shape and np.array_equal(v.value, old) and v.unit == (un or u.dimensionless_unscaled), 'rectangular data do not come back unchanged')
                r.check(np.allclose(la, np.linspace(-np.pi / 2, np.pi / 2, nlat)) and np.allclose(lo, np.arange(nlon) * 2 * np.pi / nlon), 'coordinates are not those of the grid')
                r.check(np.array_equal(d, old), 'display_grid changes its data')
            for bad, shp in (((nlat + 1, nlon), d.shape), ((nlat, nlon + 1), d.shape), ((nlat, nlon), (nlon * nlat,)), ((nlat, nlon), (nlon, nlat + 1)), ((nlat, nlon), (nlon + 1, nlat)), ((nlat, nlon), (nlon, nlat, 1))):
                r.raises(Exception, f'data of shape {shp} are accepted for a request of {bad}', g.display_grid, *bad, np.zeros(shp))
            if nlat != nlon:
                r.raises(Exception, 'transposed data are accepted', g.display_grid, nlat, nlon, d.T)


@battery('C08', 'weights of 14 neighbouring points (poles included) of spiral grids of 100..700 points, compared with each other at every target pixel')
def neighbours(r):
    rng = r.rng
    for k in r.loop(8):
        n = int(rng.integers(100, 700)) if k else 600
        g = cg.SpiralGrid(n)
        LA, LO = grid_rad(g)
        nlat, nlon = 19, 24
        la2, lo2 = np.meshgrid(np.linspace(-np.pi / 2, np.pi / 2, nlat), np.arange(nlon) * 2 * np.pi / nlon)
        c = [(np.pi / 2, 0.), (-np.pi / 2, 0.), tuple(np.radians(lat_lon(rng)))][k % 3]
        idx = np.argsort(true_angle(c[0], c[1], LA, LO))[:14]
        r.put(n=n, centre=c)
        W, D = [], []
        for i in idx:
            ok, out = r.call('display_grid', g.display_grid, nlat, nlon, (np.arange(n) == i).astype(float))
            if not ok:
                return
            W.append(out[2].value)
            D.append(true_angle(LA[i], LO[i], la2, lo2))
        W, D = np.array(W).reshape(len(idx), -1), np.array(D).reshape(len(idx), -1)
        o = np.argsort(D, axis=0)
        W, D = np.take_along_axis(W, o, 0), np.take_along_axis(D, o, 0)
        ok_ = (np.diff(W, axis=0) <= 1e-9 * W[:-1]) | (np.diff(D, axis=0) < 1e-6) | (W[:-1] < 1e-250)
        i, j = np.unravel_index(np.argmin(ok_), ok_.shape)
        r.check(np.all(ok_), 'weights do not decrease with the distance', weights=W[i:i + 2, j], distances=D[i:i + 2, j], lat=la2.flat[j], lon=lo2.flat[j])
