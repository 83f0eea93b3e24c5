from common import *

PHI = (1 + 5 ** 0.5) / 2


@battery('C07', 'rectangular grids of 3..1200 x 1..1500 points, spiral grids of 1..20000 points, all pairs of a pool for equality')
def run(r):
    rng = r.rng
    pool = []
    for k in r.loop(150):
        if rng.random() < 0.5:
            nlat, nlon = int(pick(rng, [rng.integers(3, 200), 3, 4, 5, 90, 12])), int(pick(rng, [rng.integers(1, 300), 1, 2, 3, 180, 6]))
            if k % 15 == 3:
                nlat, nlon = int(rng.integers(200, 1200)), int(rng.integers(1, 6))
            if k % 15 == 4:
                nlat, nlon = int(rng.integers(3, 9)), int(rng.integers(300, 1500))
            ok, g = r.call('CoordinateGrid.new', cg.CoordinateGrid.new, (nlat, nlon))
            if not ok:
                continue
            r.put(nlat=nlat, nlon=nlon)
            shp = (nlon, nlat)
            if not r.check(isinstance(g, cg.RectangularGrid) and (g.nlat, g.nlon) == (nlat, nlon), 'a tuple does not give a rectangular grid with (latitude, longitude) counts'):
                continue
            la, lo = np.meshgrid(np.linspace(-90, 90, nlat), np.arange(nlon) * 360 / nlon)
            w = np.cos(np.radians(la))
            key = ('r', nlat, nlon)
        else:
            n = int(pick(rng, [rng.integers(1, 400), 1, 2, 3, rng.integers(1, 20000)]))
            ok, g = r.call('CoordinateGrid.new', cg.CoordinateGrid.new, n)
            if not ok:
                continue
            r.put(n=n)
            shp = (n,)
            if not r.check(isinstance(g, cg.SpiralGrid) and g.n_points == n, 'an int does not give a spiral grid'):
                continue
            i = np.arange(n)
            la = np.degrees(np.arcsin(np.clip(1 - (2 * i + 1) / n, -1, 1)))
            lo = (360 * i / PHI) % 360
            w = np.ones(n)
            key = ('s', n)
        pool.append((key, g))
        ok, gg = r.call('grid', g.grid)
        if ok:
            a, b = [q.to_value(u.deg) for q in gg]
            if r.check(a.shape == shp and b.shape == shp, 'coordinates have the wrong shape', got=(a.shape, b.shape)):
                r.check(np.all(np.abs(a) <= 90 + 1e-9), 'latitude outside [-90,90]')
                r.check(np.all((b >= 0) & (b < 360)), 'longitude outside [0,360)')
                r.check(np.all(np.abs(a - la) < 1e-5), 'latitudes are not the documented ones')
                dl = np.abs(b - lo)
                r.check(np.all(np.minimum(dl, 360 - dl) < 1e-5), 'longitudes are not the documented ones')
        ok, A = r.call('area', lambda: g.area)
        if ok and r.check(np.shape(A) == shp, 'areas have the wrong shape'):
            r.check(np.all(A >= 0), 'negative area')
            r.close(np.sum(A, dtype=float), 1, 'areas do not add up to 1', rtol=1e-5 if isinstance(g, cg.SpiralGrid) else 1e-9)
            r.check(np.all(np.abs(A - w / w.sum()) < 1e-6 * np.max(w / w.sum())), 'areas are not proportional to the solid angle')
        for dt in ('float32', 'bool', 'float64', 'int16'):
            ok, z = r.call('zeros', g.zeros, dtype=dt)
            if ok:
                r.check(z.shape == shp and np.all(z == 0) and z.dtype == np.dtype(dt), 'zero map has the wrong shape, values or type')
        ok, z = r.call('zeros', g.zeros)
        if ok:
            r.check(z.shape == shp, 'zero map has the wrong shape')
    for a, b in [(12, 6), (6, 12), (4, 18), (24, 3), (3, 24), (8, 9), (9, 8), (36, 2)]:      # same number of pixels
        pool.insert(0, (('r', a, b), cg.RectangularGrid(a, b)))
    pool.insert(0, (('s', 72), cg.SpiralGrid(72)))
    for key, g in pool[:45]:
        for key2, h in pool[:45] + [(key, type(g)(*key[1:]))]:
            ok, e = r.call('==', lambda: g == h)
            if ok:
                r.check(bool(e) == (key == key2), 'grid equality is wrong', a=key, b=key2, got=e)
            ok, e = r.call('!=', lambda: g != h)
            if ok:
                r.check(bool(e) == (key != key2), 'grid inequality is wrong', a=key, b=key2, got=e)
        r.raises(TypeError, 'comparison with something else than a grid is accepted', lambda: g == 3)
    for bad in (3.0, '5', [3, 4], None, 2.5, {'nlat': 3}):
        r.raises(TypeError, f'{bad!r} is accepted as grid parameters', cg.CoordinateGrid.new, bad)
    for bad in ((3.0, 4), (3, 4.0)):
        r.raises(TypeError, f'{bad!r} is accepted as grid parameters', cg.CoordinateGrid.new, bad)
