from common import *


def eqg(a, b):
    try:
        return a is b or (type(a) is type(b) and bool(a == b))
    except Exception:
        return False


def on_grid(r, g, spots, facs, what, hist):
    LA, LO = grid_rad(g)
    for s in spots:
        r.check(eqg(s.gridmaker, g), f'a spot of the {what} is on another grid', history=hist)
        w = true_angle(s.coords['lat'].to_value(u.rad), s.coords['lon'].to_value(u.rad), LA, LO)
        d = u.Quantity(s.r).to_value(u.rad)
        r.check(d.shape == w.shape and np.all(np.abs(d - w) < 1e-6), f'pixel distances of a spot of the {what} are not those of its grid', history=hist)
        ok, m = r.call('map_pixels', s.map_pixels, 7e8 * u.m)
        if ok:
            r.check(np.shape(m[s.teff_penumbra]) == LA.shape, f'footprint of a spot of the {what} is not on its grid', history=hist)
    for f in facs:
        r.check(eqg(f.gridmaker, g), f'a facula of the {what} is on another grid', history=hist)
        w = true_angle(f.lat.to_value(u.rad), f.lon.to_value(u.rad), LA, LO)
        ok, m = r.call('map_pixels', f.map_pixels, 7e8 * u.m)
        if ok:
            e, unc = fac_masks(f, 7e8, LA, LO)
            r.check(np.shape(m) == LA.shape and np.all((np.asarray(m) == e) | unc), f'footprint of a facula of the {what} is not on its grid', history=hist)


@battery('C14', 'random histories of up to 8 add / birth / mature / age operations, features made on other grids of either kind')
def run(r):
    rng = r.rng
    for k in r.loop(60):
        small = lambda: cg.CoordinateGrid.new((int(rng.integers(3, 9)), int(rng.integers(3, 9))) if rng.random() < 0.5 else int(rng.integers(9, 70)))
        shared = small()
        mk = lambda: shared if rng.random() < 0.3 else small()
        # grids with the same number of pixels but another shape too
        gp_ = (int(rng.integers(3, 9)), int(rng.integers(3, 9))) if rng.random() < 0.5 else int(rng.integers(9, 70))
        if isinstance(gp_, tuple) and rng.random() < 0.3:
            shared = cg.RectangularGrid(gp_[1], gp_[0])
        if isinstance(gp_, int) and rng.random() < 0.3:
            shared = cg.SpiralGrid(gp_ + 1)
        ggp = {'grid_params': gp_} if rng.random() < 0.3 else {}        # the requested grid, but another one given explicitly
        sg = spot_gen(rng, mk(), **ggp, init_area=10 * MSH, coverage=pick(rng, [0.3, 0.3, 0.0]), **({'decay_rate': 0 * MSH / u.day} if rng.random() < 0.2 else {})) if rng.random() < 0.7 else None
        fg = fac_gen(rng, mk(), **ggp, dist_r_peak=5e4 * u.km, coverage=pick(rng, [0.3, 0.1, 0.0])) if rng.random() < 0.7 else None
        s0 = [rand_spot(rng, mk()) for _ in range(rng.integers(0, 3))]
        if s0 and rng.random() < 0.3:
            s0[0].area_current = 0 * MSH
        f0 = [rand_fac(rng, mk()) for _ in range(rng.integers(0, 3))]
        hist = []
        ok, star = r.call('building a star', st.Star, 3300 * u.K, 7e8 * u.m, 1 * u.day, sp.SpotCollection(*s0, gridmaker=mk()), fa.FaculaCollection(*f0, gridmaker=mk()), grid_params=gp_, spot_generator=sg, fac_generator=fg, rng=np.random.default_rng(k))
        if not ok:
            continue
        g = star.gridmaker
        r.put(grid=gp_, history=hist)
        want = cg.RectangularGrid if isinstance(gp_, tuple) else cg.SpiralGrid
        r.check(isinstance(g, want), 'the star is not on the grid it was asked for')

        def chk():
            r.check(eqg(star.gridmaker, g), 'the grid of the star changed')
            on_grid(r, g, star.spots.spots, star.faculae.faculae, 'star', hist)
            for nm in ('spot_generator', 'fac_generator'):
                r.check(eqg(getattr(star, nm).gridmaker, g), f'{nm} is on another grid', history=hist)
            for nm in ('spots', 'faculae'):
                r.check(eqg(getattr(star, nm).gridmaker, g), f'the collection {nm} is on another grid', history=hist)
        chk()
        for step in range(int(rng.integers(1, 9))):
            op = int(rng.integers(6))
            if op == 0:
                new = [rand_spot(rng, mk()) for _ in range(rng.integers(0, 3))]
                hist.append(f'add_spot {len(new)}')
                ok, _ = r.call('add_spot', star.add_spot, new[0] if len(new) == 1 else new)
            elif op == 1:
                new = [rand_fac(rng, mk()) for _ in range(rng.integers(0, 3))]
                hist.append(f'add_fac {len(new)}')
                ok, _ = r.call('add_fac', star.add_fac, new[0] if len(new) == 1 else tuple(new))
            elif op == 2:
                n = star.spot_generator.get_n_spots_to_birth(1 * u.day, star.radius)
                t = min(3 / n, 1e4) * u.day if n > 0 else 1 * u.day
                hist.append('birth_spots')
                ok, _ = r.call('birth_spots', star.birth_spots, t)
            elif op == 3:
                n = star.fac_generator.get_n_faculae_expected(1 * u.day, star.radius)
                t = min(3 / n, 1e4) * u.day if n > 0 else 1 * u.day
                hist.append('birth_faculae')
                ok, _ = r.call('birth_faculae', star.birth_faculae, t)
            elif op == 4 and sg is not None:
                hist.append('generate_mature_spots')
                ok, _ = r.call('generate_mature_spots', star.generate_mature_spots, 0.002)
            else:
                hist.append('age')
                ok, _ = r.call('age', star.age, lu(rng, 1, 1e5) * u.s)
            if not ok:
                break
            chk()
        # stand-alone collections
        c = sp.SpotCollection(*[rand_spot(rng, mk()) for _ in range(2)], gridmaker=mk())
        cf = fa.FaculaCollection(*[rand_fac(rng, mk()) for _ in range(2)], gridmaker=mk())
        on_grid(r, c.gridmaker, c.spots, [], 'collection', ['init'])
        on_grid(r, cf.gridmaker, [], cf.faculae, 'collection', ['init'])
        ok1, _ = r.call('add_spot', c.add_spot, [rand_spot(rng, mk()) for _ in range(2)])
        ok2, _ = r.call('add_faculae', cf.add_faculae, [rand_fac(rng, mk()) for _ in range(2)])
        on_grid(r, c.gridmaker, c.spots, [], 'collection', ['init', 'add'])
        on_grid(r, cf.gridmaker, [], cf.faculae, 'collection', ['init', 'add'])
        g2 = mk()
        c.set_gridmaker(g2)
        cf.set_gridmaker(g2)
        on_grid(r, g2, c.spots, cf.faculae, 'collection', ['set_gridmaker'])
        r.check(eqg(c.gridmaker, g2) and eqg(cf.gridmaker, g2), 'set_gridmaker does not set the grid')
        # the constructor's own grid_params
        c = sp.SpotCollection(rand_spot(rng, mk()), grid_params=gp_)
        cf = fa.FaculaCollection(rand_fac(rng, mk()), grid_params=gp_)
        on_grid(r, cg.CoordinateGrid.new(gp_), c.spots, cf.faculae, 'collection', ['grid_params'])
